"""C16: homomorphic polynomial evaluation"""
import math
from check import Unit
from gen import W
import ob, interp, dom, sums, phase, flow
from flow import M, mmul, madd, mscale, mconst
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO
from interp import Ptr
from sums import zsz

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR with verified contracts for Mul and RS: the graph of rescalings and products computed by eval_poly_degD, evaluated with Chebyshev models over all inputs |x|<=1, must equal 2^LOGDELTA sum u_n prod T_{2^j}(x) (j over the binary digits of n) within the noise; convert_frc_tou must give the u whose polynomial equals sum c_n T_n for unknown c',
  explanation='the encrypted value, masks, noises and evaluation keys are unknown; coefficient vectors are unknown with listed signs (degree <= 31) or listed; one obligation per coefficient of the decrypted result')

LV = {3: 2, 7: 3, 15: 4, 31: 5, 63: 6, 127: 7}

def tpow(v, k):
    """T_k of the base unknown v"""
    return M({((v, k),) if k else (): 1.})

def basis(v, n):
    m = M({(): 1.}); j = 0
    while n:
        if n & 1: m = mmul(m, tpow(v, 1 << j))
        n >>= 1; j += 1
    return m

def nmul(a, b, N):
    out = []
    for k in range(N):
        m = M()
        for i in range(N):
            j = (k - i) % N
            m = madd(m, mmul(a[i], b[j]), 1. if i + j == k else -1.)
        out.append(m)
    return out

def vbasis(v, deg, N):
    """product basis of a ring element v (vector of models)"""
    one = [mconst(1.)] + [M()] * (N - 1)
    T = v; B = [one]
    while len(B) <= deg:
        B = B + [nmul(b, T, N) for b in B]
        T2 = [mscale(m, 2.) for m in nmul(T, T, N)]
        T2[0] = madd(T2[0], mconst(-1.)); T = T2
    return B

def units(tier):
    q = tier == 'quick'
    us = []
    for deg, D, extra in ([(3, 40, 60), (7, 40, 50), (15, 35, 70), (31, 30, 40), (63, 30, 40), (127, 28, 40), (3, 32, 64), (7, 60, 76), (15, 32, 64), (31, 60, 80)] if q else
                   [(3, 40, 60), (7, 40, 50), (15, 35, 70), (31, 30, 40), (63, 30, 40), (127, 28, 40), (3, 20, 44), (3, 50, 92), (7, 30, 40), (7, 55, 91), (15, 45, 80), (31, 45, 100), (63, 40, 64), (127, 40, 60), (31, 50, 60), (3, 32, 64), (7, 60, 76), (15, 32, 64), (31, 60, 80), (63, 32, 64)]):
        us.append(unit(deg, D, D * LV[deg] + extra, q))
    us.append(unit(3, 40, 140, q, 2, True)); us.append(unit(7, 35, 160, q, 2, True)); us.append(unit(3, 30, 100, q, 4, True))
    if not q: us.append(unit(15, 35, 200, q, 2, True)); us.append(unit(7, 30, 130, q, 4, True))
    us.append(conv_unit(q))
    return us

def patterns(deg, q):
    n = deg + 1
    P = [('positive', lambda k: 1), ('negative', lambda k: -1), ('mixed', lambda k: 1 if (k * k + k // 3) % 3 else -1), ('alternating', lambda k: 1 if k % 2 else -1), ('zeros', lambda k: (1, 0, -1)[(k * 5 + k // 4) % 3]),
         ('top', lambda k: -1 if k == n - 1 else (1 if k == 0 else 0))]
    if deg >= 63: return P[2:5:2] if q else P[2:]
    return P

def unit(deg, D, w, q, N=2, full=False):
    lv = LV[deg]
    g = W('HEAAN/bootstrap.h')
    ks = ','.join('const R_Q_square<%d,%d>*k%d' % (2 * (w - k * D), N, k) for k in range(lv))
    g.fn('ev', 'const double*u,const R_Q_square<%d,%d>*c,%s,R_Q_square<%d,%d>*p' % (w, N, ks, w - lv * D, N),
         'eval_poly_deg%d<%d,%d,%d>(u,*c,%s,*p);' % (deg, w, N, D, ','.join('*k%d' % k for k in range(lv))))
    tasks = []
    for name, sg in patterns(deg, q):
        if full and name != 'mixed': continue
        for sec in ((1,) + (0,) * (N - 1), (0, -1) + (1,) * (N - 2)):
            def t(out, mod, S, sg=sg, sec=sec):
                r = Run(mod, S, out)
                f = flow.Flow(r, sec, N)
                U = []; o = r.obj(8 * (deg + 1), 'u', ro=True)
                for k in range(deg + 1):
                    s = sg(k)
                    if s == 0: v = None
                    elif deg > 31:
                        v = s * (1. + ((k * 37) % 19) / 8.) / (1 + k % 7)
                    else: v = dom.var('u[%d]' % k, *((2. ** -8, 2.) if s > 0 else (-2., -2. ** -8)), False)
                    o.cells[8 * k] = (8, 0.0 if v is None else v if isinstance(v, float) else interp.RV(v)); U.append(v)
                o.gran = 8
                if full: xs = [dom.var('x[%d]' % k, -(1 << D) // N, (1 << D) // N) for k in range(N)]
                else: xs = [dom.var('x', -(1 << D), 1 << D)] + [ZERO] * (N - 1)
                c = flow.ct(r, f, 'c', w, xs)
                kp = [flow.keyct(r, f, 'evk%d' % k, w - k * D, f.S2) for k in range(lv)]
                X = [M()] * N
                if full: B = vbasis([mscale(f.poly(x), 2. ** -D) for x in xs], deg, N)
                else:
                    (mo,) = xs[0].d
                    B = [[basis(mo[0], k)] + [M()] * (N - 1) for k in range(deg + 1)]
                for k in range(deg + 1):
                    if U[k] is None: continue
                    um = mconst(U[k]) if isinstance(U[k], float) else f.poly(U[k])
                    X = [madd(X[i], mmul(um, B[k][i])) for i in range(N)]
                X = [mscale(m, 2. ** D) for m in X]
                w2 = w - lv * D
                scale = 2. ** D * (1 + sum(abs(u) if isinstance(u, float) else 2. for u in U if u is not None))
                for rd in range(2 if deg < 63 else 1):
                    p = Ptr(r.obj(2 * zsz(w2) * N, 'p'), 0)
                    r.call('w_ev', [Ptr(o, 0), c] + kp + [p])
                    P = flow.result(r, f, p, w2)
                    tol = max(scale * 1e-11, 1e4 * (deg + 1))
                    for k in range(N): f.check(P[k], w2, X[k], tol, 'value at scale 2^%d, coefficient of X^%d%s' % (D, k, ' (second call)' if rd else ''))
                    for j in range(2):
                        for k in range(N): r.canonical(p, zsz(w2) * (N * j + k), w2, 'canonical coefficient')
                r.events()
            if sec[0] == 0 and (q or deg > 31) and name != 'mixed': continue
            tasks.append(('degree %d %s coefficients, scale 2^%d, width %d, key %s%s' % (deg, name, D, w, sec, ', message with all coefficients' if full else ''), t, 300))
    return Unit('e%d_%d_%d_%d%s' % (deg, D, w, N, 'f' if full else ''), g.src(), tasks)

def conv_unit(q):
    g = W('HEAAN/bootstrap.h')
    g.fn('cv', 'const double*c,double*u,int n', 'convert_frc_tou(c,u,n);')
    tasks = []
    for n in (4, 8, 16, 32, 64, 128):
        def t(out, mod, S, n=n):
            r = Run(mod, S, out)
            for rd in range(2):
                p, C = r.reals('c%d' % rd, n, -4., 4.)
                o = r.out_words('u', n)
                r.call('w_cv', [p, o, n])
                U = r.greals(o, n)
                # sum u_k B_k = sum c_k T_k as polynomials: B_k in the Chebyshev basis
                acc = [ZERO] * n
                for k in range(n):
                    for key, f in basis(0, k).d.items():
                        d = key[0][1] if key else 0
                        acc[d] = padd(acc[d], pscale(U[k], f))
                for d in range(n):
                    r.close(psub(acc[d], C[d]), 1e-9 * n, 'coefficient of T_%d in the converted polynomial of length %d' % (d, n))
            r.events()
        tasks.append(('conversion of %d coefficients' % n, t, 100))
    return Unit('cv', g.src(), tasks)
