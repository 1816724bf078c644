"""C11: transforms between coefficients and slots"""
import math
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, Poly
from interp import Ptr

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: each transform output, as a linear form in the unknown inputs, must have the coefficients of the canonical embedding (or its inverse) up to 1e-12 per entry, on the first and on later calls; the sparse factors, multiplied out, must give the bit-reversed embedding',
  explanation='all input coefficients are unknown reals; one obligation per output; sizes as listed')

def emb(N):
    """[(re,im)] rows of the slot evaluation: row j, column k = exp(i pi 5^j k / N)"""
    rows = []
    f = 1
    for j in range(N // 2):
        rows.append([(math.cos(math.pi * (f * k % (2 * N)) / N), math.sin(math.pi * (f * k % (2 * N)) / N)) for k in range(N)])
        f = f * 5 % (2 * N)
    return rows

def lin(cs, X):
    acc = {}
    for c, x in zip(cs, X):
        for m, v in x.d.items(): acc[m] = acc.get(m, 0) + c * v
    return Poly({m: v for m, v in acc.items() if v})

def fwd(N, M):
    E = emb(N)
    return [lin([e[0] for e in row], M) for row in E], [lin([e[1] for e in row], M) for row in E]

def inv(N, ZR, ZI):
    """m_k = 2/N sum_j re(z_j conj(w_jk))"""
    E = emb(N)
    return [pscale(padd(lin([E[j][k][0] for j in range(N // 2)], ZR), lin([E[j][k][1] for j in range(N // 2)], ZI)), 2 / N) for k in range(N)]

def brv(i, b):
    r = 0
    for _ in range(b): r = r * 2 + (i & 1); i >>= 1
    return r

def units(tier):
    q = tier == 'quick'
    return [unit(l) for l in ([2, 3, 4, 5, 6] if q else [2, 3, 4, 5, 6, 7, 8])] + [columns(l) for l in ([9, 11, 13] if q else [8, 9, 10, 11, 12, 13, 14, 15])]

def columns(L):
    """larger rings: a few unknown inputs, the others zero"""
    N = 1 << L; h = N // 2
    g = W('HEAAN/matrix/DFT.h')
    for f in ('fft', 'fftNR'): g.fn(f, 'const double*m,double*r,double*i', '%s<%d>(m,r,i);' % (f, L))
    for f in ('ifft', 'ifftNR'): g.fn(f, 'const double*r,const double*i,double*m', '%s<%d>(r,i,m);' % (f, L))
    tol = 1e-11 * N
    bl = [brv(i, L - 1) for i in range(h)]
    cs = [math.cos(math.pi * e / N) for e in range(2 * N)]
    f5 = [pow(5, j, 2 * N) for j in range(h)]
    def inp(r, name, pos, n):
        o = r.obj(8 * n, name, default=0., ro=True); V = {}
        for k in range(n):
            if k in pos:
                V[k] = dom.var('%s[%d]' % (name, k), -1., 1., False); o.cells[8 * k] = (8, interp.RV(V[k]))
            else: o.cells[8 * k] = (8, 0.)
        o.gran = 8
        return Ptr(o, 0), V
    def sel(n): return sorted({1, n // 2 - 1, n * 5 // 7, n - 1})
    def forward(f, nr):
        def t(out, mod, S):
            r = Run(mod, S, out, timelimit=500, budget=400_000_000)
            for rd in range(2):
                pos = [k for k in sel(N)] if not rd else [0, h]
                p, V = inp(r, 'm%d' % rd, pos, N)
                o = r.out_words('zr', h); o2 = r.out_words('zi', h)
                r.call('w_' + f, [p, o, o2])
                MM = {((bl[k % h] + k // h * h) if nr else k): v for k, v in V.items()}
                A, B = r.greals(o, h), r.greals(o2, h)
                for j in range(h):
                    r.close(psub(A[j], lin([cs[f5[j] * k % (2 * N)] for k in MM], MM.values())), tol, '%s call %d real part of slot %d' % (f, rd + 1, j))
                    r.close(psub(B[j], lin([cs[(f5[j] * k - h) % (2 * N)] for k in MM], MM.values())), tol, '%s call %d imaginary part of slot %d' % (f, rd + 1, j))
            r.events()
        return ('%s N=%d, selected inputs' % (f, N), t, 520)
    def inverse(f, nr):
        def t(out, mod, S):
            r = Run(mod, S, out, timelimit=500, budget=400_000_000)
            for rd in range(2):
                pos = sel(h) if not rd else [0]
                p, ZR = inp(r, 'zr%d' % rd, pos[:2], h); p2, ZI = inp(r, 'zi%d' % rd, pos[-2:], h)
                o = r.out_words('m', N)
                r.call('w_' + f, [p, p2, o])
                A = r.greals(o, N)
                V = list(ZR.values()) + list(ZI.values())
                for k in range(N):
                    kk = bl[k % h] + k // h * h if nr else k
                    c = [cs[f5[j] * kk % (2 * N)] * 2 / N for j in ZR] + [cs[(f5[j] * kk - h) % (2 * N)] * 2 / N for j in ZI]
                    r.close(psub(A[k], lin(c, V)), tol, '%s call %d coefficient %d' % (f, rd + 1, k))
            r.events()
        return ('%s N=%d, selected inputs' % (f, N), t, 520)
    return Unit('c%d' % L, g.src(), [forward('fft', False), forward('fftNR', True), inverse('ifft', False), inverse('ifftNR', True)])

def unit(L):
    N = 1 << L; h = N // 2
    g = W('HEAAN/matrix/DFT.h')
    for f in ('fft', 'fftNR'): g.fn(f, 'const double*m,double*r,double*i', '%s<%d>(m,r,i);' % (f, L))
    for f in ('ifft', 'ifftNR'): g.fn(f, 'const double*r,const double*i,double*m', '%s<%d>(r,i,m);' % (f, L))
    g.fn('dft', 'const double*m,double*r,double*i', 'dft<%d>(m,r,i);' % N)
    g.fn('idft', 'const double*r,const double*i,double*m', 'idft<%d>(r,i,m);' % N)
    g.text('static SparseDiagonal<%d,3> gr[%d],gi[%d];\n' % (h, L - 1, L - 1))
    g.fn('split', '', 'splitU0NR<%d>(gr,gi);' % L)
    g.fn('get', 'int n,int i,int j,double*o', 'o[0]=gr[n].get_element(i,j); o[1]=gi[n].get_element(i,j);')
    tol = 1e-11 * N
    def perm(M): return [M[brv(i, L - 1)] for i in range(h)] + [M[h + brv(i, L - 1)] for i in range(h)]
    def forward(f, nr):
        def t(out, mod, S):
            r = Run(mod, S, out)
            for rd in range(3):
                p, M = r.reals('m%d' % rd, N)
                o = r.out_words('zr', h); o2 = r.out_words('zi', h)
                r.call('w_' + f, [p, o, o2])
                # the NR form takes its input in bit-reversed order
                MM = perm(M) if nr else M
                R, I = fwd(N, MM)
                A, B = r.greals(o, h), r.greals(o2, h)
                for j in range(h):
                    r.close(psub(A[j], R[j]), tol, '%s call %d real part of slot %d' % (f, rd + 1, j))
                    r.close(psub(B[j], I[j]), tol, '%s call %d imaginary part of slot %d' % (f, rd + 1, j))
            r.events()
        return ('%s N=%d' % (f, N), t, 200)
    def inverse(f, nr):
        def t(out, mod, S):
            r = Run(mod, S, out)
            for rd in range(3):
                p, ZR = r.reals('zr%d' % rd, h); p2, ZI = r.reals('zi%d' % rd, h)
                o = r.out_words('m', N)
                r.call('w_' + f, [p, p2, o])
                X = inv(N, ZR, ZI)
                if nr: X = perm(X)
                A = r.greals(o, N)
                for k in range(N): r.close(psub(A[k], X[k]), tol, '%s call %d coefficient %d' % (f, rd + 1, k))
            r.events()
        return ('%s N=%d' % (f, N), t, 200)
    def both(out, mod, S):
        r = Run(mod, S, out)
        p, M = r.reals('m', N)
        a, b = r.out_words('zr', h), r.out_words('zi', h); o = r.out_words('mm', N)
        for x, y in (('fft', 'ifft'), ('dft', 'idft'), ('dft', 'ifft'), ('fftNR', 'ifftNR')):
            r.call('w_' + x, [p, a, b]); r.call('w_' + y, [a, b, o])
            A = r.greals(o, N)
            for k in range(N): r.close(psub(A[k], M[k]), tol, '%s then %s, coefficient %d' % (x, y, k))
        p, ZR = r.reals('zr', h); p2, ZI = r.reals('zi', h)
        r.call('w_ifft', [p, p2, o]); r.call('w_fft', [o, a, b])
        for X, Y, w in ((r.greals(a, h), ZR, 'real'), (r.greals(b, h), ZI, 'imaginary')):
            for k in range(h): r.close(psub(X[k], Y[k]), tol, 'ifft then fft, %s part of slot %d' % (w, k))
        r.events()
    def factors(out, mod, S):
        r = Run(mod, S, out)
        r.call('w_split', [])
        o = r.out_words('e', 2)
        def get(n):
            R = []
            for i in range(h):
                row = []
                for j in range(h):
                    r.call('w_get', [n, i, j, o])
                    A = r.greals(o, 2)
                    row.append(complex(A[0].const() if A[0].isconst() else float('nan'), A[1].const() if A[1].isconst() else float('nan')))
                R.append(row)
            return R
        P = None
        for n in range(L - 1):
            X = get(n)
            P = X if P is None else [[sum(P[i][k] * X[k][j] for k in range(h) if P[i][k] and X[k][j]) for j in range(h)] for i in range(h)]
        E = emb(N)
        for i in range(h):
            for j in range(h):
                e = E[i][brv(j, L - 1)]
                out.checks += 1
                if abs(P[i][j] - complex(*e)) <= 1e-9: out.discharged += 1
                else:
                    loc, fn = r.site()
                    out.refute('entry (%d,%d) of the product of the sparse factors is %s, the embedding has %s' % (i, j, P[i][j], complex(*e)), {}, loc, fn)
        r.events()
    tasks = [forward('fft', False), forward('fftNR', True), forward('dft', False), inverse('ifft', False), inverse('ifftNR', True), inverse('idft', False), ('compositions N=%d' % N, both, 200)]
    if L <= 5: tasks.append(('sparse factors N=%d' % N, factors, 300))
    return Unit('f%d' % L, g.src(), tasks)
