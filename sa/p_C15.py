"""C15: CoeffToSlot and SlotToCoeff"""
from check import Unit
from gen import W
import ob, interp, dom, sums, flow, random
from flow import M, mmul, madd, mscale, mconst
from ob import Run
from interp import Ptr
from sums import zsz
from p_C11 import emb, brv
from p_C14 import slots, coeffs, run_check

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR with verified contracts for conv, encryption of switching keys and ks: the decrypted results of CoeffToSlot, as linear forms in the message coefficients, must be 2^(LOGDELTA layers) times the polynomials whose slots are the bit-reversed first and second half of the coefficients; SlotToCoeff must give the polynomial whose (bit-reversed) coefficients are the input slots; on the first and on later calls',
  explanation='all message coefficients, masks and noises are unknown; listed sparse ternary keys; one obligation per coefficient of each decrypted result')

def units(tier):
    q = tier == 'quick'
    us = []
    for L, G, w, LD in ([(5, 1, 182, 30), (5, 2, 130, 35), (5, 4, 100, 40)] if q else [(5, 1, 182, 30), (5, 2, 130, 35), (5, 4, 100, 40), (5, 1, 256, 45), (5, 2, 150, 45)]):
        us.append(unit(L, G, w, LD))
    for L, G, w, LD in ([(6, 1, 210, 30), (7, 1, 210, 30), (7, 2, 150, 30), (7, 3, 150, 30), (8, 1, 260, 25), (9, 2, 200, 30), (9, 4, 150, 40), (10, 1, 280, 24), (10, 3, 200, 40)] if q else
                        [(6, 1, 210, 30), (7, 1, 210, 30), (7, 2, 150, 30), (7, 3, 150, 30), (8, 1, 260, 25), (9, 1, 300, 30), (9, 2, 200, 30), (9, 4, 150, 40), (10, 1, 280, 24), (10, 3, 200, 40), (11, 1, 300, 20), (11, 2, 260, 40), (12, 1, 300, 20)]):
        us.append(large(L, G, w, LD))
    return us

def large(L, G, w, LD):
    """linear transforms by contract, matrices as numbers"""
    import lin
    N = 1 << L; h = N // 2; D = L - 1
    g = W('HEAAN/bootstrap.h')
    C = 'R_Q_square<%d,%d>' % (w, N)
    g.fn('c2s', 'const %s*c,const int*s,%s*o' % (C, C), 'CoeffToSlot<%d,%d,%d,%d>(*c,s,o);' % (w, L, LD, G))
    g.fn('s2c', 'const %s*c,const %s*d,const int*s,%s*o' % (C, C, C), 'SlotToCoeff<%d,%d,%d,%d>(*c,*d,s,*o);' % (w, L, LD, G))
    sc = 2. ** (LD * D // G)
    Z = lin.zeta(N)
    def setup(out, mod):
        r = Run(mod, None, out, timelimit=400, budget=400_000_000)
        sec = secret(N, 1)
        c = lin.Lin(r, sec); c.it = r.it; r.it.sums = c
        return r, c, r.const_ints('s', sec), 2 * zsz(w) * N
    def inp(r, c, name, rows, size):
        p = Ptr(r.obj(size, name), 0)
        c.new_ct(p, w, N, rows, None); p.obj.ro = True
        return p
    def c2s(out, mod, S_):
        r, c, sp, size = setup(out, mod)
        for rd in range(2):
            p = inp(r, c, 'ct', [{k: z ** k for k in range(N)} for z in Z], size)
            o = Ptr(r.obj(2 * size, 'o'), 0)
            r.call('w_c2s', [p, sp, o])
            for j in range(2):
                R = c.rows(r.it.ptr_add(o, size * j, None, None), w, N, 'result', None)
                if not lin.compare(c, R, [{brv(i, L - 1) + j * h: 1. * sc} for i in range(h)], sc, 'CoeffToSlot, %s result%s' % (('first', 'second')[j], ' (second call)' if rd else '')): return
        r.events()
    def s2c(out, mod, S_):
        r, c, sp, size = setup(out, mod)
        for rd in range(2):
            a, b = (inp(r, c, n, [{(n, i): 1.} for i in range(h)], size) for n in ('z0', 'z1'))
            o = Ptr(r.obj(size, 'o'), 0)
            r.call('w_s2c', [a, b, sp, o])
            R = c.rows(o, w, N, 'result', None)
            X = []
            for z in Z:
                d = {}
                for k in range(h):
                    t = z ** k * sc
                    d['z0', brv(k, L - 1)] = t; d['z1', brv(k, L - 1)] = 1j * t
                X.append(d)
            if not lin.compare(c, R, X, sc, 'SlotToCoeff%s' % (' (second call)' if rd else '')): return
        r.events()
    return Unit('l%d_%d_%d' % (L, G, w), g.src(), [('CoeffToSlot by contracts N=%d grouping %d' % (N, G), c2s, 420), ('SlotToCoeff by contracts N=%d grouping %d' % (N, G), s2c, 420)], nosum=True)

def secret(N, n):
    s = [0] * N
    rnd = random.Random(n + N)
    for i in rnd.sample(range(N), 2 + n): s[i] = rnd.choice((-1, 1))
    s[0] = 1 if n else -1; s[N - 1] = -1; s[N // 2] = 1
    return s

def unit(L, G, w, LD):
    N = 1 << L; h = N // 2; D = L - 1
    g = W('HEAAN/bootstrap.h')
    C = 'R_Q_square<%d,%d>' % (w, N)
    g.fn('c2s', 'const %s*c,const int*s,%s*o' % (C, C), 'CoeffToSlot<%d,%d,%d,%d>(*c,s,o);' % (w, L, LD, G))
    g.fn('s2c', 'const %s*c,const %s*d,const int*s,%s*o' % (C, C, C), 'SlotToCoeff<%d,%d,%d,%d>(*c,*d,s,*o);' % (w, L, LD, G))
    VB = min(50, w - LD * D // G - 12)
    REL = 2. ** -23 if L == 5 else 2. ** -18
    sc = 2. ** (LD * D // G)
    Z0 = M()
    def msg(r, f, name, n, tag):
        V = [dom.var('%s[%d]' % (tag, k), -(1 << VB) // N, (1 << VB) // N) for k in range(N)]
        return flow.ct(r, f, name, w, V), [f.poly(v) for v in V]
    def c2s(out, mod, S_):
        r = Run(mod, S_, out, timelimit=400)
        sec = secret(N, 1)
        f = flow.Flow(r, sec, N)
        sp = r.const_ints('s', sec)
        for rd in range(2):
            c, m = msg(r, f, 'ct%d' % rd, rd, 'm%d' % rd)
            p = Ptr(r.obj(4 * zsz(w) * N, 'o'), 0)
            r.call('w_c2s', [c, sp, p])
            for j in range(2):
                X = [mscale(x, sc) for x in coeffs(N, [(m[j * h + brv(i, L - 1)], Z0) for i in range(h)])]
                run_check(r, f, r.it.ptr_add(p, 2 * zsz(w) * N * j, None, None), w, X, LD, 'slots holding the %s half of the coefficients%s' % (('first', 'second')[j], ' (second call)' if rd else ''), REL)
        r.events()
    def s2c(out, mod, S_):
        r = Run(mod, S_, out, timelimit=400)
        sec = secret(N, 0)
        f = flow.Flow(r, sec, N)
        sp = r.const_ints('s', sec)
        for rd in range(2):
            a, m0 = msg(r, f, 'ct0_%d' % rd, rd, 'm%d' % (2 * rd)); b, m1 = msg(r, f, 'ct1_%d' % rd, rd, 'm%d' % (2 * rd + 1))
            p = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
            r.call('w_s2c', [a, b, sp, p])
            z0, z1 = slots(N, m0), slots(N, m1)
            # slots (re, im) -> coefficients: real parts of z0 + i z1, imaginary parts, in bit-reversed order, through the embedding
            zr = [madd(z0[i][0], z1[i][1], -1.) for i in range(h)]; zi = [madd(z0[i][1], z1[i][0]) for i in range(h)]
            X = [mscale((zr if k < h else zi)[brv(k % h, L - 1)], sc) for k in range(N)]
            run_check(r, f, p, w, X, LD, 'coefficients from slots%s' % (' (second call)' if rd else ''), REL)
        r.events()
    return Unit('b%d_%d_%d' % (L, G, w), g.src(), [('CoeffToSlot N=%d grouping %d width %d scale 2^%d' % (N, G, w, LD), c2s, 420), ('SlotToCoeff N=%d grouping %d width %d scale 2^%d' % (N, G, w, LD), s2c, 420)])
