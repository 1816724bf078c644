"""C14: homomorphic linear transforms"""
import math, random
from check import Unit
from gen import W
import ob, interp, dom, sums, flow
from flow import M, mmul, madd, mscale, mconst
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO
from interp import Ptr
from sums import zsz
from p_C11 import emb
from p_C13 import SIZE

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR with verified contracts for encode, conv, switching keys and ks: the decrypted polynomial of the transformed ciphertext, as a polynomial in the unknown matrix entries and message coefficients, must be the inverse embedding of 2^LOGDELTA (per layer or group) times the matrix product with the embedded message, within the encoding and key-switching error',
  explanation='message coefficients, masks, noises and (small sizes) all matrix entries are unknown; larger sizes use listed entries; offsets and used/unused flags are listed; one obligation per coefficient of the decrypted result')

def vadd(a, b): return [madd(x, y) for x, y in zip(a, b)]

def slots(N, V):
    """embedding of a vector of models: [(re, im)]"""
    out = []
    for row in emb(N):
        re, im = M(), M()
        for (c, s), v in zip(row, V): re = madd(re, v, c); im = madd(im, v, s)
        out.append((re, im))
    return out

def coeffs(N, Z):
    E = emb(N); out = []
    for k in range(N):
        m = M()
        for j in range(N // 2):
            m = madd(madd(m, Z[j][0], E[j][k][0] * 2 / N), Z[j][1], E[j][k][1] * 2 / N)
        out.append(m)
    return out

def cmulm(a, b):
    def z(x, y): return mmul(x, y) if x.d and y.d else M()
    return madd(z(a[0], b[0]), z(a[1], b[1]), -1.), madd(z(a[0], b[1]), z(a[1], b[0]))

def matvec(h, A, z):
    """A: dense matrix {(i,j): (re,im)} of models"""
    out = []
    for i in range(h):
        re, im = M(), M()
        for j in range(h):
            e = A.get((i, j))
            if e is None: continue
            p = cmulm(e, z[j]); re = madd(re, p[0]); im = madd(im, p[1])
        out.append((re, im))
    return out

class Mat:
    """a complex SparseDiagonal pair (objects filled directly) and its dense models"""
    def __init__(self, r, f, name, h, S, off, kind, unused=(), ar=None, ai=None, base=0, garbage=True):
        self.off = off
        self.pr = Ptr(ar or r.obj(SIZE(h, S), name + 'r', ro=True), base)
        self.pi = Ptr(ai or r.obj(SIZE(h, S), name + 'i', ro=True), base)
        self.D = {}
        rnd = random.Random('%s%s%s%s' % (name, h, S, off))
        for part, p in ((0, self.pr), (1, self.pi)):
            o = p.obj
            o.gran = 4
            for s in range(S):
                un = s in unused or ('r%d' % s if part == 0 else 'i%d' % s) in unused
                both = s in unused
                for i in range(h):
                    if both:
                        v = dom.var('garbage%s%d[%d][%d]' % (name, part, s, i), -4., 4., False); val = interp.RV(v)
                    elif un: val = 0.; v = None
                    elif kind == 'unknown':
                        v = dom.var('%s%s[%d][%d]' % (name, 'ri'[part], s, i), -2., 2., False); val = interp.RV(v)
                    else:
                        val = rnd.uniform(-1.5, 1.5); v = pc(val)
                    o.cells[base + 8 * (s * h + i)] = (8, val)
                    if not un:
                        e = self.D.setdefault((i, (i + off[s]) % h), [M(), M()])
                        e[part] = madd(e[part], f.poly(v))
                o.cells[base + 8 * S * h + 4 * s] = (4, off[s])
                o.cells[base + 8 * S * h + 4 * S + s] = (1, 1 if un else 0)
            o.gran = 1; o.maxsz = 8

def secret(N, n):
    rnd = random.Random(n * 10 + N)
    return [rnd.choice((-1, 0, 1)) for _ in range(N)] if n else [1] + [0] * (N - 1)

def run_check(r, f, p, w, X, LD, what, rel=2. ** -24):
    N = f.N
    P = flow.result(r, f, p, w)
    tol = max(m.bound() for m in X) * rel
    for k in range(N): f.check(P[k], w, X[k], tol, '%s, coefficient of X^%d' % (what, k))
    for j in range(2):
        for k in range(N): r.canonical(p, zsz(w) * (N * j + k), w, 'canonical coefficient')

def units(tier):
    q = tier == 'quick'
    us = []
    for L, S, w, LD in ([(2, 2, 100, 30), (3, 3, 120, 35), (3, 2, 64, 20)] if q else [(2, 2, 100, 30), (2, 1, 64, 20), (3, 3, 120, 35), (3, 2, 64, 20), (3, 4, 200, 40), (4, 3, 130, 30), (4, 5, 100, 40)]): us.append(u_one(L, S, w, LD, q))
    for L, w, LD in ([(2, 100, 30), (3, 128, 40)] if q else [(2, 100, 30), (3, 128, 40), (4, 100, 25)]): us.append(u_dense(L, w, LD))
    for L, S, D, w, LD in ([(3, 2, 2, 160, 30)] if q else [(3, 2, 2, 160, 30), (2, 2, 3, 200, 30), (3, 3, 2, 190, 40)]): us.append(u_serial(L, S, D, w, LD))
    for L, S, D, w, LD in ([(2, 2, 6, 300, 30), (3, 2, 4, 250, 30)] if q else [(2, 2, 6, 300, 30), (3, 2, 4, 250, 30), (2, 2, 12, 500, 30), (3, 3, 4, 300, 35), (4, 2, 6, 300, 30)]): us.append(u_group(L, S, D, w, LD, q))
    for L, S, w, LD in ([(5, 3, 100, 30), (6, 9, 100, 25), (8, 5, 64, 20), (9, 3, 200, 50)] if q else [(5, 3, 100, 30), (6, 9, 100, 25), (7, 27, 100, 30), (8, 5, 64, 20), (9, 3, 200, 50), (10, 4, 128, 40), (12, 3, 100, 30)]): us.append(large(L, S, w, LD))
    for L, S, D, w, LD in ([(5, 3, 12, 400, 20), (8, 2, 12, 400, 20)] if q else [(5, 3, 12, 400, 20), (8, 2, 12, 400, 20), (7, 3, 12, 400, 20), (9, 3, 6, 300, 20), (6, 1, 8, 300, 30)]): us.append(largeseries(L, S, D, w, LD))
    return us

def matrices(r, rnd, h, S, n, D=1, part=('r', 'i')):
    """constant sparse matrices: pointers, and for each the rows {column: entry}"""
    size = SIZE(h, S); P = []; mats_ = []
    os_ = [r.obj(size * D, 'A' + x, ro=True) for x in part]
    for d in range(D):
        off = rnd.sample(range(h), S) if (n + d) % 3 else [(i * (h // S) + (0 if d % 2 else 1)) % h for i in range(S)]
        if (n + d) % 2: off[rnd.randrange(S)] = h - 1
        off = list(dict.fromkeys(off))
        while len(off) < S:
            x = rnd.randrange(h)
            if x not in off: off.append(x)
        rows = [{} for _ in range(h)]
        for s in range(S):
            u = (rnd.random() < .2, rnd.random() < .2) if S > 1 else (False, False)
            if n % 2 == 0 and s == 0: u = (False, False)
            vals = []
            for j, o in enumerate(os_):
                b = size * d
                v = [0.] * h if u[j] and not u[1 - j] else [rnd.uniform(-1, 1) for _ in range(h)]
                for i in range(h): o.cells[b + 8 * (h * s + i)] = (8, v[i])
                o.cells[b + 8 * S * h + 4 * s] = (4, off[s]); o.cells[b + 8 * S * h + 4 * S + s] = (1, int(u[j]))
                vals.append(v)
            if u[0] and u[1]: continue
            for i in range(h):
                k = (i + off[s]) % h
                rows[i][k] = rows[i].get(k, 0) + complex(vals[0][i], vals[1][i])
        mats_.append((rows, off))
    return [Ptr(o, 0) for o in os_], mats_

def apply(rows, R, f):
    out = []
    for row in rows:
        d = {}
        for k, v in row.items():
            for m, x in R[k].items(): d[m] = d.get(m, 0) + v * f * x
        out.append(d)
    return out

def inner(out, mod, N, w, sec):
    import lin
    r = Run(mod, None, out, timelimit=400, budget=400_000_000)
    c = lin.Inner(r, sec); c.it = r.it; r.it.sums = c
    p = Ptr(r.obj(2 * zsz(w) * N, 'ct'), 0)
    R = [{i: 1.} for i in range(N // 2)]
    c.new_ct(p, w, N, R, None); p.obj.ro = True
    return r, c, p, R

def large(L, S, w, LD):
    """rotations, encodings and keys by contract"""
    import lin, compose
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h')
    T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('sk', 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,s,*o);' % (w, L, LD, S))
    g.fn('rk', 'const %s*a,const %s*b,const %s*c,const %s**k,%s*o' % (T, T, C, K, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,k,*o);' % (w, L, LD, S))
    tasks = []
    for form in ('sk', 'rk'):
        def t(out, mod, S_, form=form):
            for n in range(3):
                sec = secret(N, n)
                r, c, p, R = inner(out, mod, N, w, sec)
                (ar, ai), [(rows, off)] = matrices(r, random.Random(L * 100 + S * 10 + n), h, S, n)
                o = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
                if form == 'sk': r.call('w_sk', [ar, ai, p, r.const_ints('s', sec), o])
                else:
                    ks = r.obj(8 * S, 'rkey', ro=True)
                    for s in range(S):
                        k = Ptr(r.obj(4 * zsz(2 * w) * N, 'rk'), 0); i = c.new()
                        c.keys[i] = (lin.auto(sec, N, pow(5, off[s], 2 * N)), sec)
                        c.put(k, compose.TV({(i, 'key'): 1}, 2 * w, N), None)
                        k.obj.ro = True
                        ks.cells[8 * s] = (8, k if off[s] else 0)
                    ks.gran = 8
                    r.call('w_rk', [ar, ai, p, Ptr(ks, 0), o])
                if not lin.compare(c, c.rows(o, w, N, 'result', None), apply(rows, R, 2. ** LD), 2. ** LD, 'transformed message (offsets %s)' % off): return
                r.events()
        tasks.append(('transform (%s) by contracts N=%d diagonals %d' % (form, N, S), t, 420))
    return Unit('lo%d_%d' % (L, S), g.src(), tasks, nosum=True)

def largeseries(L, S, D, w, LD):
    """linear_transform by contract"""
    import lin
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h')
    T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N)
    tasks = []
    for G in (1, 2, 3, 4):
        if D % G: continue
        g.fn('g%d' % G, 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'grouped_serial_linear_transform<%d,%d,%d,%d,%d,%d>(a,b,*c,s,*o);' % (w, L, LD, S, D, G))
        def t(out, mod, S_, G=G):
            for n in range(2):
                sec = secret(N, n)
                r = Run(mod, None, out, timelimit=400, budget=400_000_000)
                c = lin.Lin(r, sec); c.it = r.it; r.it.sums = c
                p = Ptr(r.obj(2 * zsz(w) * N, 'ct'), 0)
                R = [{i: 1.} for i in range(h)]
                c.new_ct(p, w, N, R, None); p.obj.ro = True
                (ar, ai), M = matrices(r, random.Random(L * 100 + S * 10 + n), h, S, n, D)
                o = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
                r.call('w_g%d' % G, [ar, ai, p, r.const_ints('s', sec), o])
                f = 2. ** (LD * (D // G)); X = R
                for rows, off in M: X = apply(rows, X, 1.)
                X = [{k: v * f for k, v in d.items()} for d in X]
                top = max([abs(v) for d in X for v in d.values()] + [f * 1e-6])
                if not lin.compare(c, c.rows(o, w, N, 'result', None), X, top, 'message after %d transforms grouped by %d' % (D, G)): return
                r.events()
        tasks.append(('grouping %d by contracts N=%d layers %d diagonals %d' % (G, N, D, S), t, 420))
    return Unit('ls%d_%d_%d' % (L, S, D), g.src(), tasks, nosum=True)

VB = 30

def inputs(r, f, w, N, VB=VB):
    V = [dom.var('m[%d]' % k, -(1 << VB) // N, (1 << VB) // N) for k in range(N)]
    c = flow.ct(r, f, 'ct', w, V)
    return c, slots(N, [f.poly(v) for v in V])

def u_one(L, S, w, LD, q):
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h'); VB = max(30, min(50, w - LD - 14))
    T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('sk', 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,s,*o);' % (w, L, LD, S))
    g.fn('rk', 'const %s*a,const %s*b,const %s*c,const %s**k,%s*o' % (T, T, C, K, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,k,*o);' % (w, L, LD, S))
    rnd = random.Random(L * 100 + S)
    offs = [tuple((3 * i) % h for i in range(S)) if h > S and h % 3 else tuple(range(S)) if S <= h else tuple(i % h for i in range(S))]
    offs.append(tuple((h - 1 - i) % h for i in range(S)))
    offs.append(tuple(rnd.randrange(h) for _ in range(S)))
    if not q: offs += [tuple(rnd.randrange(h) for _ in range(S)) for _ in range(3)]
    pats = [(), (0,), (S - 1,), ('r0',), ('i%d' % (S - 1),), ('r%d' % (S - 1), 'i0'), tuple(range(S))]
    tasks = []
    for n, off in enumerate(offs):
        for u, unused in enumerate(pats):
            if q and u and n != u % len(offs): continue
            if len(pats[u]) == 2 and S == 1: continue
            for form in ('sk', 'rk'):
                def t(out, mod, S_, off=off, unused=unused, form=form, n=n):
                    r = Run(mod, S_, out)
                    sec = secret(N, n)
                    f = flow.Flow(r, sec, N)
                    A = Mat(r, f, 'A', h, S, off, 'unknown', unused)
                    c, z = inputs(r, f, w, N, VB)
                    X = [mscale(m, 2. ** LD) for m in coeffs(N, matvec(h, A.D, z))]
                    p = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
                    if form == 'sk': r.call('w_sk', [A.pr, A.pi, c, r.const_ints('s', sec), p])
                    else:
                        import p_C10
                        ks = r.obj(8 * S, 'rkey', ro=True)
                        for i in range(S):
                            if i in unused or off[i] == 0: ks.cells[8 * i] = (8, interp.NULL if hasattr(interp, 'NULL') else 0)
                            else: ks.cells[8 * i] = (8, flow.keyct(r, f, 'rk%d' % i, w, p_C10.auto(f.S, N, pow(5, off[i], 2 * N))))
                        ks.gran = 8
                        r.call('w_rk', [A.pr, A.pi, c, Ptr(ks, 0), p])
                    run_check(r, f, p, w, X, LD, 'transformed message', 2. ** (8 - min(VB, LD)))
                    r.events()
                tasks.append(('transform (%s) N=%d offsets %s unused %s width %d scale 2^%d' % (form, N, off, unused, w, LD), t, 200))
    return Unit('o%d_%d_%d' % (L, S, w), g.src(), tasks)

def u_dense(L, w, LD):
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h')
    C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('de', 'const double(*a)[%d],const double(*b)[%d],const %s*c,const %s*k,%s*o' % (h, h, C, K, C), 'linear_transform<%d,%d,%d>(a,b,*c,*k,*o);' % (w, L, LD))
    def t(out, mod, S_):
        import p_C10
        r = Run(mod, S_, out)
        sec = secret(N, 1)
        f = flow.Flow(r, sec, N)
        D = {}; ptr = []
        for part in range(2):
            p, A = r.reals('A' + 'ri'[part], h * h, -2., 2.); ptr.append(p)
            for i in range(h):
                for j in range(h): D.setdefault((i, j), [None, None])[part] = f.poly(A[i * h + j])
        c, z = inputs(r, f, w, N, 50)
        X = [mscale(m, 2. ** LD) for m in coeffs(N, matvec(h, D, z))]
        k = flow.keyct(r, f, 'rk', w, p_C10.auto(f.S, N, 5))
        p = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
        r.call('w_de', ptr + [c, k, p])
        run_check(r, f, p, w, X, LD, 'transformed message', 2. ** (8 - LD))
        r.events()
    return Unit('d%d_%d' % (L, w), g.src(), [('dense transform N=%d width %d scale 2^%d' % (N, w, LD), t, 200)], mustbuild='dense linear_transform')

def mats(r, f, h, S, D, offs, kind, unused=lambda d: ()):
    ar = r.obj(SIZE(h, S) * D, 'Ar', ro=True); ai = r.obj(SIZE(h, S) * D, 'Ai', ro=True)
    return [Mat(r, f, 'A%d' % d, h, S, offs(d), kind, unused(d), ar, ai, SIZE(h, S) * d) for d in range(D)], Ptr(ar, 0), Ptr(ai, 0)

def u_serial(L, S, D, w, LD):
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h')
    T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N)
    g.fn('se', 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'serial_linear_transform<%d,%d,%d,%d,%d>(a,b,*c,s,*o);' % (w, L, LD, S, D))
    tasks = []
    for n, unused in enumerate((lambda d: (), lambda d: (0,) if d == 1 else ())):
        def t(out, mod, S_, n=n, unused=unused):
            r = Run(mod, S_, out)
            sec = secret(N, n + 1)
            f = flow.Flow(r, sec, N)
            As, ar, ai = mats(r, f, h, S, D, lambda d: tuple((i + d * i + n) % h for i in range(S)), 'unknown', unused)
            c, z = inputs(r, f, w, N, 50)
            for A in As: z = matvec(h, A.D, z)
            X = [mscale(m, 2. ** (LD * D)) for m in coeffs(N, z)]
            p = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
            r.call('w_se', [ar, ai, c, r.const_ints('s', sec), p])
            run_check(r, f, p, w, X, LD, 'message after %d transforms' % D)
            r.events()
        tasks.append(('serial transform %d N=%d layers %d width %d scale 2^%d' % (n, N, D, w, LD), t, 300))
    return Unit('s%d_%d_%d_%d' % (L, S, D, w), g.src(), tasks)

def u_group(L, S, D, w, LD, q):
    N = 1 << L; h = N // 2
    g = W('HEAAN/linear_transform.h')
    T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N)
    tasks = []
    for G in (1, 2, 3, 4):
        if D % G: continue
        g.fn('g%d' % G, 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'grouped_serial_linear_transform<%d,%d,%d,%d,%d,%d>(a,b,*c,s,*o);' % (w, L, LD, S, D, G))
        def t(out, mod, S_, G=G):
            r = Run(mod, S_, out)
            sec = secret(N, 2)
            f = flow.Flow(r, sec, N)
            As, ar, ai = mats(r, f, h, S, D, lambda d: tuple((2 * i + d * i + d) % h for i in range(S)), 'listed', lambda d: (0,) if d == 1 else ())
            for rd in range(2):
                c, z = inputs(r, f, w, N, 50)
                for A in As: z = matvec(h, A.D, z)
                X = [mscale(m, 2. ** (LD * D // G)) for m in coeffs(N, z)]
                p = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
                r.call('w_g%d' % G, [ar, ai, c, r.const_ints('s', sec), p])
                run_check(r, f, p, w, X, LD, 'message after %d transforms grouped by %d' % (D, G))
            r.events()
        tasks.append(('grouping %d N=%d layers %d width %d scale 2^%d' % (G, N, D, w, LD), t, 300))
    return Unit('g%d_%d_%d_%d' % (L, S, D, w), g.src(), tasks)
