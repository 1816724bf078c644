"""C13: sparse-diagonal matrices"""
import itertools, random
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, Poly
from interp import Ptr

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the full matrix denoted by the result of every operation must equal the dense operation on the full matrices denoted by its operands (normal forms in the unknown entries), real and imaginary parts must share offsets, and a diagonal may be marked unused only if all its entries are zero',
  explanation='all entries are unknown reals; offsets: every choice of distinct offsets for small sizes, seeded choices for larger ones; used/unused flags in all patterns; one obligation per matrix entry')

def offsets(N, S, n, rnd):
    """tuples of distinct offsets in [0,N)"""
    al = list(itertools.permutations(range(N), S)) if N ** S <= 5000 else None
    if al is None:
        al = set()
        while len(al) < n: al.add(tuple(rnd.sample(range(N), S)))
        al = sorted(al)
    elif len(al) > n: al = rnd.sample(al, n)
    return al

def dense(N, vec, off):
    D = [[ZERO] * N for _ in range(N)]
    for s, o in enumerate(off):
        for i in range(N):
            j = (i + o) % N
            D[i][j] = padd(D[i][j], vec[s][i])
    return D

class SD:
    """a SparseDiagonal object and the matrix it denotes"""
    def __init__(self, r, name, N, S, off, unused=(), mk='mk'):
        self.r, self.N, self.S = r, N, S
        v, V = r.reals(name, N * S, -4., 4., ro=False)
        self.vec = []
        for s in range(S):
            if s in unused:
                for i in range(N): v.obj.cells[8 * (s * N + i)] = (8, 0.)
                self.vec.append([ZERO] * N)
            else: self.vec.append(V[s * N:(s + 1) * N])
        self.off = list(off)
        self.p = Ptr(r.obj(SIZE(N, S), name), 0)
        r.call('w_%s_%d_%d' % (mk, N, S), [self.p, v, r.const_ints('off', off), r.const_ints('z', [1 if s in unused else 0 for s in range(S)])])
        self.D = dense(N, self.vec, off)

def SIZE(N, S): return (S * N * 8 + S * 4 + S + 7) // 8 * 8

def mk(g, N, S):
    g.fn('mk_%d_%d' % (N, S), 'SparseDiagonal<%d,%d>*a,const double*v,const int*off,const int*z' % (N, S),
         'for(int s=0;s<%d;s++){for(int i=0;i<%d;i++)a->vec[s][i]=v[s*%d+i]; a->off[s]=off[s]; a->zero[s]=z[s]!=0;}' % (S, N, N))
    g.fn('rd_%d_%d' % (N, S), 'const SparseDiagonal<%d,%d>*a,double*v,int*off,int*z' % (N, S),
         'for(int s=0;s<%d;s++){for(int i=0;i<%d;i++)v[s*%d+i]=a->vec[s][i]; off[s]=a->off[s]; z[s]=a->zero[s];}' % (S, N, N))

def const(P):
    return int(P.const()) if P.isconst() else None

def read(r, p, N, S):
    """(vec, off, unused) of the object at p"""
    v = r.out_words('v', N * S); o = r.out_words('o', S, 4); z = r.out_words('z', S, 4)
    f = r.fname
    r.call('w_rd_%d_%d' % (N, S), [p, v, o, z])
    r.fname = f
    V = r.greals(v, N * S)
    return [V[s * N:(s + 1) * N] for s in range(S)], [const(x) for x in r.gints(o, S)], [const(x) for x in r.gints(z, S)]

def expect(r, p, N, S, X, what, flags=True):
    vec, off, z = read(r, p, N, S)
    if any(o is None or not 0 <= o < N for o in off):
        loc, fn = r.site(); r.out.checks += 1
        r.out.refute('%s: offsets %s outside [0,%d)' % (what, off, N), {}, loc, fn); return
    D = dense(N, vec, off)
    for i in range(N):
        for j in range(N):
            r.close(psub(D[i][j], X[i][j]), 1e-12, '%s, entry (%d,%d)' % (what, i, j))
    if flags: unused_ok(r, [(vec, z)], what)
    return vec, off, z

def unused_ok(r, parts, what):
    """a diagonal marked unused is zero"""
    for vec, z in parts:
        for s, f in enumerate(z):
            if f is None or f:
                for i, v in enumerate(vec[s]): r.close(v, 0, '%s: entry %d of diagonal %d, which is marked unused' % (what, i, s))

def units(tier):
    q = tier == 'quick'
    us = []
    for N, S, n in ([(2, 1, 9), (2, 2, 9), (4, 3, 24), (4, 1, 4), (8, 3, 12), (16, 2, 6), (64, 5, 3)] if q else [(2, 1, 9), (2, 2, 9), (4, 3, 24), (4, 4, 24), (4, 1, 4), (8, 3, 60), (8, 5, 20), (16, 3, 20), (32, 3, 12), (64, 3, 6)]): us.append(u_one(N, S, n))
    for N, S1, S2, n in ([(2, 1, 2, 9), (4, 2, 2, 40), (4, 3, 2, 20), (8, 3, 3, 12), (16, 3, 3, 4), (32, 9, 3, 1), (64, 3, 3, 2)] if q else [(2, 1, 2, 9), (2, 2, 2, 9), (4, 2, 2, 60), (4, 3, 2, 40), (4, 1, 4, 30), (8, 3, 3, 40), (16, 9, 3, 8), (16, 3, 3, 10), (32, 3, 3, 4)]): us.append(u_mul(N, S1, S2, n))
    us.append(u_mvp([2, 3, 4, 7] if q else [2, 3, 4, 5, 6, 7, 8], 6 if q else 20))
    return us

def u_one(N, S, n):
    g = W('HEAAN/matrix/matrix.h')
    T = 'SparseDiagonal<%d,%d>' % (N, S)
    mk(g, N, S)
    g.fn('get', 'const %s*a,int i,int j' % T, 'return a->get_element(i,j);', 'double')
    g.fn('set', '%s*a,int i,int j,double v' % T, 'a->set_element(i,j,v);')
    g.fn('tr', '%s*a' % T, 'a->transpose();')
    g.fn('neg', '%s*a' % T, 'a->negate();')
    g.fn('zero', '%s*a' % T, 'a->setzero();')
    g.fn('mulc', '%s*a,double c' % T, '*a*=c;')
    g.fn('add', '%s*a,const %s*b' % (T, T), '*a+=*b;')
    g.fn('sub', '%s*a,const %s*b' % (T, T), '*a-=*b;')
    g.fn('cp', '%s*a,const %s*b' % (T, T), '*a=*b;')
    rnd = random.Random(N * 100 + S)
    offs = offsets(N, S, n, rnd)
    pats = [()] + [(s,) for s in range(S)] + ([tuple(range(S))] if S > 1 else [])
    tasks = []
    def t(out, mod, S_):
        for off in offs:
            r = Run(mod, S_, out)
            A = SD(r, 'a', N, S, off)
            A.p.obj.ro = True
            for i in range(N):
                for j in range(N):
                    v = r.call('w_get', [A.p, i, j])
                    r.close(psub(interp.rp(r.it.und(v, ('f', 64))), A.D[i][j]), 0, 'element (%d,%d), offsets %s' % (i, j, off))
            r.events()
    tasks.append(('element access N=%d S=%d' % (N, S), t, 200))
    def t(out, mod, S_):
        for off in offs[:8]:
            for un in pats:
                for i in range(N):
                    for s in range(S):
                        if N > 8 and rnd.random() > .1: continue
                        r = Run(mod, S_, out)
                        A = SD(r, 'a', N, S, off, un)
                        j = (i + off[s]) % N
                        x = dom.var('x', -4., 4., False)
                        r.call('w_set', [A.p, i, j, interp.RV(x)])
                        X = [list(row) for row in A.D]; X[i][j] = x
                        expect(r, A.p, N, S, X, 'setting element (%d,%d), offsets %s, unused %s' % (i, j, off, un))
                        r.events()
    tasks.append(('element assignment N=%d S=%d' % (N, S), t, 300))
    def t(out, mod, S_):
        for off in offs:
            for un in pats:
                def one(f, args, X, what):
                    r.call(f, args)
                    expect(r, args[0], N, S, X, '%s, offsets %s, unused %s' % (what, off, un))
                for f, what in (('w_tr', 'transpose'), ('w_neg', 'negation'), ('w_zero', 'setzero'), ('w_mulc', 'scaling'), ('w_cp', 'copy')):
                    r = Run(mod, S_, out)
                    A = SD(r, 'a', N, S, off, un); D = A.D
                    if f == 'w_tr':
                        one(f, [A.p], [[D[j][i] for j in range(N)] for i in range(N)], what)
                        one(f, [A.p], D, 'transpose twice')
                    elif f == 'w_neg': one(f, [A.p], [[pneg(x) for x in row] for row in D], what)
                    elif f == 'w_zero': one(f, [A.p], [[ZERO] * N] * N, what)
                    elif f == 'w_mulc':
                        c = dom.var('c', -2., 2., False)
                        one(f, [A.p, interp.RV(c)], [[pmul(c, x) for x in row] for row in D], what)
                    else:
                        B = SD(r, 'b', N, S, tuple(reversed(off)))
                        A.p.obj.ro = True
                        one(f, [B.p, A.p], D, what)
                        v1, o1, z1 = read(r, B.p, N, S); out.checks += 1
                        if o1 != list(off) or z1 != [1 if s in un else 0 for s in range(S)]:
                            loc, fn = r.site(); out.refute('copy changes offsets or unused marks: %s %s' % (o1, z1), {}, loc, fn)
                        else: out.discharged += 1
                    r.events()
    tasks.append(('unary operations N=%d S=%d' % (N, S), t, 300))
    def t(out, mod, S_):
        for off in offs[:10]:
            for u1 in pats:
                for u2 in pats:
                    for f, sg in (('w_add', 1), ('w_sub', -1)):
                        r = Run(mod, S_, out)
                        A = SD(r, 'a', N, S, off, u1); B = SD(r, 'b', N, S, off, u2); B.p.obj.ro = True
                        r.call(f, [A.p, B.p])
                        X = [[padd(A.D[i][j], pscale(B.D[i][j], sg)) for j in range(N)] for i in range(N)]
                        expect(r, A.p, N, S, X, '%s, offsets %s, unused %s and %s' % ('addition' if sg > 0 else 'subtraction', off, u1, u2))
                        r.events()
            for f, sg in (('w_add', 2), ('w_sub', 0)):
                r = Run(mod, S_, out)
                A = SD(r, 'a', N, S, off)
                r.call(f, [A.p, A.p])
                expect(r, A.p, N, S, [[pscale(x, sg) for x in row] for row in A.D], 'addition or subtraction of a matrix and itself')
                r.events()
    tasks.append(('addition N=%d S=%d' % (N, S), t, 300))
    return Unit('o%d_%d' % (N, S), g.src(), tasks)

def mm(A, B, N):
    R = [[ZERO] * N for _ in range(N)]
    for i in range(N):
        for k in range(N):
            if not A[i][k].d: continue
            for j in range(N):
                if B[k][j].d: R[i][j] = padd(R[i][j], pmul(A[i][k], B[k][j]))
    return R

def madd(A, B, s=1):
    return [[padd(a, pscale(b, s)) for a, b in zip(x, y)] for x, y in zip(A, B)]

def u_mul(N, S1, S2, n):
    g = W('HEAAN/matrix/matrix.h')
    T1, T2, T3 = ('SparseDiagonal<%d,%d>' % (N, s) for s in (S1, S2, S1 * S2))
    for s in {S1, S2, S1 * S2}: mk(g, N, s)
    g.fn('mm', 'const %s*a,const %s*b,%s*c' % (T1, T2, T3), 'MatMul(*a,*b,*c);')
    g.fn('mc', 'const %s*a,const %s*A,const %s*b,const %s*B,%s*c,%s*C' % (T1, T1, T2, T2, T3, T3), 'MatMul(*a,*A,*b,*B,*c,*C);')
    rnd = random.Random(N * 1000 + S1 * 10 + S2)
    o1 = offsets(N, S1, n, rnd); o2 = offsets(N, S2, n, rnd)
    pairs = list(itertools.product(o1, o2))
    if len(pairs) > n: pairs = rnd.sample(pairs, n)
    # offsets as they occur in the FFT factors
    if S1 == 3 and S2 == 3 and N >= 8: pairs += [((0, N // 2, N // 2), (0, N // 4, N - N // 4))] if False else [((0, N // 4, N - N // 4), (0, N // 8 or 1, N - (N // 8 or 1)))]
    S3 = S1 * S2
    tasks = []
    def t(out, mod, S_):
        for a, b in pairs:
            for u1, u2 in (((), ()), ((S1 - 1,), ()), ((), (0,))):
                r = Run(mod, S_, out)
                A = SD(r, 'a', N, S1, a, u1); B = SD(r, 'b', N, S2, b, u2); A.p.obj.ro = B.p.obj.ro = True
                o = Ptr(r.obj(SIZE(N, S3), 'c'), 0)
                r.call('w_mm', [A.p, B.p, o])
                expect(r, o, N, S3, mm(A.D, B.D, N), 'product, offsets %s x %s, unused %s and %s' % (a, b, u1, u2))
                r.events()
    tasks.append(('real product N=%d %dx%d' % (N, S1, S2), t, 300))
    def pat(S):
        p = [((), ()), (tuple(range(S)), ()), ((), tuple(range(S))), ((S - 1,), (S - 1,)), ((0,), (0,)), ((0,), ())]
        return p
    def t(out, mod, S_):
        for a, b in pairs:
            for ua in pat(S1):
                for ub in rnd.sample(pat(S2), 2) + [((), ())]:
                    r = Run(mod, S_, out)
                    Ar = SD(r, 'ar', N, S1, a, ua[0]); Ai = SD(r, 'ai', N, S1, a, ua[1])
                    Br = SD(r, 'br', N, S2, b, ub[0]); Bi = SD(r, 'bi', N, S2, b, ub[1])
                    for x in (Ar, Ai, Br, Bi): x.p.obj.ro = True
                    o = Ptr(r.obj(SIZE(N, S3), 'cr'), 0); o2 = Ptr(r.obj(SIZE(N, S3), 'ci'), 0)
                    r.call('w_mc', [Ar.p, Ai.p, Br.p, Bi.p, o, o2])
                    what = 'complex product, offsets %s x %s, unused %s and %s' % (a, b, ua, ub)
                    v1 = expect(r, o, N, S3, madd(mm(Ar.D, Br.D, N), mm(Ai.D, Bi.D, N), -1), what + ', real part')
                    v2 = expect(r, o2, N, S3, madd(mm(Ar.D, Bi.D, N), mm(Ai.D, Br.D, N)), what + ', imaginary part')
                    if v1 and v2:
                        for s in range(S3):
                            out.checks += 1
                            if v1[1][s] == v2[1][s] or (v1[2][s] and v2[2][s]): out.discharged += 1
                            else:
                                loc, fn = r.site(); out.refute('%s: diagonal %d has offset %s in the real and %s in the imaginary part' % (what, s, v1[1][s], v2[1][s]), {}, loc, fn)
                    r.events()
    tasks.append(('complex product N=%d %dx%d' % (N, S1, S2), t, 300))
    if S3 > 2:
        # removing the unused diagonals of a product
        k = S3 - 1
        T4 = 'SparseDiagonal<%d,%d>' % (N, k); mk(g, N, k)
        g.fn('rc', 'const %s*a,%s*b' % (T3, T4), 'RemoveClutter(*a,*b);')
        def t(out, mod, S_):
            for a, b in pairs[:6]:
                for m in range(1, min(k, N) + 1):
                    off = rnd.sample(range(N), m) + [0] * (S3 - m)
                    r = Run(mod, S_, out)
                    A = SD(r, 'a', N, S3, off, tuple(range(m, S3))); A.p.obj.ro = True
                    o = Ptr(r.obj(SIZE(N, k), 'b'), 0)
                    r.call('w_rc', [A.p, o])
                    expect(r, o, N, k, A.D, 'removal of unused diagonals, offsets %s' % off)
                    r.events()
        tasks.append(('removal of unused diagonals N=%d' % N, t, 100))
    # dense product
    if S1 == 3:
        g.fn('dp', 'const double(*a)[%d],const double(*A)[%d],const double(*b)[%d],const double(*B)[%d],double(*c)[%d],double(*C)[%d]' % ((N,) * 6), 'matrix_product<%d>(a,A,b,B,c,C);' % N)
        def t(out, mod, S_):
            r = Run(mod, S_, out)
            X = []
            for nm in ('ar', 'ai', 'br', 'bi'):
                p, V = r.reals(nm, N * N, -4., 4.)
                X.append((p, [V[i * N:(i + 1) * N] for i in range(N)]))
            o = r.out_words('c', N * N); o2 = r.out_words('C', N * N)
            r.call('w_dp', [x[0] for x in X] + [o, o2])
            A, Ai, B, Bi = (x[1] for x in X)
            for q, Z, nm in ((o, madd(mm(A, B, N), mm(Ai, Bi, N), -1), 'real'), (o2, madd(mm(A, Bi, N), mm(Ai, B, N)), 'imaginary')):
                V = r.greals(q, N * N)
                for i in range(N):
                    for j in range(N): r.close(psub(V[i * N + j], Z[i][j]), 1e-12, 'dense product, %s part of entry (%d,%d)' % (nm, i, j))
            r.events()
        tasks.append(('dense product N=%d' % N, t, 200))
    return Unit('m%d_%d_%d' % (N, S1, S2), g.src(), tasks)

def u_mvp(Ls, n):
    g = W('HEAAN/matrix/matrix.h')
    tasks = []
    for L in Ls:
        h = 1 << (L - 1)
        T = 'SparseDiagonal<%d,3>' % h
        mk(g, h, 3)
        g.fn('mv%d' % L, 'const double*r,const double*i,const %s*a,const %s*b,double*x,double*y' % (T, T), 'matrix_vector_product<%d>(r,i,*a,*b,x,y);' % L)
        def t(out, mod, S_, L=L, h=h):
            rnd = random.Random(L)
            offs = [tuple(rnd.randrange(h) for _ in range(3)) for _ in range(n)] + ([(0, h // 2, h // 2)] if h > 1 else [])
            for off in offs:
                for un in (((), ()), ((1,), (1,)), ((0, 1, 2), ()), ((2,), (0,))):
                    r = Run(mod, S_, out)
                    A = SD(r, 'a', h, 3, off, un[0]); B = SD(r, 'b', h, 3, off, un[1]); A.p.obj.ro = B.p.obj.ro = True
                    p, ZR = r.reals('zr', h); p2, ZI = r.reals('zi', h)
                    o = r.out_words('x', h); o2 = r.out_words('y', h)
                    r.call('w_mv%d' % L, [p, p2, A.p, B.p, o, o2])
                    X, Y = r.greals(o, h), r.greals(o2, h)
                    for i in range(h):
                        a = b = ZERO
                        for j in range(h):
                            a = padd(a, psub(pmul(A.D[i][j], ZR[j]), pmul(B.D[i][j], ZI[j])))
                            b = padd(b, padd(pmul(A.D[i][j], ZI[j]), pmul(B.D[i][j], ZR[j])))
                        r.close(psub(X[i], a), 1e-12, 'matrix times vector, real part of entry %d, offsets %s' % (i, off))
                        r.close(psub(Y[i], b), 1e-12, 'matrix times vector, imaginary part of entry %d, offsets %s' % (i, off))
                    r.events()
        tasks.append(('matrix-vector product N=%d' % h, t, 200))
    return Unit('mvp', g.src(), tasks)
