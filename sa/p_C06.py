"""C06: negacyclic products"""
from check import Unit
from gen import W
import ob, interp, dom, nt, sums
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ge0, fl, prange, gate
from interp import Ptr, to_u, SV, WV

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: every output coefficient minus the negacyclic product of the (centered) operands must vanish modulo 2^LOGQ for unknown coefficients, for the first and for a later call; the prime table reached by the wide product must consist of distinct primes congruent to 1 modulo 2N whose product exceeds twice the largest coefficient',
  explanation='operands are unknown polynomials; the number of primes and all tables are folded from the source; one obligation per output coefficient')

def nega(A, B, N, k):
    P = ZERO
    for i in range(N):
        t = pmul(A[i], B[(k - i) % N])
        P = padd(P, t) if i <= k else psub(P, t)
    return P

def ternary(r, name, N):
    """array of N unknown values in {-1,0,1}"""
    return r.ints(name, N, -1, 1)

def cpoly(r, name, w, N):
    """R_Q<w,N> with unknown coefficients given by their centered representatives"""
    sz = 8 * ((w + 63) // 64)
    o = r.obj(sz * N, name, ro=True)
    Ps = []
    for i in range(N):
        P = dom.var('%s[%d]' % (name, i), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        o.cells[sz * i] = (sz, WV(P, w)); Ps.append(P)
    o.maxsz = max(8, sz); o.gran = sz
    return Ptr(o, 0), Ps

def outpoly(r, name, w, N):
    return Ptr(r.obj(8 * ((w + 63) // 64) * N, name), 0)

def units(tier):
    q = tier == 'quick'
    us = [u_int([1, 2, 4, 8] if q else [1, 2, 4, 8, 16, 32])]
    us.append(u_ternary([(10, 2), (64, 4), (65, 4), (200, 8), (63, 1)] if q else [(10, 2), (64, 4), (65, 8), (200, 8), (63, 1), (128, 16), (600, 8)]))
    for w, N in ([(30, 2), (64, 4), (62, 8), (130, 8), (20, 16), (65, 2), (600, 4), (44, 32), (1, 2)] if q else [(30, 2), (64, 4), (62, 8), (130, 8), (20, 16), (65, 2), (11, 4), (128, 16), (300, 8), (600, 4), (1240, 2), (44, 32), (44, 64), (200, 32), (1, 2)] + [(w, 2) for w in range(2, 64)]):
        us.append(u_wide(w, N))
    us += [u_pair(65, 4), u_pair(30, 2)]
    us.append(u_table())
    return us

def u_int(Ns):
    g = W('HEAAN/arith/R_Q_square.h', 'HEAAN/arith/conv.h')
    tasks = []
    for N in Ns:
        g.fn('ii%d' % N, 'const int*a,const int*b,int*c', 'conv<%d>(a,b,c);' % N)
        for al in (False, True):
            def t(out, mod, S, N=N, al=al):
                r = Run(mod, S, out)
                p, A = r.ints('a', N, -4096, 4096); q_, B = (p, A) if al else r.ints('b', N, -4096, 4096)
                o = r.out_words('c', N, 4)
                r.call('w_ii%d' % N, [p, q_, o])
                R = r.gints(o, N)
                for k in range(N): r.zero(psub(R[k], nega(A, B, N, k)), 'coefficient %d of the integer product' % k)
                r.events()
            tasks.append(('integer product%s N=%d' % (' (square)' if al else '', N), t, 120))
    return Unit('int', g.src(), tasks)

def u_ternary(cfg):
    g = W('HEAAN/arith/R_Q_square.h', 'HEAAN/arith/conv.h')
    tasks = []
    for w, N in cfg:
        T = 'R_Q<%d,%d>' % (w, N)
        g.fn('t%d_%d' % (w, N), 'const int*s,const %s*a,%s*c' % (T, T), 'conv<%d,%d>(s,*a,*c);' % (w, N))
        def t(out, mod, S, w=w, N=N):
            r = Run(mod, S, out)
            p, s = ternary(r, 's', N); q_, A = r.poly('a', w, N)
            o = outpoly(r, 'c', w, N)
            r.call('w_t%d_%d' % (w, N), [p, q_, o])
            R = r.gpoly(o, w, N)
            for k in range(N):
                r.zero(psub(R[k], nega(s, A, N, k)), 'coefficient %d of the ternary product' % k, w)
                r.canonical(o, 8 * ((w + 63) // 64) * k, w, 'canonical coefficient')
            r.events()
        tasks.append(('ternary product N=%d width %d' % (N, w), t, 200))
    return Unit('ternary', g.src(), tasks)

def u_wide(w, N):
    g = W('HEAAN/arith/R_Q_square.h', 'HEAAN/arith/conv.h')
    T = 'R_Q<%d,%d>' % (w, N)
    g.fn('mul', 'const %s*a,const %s*b,%s*c' % (T, T, T), 'conv<%d,%d>(*a,*b,*c);' % (w, N))
    tasks = []
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, A = cpoly(r, 'a', w, N); q_, B = cpoly(r, 'b', w, N); o = outpoly(r, 'c', w, N)
        r.call('w_mul', [p, q_, o])
        R = r.gpoly(o, w, N)
        for k in range(N):
            r.zero(psub(R[k], nega(A, B, N, k)), 'coefficient %d of the wide product' % k, w)
            r.canonical(o, 8 * ((w + 63) // 64) * k, w, 'canonical coefficient')
        # a later call, other operands
        p, C = cpoly(r, 'd', w, N); o = outpoly(r, 'e', w, N)
        r.call('w_mul', [p, p, o])
        R = r.gpoly(o, w, N)
        for k in range(N): r.zero(psub(R[k], nega(C, C, N, k)), 'coefficient %d of a second product (square)' % k, w)
        r.events()
    tasks.append(('wide product N=%d width %d' % (N, w), t, 400))
    return Unit('w%d_%d' % (w, N), g.src(), tasks)

def u_pair(w, N):
    g = W('HEAAN/arith/R_Q_square.h')
    T = 'R_Q<%d,%d>' % (w, N); T2 = 'R_Q_square<%d,%d>' % (w, N)
    g.fn('pm', '%s*a,const %s*b' % (T2, T), '*a*=*b;')
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, A = r.pair('a', w, N, ro=False); q_, B = cpoly(r, 'b', w, N)
        r.call('w_pm', [p, q_])
        R = r.gpair(p, w, N)
        for j in range(2):
            for k in range(N): r.zero(psub(R[j][k], nega(A[j], B, N, k)), 'component %d coefficient %d of the pair product' % (j, k), w)
        r.events()
    return Unit('pair%d_%d' % (w, N), g.src(), [('pair times polynomial N=%d width %d' % (N, w), t, 200)])

TOPN = 1 << 17
def u_table():
    """number and kind of primes the wide product uses"""
    import re
    ws = sorted(set(list(range(2, 62, 3)) + list(range(600, 660, 4)) + [64, 128, 1023, 1270, 1600, 2000, 2500, 2990, 3010]))
    g = W('HEAAN/arith/R_Q_square.h')
    sizes = [(w, TOPN) for w in ws]
    for w, N in sizes:
        T = 'R_Q<%d,%d>' % (w, N)
        g.fn('mul%d' % w, 'const %s*a,const %s*b,%s*c' % (T, T, T), 'conv<%d,%d>(*a,*b,*c);' % (w, N))
    def t(out, mod, S):
        r = Run(mod, S, out)
        q = sums.tables(mod)
        if q is None: raise dom.Undecided('no prime table found')
        fn = mod.find('void conv<%d, %d>(R_Q<%d, %d> const&, R_Q<%d, %d> const&, R_Q<%d, %d>&)' % (sizes[0] * 4))
        r.fname = fn or 'w_mul%d' % ws[0]
        loc, f = r.site()
        for i, x in enumerate(q):
            out.checks += 1
            if not nt.is_prime(x): out.refute('entry %d of the prime table, %d, is not a prime' % (i, x), {}, loc, f)
            elif x % (2 * TOPN) != 1: out.refute('entry %d of the prime table, %d, is not 1 modulo 2^18' % (i, x), {}, loc, f)
            elif x in q[:i]: out.refute('entry %d of the prime table repeats entry %d' % (i, q.index(x)), {}, loc, f)
            else: out.discharged += 1
        for w, N in sizes:
            L = None
            for n in mod.funcs:
                m = re.match(r'CONV<(\d+), %d, %d>::' % (w, N), mod.dem.get(n, n))
                if m: L = int(m.group(1))
            if L is None: continue
            out.checks += 1
            if L > len(q): out.refute('width %d uses %d primes, the table has %d' % (w, L, len(q)), {}, loc, f); continue
            Q = 1
            for x in q[:L]: Q *= x
            if Q <= 2 * N << (2 * w - 2): out.refute('width %d, degree %d: the product of the %d primes used has %d bits; coefficients of a product have up to %d bits and a sign' % (w, N, L, Q.bit_length(), (N << (2 * w - 2)).bit_length()), {}, loc, f)
            else: out.discharged += 1
    return Unit('table', g.src(), [('prime table', t, 60)], nosum=True)
