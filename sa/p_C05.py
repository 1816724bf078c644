"""C05: number-theoretic transform"""
from check import Unit
from gen import W
import ob, interp, dom, nt
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ge0, fl, prange, gate, cnorm, ATOMS
from interp import Ptr, to_u, SV

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: for unknown input words each output of the forward transform must be a linear form (1,x,x^2,...) of the inputs modulo q with x^N=-1 and the x distinct, the inverse transform of a forward transform must be the input residue, the inverse transform of a pointwise product must be the negacyclic product, and every output must lie in [0,q)',
  explanation='inputs are unknown 64-bit words (reduced or not); tables are folded from the constructor at each listed (N,q); one obligation per output word')

def smooth_primes(m, lo, hi, count):
    """primes q = 1 mod m in [lo,hi) with q-1 having only small prime factors"""
    out = []
    import random
    rnd = random.Random(5)
    while len(out) < count:
        q = m
        while q < lo:
            q *= rnd.choice((2, 3, 3, 5, 7, 11))
        if q < hi and nt.is_prime(q + 1) and q + 1 not in out: out.append(q + 1)
    return out

BIGS = smooth_primes(1 << 18, 1 << 59, 1 << 61, 4)

def units(tier):
    us = []
    top = 64 if tier == 'quick' else 256
    N = 2
    while N <= top:
        qs = nt.primes_1mod(2 * N, 2 * N, 3 if N < 32 else 2) + nt.primes_1mod(2 * N, 10**6, 1) + BIGS[:2]
        if N >= 64: qs = qs[:2] + BIGS[:1] if N <= 64 else qs[:1] + BIGS[:1]
        us.append(unit(N, qs))
        N *= 2
    for N in ((512, 4096, 16384) if tier == 'quick' else (256, 512, 1024, 2048, 4096, 8192, 16384, 1 << 15, 1 << 16, 1 << 17)):
        us.append(columns(N, nt.primes_1mod(2 * N, 2 * N, 1) + BIGS[:1]))
    return us

def columns(N, qs):
    """larger rings: a few unknown words, the others zero"""
    g = W('HEAAN/arith/conv/ntt.h', 'new')
    T = 'NTT<%d>' % N
    g.fn('ctor', '%s*c, uint64_t q' % T, 'new (c) %s(q);' % T)
    g.fn('ntt', 'const %s*c, uint64_t*a' % T, 'c->ntt(a);')
    g.fn('intt', 'const %s*c, uint64_t*a' % T, 'c->intt(a);')
    g.fn('size', '', 'return sizeof(%s);' % T, 'uint64_t')
    pos = [0, 1, N // 2 - 1, N // 2 + 3, N - 1]
    tasks = []
    for q in qs:
        def t(out, mod, S, q=q):
            r = Run(mod, S, out, timelimit=1500, budget=900_000_000)
            c = Ptr(r.obj(r.call('w_size', []), 'ntt'), 0)
            r.call('w_ctor', [c, q])
            c.obj.ro = True
            o = r.obj(8 * N, 'a')
            V = {k: dom.var('a[%d]' % k, 0, (1 << 64) - 1) for k in pos}
            for k in range(N): o.cells[8 * k] = (8, SV(V[k]) if k in V else 0)
            o.gran = 8
            p = Ptr(o, 0)
            r.call('w_ntt', [c, p])
            R = r.gwords(p, N)
            rows(r, R, [V[k] for k in pos], N, q, pos)
            if out.status == 'refuted': return
            for k in range(N): reduced(r, R[k], q, 'output %d' % k)
            r.call('w_intt', [c, p])
            R = r.gwords(p, N)
            for k in range(N): r.zero(psub(R[k], dom.rem(V.get(k, ZERO), q)), 'inverse of the forward transform, output %d' % k)
            r.events()
        tasks.append(('forward and round trip N=%d q=%d, selected inputs' % (N, q), t, 420 if N < 1 << 15 else 1600))
    return Unit('l%d' % N, g.src(), tasks)

def unit(N, qs):
    g = W('HEAAN/arith/conv/ntt.h', 'new')
    T = 'NTT<%d>' % N
    g.fn('ctor', '%s*c, uint64_t q' % T, 'new (c) %s(q);' % T)
    g.fn('ntt', 'const %s*c, uint64_t*a' % T, 'c->ntt(a);')
    g.fn('intt', 'const %s*c, uint64_t*a' % T, 'c->intt(a);')
    g.fn('prod', 'const %s*c, uint64_t*a, uint64_t*b, uint64_t*r, uint64_t q' % T, 'c->ntt(a); c->ntt(b); for(int i=0;i<%d;i++) r[i]=mul_mod(a[i],b[i],q); c->intt(r);' % N)
    g.fn('size', '', 'return sizeof(%s);' % T, 'uint64_t')
    tasks = []
    for q in qs:
        def setup(out, mod, S, q=q):
            r = Run(mod, S, out)
            c = Ptr(r.obj(r.call('w_size', []), 'ntt'), 0)
            r.call('w_ctor', [c, q])
            c.obj.ro = True
            return r, c
        def t(out, mod, S, q=q, setup=setup):
            r, c = setup(out, mod, S)
            p, A = r.words('a', N)
            r.call('w_ntt', [c, p])
            R = r.gwords(p, N)
            rows(r, R, A, N, q)
            for k in range(N): reduced(r, R[k], q, 'output %d' % k)
            r.events()
        tasks.append(('forward N=%d q=%d' % (N, q), t, 300))
        def t(out, mod, S, q=q, setup=setup):
            r, c = setup(out, mod, S)
            p, A = r.words('a', N)
            r.call('w_ntt', [c, p])
            r.call('w_intt', [c, p])
            R = r.gwords(p, N)
            for k in range(N): r.zero(psub(R[k], dom.rem(A[k], q)), 'inverse of the forward transform, output %d' % k)
            r.events()
        tasks.append(('round trip N=%d q=%d' % (N, q), t, 300))
        def t(out, mod, S, q=q, setup=setup):
            r, c = setup(out, mod, S)
            p, A = r.words('a', N)
            r.call('w_intt', [c, p])
            R = r.gwords(p, N)
            for k in range(N): reduced(r, R[k], q, 'output %d of the inverse' % k)
            r.call('w_ntt', [c, p])
            R = r.gwords(p, N)
            for k in range(N): r.zero(psub(R[k], dom.rem(A[k], q)), 'forward transform of the inverse, output %d' % k)
            r.events()
        if N <= 32: tasks.append(('inverse N=%d q=%d' % (N, q), t, 300))
        if N <= 16:
            def t(out, mod, S, q=q, setup=setup):
                r, c = setup(out, mod, S)
                p, A = r.words('a', N); s, B = r.words('b', N); o = r.out_words('r', N)
                r.call('w_prod', [c, p, s, o, q])
                R = r.gwords(o, N)
                for k in range(N): r.zero(psub(R[k], dom.rem(nega(A, B, N, k), q)), 'product coefficient %d' % k)
                r.events()
            tasks.append(('product N=%d q=%d' % (N, q), t, 300))
    return Unit('n%d' % N, g.src(), tasks)

def nega(A, B, N, k):
    P = ZERO
    for i in range(N):
        t = pmul(A[i], B[(k - i) % N])
        P = padd(P, t) if i <= k else psub(P, t)
    return P

def reduced(r, P, q, what):
    r.in_range(P, 0, q - 1, what)

def rows(r, R, A, N, q, pos=None):
    """R: linear forms in A that are evaluations at the distinct roots of X^N+1 modulo q"""
    out = r.out
    vs = [next(iter(a.d)) for a in A]
    pos = pos or list(range(N))
    roots = {}
    for k in range(N):
        out.checks += 1
        L = cnorm(R[k], q)
        if any(m not in vs for m in L.d):
            out.undecided('output %d is not a linear form' % k); continue
        row = [L.d.get(m, 0) % q for m in vs]
        loc, fn = r.site()
        if row[0] != 1:
            out.refute('output %d: the constant coefficient enters with factor %d' % (k, row[0]), {}, loc, fn); continue
        x = row[1]
        bad = next((i for i, e in enumerate(pos) if row[i] != pow(x, e, q)), None)
        if bad is not None:
            v = row[bad]; bad = pos[bad]
            out.refute('output %d: input %d enters with factor %d, not x^%d=%d for x=%d (modulo %d)' % (k, bad, v, bad, pow(x, bad, q), x, q), {}, loc, fn); continue
        if pow(x, N, q) != q - 1:
            out.refute('output %d: evaluation point %d is not a root of X^%d+1 modulo %d' % (k, x, N, q), {}, loc, fn); continue
        if x in roots:
            out.refute('outputs %d and %d evaluate at the same root' % (roots[x], k), {}, loc, fn); continue
        roots[x] = k
        out.discharged += 1
