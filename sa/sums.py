"""Function summaries.  A summary replaces a callee by its specification; every summary
that is used is itself an obligation, discharged on the callee's own body (see verify_*).
A summary whose body does not discharge is not used (the callee is analysed in line)."""
import re
import dom, interp
from dom import pc, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ge0, eq0, gate, fl, Undecided
from interp import SV, RV, WV, Ptr, PSel, UNDEF, NoSummary, umod, cmod, wnorm, to_u, mkint
import ob

def same(p, q):
    return type(p) is Ptr and type(q) is Ptr and p.obj is q.obj and p.off == q.off

def okptr(*ps):
    for p in ps:
        if type(p) is PSel:
            continue
        if type(p) is not Ptr or type(p.off) is not int:
            raise NoSummary

def canon(P, w):
    """operand is stored canonically"""
    lo, hi = prange(P)
    return lo >= 0 and hi < (1 << w)

def rdw(it, p, w, dbg, need_canon=True):
    if type(p) is Ptr:
        c = p.obj.cells.get(p.off)
        if c is not None and type(c[1]) is WV:
            return it.read_wide(p, w, dbg)
    if type(p) is PSel:
        # each side
        return gate(dom.nameb(p.c), rdw(it, p.x, w, dbg), rdw(it, p.y, w, dbg))
    P = it.read_wide(p, w, dbg)
    if need_canon and w % 64 and p.off >= 0 and p.off + 8 * ((w + 63) // 64) <= p.obj.size:
        n = (w + 63) // 64
        v = it.load_limb(p.obj, p.off + 8 * (n - 1))
        if v is not UNDEF:
            T, lo, hi = to_u(it.conv_loaded(v, ('i', 64)), 64)
            a, b = prange(T)
            if min(hi, b) >= 1 << (w - 64 * (n - 1)): raise NoSummary
    return P

SPECS = []    # (regex, factory(match) -> handler, verifier factory or None)

def spec(rx, *subs):
    """subs: substrings of the demangled names of summaries that may be used inside the body"""
    def d(f):
        f.subs = subs
        SPECS.append((re.compile(rx), f))
        return f
    return d

def _i(m, k): return int(m.group(k))

# ---------------------------------------------------------------- Z_Q
@spec(r'^Z_Q<(\d+)>::operator\+=\(Z_Q<\d+> const&\)$')
def s_add(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        it.write_wide(a[0], w, padd(rdw(it, a[0], w, dbg, False), rdw(it, a[1], w, dbg, False)), dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True); q, B = r.wide('b', w, full=True)
        r.call(fn, [p, q])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, padd(A, B)), 'sum', w); r.canonical(p, 0, w, 'canonical sum')
        p, C = r.wide('c', w, False, full=True)
        r.call(fn, [p, p])
        r.zero(psub(r.gwide(p, 0, w), padd(C, C)), 'sum with itself', w); r.canonical(p, 0, w, 'canonical sum')
    return h, v

@spec(r'^Z_Q<(\d+)>::operator-=\(Z_Q<\d+> const&\)$', '::negate(', '::operator+=(', '::Z_Q(Z_Q', '::operator=(')
def s_sub(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        it.write_wide(a[0], w, psub(rdw(it, a[0], w, dbg, False), rdw(it, a[1], w, dbg, False)), dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True); q, B = r.wide('b', w, full=True)
        r.call(fn, [p, q])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, psub(A, B)), 'difference', w); r.canonical(p, 0, w, 'canonical difference')
        p, C = r.wide('c', w, False, full=True)
        r.call(fn, [p, p])
        r.zero(psub(r.gwide(p, 0, w), ZERO), 'difference with itself', w); r.canonical(p, 0, w, 'canonical difference')
    return h, v

@spec(r'^Z_Q<(\d+)>::negate\(\)$')
def s_neg(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        it.write_wide(a[0], w, pneg(rdw(it, a[0], w, dbg, False)), dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True)
        r.call(fn, [p])
        R = r.gwide(p, 0, w)
        r.zero(padd(R, A), 'negation', w); r.canonical(p, 0, w, 'canonical negation')
    return h, v

@spec(r'^Z_Q<(\d+)>::setzero\(\)$')
def s_zero(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        it.write_wide(a[0], w, ZERO, dbg)
    def v(r, fn):
        p = r.wideout('a', w)
        r.call(fn, [p])
        r.zero(r.gwide(p, 0, w), 'zero')
    return h, v

@spec(r'^Z_Q<(\d+)>::remove_clutter\(\)$')
def s_clut(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        P = it.read_wide(a[0], w, dbg)
        if P.isconst() or len(P.d) <= 3: raise NoSummary
        it.write_wide(a[0], w, P, dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True)
        r.call(fn, [p])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, A), 'reduction', w); r.canonical(p, 0, w, 'canonical reduction')
    return h, v

@spec(r'^Z_Q<(\d+)>::operator\*=\(unsigned long\)$', '::operator+=(', 'mul(unsigned')
def s_mulw(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(a[0])
        k = to_u(it.und(a[1], ('i', 64)), 64)[0]
        it.write_wide(a[0], w, pmul(rdw(it, a[0], w, dbg, False), k), dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True); x, X = r.word('x')
        r.call(fn, [p, x])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, pmul(A, X)), 'product by a word', w); r.canonical(p, 0, w, 'canonical product by a word')
    return h, v

@spec(r'^Z_Q<(\d+)>::operator\*=\(Z_Q<\d+> const&\)$', '::operator+=(', '::operator*=(unsigned', '::setzero(')
def s_mul(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        it.write_wide(a[0], w, pmul(rdw(it, a[0], w, dbg, False), rdw(it, a[1], w, dbg, False)), dbg)
    def v(r, fn):
        p, A = r.wide('a', w, False, full=True); q, B = r.wide('b', w, full=True)
        r.call(fn, [p, q])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, pmul(A, B)), 'product', w); r.canonical(p, 0, w, 'canonical product')
        p, C = r.wide('c', w, False, full=True)
        r.call(fn, [p, p])
        r.zero(psub(r.gwide(p, 0, w), pmul(C, C)), 'product with itself', w); r.canonical(p, 0, w, 'canonical product')
    return h, v

def copyspec(w):
    def h(it, a, dbg):
        okptr(*a)
        if same(a[0], a[1]): return
        it.write_wide(a[0], w, rdw(it, a[1], w, dbg), dbg)
    def v(r, fn):
        p = r.wideout('a', w); q, B = r.wide('b', w)
        r.call(fn, [p, q])
        R = r.gwide(p, 0, w)
        r.zero(psub(R, B), 'copy')
        p, C = r.wide('c', w, False)
        r.call(fn, [p, p])
        r.zero(psub(r.gwide(p, 0, w), C), 'copy to itself')
    return h, v

@spec(r'^Z_Q<(\d+)>::operator=\(Z_Q<\d+> const&\)$')
def s_asg(m): return copyspec(_i(m, 1))
@spec(r'^Z_Q<(\d+)>::Z_Q\(Z_Q<\d+> const&\)$')
def s_cpy(m): return copyspec(_i(m, 1))

@spec(r'^Z_Q<(\d+)>::is_bigger_than_halfQ\(\) const$')
def s_half(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        P = rdw(it, a[0], w, dbg)
        lo, hi = prange(P)
        if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
            return it.mkb(psub(ONE, ge0(P)))
        U = umod(P, w)
        return it.mkb(ge0(paddc(U, -(1 << (w - 1)))))
    def v(r, fn):
        p, A = r.wide('a', w)
        R = r.call(fn, [p])
        R = to_u(R, 8)[0] if type(R) is SV else pc(R & 1)
        r.zero(psub(R, ge0(paddc(A, -(1 << (w - 1))))), 'sign test')
    return h, v

# ---------------------------------------------------------------- shifts
@spec(r'^void shift_right<(\d+), (\d+)>\(Z_Q<\d+> const&, Z_Q<\d+>&\)$', '::operator+=(')
def s_sr(m):
    f, t = _i(m, 1), _i(m, 2)
    k = f - t
    if k < 0: return None
    def h(it, a, dbg):
        okptr(*a)
        if type(a[0]) is Ptr and type(a[1]) is Ptr and a[0].obj is a[1].obj: raise NoSummary
        P = umod(rdw(it, a[0], f, dbg), f)
        R = fl(paddc(P, 1 << (k - 1)), 1 << k) if k else P      # = floor(2P/2^k) - floor(P/2^k)
        it.write_wide(a[1], t, R, dbg)
    def v(r, fn):
        p, A = r.wide('a', f); q = r.wideout('b', t)
        r.call(fn, [p, q])
        R = r.gwide(q, 0, t)
        S = psub(fl(A, 1 << (k - 1)), fl(A, 1 << k)) if k else A
        r.zero(psub(R, S), 'rounded shift', t); r.canonical(q, 0, t, 'canonical shift')
    return h, v

@spec(r'^void shift_left<(\d+), (\d+)>\(Z_Q<\d+> const&, Z_Q<\d+>&\)$')
def s_sl(m):
    f, t = _i(m, 1), _i(m, 2)
    k = t - f
    if k < 0: return None
    nf, nt = (f + 63) // 64, (t + 63) // 64
    full = nt <= k // 64 + nf + (1 if (f + k % 64 + 63) // 64 != nf and k % 64 else 0)
    def h(it, a, dbg):
        okptr(*a)
        if type(a[0]) is Ptr and type(a[1]) is Ptr and a[0].obj is a[1].obj: raise NoSummary
        P = rdw(it, a[0], f, dbg)
        it.write_wide(a[1], t, pscale(umod(P, f), 1 << k), dbg)
    def v(r, fn):
        p, A = r.wide('a', f); q = r.wideout('b', t)
        r.call(fn, [p, q])
        R = r.gwide(q, 0, t)
        r.zero(psub(R, pscale(A, 1 << k)), 'left shift')
    return h, v

@spec(r'^void resize<(\d+), (\d+)>\(Z_Q<\d+> const&, Z_Q<\d+>&\)$')
def s_rs(m):
    f, t = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        if type(a[0]) is Ptr and type(a[1]) is Ptr and a[0].obj is a[1].obj: raise NoSummary
        P = rdw(it, a[0], f, dbg)
        it.write_wide(a[1], t, cmod(P, f) if t > f else P, dbg)
    def v(r, fn):
        p, A = r.wide('a', f); q = r.wideout('b', t)
        r.call(fn, [p, q])
        R = r.gwide(q, 0, t)
        C = psub(A, pscale(ge0(paddc(A, -(1 << (f - 1)))), 1 << f))
        r.zero(psub(R, C), 'centred resize', t); r.canonical(q, 0, t, 'canonical resize')
    return h, v

# ---------------------------------------------------------------- comparison
@spec(r'^bool (?:\(anonymous namespace\)::)?cmpge<(\d+)>\(Z_Q<\d+> const&, Z_Q<\d+> const&\)$')
def s_cmp(m):
    w = _i(m, 1)
    def h(it, a, dbg):
        okptr(*a)
        A = umod(rdw(it, a[0], w, dbg), w); B = umod(rdw(it, a[1], w, dbg), w)
        return it.mkb(ge0(psub(A, B)))
    def v(r, fn):
        p, A = r.wide('a', w); q, B = r.wide('b', w)
        R = r.call(fn, [p, q])
        R = to_u(R, 1)[0]
        r.zero(psub(R, ge0(psub(A, B))), 'comparison')
    return h, v

# ---------------------------------------------------------------- words
@spec(r'^mul\(unsigned long, unsigned long, unsigned long&, unsigned long&\)$')
def s_mul64(m):
    def h(it, a, dbg):
        X = to_u(it.und(a[0], ('i', 64)), 64)[0]; Y = to_u(it.und(a[1], ('i', 64)), 64)[0]
        P = pmul(X, Y)
        H = fl(P, 1 << 64)
        T = ('i', 64)
        it.store(a[3], T, mkint(H, 0, (1 << 64) - 1, 64), dbg)
        it.store(a[2], T, mkint(psub(P, pscale(H, 1 << 64)), 0, (1 << 64) - 1, 64), dbg)
    def v(r, fn):
        x, X = r.word('x'); y, Y = r.word('y')
        lo = r.out_words('lo', 1); hi = r.out_words('hi', 1)
        r.call(fn, [x, y, lo, hi])
        L = r.gwords(lo, 1)[0]; H = r.gwords(hi, 1)[0]
        r.zero(psub(padd(L, pscale(H, 1 << 64)), pmul(X, Y)), 'two-word product')
    return h, v

# ---------------------------------------------------------------- CRT and NTT setup
import nt
_ROOTS = {}
def least_generator(p):
    g = _ROOTS.get(p)
    if g is None:
        fs = nt.factors(p - 1)
        g = next(r for r in range(2, p) if all(pow(r, (p - 1) // f, p) != 1 for f in fs)) if p > 2 else 0
        _ROOTS[p] = g
    return g

SMOOTH = [2 ** 4 * 3 * 7 ** 2 * 11 + 1, 65537, 786433, 12289, 97, 193, 257, 40961, 163841, 7340033, 581632099614720001, 1669224775680000001]

@spec(r'^(?:\(anonymous namespace\)::)?findPrimitiveRoot\(unsigned long\)$')
def s_root(m):
    def h(it, a, dbg):
        p = a[0]
        if type(p) is not int or p < 3 or not nt.is_prime(p): raise NoSummary
        return least_generator(p)
    def v(r, fn):
        for p in [p for p in range(3, 120) if nt.is_prime(p)] + [p for p in SMOOTH if nt.is_prime(p)]:
            x = r.call(fn, [p])
            r.out.checks += 1
            if x != least_generator(p): r.out.undecided('least generator modulo %d' % p); return
            r.out.discharged += 1
    return h, v

def crt_tables(it, c, L):
    """primes of a CRT object whose tables are those of the constructor"""
    W = L + 1
    def wide(off):
        v = it.read_wide(it.ptr_add(c, off, None, None), 64 * W)
        if not v.isconst(): raise NoSummary
        return v.const() % (1 << (64 * W))
    def word(off):
        v = it.load(it.ptr_add(c, off, None, None), ('i', 64))
        if type(v) is not int: raise NoSummary
        return v
    if c.obj.size - c.off < 8 * (W + L + W * L + L): raise NoSummary
    q = [word(8 * (W + i)) for i in range(L)]
    Q = 1
    for x in q: Q *= x
    if wide(0) != Q: raise NoSummary
    for i in range(L):
        if q[i] < 3 or wide(8 * (W + L + W * i)) != Q // q[i]: raise NoSummary
        if word(8 * (W + L + W * L + i)) * (Q // q[i]) % q[i] != 1: raise NoSummary
    return q

def lift_words(R, q):
    """centered integer with residues R modulo the primes q"""
    Q = 1
    for x in q: Q *= x
    P = ZERO
    for i, x in enumerate(q):
        m = Q // x
        P = padd(P, pscale(dom.rem(pmul(R[i], pc(pow(m, -1, x))), x), m))
    K = ZERO
    for k in range(1, len(q) + 1):
        K = padd(K, ge0(paddc(P, -(((2 * k - 1) * Q + 1) // 2))))
    return psub(P, pscale(K, Q))

def crt_driver(r, fn, L, w, rest):
    """CRT object built by the constructor of the module"""
    c = Ptr(r.obj(8 * ((L + 1) * (L + 1) + 2 * L), 'crt'), 0)
    q = tables(r.mod)
    if not q or len(q) < L: q = nt.primes_1mod(1 << 18, 1 << 60, L)
    t = r.out_words('primes', L)
    for i in range(L): r.it.store(Ptr(t.obj, 8 * i), ('i', 64), q[i])
    ctor = r.mod.find('CRT<%d, %d>::CRT(unsigned long const*)' % (L, w))
    if ctor is None: raise Undecided('no constructor')
    r.call(ctor, [c, t])
    if crt_tables(r.it, c, L) != list(q[:L]): raise Undecided('tables')
    c.obj.ro = True
    return c, list(q[:L])

def tables(mod):
    """the prime table of the wide product"""
    from ir import ConstAgg
    for n, d in mod.globals.items():
        if 'x i64]' not in d: continue
        vals = [int(x) for x in re.findall(r'i64 (-?\d+)', d)]
        if len(vals) >= 8 and all(x % 2 and x > 1 << 40 for x in vals): return vals
    return None

@spec(r'^CRT<(\d+), (\d+)>::icrt\(Z_Q<\d+> const&, unsigned long\*\) const$', '::negate(', '::Z_Q(Z_Q', '::is_bigger')
def s_icrt(m):
    L, w = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        q = crt_tables(it, a[0], L)
        C = cmod(rdw(it, a[1], w, dbg), w)
        neg = ge0(paddc(pneg(C), -1))
        for i in range(L):
            # a residue in [0,q]: q itself represents 0 for a negative multiple of q
            R = dom.rem(C, q[i])
            z = pmul(neg, eq0(R)) if not R.isconst() else (neg if R.const() == 0 else ZERO)
            it.store(it.ptr_add(a[2], 8 * i, None, None), ('i', 64), mkint(padd(R, pscale(z, q[i])) if z.d else R, 0, q[i], 64), dbg)
    def v(r, fn):
        c, q = crt_driver(r, fn, L, w, None)
        p, A = r.wide('A', w)
        A = psub(A, pscale(ge0(paddc(A, -(1 << (w - 1)))), 1 << w))
        o = r.out_words('r', L)
        r.call(fn, [c, p, o])
        R = r.gwords(o, L)
        for i in range(L):
            r.in_range(R[i], 0, q[i], 'residue')
            import p_C04
            p_C04.congruent(r, psub(R[i], A), q[i], 'residue')
    return h, v

@spec(r'^CRT<(\d+), (\d+)>::crt\(unsigned long const\*, Z_Q<\d+>&\) const$', '::negate(', '::Z_Q(Z_Q', '::operator', 'cmpge', 'resize', '::setzero', 'mul(unsigned')
def s_crt(m):
    L, w = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        q = crt_tables(it, a[0], L)
        R = [to_u(it.und(it.load(it.ptr_add(a[1], 8 * i, None, None), ('i', 64)), ('i', 64)), 64)[0] for i in range(L)]
        X = joint(R, q)
        if X is None: raise NoSummary
        it.write_wide(a[2], w, X, dbg)
    def v(r, fn):
        c, q = crt_driver(r, fn, L, w, None)
        rs, R = r.words('r', L, ro=True)
        a = r.wideout('A', w)
        r.call(fn, [c, rs, a])
        r.zero(psub(r.gwide(a, 0, w), lift_words(R, q)), 'integer reconstructed from residues', w)
        r.canonical(a, 0, w, 'canonical result')
    return h, v

def joint(R, q):
    """polynomial X with X = R[i] modulo q[i] for all i and |X| < Q/2, or None"""
    Q = 1
    for x in q: Q *= x
    N = [dom.cnorm(R[i], q[i]) for i in range(len(q))]
    ms = set()
    for p in N: ms |= set(p.d)
    cs = [pow(Q // x, -1, x) * (Q // x) for x in q]
    d = {}
    for mm in ms:
        v = sum(p.d.get(mm, 0) * k for p, k in zip(N, cs)) % Q
        if v > Q // 2: v -= Q
        if v: d[mm] = v
    X = dom.Poly(d)
    if any(dom.ATOMS[i].kind == 'rem' for i in dom.patoms(X)): return None
    lo, hi = prange(X)
    if not (2 * lo > -Q and 2 * hi < Q): return None
    return X

# ---------------------------------------------------------------- polynomial products
def nega(A, B, N, k):
    P = ZERO
    for i in range(N):
        x = A[i]
        if not x.d: continue
        t = pmul(x, B[(k - i) % N])
        P = padd(P, t) if i <= k else psub(P, t)
    return P

def zsz(w): return 8 * ((w + 63) // 64)

def rdpoly(it, p, w, N, dbg):
    return [rdw(it, it.ptr_add(p, zsz(w) * i, None, None), w, dbg) for i in range(N)]

def wrpoly(it, p, w, N, Ps, dbg):
    for i in range(N):
        it.write_wide(it.ptr_add(p, zsz(w) * i, None, None), w, wnorm(Ps[i], w), dbg)

def disjoint(p, q, size):
    return p.obj is not q.obj or p.off + size <= q.off or q.off + size <= p.off

def rdternary(it, p, N):
    out = []
    for i in range(N):
        v = it.load(it.ptr_add(p, 4 * i, None, None), ('i', 32))
        if v is UNDEF: raise NoSummary
        P, lo, hi = interp.to_s(v, 32)
        if lo < -1 or hi > 1: raise NoSummary
        out.append(P)
    return out

CONVSUB = ('CRT<', 'findPrimitiveRoot')

@spec(r'^void conv<(\d+), (\d+)>\(int const\*, R_Q<\d+, \d+> const&, R_Q<\d+, \d+>&\)$', 'Z_Q<')
def s_convt(m):
    w, N = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        if not disjoint(a[1], a[2], zsz(w) * N): raise NoSummary
        s = rdternary(it, a[0], N); A = rdpoly(it, a[1], w, N, dbg)
        wrpoly(it, a[2], w, N, [nega(s, A, N, k) for k in range(N)], dbg)
    def v(r, fn):
        p, s = r.ints('s', N, -1, 1); q, A = r.poly('a', w, N)
        o = Ptr(r.obj(zsz(w) * N, 'c'), 0)
        r.call(fn, [p, q, o])
        R = r.gpoly(o, w, N)
        for k in range(N):
            r.zero(psub(R[k], nega(s, A, N, k)), 'coefficient %d of the ternary product' % k, w)
            r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        r.events()
    return h, v

@spec(r'^void conv<(\d+), (\d+)>\(R_Q<\d+, \d+> const&, R_Q<\d+, \d+> const&, R_Q<\d+, \d+>&\)$', 'Z_Q<', 'CRT<', 'cmpge', 'resize', 'findPrimitiveRoot')
def s_convw(m):
    w, N = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        if not disjoint(a[1], a[2], zsz(w) * N) or not disjoint(a[0], a[2], zsz(w) * N): raise NoSummary
        A = rdpoly(it, a[0], w, N, dbg); B = rdpoly(it, a[1], w, N, dbg)
        wrpoly(it, a[2], w, N, [nega(A, B, N, k) for k in range(N)], dbg)
    def v(r, fn):
        def cp(name):
            o = r.obj(zsz(w) * N, name, ro=True); Ps = []
            for i in range(N):
                P = dom.var('%s[%d]' % (name, i), -(1 << (w - 1)), (1 << (w - 1)) - 1)
                o.cells[zsz(w) * i] = (zsz(w), WV(P, w)); Ps.append(P)
            o.maxsz = max(8, zsz(w)); o.gran = zsz(w)
            return Ptr(o, 0), Ps
        for rd in range(2):
            p, A = cp('a%d' % rd); q, B = cp('b%d' % rd) if rd == 0 else (p, A)
            o = Ptr(r.obj(zsz(w) * N, 'c'), 0)
            r.call(fn, [p, q, o])
            R = r.gpoly(o, w, N)
            for k in range(N):
                r.zero(psub(R[k], nega(A, B, N, k)), 'coefficient %d of the wide product' % k, w)
                r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        r.events()
    return h, v

# ---------------------------------------------------------------- encryption
def fresh_enc(it, w, N, s, pt, tag):
    it.nrand += 1
    a = [dom.var('mask%d[%d]' % (it.nrand, k), 0, (1 << w) - 1) for k in range(N)]
    e = [dom.var('noise%d[%d]' % (it.nrand, k), -8, 8) for k in range(N)]
    b = [psub(padd(pt[k], e[k]), nega(s, a, N, k)) for k in range(N)]
    return b, a, e

@spec(r'^HEAAN<(\d+), (\d+)>::enc\(R_Q<\d+, \d+> const&, int const\*, R_Q_square<\d+, \d+>&\)$', 'Z_Q<', 'void conv<')
def s_enc(m):
    w, N = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        okptr(*a)
        if it.par is not None: raise NoSummary
        if a[0].obj is a[2].obj: raise NoSummary
        s = rdternary(it, a[1], N); P = rdpoly(it, a[0], w, N, dbg)
        b, c, e = fresh_enc(it, w, N, s, P, 'enc')
        wrpoly(it, a[2], w, N, b, dbg)
        wrpoly(it, it.ptr_add(a[2], zsz(w) * N, None, None), w, N, c, dbg)
    def v(r, fn):
        import p_C07
        p, s = r.ints('s', N, -1, 1); q, M = r.poly('m', w, N)
        o = Ptr(r.obj(2 * zsz(w) * N, 'ct'), 0)
        r.call(fn, [q, p, o])
        p_C07.fresh(r, o, w, N, s, M)
        r.events()
    return h, v

def names():
    return [rx.pattern for rx, f in SPECS]

class Summaries:
    """summary provider for an Interp; verifies a summary on first use"""
    def __init__(self, mod, specs=None, exclude=(), only=None, verify=True, cache=None):
        self.mod = mod
        self.specs = SPECS if specs is None else specs
        self.exclude = exclude
        self.only = only
        self.cache = cache if cache is not None else {}   # mangled -> handler or None
        self.used = {}
        self.verify = verify
        self.rejected = []
        self.pending = []

    def __call__(self, it, name, dem):
        if name in self.cache:
            return self.cache[name]
        self.cache[name] = None
        for rx, f in self.specs:
            m = rx.match(dem)
            if m is None: continue
            if any(e in dem for e in self.exclude): break
            if self.only is not None and not any(e in dem for e in self.only): break
            if name not in self.mod.funcs: break
            hv = f(m)
            if hv is None: break
            self.cache[name] = hv[0]
            break
        return self.cache[name]

def verify_summary(mod, name, specs=None, limit=60, subs=None):
    """discharge the body of `name` against its specification: (status, outcome)"""
    dem = mod.dem.get(name, name)
    for rx, f in (specs or SPECS):
        m = rx.match(dem)
        if m is None: continue
        hv = f(m)
        if hv is None: return None
        out = ob.Outcome('summary ' + dem)
        try:
            # inside the body of a summarised function only summaries of simpler functions are used
            s = Summaries(mod, only=f.subs) if subs is None else subs
            r = ob.Run(mod, s, out, timelimit=limit)
            r.fname = name
            hv[1](r, name)
            out.subs = set(r.it.sums_used)
            out.stats['impure'] = bool(r.it.globals_written or r.it.effects or r.it.effects_rand or r.it.parallel_regions)
        except interp.Dead:
            out.undecided('no normal return')
        except (Undecided, dom.TooBig, interp.Budget) as e:
            out.undecided('%s' % e)
        if not hasattr(out, 'subs'): out.subs = set()
        ob.collect(out)
        return out
    return None
