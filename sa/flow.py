"""Scale flow of ciphertext pipelines.

Inside a pipeline (polynomial evaluation, linear transforms, bootstrapping) the operations Mul, RS, ks and encode are
replaced by their contracts (each verified on its own body): the result is an encryption, with a fresh mask, of a *node*:
an integer v = P/2^K + n where P is a polynomial in earlier nodes and base unknowns and n a bounded error.  The graph of
nodes is then evaluated with Chebyshev models (a Chebyshev expansion in the base unknowns plus an error radius)."""
import math, random
from fractions import Fraction
import dom, interp, ob, phase, sums
from dom import Poly, pc, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ATOMS, Undecided, TooBig
from interp import Ptr, SV, RV, WV, NoSummary, umod, cmod, wnorm
from sums import spec, nega, zsz, rdpoly, wrpoly, disjoint, okptr, _i, same

class MaskDep(Exception): pass

# ------------------------------------------------------------------ Chebyshev models
class M:
    """sum of c * prod T_d(x_v), |x_v|<=1, within +-err"""
    __slots__ = ('d', 'e')
    def __init__(self, d=None, e=0.): self.d = d or {}; self.e = e
    def rng(self):
        return sum(abs(c) for c in self.d.values())
    def bound(self): return self.rng() + self.e
    def sup(self):
        """bound of the main part on [-1,1]; in one variable from values at Chebyshev nodes (Ehlich and Zeller: for degree
        n < m nodes, sup |p| <= max over the nodes of |p| / cos(pi n / (2 m)))"""
        r = self.rng()
        if len(self.d) < 4: return r
        v = None; n = 0
        for k in self.d:
            if len(k) > 1: return r
            if k:
                if v is None: v = k[0][0]
                elif v != k[0][0]: return r
                if k[0][1] > n: n = k[0][1]
        if n > 4000: return r
        m = 16
        while m < 6 * n: m *= 2
        c = [0.] * m
        for k, x in self.d.items(): c[k[0][1] if k else 0] += x
        top = max(abs(y) for y in nodevals(c))
        return min(r, (top + r * 1e-13) / math.cos(math.pi * n / (2 * m)) * (1 + 1e-12))

def fft(a, inv=False):
    n = len(a)
    if n == 1: return a
    b, c = fft(a[::2], inv), fft(a[1::2], inv)
    w = TW.get(n)
    if w is None: w = TW[n] = [complex(math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)) for k in range(n // 2)]
    t = [x * y for x, y in zip(w, c)]
    return [x + y for x, y in zip(b, t)] + [x - y for x, y in zip(b, t)]
TW = {}
def nodevals(c):
    """values of sum c_k T_k at cos(pi (j + 1/2) / m), j < m"""
    m = len(c)
    z = [x * complex(math.cos(math.pi * k / (2 * m)), math.sin(math.pi * k / (2 * m))) for k, x in enumerate(c)] + [0j] * m
    return [y.real for y in fft(z)[:m]]

EPS = 1.2e-16
def madd(a, b, s=1.):
    d = dict(a.d)
    for k, c in b.d.items(): d[k] = d.get(k, 0.) + s * c
    return M(d, a.e + abs(s) * b.e + EPS * max(a.bound() if len(a.d) < 4 else 0, 0))

def mscale(a, s): return M({k: c * s for k, c in a.d.items()}, a.e * abs(s))
def mconst(c): return M({(): float(c)} if c else {}, abs(c) * EPS)

def kmul(k1, k2):
    """product of two basis elements: list of (key, factor)"""
    if not k1: return ((k2, 1.),)
    if not k2: return ((k1, 1.),)
    if len(k1) == 1 and len(k2) == 1 and k1[0][0] == k2[0][0]:
        v = k1[0][0]; a, b = k1[0][1], k2[0][1]
        lo = abs(a - b)
        return ((((v, a + b),), .5), ((((v, lo),) if lo else ()), .5))
    m1 = dict(k1); out = [({}, 1.)]
    m2 = dict(k2)
    for v in set(m1) | set(m2):
        a, b = m1.get(v, 0), m2.get(v, 0)
        if a and b:
            new = []
            for d, f in out:
                x = dict(d); x[v] = a + b; new.append((x, f * .5))
                x = dict(d)
                if a != b: x[v] = abs(a - b)
                new.append((x, f * .5))
            out = new
        else:
            for d, f in out: d[v] = a or b
    return [(tuple(sorted(d.items())), f) for d, f in out]

LIMIT = 60000
def mmul(a, b):
    ra, rb = a.rng(), b.rng()
    if len(a.d) * len(b.d) > 4000000: raise TooBig('model product')
    d = {}
    for k1, c1 in a.d.items():
        for k2, c2 in b.d.items():
            c = c1 * c2
            for k, f in kmul(k1, k2):
                d[k] = d.get(k, 0.) + c * f
    e = ra * rb * EPS * 2
    if a.e or b.e:
        sa = a.sup(); sb = sa if b is a else b.sup()
        e += a.e * sb + b.e * sa + a.e * b.e
    # prune
    cut = ra * rb * 1e-19
    s = 0.; keep = {}
    for k, c in d.items():
        if -cut < c < cut: s += abs(c)
        else: keep[k] = c
    if len(keep) > LIMIT: raise TooBig('model')
    return M(keep, e + s)

def meval(m, x):
    """value at an assignment var -> [-1,1]"""
    s = 0.
    for k, c in m.d.items():
        p = c
        for v, d in k: p *= math.cos(d * math.acos(max(-1., min(1., x[v]))))
        s += p
    return s

def mvars(m):
    out = set()
    for k in m.d:
        for v, d in k: out.add(v)
    return out

def cheb1(v, f, n):
    """model in the single base unknown v of a smooth function f on [-1,1] by interpolation at n nodes"""
    import cmath
    y = [f(math.cos(math.pi * (j + .5) / n)) for j in range(n)]
    d = {}
    for k in range(n):
        c = 2. / n * sum(y[j] * math.cos(math.pi * k * (j + .5) / n) for j in range(n))
        if k == 0: c /= 2
        if abs(c) > 1e-18: d[((v, k),) if k else ()] = c
    tail = sum(abs(d.get(((v, k),), 0.)) for k in range(n * 3 // 4, n))
    return M(d, 4 * tail)

# ------------------------------------------------------------------ nodes
class Flow:
    def __init__(self, r, secret, N):
        self.it = r.it; self.r = r
        self.s = list(secret); self.N = N
        self.S = [pc(v) for v in self.s]
        self.S2 = [nega(self.S, self.S, N, k) for k in range(N)]
        self.h = sum(abs(v) for v in secret)
        self.nodes = {}     # atom id -> (P, K, err, what)
        self.memo = {}
        self.res = phase.Resolver()
        self.masks = set()
        self.count = {'mul': 0, 'rs': 0, 'ks': 0, 'encode': 0}
        r.it.flow = self

    def phase(self, C, w):
        out = []
        for k in range(self.N):
            P = wnorm(padd(C[0][k], nega(self.S, C[1], self.N, k)), w)
            out.append(P)
        return out

    def resolve(self, P, w):
        R, K = self.res.poly(P, w)
        mod = 1 << (w + K)
        h = mod >> 1
        d = {}
        for mo, c in R.d.items():
            if isinstance(c, int):
                c %= mod
                if c > h: c -= mod
                if not c: continue
            d[mo] = c
        return Poly(d), K

    def node(self, P, K=0, err=0., what=''):
        if K == 0 and err == 0:
            if not P.d: return P
            if len(P.d) == 1:
                (mo, c), = P.d.items()
                if len(mo) <= 1: return P
        v = dom.var('v%d' % (len(self.nodes) + 1), -(1 << 2400), 1 << 2400)
        (mo,) = v.d
        self.nodes[mo[0]] = (P, K, err, what)
        return v

    def named(self, P, w):
        R, K = self.resolve(P, w)
        return self.node(R, K)

    def fresh(self, w, Vs, tag):
        """ciphertext of the nodes Vs under the secret with a fresh mask"""
        n = len(self.masks)
        a = []
        for k in range(self.N):
            v = dom.var('mask_%s%d[%d]' % (tag, n, k), 0, (1 << w) - 1)
            (mo,) = v.d
            self.masks.add(mo[0]); a.append(v)
        b = [psub(Vs[k], nega(self.S, a, self.N, k)) for k in range(self.N)]
        return b, a

    def keyphase(self, kb, ka, w):
        """(F, ok): the switching key encrypts 2^w F + e with |e| <= 8"""
        F = []
        for k in range(self.N):
            X = wnorm(padd(kb[k], nega(self.S, ka, self.N, k)), 2 * w)
            mod = 1 << (2 * w)
            f = {}; e = {}
            for mo, c in X.d.items():
                if not isinstance(c, int): raise NoSummary
                if 2 * c >= mod: c -= mod
                # nearest multiple of 2^w
                q = (c + (1 << (w - 1))) >> w
                if q: f[mo] = q
                if c - (q << w): e[mo] = c - (q << w)
            lo, hi = prange(Poly(e))
            if lo < -8 or hi > 8:
                # a noise with a sign: gate*(..) forms
                E, j = phase.unstep(Poly(e)); E, j2 = phase.signs(E)
                lo, hi = prange(E)
                if lo < -8 << (j + j2) or hi > 8 << (j + j2): raise NoSummary
            F.append(Poly(f))
        return F

    # -------------------------------------------------- evaluation
    def base(self, i):
        A = ATOMS[i]
        if i in self.masks or A.hi - A.lo > 1 << 900 or A.name.startswith('mask'): raise MaskDep(A.name)
        m = (A.hi + A.lo) / 2; h = (A.hi - A.lo) / 2
        d = {((i, 1),): float(h)}
        if m: d[()] = float(m)
        return M(d)

    def atom(self, i):
        m = self.memo.get(i)
        if m is None:
            A = ATOMS[i]
            if i in self.nodes:
                P, K, err, what = self.nodes[i]
                m = mscale(self.poly(P), 2. ** -K)
                m.e += err
            elif A.kind == 'var':
                if (A.name.startswith('psi') or A.name.startswith('noise') or A.name.startswith('signed') or '_e[' in A.name or A.name.startswith('phi')):
                    h = max(abs(A.lo), abs(A.hi)); m = M({}, float(h))
                else: m = self.base(i)
            elif A.kind == 'fl':
                L, d = A.args
                if isinstance(d, Poly): raise Undecided('floor by a polynomial')
                x = mscale(self.poly(L), 1. / d)
                m = madd(x, mconst(-.5)); m.e += .5
            elif A.kind == 'uf' and A.name in ('round', 'rint'):
                x = self.poly(A.args[0]); m = M(dict(x.d), x.e + .5)
            elif A.kind == 'uf' and A.name in ('floor', 'ceil'):
                x = self.poly(A.args[0]); m = madd(x, mconst(-.5 if A.name == 'floor' else .5)); m.e += .5
            elif A.kind in ('umod', 'cmod', 'nm'):
                raise MaskDep(A.name or A.kind) if self.hasmask(i) else Undecided('unresolved residue')
            elif A.lo is not None and A.hi - A.lo <= 64:
                h = (A.hi - A.lo) / 2.; m = mconst((A.hi + A.lo) / 2.); m.e += h
            else: raise Undecided('atom %s' % dom.pstr(dom.pa(i) if hasattr(dom, 'pa') else ZERO, 2))
            self.memo[i] = m
        return m

    def hasmask(self, i, seen=None):
        return any(j in self.masks or ATOMS[j].name.startswith('mask') for j in dom.base_vars(Poly({(i,): 1})))

    def poly(self, P):
        acc = {}; e = 0.
        big = 0.
        for mo, c in P.d.items():
            c = float(c)
            if not mo:
                acc[()] = acc.get((), 0.) + c; continue
            m = self.atom(mo[0])
            for i in mo[1:]: m = mmul(m, self.atom(i))
            for k, x in m.d.items(): acc[k] = acc.get(k, 0.) + c * x
            e += abs(c) * m.e
            big += abs(c) * m.rng()
        return M(acc, e + big * EPS)

    def maskdiff(self, R, K, w, tol):
        """the largest difference modulo 2^w between values of R for two choices of the masks, all else equal"""
        rnd = random.Random(11)
        order = list(self.nodes)
        vs = set(dom.base_vars(R))
        for i in order: vs |= dom.base_vars(self.nodes[i][0])
        vs = sorted(vs - set(order))
        def ismask(i): return i in self.masks or ATOMS[i].name.startswith('mask') or ATOMS[i].hi - ATOMS[i].lo > 1 << 900
        def value(base):
            env = dict(base)
            for i in order:
                P, k, err, what = self.nodes[i]
                env[i] = Fraction(dom.ev(P, env)) / (1 << k) if k else dom.ev(P, env)
            return Fraction(dom.ev(R, env)) / (1 << K)
        best = 0
        for t in range(4):
            base = {}
            for i in vs:
                A = ATOMS[i]
                base[i] = rnd.randint(A.lo, A.hi) if A.isint else rnd.uniform(max(A.lo, -1e3), min(A.hi, 1e3))
            try:
                a = value(base)
                for i in vs:
                    if ismask(i): base[i] = rnd.randint(ATOMS[i].lo, ATOMS[i].hi)
                b = value(base)
            except (dom.EvalError, TypeError, OverflowError, ValueError):
                return None
            d = (a - b) % (1 << w)
            if 2 * d > 1 << w: d -= 1 << w
            best = max(best, abs(d))
        return float(best) if best > 2 * tol + 1 else None

    def check(self, P, w, X, tol, what, wrap=True):
        """P (modulo 2^w) equals the model X within tol"""
        r = self.r; out = r.out
        out.checks += 1
        if out.status == 'refuted': return False
        try:
            R, K = self.resolve(P, w)
            m = mscale(self.poly(R), 2. ** -K)
        except MaskDep as ex:
            d = self.maskdiff(R, K, w, tol)
            if d is None:
                out.undecided('%s: encryption mask %s not shown to cancel' % (what, ex)); return False
            loc, fn = r.site()
            out.refute('%s: depends on the encryption mask %s (two masks give results %.6g apart, allowed %.3g)' % (what, ex, d, tol), {}, loc, fn)
            return False
        except (TooBig, Undecided) as ex:
            out.undecided('%s: %s' % (what, ex)); return False
        D = madd(m, X, -1.)
        if wrap and X.bound() + tol >= 2. ** (w - 1):
            out.undecided('%s: the expected value does not fit the modulus' % what); return False
        if D.bound() <= tol:
            out.discharged += 1
            return True
        vs = sorted(mvars(D))
        rnd = random.Random(7)
        best = None
        for t in range(400):
            x = {v: (1. if t == 0 else -1. if t == 1 else 0. if t == 2 else rnd.choice((-1., 1., 0., rnd.uniform(-1, 1), rnd.uniform(-1, 1)))) for v in vs}
            d = meval(D, x)
            if best is None or abs(d) > abs(best[0]): best = (d, x)
        if best and abs(best[0]) - D.e > tol:
            d, x = best
            env = {}
            for v in vs[:40]:
                A = ATOMS[v]
                env[A.name] = dom.fmtnum((A.hi + A.lo) / 2. + x[v] * (A.hi - A.lo) / 2.)
            xs = dict(x)
            for v in mvars(X): xs.setdefault(v, 0.)
            loc, fn = r.site()
            out.refute('%s: is %.10g, should be %.10g (error bound %.3g, allowed %.3g)' % (what, meval(X, xs) + d, meval(X, xs), D.e, tol), env, loc, fn)
            return False
        out.undecided('%s: difference up to %.3g with error %.3g, allowed %.3g' % (what, D.rng(), D.e, tol))
        return False

# ------------------------------------------------------------------ contracts
def flow(it):
    f = getattr(it, 'flow', None)
    if f is None or it.par is not None: raise NoSummary
    return f

def B(N): return N * 8.5 + 1

def vkey(r, N):
    if N <= 2: return [dom.var('s[%d]' % k, -1, 1) for k in range(N)]
    import p_C18
    return p_C18.key(r, 's', N, 2)[1]

SUB = ('Z_Q<', 'void conv<', 'CRT<', 'findPrimitiveRoot', 'cmpge', 'resize', 'shift_')

@spec(r'^void Mul<(\d+), (\d+)>\(', *SUB)
def s_flowmul(m):
    w, N = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        f = flow(it)
        if f.N != N: raise NoSummary
        okptr(*a)
        sz = 2 * N * zsz(w)
        for p in a[:2]:
            if not disjoint(p, a[3], sz): raise NoSummary
        rd = lambda p, w_, j: rdpoly(it, it.ptr_add(p, zsz(w_) * N * j, None, None), w_, N, dbg)
        b1, a1, b2, a2 = rd(a[0], w, 0), rd(a[0], w, 1), rd(a[1], w, 0), rd(a[1], w, 1)
        F = f.keyphase(rd(a[2], 2 * w, 0), rd(a[2], 2 * w, 1), w)
        V1 = [f.named(P, w) for P in f.phase((b1, a1), w)]
        V2 = V1 if same(a[0], a[1]) else [f.named(P, w) for P in f.phase((b2, a2), w)]
        D = [psub(F[k], f.S2[k]) for k in range(N)]
        X = [nega(V1, V2, N, k) for k in range(N)]
        if any(d.d for d in D):
            AA = [nega(a1, a2, N, k) for k in range(N)]
            X = [padd(X[k], nega(D, AA, N, k)) for k in range(N)]
        Vs = [f.node(X[k], 0, B(N), 'Mul') for k in range(N)]
        b, c = f.fresh(w, Vs, 'mul'); f.count['mul'] += 1
        wrpoly(it, a[3], w, N, b, dbg); wrpoly(it, it.ptr_add(a[3], zsz(w) * N, None, None), w, N, c, dbg)
    def v(r, fn):
        import p_C18
        s = vkey(r, N)
        F = [dom.var('f[%d]' % k, -2 * N, 2 * N) for k in range(N)]
        kp, kb, ka, e = p_C18.swk(r, 'evk', w, N, s, F)
        x, X = r.pair('x', w, N); y, Y = r.pair('y', w, N)
        for (p, P), (q, Q) in (((x, X), (y, Y)), ((x, X), (x, X))):
            o = Ptr(r.obj(2 * zsz(w) * N, 'z'), 0)
            r.call(fn, [p, q, kp, o])
            R = r.gpair(o, w, N)
            bb = [nega(P[0], Q[0], N, k) for k in range(N)]
            ab = [padd(nega(P[0], Q[1], N, k), nega(P[1], Q[0], N, k)) for k in range(N)]
            aa = [nega(P[1], Q[1], N, k) for k in range(N)]
            for k in range(N):
                T = padd(padd(bb[k], nega(s, ab, N, k)), nega(F, aa, N, k))
                phase.bounded(r, psub(p_C18.pairphase(R, s, N, k), T), w, B(N), 'product, coefficient %d' % k)
                for j in range(2): r.canonical(o, zsz(w) * (N * j + k), w, 'canonical coefficient')
        r.events()
    return h, v

@spec(r'^void RS<(\d+), (\d+), (\d+)>\(', *SUB)
def s_flowrs(m):
    w, t, N = _i(m, 1), _i(m, 2), _i(m, 3)
    def h(it, a, dbg):
        f = flow(it)
        if f.N != N or t >= w: raise NoSummary
        okptr(*a)
        if a[0].obj is a[1].obj: raise NoSummary
        rd = lambda j: rdpoly(it, it.ptr_add(a[0], zsz(w) * N * j, None, None), w, N, dbg)
        Vs = []
        for P in f.phase((rd(0), rd(1)), w):
            R, K = f.resolve(P, w)
            Vs.append(f.node(R, K + w - t, (1 + f.h) / 2., 'RS'))
        b, c = f.fresh(t, Vs, 'rs'); f.count['rs'] += 1
        wrpoly(it, a[1], t, N, b, dbg); wrpoly(it, it.ptr_add(a[1], zsz(t) * N, None, None), t, N, c, dbg)
    def v(r, fn):
        import p_C18
        if t >= w: raise Undecided('not a rescale')
        s = vkey(r, N)
        x, X = r.pair('x', w, N)
        o = Ptr(r.obj(2 * zsz(t) * N, 'y'), 0)
        r.call(fn, [x, o])
        R = r.gpair(o, t, N)
        hh = N if N <= 2 else sum(1 for p in s if p.d)
        for k in range(N):
            E = psub(pscale(p_C18.pairphase(R, s, N, k), 1 << (w - t)), p_C18.pairphase(X, s, N, k))
            phase.bounded(r, E, w, ((1 + hh) << (w - t)) // 2, 'rescaled, coefficient %d' % k)
            for j in range(2): r.canonical(o, zsz(t) * (N * j + k), t, 'canonical coefficient')
        r.events()
    return h, v

@spec(r'^HEAAN<(\d+), (\d+)>::ks\(', *(SUB + ('void RS<',)))
def s_flowks(m):
    w, N = _i(m, 1), _i(m, 2)
    def h(it, a, dbg):
        f = flow(it)
        if f.N != N: raise NoSummary
        okptr(*a)
        rd = lambda p, w_, j: rdpoly(it, it.ptr_add(p, zsz(w_) * N * j, None, None), w_, N, dbg)
        F = f.keyphase(rd(a[0], 2 * w, 0), rd(a[0], 2 * w, 1), w)
        b, c = rd(a[1], w, 0), rd(a[1], w, 1)
        Vs = []
        for k in range(N):
            R, K = f.resolve(padd(b[k], nega(F, c, N, k)), w)
            Vs.append(f.node(R, K, B(N), 'ks'))
        b, c = f.fresh(w, Vs, 'ks'); f.count['ks'] += 1
        wrpoly(it, a[1], w, N, b, dbg); wrpoly(it, it.ptr_add(a[1], zsz(w) * N, None, None), w, N, c, dbg)
    def v(r, fn):
        import p_C18
        s = vkey(r, N)
        F = [dom.var('f[%d]' % k, -2, 2) for k in range(N)]
        kp, kb, ka, e = p_C18.swk(r, 'swk', w, N, s, F)
        c, C = r.pair('c', w, N, ro=False)
        r.call(fn, [kp, c])
        R = r.gpair(c, w, N)
        for k in range(N):
            phase.bounded(r, psub(p_C18.pairphase(R, s, N, k), p_C18.pairphase(C, F, N, k)), w, B(N), 'switched, coefficient %d' % k)
            for j in range(2): r.canonical(c, zsz(w) * (N * j + k), w, 'canonical coefficient')
        r.events()
    return h, v

# ------------------------------------------------------------------ inputs
def ct(r, f, name, w, Vs, ro=True):
    """a ciphertext of the polynomials Vs: pointer"""
    N = f.N
    sz = zsz(w)
    o = r.obj(2 * sz * N, name, ro=ro)
    b, a = f.fresh(w, Vs, name)
    for k in range(N):
        o.cells[sz * k] = (sz, WV(wnorm(b[k], w), w)); o.cells[sz * (N + k)] = (sz, WV(a[k], w))
    o.maxsz = max(8, sz); o.gran = sz
    return Ptr(o, 0)

def keyct(r, f, name, w, F):
    import p_C18
    p, b, a, e = p_C18.swk(r, name, w, f.N, f.S, F)
    for x in a:
        (mo,) = x.d
        f.masks.add(mo[0])
    return p

def result(r, f, p, w):
    return f.phase(r.gpair(p, w, f.N), w)

@spec(r'^void encode<(\d+), (\d+)>\(double const\*, double const\*, unsigned long, R_Q<', 'Z_Q<')
def s_flowencode(m):
    w, L = _i(m, 1), _i(m, 2)
    if L > 4: return None
    N = 1 << L; h = N // 2
    DS = [1 << d for d in range(10, 51, 5) if d + 4 <= min(w - 1, 63)]
    R = 16.
    def hd(it, a, dbg):
        f = flow(it)
        okptr(a[0], a[1], a[3])
        if f.N != N or a[2] not in DS: raise NoSummary
        rd = lambda p: [interp.rp(it.und(it.load(it.ptr_add(p, 8 * i, None, None), ('f', 64), dbg), ('f', 64))) for i in range(h)]
        ZR, ZI = rd(a[0]), rd(a[1])
        if all(p.isconst() for p in ZR + ZI): raise NoSummary
        for p in ZR + ZI:
            lo, hi = prange(p)
            if lo < -R or hi > R: raise NoSummary
        from p_C11 import inv
        X = inv(N, ZR, ZI)
        D = a[2]
        for k in range(N):
            lo, hi = prange(X[k])
            if max(-lo, hi) * D + 1 >= 2. ** min(w - 1, 63): raise NoSummary
        wrpoly(it, a[3], w, N, [f.node(pscale(X[k], float(D)), 0, .5 + D * N * 1e-12, 'encode') for k in range(N)], dbg)
        f.count['encode'] += 1
    def v(r, fn):
        import p_C12
        from p_C11 import inv
        for D in DS:
            top = 2. ** min(w - 1, 63) / D / 4.
            rg = min(R, top)
            p, ZR = r.reals('zr', h, -rg, rg); p2, ZI = r.reals('zi', h, -rg, rg)
            X = inv(N, ZR, ZI)
            o = Ptr(r.obj(zsz(w) * N, 'pt'), 0)
            r.call(fn, [p, p2, D, o])
            P = r.gpoly(o, w, N)
            for k in range(N):
                p_C12.enc_close(r, P[k], pscale(X[k], float(D)), w, .5 + D * N * 1e-12, 'encoding with Delta=%d, coefficient %d' % (D, k))
                r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        r.events()
    return hd, v
