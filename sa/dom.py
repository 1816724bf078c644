"""Abstract value domain: polynomials over named atoms, reduced with intervals.

An integer (or real) abstract value is a polynomial over atoms; equality of two
abstract values is decided by equality of normal forms.  Atoms are
  var    unknown input                      fl     floor(P / d), d a positive constant
  step   [L >= t] for a linear core L       fdiv   floor(P / Q), Q symbolic
  nm     name for a large boolean term      uf     uninterpreted/real function (round, sqrt, ..)
No path condition is ever handed to a solver; everything here is rewriting.
"""
from fractions import Fraction
import math

INF = float('inf')

class TooBig(Exception):
    pass

class Undecided(Exception):
    pass

class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'isint', 'isbool', 'core', 't', 'undef', 'name', 'info')

    def __repr__(self):
        return aname(self.id)

ATOMS = []
_intern = {}
CORES = []       # core id -> Poly (primitive, constant free)
_coreid = {}
_MM = {}
MAXTERMS = 60000

class Ctx:
    """facts that hold in the region being interpreted (fixed booleans, refined core ranges)"""
    __slots__ = ('fix', 'rng')

    def __init__(self, fix=None, rng=None):
        self.fix = fix or {}
        self.rng = rng or {}

CTX = Ctx()
RADIX = set()      # divisors whose remainders are written with quotients, as for powers of two

def reset():
    global CTX
    global FL_STEPS
    FL_STEPS = 3
    RADIX.clear()
    ATOMS.clear(); _intern.clear(); CORES.clear(); _coreid.clear(); _MM.clear(); _REL.clear(); REQ.clear()
    CTX = Ctx()

class Poly:
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = None

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.d.items())
        return k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return pstr(self)

    def isconst(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def __bool__(self):
        raise TypeError('truth of Poly')

ZERO = Poly({})
ONE = Poly({(): 1})

def pc(c):
    return Poly({(): c}) if c != 0 else ZERO

def pa(i):
    return Poly({(i,): 1})

def aname(i):
    a = ATOMS[i]
    if a.kind == 'var':
        return a.name
    if a.kind == 'step':
        return '[%s>=%s]' % (pstr(CORES[a.core], 6), fmtnum(a.t))
    if a.kind == 'fl':
        return 'floor((%s)/%s)' % (pstr(a.args[0], 6), fmtnum(a.args[1]))
    if a.kind == 'fdiv':
        return 'floor((%s)/(%s))' % (pstr(a.args[0], 4), pstr(a.args[1], 4))
    if a.kind == 'nm':
        return 'B%d' % a.id
    if a.kind == 'rem':
        return '((%s) mod %s)' % (pstr(a.args[0], 4), pstr(a.args[1], 4) if isinstance(a.args[1], Poly) else fmtnum(a.args[1]))
    return '%s(%s)' % (a.name or a.kind, ','.join(pstr(x, 4) if isinstance(x, Poly) else str(x) for x in a.args))

def fmtnum(c):
    if isinstance(c, int) and abs(c) > 1 << 20:
        s = '-' if c < 0 else ''
        c = abs(c)
        b = c.bit_length()
        if c == 1 << (b - 1):
            return '%s2^%d' % (s, b - 1)
        if c + 1 == 1 << b:
            return '%s(2^%d-1)' % (s, b)
        if c.bit_length() > 80:
            return '%s~2^%.2f' % (s, math.log2(c))
        return s + hex(c)
    return str(c)

def pstr(p, maxt=8):
    if not p.d:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(p.d.items(), key=lambda x: (len(x[0]), x[0]))):
        if n >= maxt:
            out.append('... (%d terms)' % len(p.d))
            break
        ms = '*'.join(aname(i) for i in m)
        if not ms:
            out.append(fmtnum(c))
        elif c == 1:
            out.append(ms)
        else:
            out.append('%s*%s' % (fmtnum(c), ms))
    return ' + '.join(out)

# ---------------------------------------------------------------- atoms
def _new(kind, args, lo, hi, isint, isbool, name=None):
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind; a.args = args; a.lo = lo; a.hi = hi
    a.isint = isint; a.isbool = isbool; a.core = -1; a.t = None; a.undef = False; a.name = name; a.info = None
    ATOMS.append(a)
    return a

def var(name, lo, hi, isint=True):
    k = ('var', name)
    a = _intern.get(k)
    if a is None:
        a = _new('var', (), lo, hi, isint, isint and lo == 0 and hi == 1, name)
        _intern[k] = a
    return pa(a.id)

_undefn = [0]
def undef_atom(lo, hi, isint, where):
    _undefn[0] += 1
    a = _new('var', (), lo, hi, isint, False, 'undef%d' % _undefn[0])
    a.undef = True
    a.info = where
    return pa(a.id)

def core_id(L):
    k = L.key()
    i = _coreid.get(k)
    if i is None:
        i = len(CORES)
        CORES.append(L)
        _coreid[k] = i
    return i

def uf(name, args, lo, hi, isint):
    k = ('uf', name, tuple(x.key() if isinstance(x, Poly) else x for x in args))
    a = _intern.get(k)
    if a is None:
        a = _new('uf', args, lo, hi, isint, False, name)
        _intern[k] = a
    else:
        # the caller's range may hold only under the facts of its path: keep the union of all uses
        if lo < a.lo: a.lo = lo
        if hi > a.hi: a.hi = hi
    return pa(a.id)

def named(p):
    """name a boolean polynomial"""
    k = ('nm', p.key())
    a = _intern.get(k)
    if a is None:
        a = _new('nm', (p,), 0, 1, True, True)
        _intern[k] = a
    return pa(a.id)

# ---------------------------------------------------------------- ring operations
_REL = {}
def steprel(i, j):
    """relation of two step atoms: bit0  i=>j, bit1  j=>i, bit2  not both"""
    k = (i, j)
    r = _REL.get(k)
    if r is not None:
        return r
    A, B = ATOMS[i], ATOMS[j]
    r = 0
    LA, LB = CORES[A.core], CORES[B.core]
    if A.core == B.core:
        r = 1 if A.t >= B.t else 2
    elif not LA.d.keys().isdisjoint(LB.d.keys()):
        global CTX
        old = CTX
        try:
            CTX = Ctx({}, {A.core: (A.t, INF)})
            lo, hi = prange(LB)
            if lo >= B.t: r |= 1
            if hi < B.t: r |= 4
            if not r & 1:
                CTX = Ctx({}, {B.core: (B.t, INF)})
                lo, hi = prange(LA)
                if lo >= A.t: r |= 2
        finally:
            CTX = old
    if len(_REL) > 500000: _REL.clear()
    _REL[k] = r
    return r

def mmul(a, b):
    """product of two monomials; None when it is zero"""
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _MM.get(k, 0)
    if r != 0:
        return r
    m = sorted(a + b)
    out = []
    last = -1
    steps = []
    for i in m:
        A = ATOMS[i]
        if A.isbool:
            if i == last:
                continue
            if A.core >= 0:
                steps.append(i)
        out.append(i)
        last = i
    r = None
    dead = False
    if steps and len(out) > len(steps):
        # x*[x>=1] = x for a non-negative integer x
        z = None
        for i in steps:
            A = ATOMS[i]
            if A.t == 1:
                L = CORES[A.core].d
                if len(L) == 1:
                    (mo, c), = L.items()
                    if c == 1 and len(mo) == 1 and mo[0] in out and ATOMS[mo[0]].lo >= 0 and ATOMS[mo[0]].isint:
                        z = {i} if z is None else z | {i}
        if z:
            out = [i for i in out if i not in z]
            steps = [i for i in steps if i not in z]
    if len(steps) > 1:
        drop = set()
        for x in range(len(steps)):
            if dead: break
            for y in range(x + 1, len(steps)):
                i, j = steps[x], steps[y]
                if i in drop or j in drop: continue
                q = steprel(i, j)
                if q & 4:
                    dead = True; break
                if q & 1: drop.add(j)
                elif q & 2: drop.add(i)
        if drop:
            out = [i for i in out if i not in drop]
    r = None if dead else tuple(out)
    if len(_MM) > 2000000:
        _MM.clear()
    _MM[k] = r
    return r

def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v = v + c
            if v == 0:
                del d[m]
            else:
                d[m] = v
    return Poly(d)

def pneg(a):
    return Poly({m: -c for m, c in a.d.items()})

def psub(a, b):
    if not b.d:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m)
        if v is None:
            d[m] = -c
        else:
            v = v - c
            if v == 0:
                del d[m]
            else:
                d[m] = v
    return Poly(d)

def pscale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return Poly({m: v * c for m, v in a.d.items()})

def pmul(a, b):
    if a.isconst():
        return pscale(b, a.const())
    if b.isconst():
        return pscale(a, b.const())
    if len(a.d) * len(b.d) > MAXTERMS * 8:
        raise TooBig('product of %d x %d terms' % (len(a.d), len(b.d)))
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2)
            if m is None: continue
            v = d.get(m)
            if v is None:
                d[m] = c1 * c2
            else:
                v += c1 * c2
                if v == 0:
                    del d[m]
                else:
                    d[m] = v
    if len(d) > MAXTERMS:
        raise TooBig('%d terms' % len(d))
    return Poly(d)

def paddc(a, c):
    if c == 0:
        return a
    d = dict(a.d)
    v = d.get((), 0) + c
    if v == 0:
        d.pop((), None)
    else:
        d[()] = v
    return Poly(d)

def patoms(p):
    s = set()
    for m in p.d:
        s.update(m)
    return s

def psubst1(p, i, val):
    """substitute the constant val for atom i"""
    d = {}
    ch = False
    for m, c in p.d.items():
        if i in m:
            ch = True
            if val == 0:
                continue
            n = m.count(i)
            m = tuple(x for x in m if x != i)
            c = c * (val ** n)
        v = d.get(m, 0) + c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return Poly(d) if ch else p

def psubst(p, mp):
    """substitute polynomials for atoms"""
    if not any(i in mp for m in p.d for i in m):
        return p
    out = {}
    pw = {}
    for m, c in p.d.items():
        rest = []
        f = None
        for i in m:
            if i in mp:
                f = mp[i] if f is None else pmul(f, mp[i])
            else:
                rest.append(i)
        if f is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
            continue
        rest = tuple(rest)
        for m2, c2 in f.d.items():
            mm = mmul(rest, m2)
            if mm is None: continue
            v = out.get(mm, 0) + c * c2
            if v == 0:
                out.pop(mm, None)
            else:
                out[mm] = v
    return Poly(out)

# ---------------------------------------------------------------- normal form of "affine in a core"
def split_core(p):
    """p = g*L + c with L primitive, constant free, leading coefficient positive.  returns (g, coreid, c)"""
    c = p.d.get((), 0)
    if len(p.d) == 1 + (1 if () in p.d else 0):
        for m, v in p.d.items():
            if m:
                return v, core_id(Poly({m: 1})), c
    d = {m: v for m, v in p.d.items() if m}
    lead = d[min(d)]
    allint = all(isinstance(v, int) for v in d.values())
    if allint:
        g = 0
        for v in d.values():
            g = math.gcd(g, v)
            if g == 1:
                break
        if lead < 0:
            g = -g
        L = Poly({m: v // g for m, v in d.items()}) if g != 1 else Poly(d)
        return g, core_id(L), c
    if any(isinstance(v, float) for v in d.values()):
        g = lead
        L = Poly({m: round_sig(v / g) for m, v in d.items()})
        return g, core_id(L), c
    # fractions
    g = Fraction(lead)
    L = Poly({m: norm(Fraction(v) / g) for m, v in d.items()})
    return g, core_id(L), c

def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c

def round_sig(x):
    if x == 0:
        return 0.0
    r = float('%.11e' % x)
    return r

# ---------------------------------------------------------------- ranges
def arange(i):
    """range of an atom in the current context"""
    f = CTX.fix.get(i)
    if f is not None:
        return f, f
    A = ATOMS[i]
    if CTX.rng:
        cid = _coreid.get(frozenset((((i,), 1),)))
        if cid is not None:
            r = CTX.rng.get(cid)
            if r is not None:
                lo = r[0] if r[0] > A.lo else A.lo
                hi = r[1] if r[1] < A.hi else A.hi
                return lo, hi
    if A.kind == 'uf' and (CTX.rng or CTX.fix) and A.name in MONO and ARD[0] < 3:
        # monotone: its range under the facts of the path follows from that of its argument
        ARD[0] += 1
        try: lo, hi = prange(A.args[0])
        finally: ARD[0] -= 1
        lo, hi = mono_bounds(A.name, lo, hi)
        return max(lo, A.lo), min(hi, A.hi)
    return A.lo, A.hi

ARD = [0]
MONO = {'round': lambda x: c_round(x), 'trunc': int, 'floor': math.floor, 'ceil': math.ceil, 'rint': round}
def mono_bounds(name, lo, hi):
    f = MONO[name]
    if lo not in (INF, -INF): lo = f(lo - (abs(lo) * 1e-9 + 1e-11))
    if hi not in (INF, -INF): hi = f(hi + (abs(hi) * 1e-9 + 1e-11))
    return lo, hi

def xm(x, y):
    """product of extended reals"""
    if x == 0 or y == 0:
        return 0
    if x is INF or x == INF: return INF if y > 0 else -INF
    if x == -INF: return -INF if y > 0 else INF
    if y == INF: return INF if x > 0 else -INF
    if y == -INF: return -INF if x > 0 else INF
    return x * y

def xa(x, y):
    if x == INF or x == -INF: return x
    if y == INF or y == -INF: return y
    return x + y

def mulr(a, b, c, d):
    m = xm
    v = (m(a, c), m(a, d), m(b, c), m(b, d))
    return min(v), max(v)

def mono_range(m):
    lo, hi = 1, 1
    n = len(m)
    k = 0
    while k < n:
        i = m[k]
        e = 1
        while k + e < n and m[k + e] == i:
            e += 1
        a, b = arange(i)
        if e > 1:
            x, y = powr(a, b, e)
        else:
            x, y = a, b
        lo, hi = mulr(lo, hi, x, y)
        k += e
    return lo, hi

def powr(a, b, e):
    if e % 2 == 0:
        if a >= 0:
            return a ** e, b ** e
        if b <= 0:
            return b ** e, a ** e
        return 0, max(a ** e, b ** e)
    return a ** e, b ** e

def crange(p):
    """monomial-wise interval"""
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            lo += c; hi += c
            continue
        a, b = mono_range(m)
        if c >= 0:
            lo = xa(lo, xm(c, a)); hi = xa(hi, xm(c, b))
        else:
            lo = xa(lo, xm(c, b)); hi = xa(hi, xm(c, a))
    return lo, hi

def prange(p):
    """interval of a polynomial in the current context (monomial-wise, plus core refinements)"""
    lo, hi = crange(p)
    n = len(p.d)
    if lo < 0 and n <= 12:
        x = rel_low(p)
        if x is not None and x > lo: lo = x
    if 2 < n <= 400:
        r = stair_range(p)
        if r is not None:
            if r[0] > lo: lo = r[0]
            if r[1] < hi: hi = r[1]
    if 1 < n <= 60 and RES[0] < 3:
        r = residue_range(p)
        if r is not None:
            if r[0] > lo: lo = r[0]
            if r[1] < hi: hi = r[1]
    if CTX.rng and n and len(CTX.rng) <= 24:
        for cid, r in CTX.rng.items():
            L = CORES[cid]
            g = None
            for m, c in L.d.items():
                e = p.d.get(m)
                if e is None:
                    continue
                if isinstance(e, int) and isinstance(c, int):
                    if e % c:
                        continue
                    k = e // c
                else:
                    k = e / c
                g = k
                break
            if g is not None and g != 0:
                if len(L.d) == 1 and n == 1 + (() in p.d):
                    c0 = p.d.get((), 0)
                    a, b = c0, c0
                else:
                    a, b = crange(psub(p, pscale(L, g)))
                x, y = (xa(xm(g, r[0]), a), xa(xm(g, r[1]), b)) if g > 0 else (xa(xm(g, r[1]), a), xa(xm(g, r[0]), b))
                if x > lo: lo = x
                if y < hi: hi = y
            if len(L.d) > n - (() in p.d) and n > (() in p.d):
                # p's non-constant part inside the core:  L = h*p' + rest
                h = None
                for m, c in p.d.items():
                    if not m: continue
                    e = L.d.get(m)
                    if e is None or not isinstance(e, int) or not isinstance(c, int) or e % c:
                        h = None; break
                    if h is None: h = e // c
                    elif h * c != e:
                        h = None; break
                if h:
                    c0 = p.d.get((), 0)
                    a, b = crange(psub(L, pscale(paddc(p, -c0), h)))
                    u, v = xa(r[0], -b), xa(r[1], -a)      # h*(p-c0) in [u,v]
                    if h < 0: u, v, h = -v, -u, -h
                    if u != -INF:
                        u = -((-u) // h) + c0 if not isinstance(u, float) else u / h + c0
                        if u > lo: lo = u
                    if v != INF:
                        v = v // h + c0 if not isinstance(v, float) else v / h + c0
                        if v < hi: hi = v
    return lo, hi

RES = [0]
def stair_ge(D):
    """[g*M + sum c_k*[M >= t_k] + c >= 0]: the set of M where it holds, as comparisons of M"""
    core = None; st = []
    for m, c in D.d.items():
        if len(m) == 1 and ATOMS[m[0]].core >= 0:
            A = ATOMS[m[0]]
            if core is None: core = A.core
            elif core != A.core: return None
            st.append((A.t, c))
        elif len(m) and not isinstance(c, int): return None
    if len(st) < 2 or not core_isint(core): return None
    M = CORES[core]
    if len(M.d) + len(st) + (() in D.d) != len(D.d): return None
    g = None
    for m, c in M.d.items():
        e = D.d.get(m)
        if e is None or not isinstance(e, int) or not isinstance(c, int) or e % c: return None
        k = e // c
        if g is None: g = k
        elif g != k: return None
    c0 = D.d.get((), 0)
    if not isinstance(c0, int) or not g: return None
    mlo, mhi = noctx_range(M)
    r = CTX.rng.get(core)
    if r is not None: mlo = max(mlo, r[0]); mhi = min(mhi, r[1])
    if mlo in (-INF, INF) or mhi in (-INF, INF) or mlo > mhi: return None
    st.sort()
    # pieces [a,b] with value g*M + acc
    cuts = sorted({t for t, c in st if mlo < t <= mhi})
    starts = [mlo] + cuts
    out = ZERO
    prev = 0
    for j, a in enumerate(starts):
        b = (starts[j + 1] - 1) if j + 1 < len(starts) else mhi
        acc = c0 + sum(c for t, c in st if t <= a)
        # g*x + acc >= 0 on [a,b]
        if g > 0:
            x = -(acc // g)          # first x with g*x+acc >= 0
            segs = [(a, 0), (x, 1)] if a < x <= b else [(a, 1 if x <= a else 0)]
        else:
            x = acc // (-g) + 1      # first x with g*x+acc < 0
            segs = [(a, 1), (x, 0)] if a < x <= b else [(a, 0 if x <= a else 1)]
        for y, v in segs:
            if v != prev:
                if y == mlo: out = paddc(out, v - prev)
                else: out = padd(out, pscale(step(core, y), v - prev))
                prev = v
    return out

def stair_range(p):
    """g*M + sum c_k*[M >= t_k] + rest: the first part is a function of the single quantity M"""
    by = {}
    for m, c in p.d.items():
        if len(m) == 1:
            A = ATOMS[m[0]]
            if A.core >= 0: by.setdefault(A.core, []).append((A.t, c, m))
    best = None
    for core, st in by.items():
        M = CORES[core]
        g = None
        for m, c in M.d.items():
            e = p.d.get(m)
            if e is None or (isinstance(e, int) and isinstance(c, int) and e % c):
                g = None; break
            k = e // c if isinstance(e, int) and isinstance(c, int) else e / c
            if g is None: g = k
            elif g != k:
                g = None; break
        if g is None or not core_isint(core) or not isinstance(g, int): continue
        mlo, mhi = noctx_range(M)
        r = CTX.rng.get(core)
        if r is not None: mlo = max(mlo, r[0]); mhi = min(mhi, r[1])
        if mlo in (-INF, INF) or mhi in (-INF, INF) or mlo > mhi: continue
        pts = {mlo, mhi}
        for t, c, m in st:
            for x in (t - 1, t):
                if mlo < x < mhi: pts.add(x)
        st.sort()
        pts = sorted(pts)
        lo = hi = None
        acc = 0; k = 0
        for x in pts:
            while k < len(st) and st[k][0] <= x:
                acc += st[k][1]; k += 1
            v = g * x + acc
            if lo is None or v < lo: lo = v
            if hi is None or v > hi: hi = v
        skip = {m for t, c, m in st} | set(M.d)
        rest = {m: c for m, c in p.d.items() if m not in skip}
        if rest:
            a, b = crange(Poly(rest))
            lo += a; hi += b
        if best is None: best = (lo, hi)
        else: best = (max(best[0], lo), min(best[1], hi))
    return best

def residue_range(p):
    """use 0 <= Z - d*floor(Z/d) <= d-1 and case split on linked comparisons"""
    best = None
    RES[0] += 1
    try:
        fls = []
        for m, c in p.d.items():
            if len(m) != 1 or not isinstance(c, int):
                continue
            A = ATOMS[m[0]]
            if A.core >= 0 and len(p.d) <= 12 and RES[0] < 3 and m[0] not in CTX.fix:
                L = CORES[A.core]
                if not L.d.keys().isdisjoint(p.d.keys()):
                    r = None
                    for v in (0, 1):
                        with with_ctx([('fix', m[0], v)]) as w:
                            if not w.dead:
                                q = prange(psubst1(p, m[0], v))
                                r = q if r is None else (min(r[0], q[0]), max(r[1], q[1]))
                    if r is not None:
                        best = list(r) if best is None else [max(best[0], r[0]), min(best[1], r[1])]
            if A.kind != 'fl':
                continue
            Z, d = A.args
            fls.append((m, c, Z, d))
            if c % d:
                continue
            g = -(c // d)
            # worthwhile only if some monomial of Z cancels
            if not any(p.d.get(mz) == g * cz for mz, cz in Z.d.items() if mz):
                continue
            rest = psub(p, Poly({m: c}))
            rest = psub(rest, pscale(Z, g))
            lo, hi = prange(rest)
            if g > 0: hi += g * (d - 1)
            else: lo += g * (d - 1)
            if best is None:
                best = [lo, hi]
            else:
                best[0] = max(best[0], lo); best[1] = min(best[1], hi)
        if 1 < len(fls) <= 8:
            # alpha*floor(Z/d1) - alpha*(d2/d1)*floor(Z/d2)  lies in alpha*[0, d2/d1-1]
            for m1, c1, Z1, d1 in fls:
                for m2, c2, Z2, d2 in fls:
                    if d2 > d1 and d2 % d1 == 0 and Z1.d == Z2.d and c2 == -c1 * (d2 // d1):
                        rest = dict(p.d); del rest[m1]; del rest[m2]
                        lo, hi = prange(Poly(rest))
                        x = c1 * (d2 // d1 - 1)
                        lo += min(x, 0); hi += max(x, 0)
                        if best is None: best = [lo, hi]
                        else: best = [max(best[0], lo), min(best[1], hi)]
    finally:
        RES[0] -= 1
    return best

def step_floor(A):
    """the comparison [M >= u] as floor(Z/d): (Z, d), or None"""
    M = CORES[A.core]
    if not core_isint(A.core):
        return None
    lo, hi = noctx_range(M)
    if lo == -INF or hi == INF:
        return None
    d = max(A.t - lo, hi - A.t + 1, 1)
    d = 1 << (d - 1).bit_length()
    return paddc(M, d - A.t), d

def merge_floor(D):
    """[g*(R + s*F) + c >= 0] with F a single floor or comparison -> comparison on the combined value"""
    it = None
    n = 0
    g = 0
    for m, c in D.d.items():
        if not m: continue
        if not isinstance(c, int): return None
        for i in m:
            A = ATOMS[i]
            if A.isbool or A.kind == 'fl':
                n += 1
                if n > 1 or len(m) > 1: return None
                it = (m, c, A)
            elif not A.isint:
                return None
    if it is None or len(D.d) < 2: return None
    m, k, A = it
    if A.core < 0 and A.kind != 'fl': return None
    others = False
    for mm, c in D.d.items():
        if mm and mm != m:
            others = True
            if c % k: return None
    if not others: return None
    if A.kind == 'fl': Z, d = A.args
    else:
        zd = step_floor(A)
        if zd is None: return None
        Z, d = zd
    g = abs(k)
    R = Poly({mm: c // g for mm, c in D.d.items() if mm != m and c // g})
    if k > 0:
        # R + F >= 0  <=>  d*R + Z >= 0
        return padd(pscale(R, d), Z)
    # R - F >= 0  <=>  Z < d*(R+1)
    return paddc(psub(pscale(paddc(R, 1), d), Z), -1)

def drop_low(D):
    """[g*H + low >= 0]: remove a low part that cannot affect the comparison"""
    ms = []
    for m, c in D.d.items():
        if not m: continue
        if not isinstance(c, int): return None
        ms.append((abs(c), c, m))
    if len(ms) < 2: return None
    ms.sort(key=lambda x: x[0])
    if ms[0][0] == ms[-1][0]: return None
    for _, c, m in ms:
        for i in m:
            if not ATOMS[i].isint: return None
    sg = [0] * (len(ms) + 1)
    for k in range(len(ms) - 1, -1, -1):
        sg[k] = math.gcd(sg[k + 1], ms[k][0])
    c0 = D.d.get((), 0)
    lo = hi = 0
    best = None
    for k in range(1, len(ms)):
        _, c, m = ms[k - 1]
        a, b = mono_range(m)
        if a == -INF or b == INF: break
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
        g = sg[k]
        if g == sg[k - 1] or g == 1: continue
        h0, h1 = (c0 + lo) // g, (c0 + hi) // g
        if h0 == h1:
            best = (k, g, h0)
    if best is None: return None
    k, g, h = best
    H = {m: c // g for _, c, m in ms[k:]}
    if h: H[()] = h
    return Poly(H), g

def bnorm(p):
    """compact form of a boolean polynomial: gates of linked comparisons become one comparison"""
    n = len(p.d)
    if n > 16 or n < 1:
        return p
    if n == 1 or (n == 2 and () in p.d):
        m = max(p.d, key=len)
        if len(m) < 2: return p
    c0 = p.d.get((), 0)
    if c0 == 1:
        q = bnorm1(psub(ONE, p))
        return p if q is None else psub(ONE, q)
    q = bnorm1(p)
    return p if q is None else q

def bnorm1(p):
    ats = sorted(patoms(p))
    if not 2 <= len(ats) <= 6: return None
    common = None
    for m in p.d:
        common = set(m) if common is None else common & set(m)
    common = [i for i in common if ATOMS[i].core < 0]
    if common:
        q = Poly({tuple(i for i in m if i not in common): c for m, c in p.d.items()})
        if len(q.d) < 2 and len(max(q.d)) < 2: return None
        r = bnorm(q)
        if r.d == q.d: return None
        return pmul(Poly({tuple(sorted(common)): 1}), r)
    for i in ats:
        if ATOMS[i].core < 0: return None
    for i in ats:
        r1 = psubst1(p, i, 1); r0 = psubst1(p, i, 0)
        if len(ats) > 2:
            r1 = bnorm(r1); r0 = bnorm(r0)
        s1, s0 = one_step(r1), one_step(r0)
        if s1 is None or s0 is None: continue
        if s1[0] == 'c' and s0[0] == 'c': continue
        neg = s1[0] == 'n' or s0[0] == 'n'
        if neg and (s1[0] == 'p' or s0[0] == 'p'): continue
        cid = s1[1] if s1[0] != 'c' else s0[1]
        if s1[0] != 'c' and s0[0] != 'c' and s0[1] != s1[1]: continue
        if not core_isint(cid): continue
        lo, hi = noctx_range(CORES[cid])
        def thr(s, other):
            if s[0] != 'c': return s[2]
            v = s[1] ^ 1 if neg else s[1]
            # a constant as a comparison adjacent to the other threshold
            if v: return other - 1 if other - 1 <= lo else None
            return other + 1 if other + 1 > hi else None
        t1 = thr(s1, s0[2] if s0[0] != 'c' else None)
        t0 = thr(s0, s1[2] if s1[0] != 'c' else None)
        if t1 is None or t0 is None or abs(t1 - t0) != 1: continue
        zd = step_floor(ATOMS[i])
        if zd is None: continue
        Z, d = zd
        L = CORES[cid]
        if t0 > t1: D = padd(pscale(paddc(L, -t0), d), Z)
        else: D = paddc(psub(pscale(paddc(L, 1 - t0), d), Z), -1)
        r = ge0(D)
        return psub(ONE, r) if neg else r
    return None

def one_step(p):
    if not p.d: return ('c', 0)
    if p.isconst(): return ('c', 1) if p.const() == 1 else None
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and c == 1 and ATOMS[m[0]].core >= 0:
            return ('p', ATOMS[m[0]].core, ATOMS[m[0]].t)
    if len(p.d) == 2 and p.d.get((), 0) == 1:
        for m, c in p.d.items():
            if len(m) == 1 and c == -1 and ATOMS[m[0]].core >= 0:
                return ('n', ATOMS[m[0]].core, ATOMS[m[0]].t)
    return None

def carry_rule(D):
    """[R + k*floor(Z/d) >= 0] when floor of the rest differs from floor(Z/d) by at most one"""
    for m, k in D.d.items():
        if len(m) != 1 or not isinstance(k, int):
            continue
        A = ATOMS[m[0]]
        if A.kind != 'fl':
            continue
        Z, d = A.args
        g = 0
        ok = True
        for mm, c in D.d.items():
            if mm == m or not mm:
                continue
            if not isinstance(c, int):
                ok = False; break
            g = math.gcd(g, c)
        if not ok or g == 0:
            continue
        g = math.gcd(g, k)
        kk = abs(k) // g
        if kk == 1:
            continue
        if d % kk == 0:
            e = d // kk
        elif kk % d == 0:
            e = 1; Z = pscale(Z, kk // d); d = kk
        else:
            continue
        R = Poly({mm: c // g for mm, c in D.d.items() if mm != m and c // g})
        # kk*F versus R, F = floor(Z/(e*kk))
        F = pa(m[0])
        if k < 0:
            # R >= kk*F  <=>  floor(e*R/d) >= F
            R = pscale(R, e)
            lo, hi = prange(psub(Z, R))
            if lo == -INF or hi == INF: continue
            a, b = lo // d, -((-hi) // d)
            if b <= 0: return ONE
            if a >= 1: return ZERO
            if a >= 0 and b <= 1:
                return padd(psub(ONE, F), fl(R, d))
        else:
            # R + kk*F >= 0  <=>  F >= floor((e*(kk-1-R))/d)
            W = pscale(paddc(pneg(R), kk - 1), e)
            lo, hi = prange(psub(W, Z))
            if lo == -INF or hi == INF: continue
            a, b = lo // d, -((-hi) // d)
            if b <= 0: return ONE
            if a >= 1: return ZERO
            if a >= 0 and b <= 1:
                return padd(psub(ONE, fl(W, d)), F)
    return None

def rel_low(p):
    """lower bound using r <= Q-1 for r = X mod Q with symbolic Q = a single atom"""
    out = None
    for m, c in p.d.items():
        if c < 0 and len(m) == 1 and isinstance(c, int):
            A = ATOMS[m[0]]
            if A.kind == 'rem' and isinstance(A.args[1], Poly) and len(A.args[1].d) == 1:
                (qm, qc), = A.args[1].d.items()
                d = p.d.get(qm, 0)
                if qc == 1 and d >= -c:
                    rest = dict(p.d)
                    del rest[m]
                    # d*q + c*r = (d+c)*q - c*(q-r),  q-r >= 1
                    if d + c:
                        rest[qm] = d + c
                    else:
                        del rest[qm]
                    lo, _ = prange(Poly(rest))
                    lo = lo - c
                    if out is None or lo > out:
                        out = lo
    return out

def ctx_simplify(p):
    if CTX.fix:
        for i in patoms(p):
            f = CTX.fix.get(i)
            if f is not None:
                p = psubst1(p, i, f)
    if CTX.rng:
        for i in patoms(p):
            A = ATOMS[i]
            if A.kind == 'fl':
                lo, hi = prange(A.args[0])
                if lo != -INF and hi != INF:
                    lo //= A.args[1]; hi //= A.args[1]
                    if lo == hi:
                        p = psubst1(p, i, lo)
    return p

class with_ctx:
    """context manager pushing facts"""
    def __init__(self, facts):
        self.facts = facts

    def __enter__(self):
        global CTX
        self.old = CTX
        n = Ctx(dict(CTX.fix), dict(CTX.rng))
        self.dead = False
        for f in self.facts:
            if not add_fact(n, f):
                self.dead = True
        CTX = n
        return self

    def __exit__(self, *a):
        global CTX
        CTX = self.old
        return False

def add_fact(n, f):
    """f = ('fix', atom, v) or ('rng', coreid, lo, hi); False if contradictory"""
    if f[0] == 'fix':
        _, i, v = f
        o = n.fix.get(i)
        if o is not None and o != v:
            return False
        n.fix[i] = v
        A = ATOMS[i]
        if A.core >= 0:
            if v:
                return add_fact(n, ('rng', A.core, A.t, INF))
            isint = core_isint(A.core)
            return add_fact(n, ('rng', A.core, -INF, A.t - 1 if isint else A.t))
        if A.kind == 'nm':
            p = A.args[0]
            ok = True
            for g in facts_of(p, v):
                ok = add_fact(n, g) and ok
            return ok
        return True
    _, cid, lo, hi = f
    o = n.rng.get(cid)
    if o is not None:
        lo = max(lo, o[0]); hi = min(hi, o[1])
    n.rng[cid] = (lo, hi)
    return lo <= hi

_core_int = {}
def core_isint(cid):
    L = CORES[cid]
    for m, c in L.d.items():
        if not isinstance(c, int):
            return False
        for i in m:
            if not ATOMS[i].isint:
                return False
    return True

def facts_of(p, v):
    """facts implied by boolean polynomial p having value v (0/1)"""
    d = p.d
    if v == 0:
        q = psub(ONE, p)
        d = q.d
    else:
        q = p
    # q == 1
    if len(d) == 1:
        (m, c), = d.items()
        if m and c == 1:
            return [('fix', i, 1) for i in m]
        return []
    if len(d) == 2 and () in d and d[()] == 1:
        for m, c in d.items():
            if m and c == -1 and len(m) == 1:
                return [('fix', m[0], 0)]
        return []
    # all steps on a single core
    ats = patoms(q)
    cores = set(ATOMS[i].core for i in ats)
    if len(cores) == 1 and -1 not in cores and len(ats) <= 8:
        cid = cores.pop()
        th = sorted(set(ATOMS[i].t for i in ats))
        isint = core_isint(cid)
        segs = []
        bounds = [-INF] + th + [INF]
        for a, b in zip(bounds, bounds[1:]):
            env = {i: (1 if a >= ATOMS[i].t else 0) for i in ats}
            s = 0
            for m, c in q.d.items():
                for i in m:
                    if not env[i]:
                        break
                else:
                    s += c
            if s == 1:
                segs.append((a, (b - 1 if isint and b != INF else b)))
        if segs:
            out = [('rng', cid, segs[0][0], segs[-1][1])]
            for i in ats:
                t = ATOMS[i].t
                if segs[0][0] >= t:
                    out.append(('fix', i, 1))
                elif segs[-1][1] < t:
                    out.append(('fix', i, 0))
            return out
        return []
    # common factor / exact conjunction with shared atoms: q = b * r
    common = None
    for m in q.d:
        s = set(m)
        common = s if common is None else common & s
        if not common:
            break
    out = []
    if common:
        for i in common:
            if ATOMS[i].isbool:
                out.append(('fix', i, 1))
    return out

# ---------------------------------------------------------------- comparisons
def step(cid, t):
    """[CORE >= t] as a polynomial"""
    L = CORES[cid]
    isint = core_isint(cid)
    if isint:
        if isinstance(t, Fraction) or isinstance(t, float):
            t = math.ceil(t)
    lo, hi = prange(L)
    r = CTX.rng.get(cid)
    if r is not None:
        lo = max(lo, r[0]); hi = min(hi, r[1])
    if t <= lo:
        return ONE
    if t > hi:
        return ZERO
    # a single floor atom: [floor(X/d) >= t]  ==  [X >= t*d]
    if len(L.d) == 1:
        (m, c), = L.d.items()
        if len(m) == 1:
            A = ATOMS[m[0]]
            if A.kind == 'fl':
                return ge0(paddc(A.args[0], -t * A.args[1]))
            if A.isbool and t == 1:
                return pa(A.id)
    k = ('step', cid, t)
    a = _intern.get(k)
    if a is None:
        a = _new('step', (), 0, 1, True, True)
        a.core = cid
        a.t = t
        _intern[k] = a
    f = CTX.fix.get(a.id)
    if f is not None:
        return pc(f)
    return pa(a.id)

GE_DEPTH = 7

def round_ge(D):
    """[+-round(L) + c >= 0] as a threshold of L (half away from zero)"""
    c = D.d.get((), 0)
    ms = [m for m in D.d if m]
    if len(ms) != 1 or len(ms[0]) != 1: return None
    A = ATOMS[ms[0][0]]
    if A.kind != 'uf' or A.name != 'round': return None
    k = D.d[ms[0]]
    L = A.args[0]
    if not isint_num(c) or not isint_num(k): return None
    if k < 0:
        # round is odd
        k = -k; L = pneg(L)
    # round(L) >= t
    t = -((int(c)) // k)
    if t >= 1: return ge0(paddc(L, .5 - t))
    return psub(ONE, ge0(paddc(pneg(L), t - .5)))

def isint_num(c):
    return isinstance(c, int) or (isinstance(c, float) and c == int(c)) or (isinstance(c, Fraction) and c.denominator == 1)

def ge0(D, hint=None, depth=0):
    """[D >= 0] as a boolean polynomial"""
    D = ctx_simplify(D)
    if D.isconst():
        return ONE if D.const() >= 0 else ZERO
    lo, hi = prange(D)
    if hint is not None:
        lo = max(lo, hint[0]); hi = min(hi, hint[1])
    if lo >= 0:
        return ONE
    if hi < 0:
        return ZERO
    if lo == -1 and hi == 0 and isint_poly(D):
        return paddc(D, 1)
    if len(D.d) <= 2:
        r = round_ge(D)
        if r is not None:
            return r
    if 1 < len(D.d) <= 200:
        r = carry_rule(D)
        if r is not None:
            return r
    if 1 < len(D.d) <= 400:
        r = merge_floor(D)
        if r is not None:
            return ge0(r)
        r = drop_low(D)
        if r is not None:
            return ge0(r[0])
        r = stair_ge(D)
        if r is not None:
            return r
    # Shannon expansion over boolean atoms
    best = None
    if depth < GE_DEPTH:
        cnt = {}
        for m in D.d:
            for i in m:
                if ATOMS[i].isbool:
                    cnt[i] = cnt.get(i, 0) + 1
        if cnt:
            best = max(cnt, key=lambda i: (ATOMS[i].id))
            if len(D.d) == 2 + (0 if () in D.d else -1) and False:
                best = None
    if best is not None:
        with with_ctx([('fix', best, 1)]) as w:
            r1 = ZERO if w.dead else ge0(psubst1(D, best, 1), hint, depth + 1)
        with with_ctx([('fix', best, 0)]) as w:
            r0 = ZERO if w.dead else ge0(psubst1(D, best, 0), hint, depth + 1)
        return gate(pa(best), r1, r0)
    if depth >= GE_DEPTH and any(ATOMS[i].isbool for i in patoms(D)):
        k = ('ge', D.key())
        a = _intern.get(k)
        if a is None:
            a = _new('uf', (D,), 0, 1, True, True, 'ge0')
            _intern[k] = a
        return pa(a.id)
    g, cid, c = split_core(D)
    isint = core_isint(cid)
    if g > 0:
        if isint:
            t = -((c) // g) if isinstance(c, int) and isinstance(g, int) else math.ceil(Fraction(-c) / Fraction(g))
            if isinstance(c, int) and isinstance(g, int):
                t = -(c // g)
        else:
            t = -c / g
        return step(cid, t)
    g = -g
    if isint:
        t = (c // g) if isinstance(c, int) and isinstance(g, int) else math.floor(Fraction(c) / Fraction(g))
        return psub(ONE, step(cid, t + 1))
    # reals: [-gL + c >= 0] = [L <= c/g]; equality ignored (measure zero)
    return psub(ONE, step(cid, c / g))

def isint_poly(p):
    for m, c in p.d.items():
        if not isinstance(c, int): return False
        for i in m:
            if not ATOMS[i].isint: return False
    return True

def eq0(D, hint=None, depth=0):
    """[D == 0] for integers"""
    D = ctx_simplify(D)
    if D.isconst():
        return ONE if D.const() == 0 else ZERO
    lo, hi = prange(D)
    if hint is not None:
        lo = max(lo, hint[0]); hi = min(hi, hint[1])
    if lo > 0 or hi < 0:
        return ZERO
    if lo >= 0 and hi == 1 and isint_poly(D):
        return psub(ONE, D)
    if lo == -1 and hi == 0 and isint_poly(D):
        return paddc(D, 1)
    if 1 < len(D.d) <= 400 and isint_poly(D):
        if merge_floor(D) is not None:
            return psub(ge0(D), ge0(paddc(D, -1)))
    cnt = [i for i in patoms(D) if ATOMS[i].isbool]
    if cnt and depth < GE_DEPTH:
        best = max(cnt)
        with with_ctx([('fix', best, 1)]) as w:
            r1 = ZERO if w.dead else eq0(psubst1(D, best, 1), hint, depth + 1)
        with with_ctx([('fix', best, 0)]) as w:
            r0 = ZERO if w.dead else eq0(psubst1(D, best, 0), hint, depth + 1)
        return gate(pa(best), r1, r0)
    if cnt:
        k = ('eq', D.key())
        a = _intern.get(k)
        if a is None:
            a = _new('uf', (D,), 0, 1, True, True, 'eq0')
            _intern[k] = a
        return pa(a.id)
    g, cid, c = split_core(D)
    if not core_isint(cid):
        return real_eq(D, cid, -c / g)
    if isinstance(c, int) and isinstance(g, int):
        if c % g:
            return ZERO
        t = -c // g
    else:
        t = Fraction(-c) / Fraction(g)
        if t.denominator != 1:
            return ZERO
        t = int(t)
    return psub(step(cid, t), step(cid, t + 1))

REQ = {}      # equality atoms of reals -> (variable, its value when the equality holds)
def real_eq(D, cid, t):
    """[D == 0] over the reals"""
    k = ('req', cid, t)
    a = _intern.get(k)
    if a is None:
        a = _new('uf', (D,), 0, 1, True, True, 'eq0')
        _intern[k] = a
        for m, c in D.d.items():
            if len(m) == 1 and ATOMS[m[0]].kind == 'var' and sum(m[0] in mo for mo in D.d) == 1:
                v = m[0]
                REQ[a.id] = (v, pscale(psub(D, Poly({m: c})), -1.0 / c))
                break
    return pa(a.id)

def real_eq_gate(c, x, y):
    """c an equality of reals (or its negation): the other value, if both agree where the equality holds"""
    if len(c.d) == 1:
        (m, k), = c.d.items()
        if k != 1 or len(m) != 1: return None
    elif len(c.d) == 2 and c.d.get(()) == 1:
        m = next(m for m in c.d if m)
        if c.d[m] != -1 or len(m) != 1: return None
        x, y = y, x
    else: return None
    q = REQ.get(m[0])
    if q is None: return None
    v, e = q
    D = psub(x, y)
    for i in patoms(D):
        if i != v and v in base_vars(pa(i)): return None
    r = psubst(D, {v: e}) if any(v in mo for mo in D.d) else D
    if all(abs(k) < 1e-12 for k in r.d.values()): return y
    return None

NAME_AT = 5

def nonbool(c):
    for m in c.d:
        for i in m:
            if not ATOMS[i].isbool: return True
    return False

def gate(c, x, y):
    """c ? x : y"""
    if x.d == y.d:
        return x
    if c.isconst():
        return x if c.const() else y
    if REQ:
        r = real_eq_gate(c, x, y)
        if r is not None: return r
    D = psub(x, y)
    if D.isconst():
        return padd(y, pscale(c, D.const()))
    n = len(D.d)
    nb = nonbool(c)
    if n <= 6:
        r = gate_floor(c, D)
        if r is not None:
            return padd(y, r)
        if nb and n == 2 and () not in D.d:
            (m1, c1), (m2, c2) = D.d.items()
            if c1 + c2 == 0 and len(m1) == 1 and len(m2) == 1:
                if c1 < 0: m1, m2, c1 = m2, m1, c2
                A, B = ATOMS[m1[0]], ATOMS[m2[0]]
                if A.core >= 0 and A.core == B.core and core_isint(A.core):
                    # c*([L>=tA]-[L>=tB]) = [L + (tB-tA)c >= tB] - [L>=tB]
                    q = ge0(padd(paddc(CORES[A.core], -B.t), pscale(c, B.t - A.t)))
                    return padd(y, pscale(psub(q, pa(m2[0])), c1))
    if nb:
        c = named(c)
    Q = pmul(c, D)
    if n <= 4 and 1 < len(Q.d) <= 16:
        lo, hi = crange(D)
        if -1 <= lo and hi <= 2:
            lo, hi = bool_range(D)
        if lo == 0 and hi == 1: Q = bnorm(Q)
        elif lo == -1 and hi == 0: Q = pneg(bnorm(pneg(Q)))
    elif n == 1 and len(Q.d) == 1:
        (m, k), = Q.d.items()
        if len(m) > 1 and all(ATOMS[i].core >= 0 for i in m):
            Q = pscale(bnorm(Poly({m: 1})), k)
    return padd(y, Q)

def cond_sub(P, d):
    """a value corrected by d to lie in [0,d) is the residue of its congruence class"""
    if d < 3 or d & (d - 1) == 0 or len(P.d) < 3 or not isint_poly(P): return P
    lo, hi = prange(P)
    if lo < 0 or hi >= d: return P
    N = cnorm(P, d)
    if N.isconst(): return pc(N.const() % d)
    lo, hi = prange(N)
    if 0 <= lo and hi < d: return N
    k = ('rem', N.key(), d)
    a = _intern.get(k)
    if a is None:
        a = _new('rem', (N, d), 0, d - 1, True, False)
        _intern[k] = a
    return pa(a.id)

def bool_range(D):
    """range of a small polynomial over boolean atoms"""
    ats = list(patoms(D))
    if len(ats) > 3 or any(not ATOMS[i].isbool for i in ats): return prange(D)
    lo, hi = INF, -INF
    for k in range(1 << len(ats)):
        p = D
        with with_ctx([('fix', i, k >> j & 1) for j, i in enumerate(ats)]) as w:
            if w.dead: continue
        for j, i in enumerate(ats): p = psubst1(p, i, k >> j & 1)
        v = p.const()
        lo = min(lo, v); hi = max(hi, v)
    return lo, hi

def gate_floor(c, D):
    """c*(floor((Z+k)/d) - floor(Z/d)) = floor((Z+k*c)/d) - floor(Z/d)"""
    for m, al in D.d.items():
        if len(m) != 1: continue
        A = ATOMS[m[0]]
        if A.kind != 'fl' or not isinstance(al, int): continue
        Z, d = A.args
        rest = psub(D, Poly({m: al}))
        for k in (1, -1):
            F0 = fl(paddc(Z, -k), d)
            if padd(rest, pscale(F0, al)).d: continue
            return pscale(psub(fl(padd(paddc(Z, -k), pscale(c, k)), d), F0), al)
    return None

def nameb(c):
    """shorten a boolean polynomial by naming it when it is large"""
    if len(c.d) > 1:
        c = bnorm(c)
    if len(c.d) > NAME_AT:
        return named(c)
    return c

def unname(p, cap=20000):
    """replace names by what they stand for"""
    for _ in range(50):
        mp = {i: ATOMS[i].args[0] for i in patoms(p) if ATOMS[i].kind == 'nm'}
        if not mp: return p
        p = psubst(p, mp)
        if len(p.d) > cap: raise TooBig('unfolding')
    return p

# ---------------------------------------------------------------- floor
FL_STEPS = 3

def fl(P, d, hint=None):
    """floor(P / d) for a positive integer constant d, as a polynomial"""
    P = ctx_simplify(P)
    if d == 1:
        return P
    if P.isconst():
        return pc(P.const() // d)
    A = {}
    B = {}
    for m, c in P.d.items():
        if not isinstance(c, int):
            raise Undecided('floor of a non-integer polynomial')
        if m:
            q, r = divmod(c, d)
            if 2 * r > d:
                r -= d; q += 1
        else:
            q, r = divmod(c, d)
        if q: A[m] = q
        if r: B[m] = r
    A = Poly(A)
    if not B:
        return A
    g = d
    for m, c in B.items():
        if m:
            g = math.gcd(g, c)
            if g == 1:
                break
    if g > 1:
        # the non-constant part is a multiple of g and integer valued, so the constant may be floored too
        B = {m: c // g for m, c in B.items()}
        if B.get((), 1) == 0:
            del B[()]
        d //= g
    # fl(g*B', g*d') = fl(B', d') ; constants need floor: floor((gB'+c)/ (g d')) handled since c is in B
    Bp = Poly(B)
    if d == 1:
        return padd(A, Bp)
    if Bp.isconst():
        return padd(A, pc(Bp.const() // d))
    lo, hi = prange(Bp)
    if hint is not None:
        # hint is a range of P itself; translate
        alo, ahi = prange(A)
        if alo == ahi:
            lo = max(lo, -((-(hint[0] - alo * d * g)) // g) if g > 1 else hint[0] - alo * d)
            hi = min(hi, (hint[1] - alo * d * g) // g)
    if lo == -INF or hi == INF:
        kl, kh = -INF, INF
    else:
        kl, kh = lo // d, hi // d
    if kl == kh:
        return padd(A, pc(kl))
    # const part: pull floor of pieces with small range
    if kh - kl <= FL_STEPS:
        r = pc(kl)
        for t in range(kl + 1, kh + 1):
            r = padd(r, ge0(paddc(Bp, -t * d), (lo - t * d, hi - t * d)))
        return padd(A, r)
    # nested floors: floor((R + floor(X/a))/d) = floor((a*R + X)/(a d))
    nf = [m for m, c in B.items() if m and any(ATOMS[i].kind == 'fl' for i in m)]
    if len(nf) == 1 and B[nf[0]] == 1 and len(nf[0]) == 1:
        Z, e = ATOMS[nf[0][0]].args
        inner = padd(pscale(Poly({m: c for m, c in B.items() if m != nf[0]}), e), Z)
        return padd(A, fl(inner, e * d))
    if len(B) > 1:
        r = drop_low_fl(Bp, d)
        if r is not None:
            return padd(A, fl(r[0], d // r[1]))
    # floor((X - (X mod a)+...)...) with a multiple of d is covered by coefficient splitting
    return padd(A, fl_atom(Bp, d, kl, kh))

def drop_low_fl(D, d):
    """floor((g*H + low)/d) = floor((H + h)/(d/g)) when g | d and floor(low/g) is the constant h"""
    ms = []
    for m, c in D.d.items():
        if m: ms.append((abs(c), c, m))
    if len(ms) < 2: return None
    ms.sort(key=lambda x: x[0])
    sg = [0] * (len(ms) + 1)
    for k in range(len(ms) - 1, -1, -1):
        sg[k] = math.gcd(sg[k + 1], ms[k][0])
    c0 = D.d.get((), 0)
    lo = hi = 0
    best = None
    for k in range(1, len(ms)):
        _, c, m = ms[k - 1]
        a, b = mono_range(m)
        if a == -INF or b == INF: break
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
        g = math.gcd(sg[k], d)
        if g == 1: continue
        h0, h1 = (c0 + lo) // g, (c0 + hi) // g
        if h0 == h1: best = (k, g, h0)
    if best is None: return None
    k, g, h = best
    H = {m: c // g for _, c, m in ms[k:]}
    if h: H[()] = h
    return Poly(H), g

def fl_atom(Bp, d, kl, kh):
    k = ('fl', Bp.key(), d)
    a = _intern.get(k)
    if a is None:
        a = _new('fl', (Bp, d), kl, kh, True, False)
        if CTX.rng or CTX.fix:
            # range computed under local facts is not valid globally
            global_lo, global_hi = noctx_range(Bp)
            a.lo = global_lo // d if global_lo != -INF else -INF
            a.hi = global_hi // d if global_hi != INF else INF
        _intern[k] = a
    else:
        if not (CTX.rng or CTX.fix):
            if kl > a.lo: a.lo = kl
            if kh < a.hi: a.hi = kh
    return pa(a.id)

def noctx_range(p):
    global CTX
    old = CTX
    CTX = Ctx()
    try:
        return prange(p)
    finally:
        CTX = old

def tighten(p, lo, hi):
    """record that the (single-atom) polynomial p lies in [lo,hi] (only globally valid facts)"""
    if CTX.rng or CTX.fix:
        return
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and c == 1:
            A = ATOMS[m[0]]
            if lo > A.lo: A.lo = lo
            if hi < A.hi: A.hi = hi

def pmod(P, d, hint=None):
    """P mod d in [0,d)"""
    if d & (d - 1) == 0 or d in RADIX:
        return psub(P, pscale(fl(P, d, hint), d))
    return rem(P, d, hint)

def cnorm(P, d):
    """congruence normal form modulo the constant d: coefficients in (-d/2, d/2], residues mod d unfolded"""
    out = {}
    for _ in range(20):
        mp = {}
        for i in patoms(P):
            A = ATOMS[i]
            if A.kind == 'rem' and A.args[1] == d:
                mp[i] = A.args[0]
        if not mp:
            break
        P = psubst(P, mp)
    for m, c in P.d.items():
        if not isinstance(c, int):
            raise Undecided('remainder of a non-integer polynomial')
        c %= d
        if m and 2 * c > d:
            c -= d
        if c:
            out[m] = c
    return Poly(out)

def rem(P, d, hint=None):
    """P mod d (d constant, not a power of two) as an atom keyed by the congruence class of P"""
    P = ctx_simplify(P)
    if hint is not None and 0 <= hint[0] and hint[1] < d:
        return P
    N = cnorm(P, d)
    if N.isconst():
        return pc(N.const() % d)
    lo, hi = prange(N)
    if 0 <= lo and hi < d:
        return N
    lo, hi = prange(P)
    if 0 <= lo and hi < d:
        return P
    k = ('rem', N.key(), d)
    a = _intern.get(k)
    if a is None:
        a = _new('rem', (N, d), 0, d - 1, True, False)
        _intern[k] = a
    return pa(a.id)

def remq(P, Q, qlo, qhi):
    """P mod Q for a symbolic positive Q with range [qlo,qhi]"""
    P = ctx_simplify(P)
    if len(Q.d) == 1:
        (qm, qc), = Q.d.items()
        if qc == 1 and len(qm) == 1:
            q = qm[0]
            for _ in range(20):
                mp = {}
                for i in patoms(P):
                    A = ATOMS[i]
                    if A.kind == 'rem' and isinstance(A.args[1], Poly) and A.args[1].d == Q.d:
                        mp[i] = A.args[0]
                if not mp:
                    break
                P = psubst(P, mp)
            P = Poly({m: c for m, c in P.d.items() if q not in m})
    if P.isconst() and P.const() == 0:
        return ZERO
    lo, hi = prange(P)
    if 0 <= lo and hi < qlo:
        return P
    k = ('rem', P.key(), Q.key())
    a = _intern.get(k)
    if a is None:
        a = _new('rem', (P, Q), 0, qhi - 1, True, False)
        _intern[k] = a
    elif qhi - 1 > a.hi: a.hi = qhi - 1
    return pa(a.id)

def fdiv(P, Q, lo, hi):
    k = ('fdiv', P.key(), Q.key())
    a = _intern.get(k)
    if a is None:
        a = _new('fdiv', (P, Q), lo, hi, True, False)
        _intern[k] = a
    else:
        if lo < a.lo: a.lo = lo
        if hi > a.hi: a.hi = hi
    return pa(a.id)

# ---------------------------------------------------------------- evaluation (for witnesses)
class EvalError(Exception):
    pass

def ev_atom(i, env):
    v = env.get(i)
    if v is not None:
        return v
    A = ATOMS[i]
    k = A.kind
    if k == 'var':
        raise EvalError('no value for %s' % A.name)
    if k == 'step':
        v = 1 if ev(CORES[A.core], env) >= A.t else 0
    elif k == 'fl':
        x = ev(A.args[0], env)
        v = x // A.args[1] if isinstance(x, int) else math.floor(x / A.args[1])
    elif k == 'rem':
        q = ev(A.args[1], env) if isinstance(A.args[1], Poly) else A.args[1]
        if q == 0:
            raise EvalError('division by zero')
        v = ev(A.args[0], env) % q
    elif k == 'fdiv':
        q = ev(A.args[1], env)
        if q == 0:
            raise EvalError('division by zero')
        v = ev(A.args[0], env) // q
    elif k == 'nm':
        v = ev(A.args[0], env)
    elif k == 'umod':
        v = ev(A.args[0], env) % (1 << A.args[1])
    elif k == 'cmod':
        h = 1 << (A.args[1] - 1)
        v = (ev(A.args[0], env) + h) % (2 * h) - h
    elif k == 'uf':
        f = UF_EVAL.get(A.name)
        if f is None:
            raise EvalError('uninterpreted ' + A.name)
        v = f(*[ev(x, env) if isinstance(x, Poly) else x for x in A.args])
    env[i] = v
    return v

def ev(p, env):
    s = 0
    for m, c in p.d.items():
        v = c
        for i in m:
            if v == 0:
                break
            v = v * ev_atom(i, env)
        s += v
    return s

def c_round(x):
    if isinstance(x, (int,)):
        return x
    if isinstance(x, Fraction):
        n = math.floor(abs(x) + Fraction(1, 2))
        return n if x >= 0 else -n
    if x != x or abs(x) == INF:
        raise EvalError('nan')
    n = math.floor(abs(x) + 0.5)
    return n if x >= 0 else -n

UF_EVAL = {
    'round': c_round,
    'trunc': lambda x: int(x),
    'floor': lambda x: math.floor(x),
    'ceil': lambda x: math.ceil(x),
    'sqrt': lambda x: math.sqrt(x) if x > 0 else 0.0,
    'ge0': lambda x: 1 if x >= 0 else 0,
    'eq0': lambda x: 1 if x == 0 else 0,
    'and': lambda a, b: int(a) & int(b),
    'or': lambda a, b: int(a) | int(b),
    'xor': lambda a, b: int(a) ^ int(b),
    'cos': lambda x: math.cos(x),
    'sin': lambda x: math.sin(x),
    'div': lambda a, b: a / b,
    'log2': lambda x: math.log2(x) if x > 0 else -1e9,
    'pow': lambda a, b: a ** b,
    'max': lambda *a: max(a),
}

def base_vars(p, seen=None, out=None):
    """all var atoms p depends on (transitively)"""
    if seen is None:
        seen = set(); out = set()
    stack = [p]
    while stack:
        q = stack.pop()
        for i in patoms(q):
            if i in seen:
                continue
            seen.add(i)
            A = ATOMS[i]
            if A.kind == 'var':
                out.add(i)
            elif A.kind == 'step':
                stack.append(CORES[A.core])
            else:
                for x in A.args:
                    if isinstance(x, Poly):
                        stack.append(x)
    return out
