"""Every public function of the library with argument builders and parameter sets (used by C19, C20, C21).

An entry is analysed either in line (all callees analysed with it) or, for pipelines, with the polynomial and ciphertext
operations it calls replaced by uninterpreted functions (the result is a fresh unknown determined by the operation and the
contents of its operands); those operations are entries of their own."""
import re, random, hashlib
import dom, interp, ob, sums
from check import Unit
from gen import W
from ob import Run
from dom import pc, ZERO, padd, psub, ATOMS, Poly
from interp import Ptr, PSel, SV, RV, WV, NoSummary, UNDEF, wnorm
from sums import zsz, okptr, wrpoly

# ------------------------------------------------------------------ argument builders
class A:
    out = False
    def make(self, r, tag): raise NotImplementedError

class Wide(A):
    def __init__(self, w, io='i', full=False): self.w, self.io, self.full = w, io, full; self.out = io != 'i'
    def make(self, r, tag):
        if self.io == 'o': return r.wideout('z' + tag, self.w)
        return r.wide('z' + tag, self.w, ro=self.io == 'i', full=self.full)[0]

def cells(w):
    """ranges of integers below 2^w within which every quotient by 10^j 2^(32k) is zero or nonzero throughout"""
    top = 1 << w
    pts = {1, top}
    a = 1
    while a < top:
        b = a
        while b < top:
            pts.add(b); b *= 10
        a <<= 32
    pts = sorted(pts)
    return [(0, 0)] + [(a, b - 1) for a, b in zip(pts, pts[1:])]

def decimal(r=None, a=None):
    """exact division by powers of ten"""
    dom.RADIX.update(10 ** k for k in range(1, 20)); dom.FL_STEPS = 0

class Cell(A):
    """n wide integers, each from one of the cells given (negated where listed)"""
    def __init__(self, w, cs, neg=()): self.w, self.cs, self.neg = w, cs, neg
    def make(self, r, tag):
        sz = zsz(self.w)
        o = r.obj(sz * len(self.cs), 'c' + tag, ro=True); o.maxsz = o.gran = sz
        for k, (lo, hi) in enumerate(self.cs):
            x = pc(lo) if lo == hi else dom.var('c%s.%d' % (tag, k), lo, hi)
            if k in self.neg: x = dom.paddc(dom.pscale(x, -1), 1 << self.w)
            o.cells[sz * k] = (sz, WV(x, self.w))
        return Ptr(o, 0)

class PolyA(A):
    def __init__(self, w, N, io='i', n=1, limb=False): self.w, self.N, self.io, self.n, self.limb = w, N, io, n, limb; self.out = io != 'i'
    def make(self, r, tag):
        sz = zsz(self.w) * self.N
        o = r.obj(sz * self.n, 'p' + tag, ro=self.io == 'i')
        if self.io != 'o':
            for j in range(self.n): r.poly('p%s.%d' % (tag, j), self.w, self.N, self.io == 'i', self.limb, o, sz * j)
        return Ptr(o, 0)

def Ct(w, N, io='i', n=1, limb=False): return PolyA(w, N, io, 2 * n, limb)

class Ints(A):
    def __init__(self, N, lo=-1, hi=1, io='i'): self.N, self.lo, self.hi, self.io = N, lo, hi, io; self.out = io != 'i'
    def make(self, r, tag):
        if self.io == 'o': return Ptr(r.obj(4 * self.N, 's' + tag), 0)
        if getattr(r, 'concrete', False):
            rnd = random.Random(tag)
            return r.const_ints('s' + tag, [rnd.randint(self.lo, self.hi) for _ in range(self.N)], self.io == 'i')
        return r.ints('s' + tag, self.N, self.lo, self.hi, self.io == 'i')[0]

class IntsC(A):
    def __init__(self, *vals): self.vals = vals
    def make(self, r, tag):
        rnd = random.Random(tag)
        return r.const_ints('s' + tag, [v if v is not None else rnd.choice((-1, 0, 1)) for v in self.vals])

class Reals(A):
    def __init__(self, n, io='i', B=4.): self.n, self.io, self.B = n, io, B; self.out = io != 'i'
    def make(self, r, tag):
        if self.io == 'o': return r.out_words('d' + tag, self.n)
        return r.reals('d' + tag, self.n, -self.B, self.B, self.io == 'i')[0]

class Words(A):
    def __init__(self, n, lo=0, hi=(1 << 64) - 1, io='i'): self.n, self.lo, self.hi, self.io = n, lo, hi, io; self.out = io != 'i'
    def make(self, r, tag):
        if self.io == 'o': return r.out_words('w' + tag, self.n)
        return r.words('w' + tag, self.n, self.lo, self.hi, self.io == 'i')[0]

class Num(A):
    def __init__(self, *v): self.v = v
    def make(self, r, tag): return self.v[int(tag.split('.')[0]) % len(self.v)] if len(self.v) > 1 else self.v[0]

class U64(A):
    def __init__(self, lo=0, hi=(1 << 64) - 1): self.lo, self.hi = lo, hi
    def make(self, r, tag): return r.word('u' + tag, self.lo, self.hi)[0]

def pick(v, tag): return v[int(tag.split('.')[0]) % len(v)]

class Below(A):
    """a word below the modulus (the modulus chosen as in Num)"""
    def __init__(self, *p): self.p = p
    def make(self, r, tag): return r.word('u' + tag, 0, pick(self.p, tag) - 1)[0]

class Real(A):
    def __init__(self, B=4.): self.B = B
    def make(self, r, tag): return RV(dom.var('f' + tag, -self.B, self.B, False))

class SD(A):
    """SparseDiagonal objects (n of them) with unknown entries, listed offsets and flags"""
    def __init__(self, N, S, off=None, io='i', n=1, unused=(), listed=False, vary=False): self.vary = vary; self.N, self.S, self.off, self.io, self.n, self.unused, self.listed = N, S, off, io, n, unused, listed; self.out = io != 'i'
    def make(self, r, tag):
        N, S = self.N, self.S
        size = (S * N * 8 + S * 4 + S + 7) // 8 * 8
        o = r.obj(size * self.n, 'm' + tag, ro=self.io == 'i')
        if self.io == 'o': return Ptr(o, 0)
        rnd = random.Random('%s %d %d' % (tag, N, S))
        for k in range(self.n):
            b = size * k
            off = self.off or tuple((s + k) % N for s in range(S))
            vary = self.vary and tag[0] == '2'
            if vary: off = tuple((x + 1) % N for x in off)
            for s in range(S):
                un = s in self.unused and not vary
                for i in range(N):
                    v = 0. if un else rnd.uniform(-1, 1) if self.listed else RV(dom.var('m%s.%d[%d][%d]' % (tag, k, s, i), -4., 4., False))
                    o.cells[b + 8 * (s * N + i)] = (8, v)
                o.cells[b + 8 * S * N + 4 * s] = (4, off[s])
                o.cells[b + 8 * S * N + 4 * S + s] = (1, 1 if un else 0)
        o.gran = 1; o.maxsz = 8
        return Ptr(o, 0)

class Ptrs(A):
    """array of pointers to objects"""
    def __init__(self, *el): self.el = el
    def make(self, r, tag):
        o = r.obj(8 * len(self.el), 'a' + tag, ro=True)
        for i, e in enumerate(self.el): o.cells[8 * i] = (8, e.make(r, '%s.%d' % (tag, i)) if e else None)
        o.gran = 8
        return Ptr(o, 0)

class Built(A):
    """an object set up by its constructor"""
    def __init__(self, size, ctor, *args): self.size, self.ctor, self.args = size, ctor, args
    def make(self, r, tag):
        c = Ptr(r.obj(r.call('w_' + self.size, []), 'object' + tag), 0)
        r.call('w_' + (pick(self.ctor, tag) if type(self.ctor) is tuple else self.ctor), [c] + [a.make(r, tag + '.c') for a in self.args])
        c.obj.ro = True
        return c

class Str(A):
    def __init__(self, n, io='o', text=None): self.n, self.io, self.text = n, io, text; self.out = io != 'i'
    def make(self, r, tag):
        o = r.obj(self.n, 'str' + tag, ro=self.io == 'i')
        if self.text is not None:
            for i, ch in enumerate(self.text.encode() + b'\0'): o.cells[i] = (1, ch)
            o.gran = 1
        return Ptr(o, 0)

class Raw(A):
    """memory for an object to be constructed or filled"""
    def __init__(self, size): self.size = size; self.out = True
    def make(self, r, tag): return Ptr(r.obj(self.size, 'o' + tag), 0)

class Entry:
    def __init__(self, name, params, body, args, ret='void', uf=False, rand=False, script=None, limit=200, pre=None, same=(), par=False, sums=('findPrimitiveRoot',)):
        self.sums = sums
        self.name, self.params, self.body, self.args, self.ret, self.uf, self.rand, self.script, self.limit, self.pre, self.same, self.par = name, params, body, args, ret, uf, rand, script, limit, pre, same, par

class Group:
    def __init__(self, tag, *headers): self.tag = tag; self.g = W(*headers); self.E = []
    def add(self, name, params, body, args, ret='void', **k):
        e = Entry(name, params, body, args, ret, **k)
        e.fn = 'e%d' % len(self.E)
        self.g.fn(e.fn, params, body if ret == 'void' else body, ret)
        self.E.append(e)

# ------------------------------------------------------------------ uninterpreted operations
def digest(it, p, size):
    """identity of the contents of [p, p+size)"""
    if type(p) is PSel: raise NoSummary
    o, off = p.obj, p.off
    if o.freed or off < 0 or off + size > o.size: raise NoSummary
    out = []
    for k in sorted(it.overlapping(o, off, size)):
        sz, v = o.cells[k]
        if k < off or k + sz > off + size: raise NoSummary
        if type(v) is WV: x = ('w', v.w, v.P.key())
        elif type(v) is SV: x = ('s', v.P.key())
        elif type(v) is RV: x = ('r', v.P.key())
        elif v is UNDEF: x = ('undef', o.id, k)
        else: x = repr(v)
        out.append((k - off, sz, x))
    return out

OPS = []
def op(rx, sig):
    OPS.append((re.compile(rx), sig))
# operand kinds: i = int[N], p = R_Q<w,N>, c = R_Q_square<w,N>, d = double[N/2], n = number; capital: written; * = read and written
op(r'^void conv<(?P<w>\d+), (?P<N>\d+)>\(int const\*', lambda w, N: [('i', N), ('p', w, N), ('P', w, N)])
op(r'^void conv<(?P<w>\d+), (?P<N>\d+)>\(R_Q<', lambda w, N: [('p', w, N), ('p', w, N), ('P', w, N)])
op(r'^void Mul<(?P<w>\d+), (?P<N>\d+)>\(', lambda w, N: [('c', w, N), ('c', w, N), ('c', 2 * w, N), ('C', w, N)])
op(r'^HEAAN<(?P<w>\d+), (?P<N>\d+)>::enc\(', lambda w, N: [('p', w, N), ('i', N), ('C', w, N), 'rand'])
op(r'^HEAAN<(?P<w>\d+), (?P<N>\d+)>::dec\(', lambda w, N: [('c', w, N), ('i', N), ('P', w, N)])
op(r'^HEAAN<(?P<w>\d+), (?P<N>\d+)>::swkgen\(', lambda w, N: [('i', N), ('i', N), ('C', 2 * w, N), 'rand'])
op(r'^HEAAN<(?P<w>\d+), (?P<N>\d+)>::ks\(', lambda w, N: [('c', 2 * w, N), ('*', w, N)])
op(r'^void RS<(?P<w>\d+), (?P<t>\d+), (?P<N>\d+)>\(', lambda w, t, N: [('c', w, N), ('C', t, N)])
op(r'^void encode<(?P<w>\d+), (?P<L>\d+)>\(double const\*, double const\*, unsigned long, R_Q<', lambda w, L: [('d', 1 << (L - 1)), ('d', 1 << (L - 1)), ('n',), ('P', w, 1 << L)])

def osize(s):
    k = s[0]
    return 4 * s[1] if k == 'i' else 8 * s[1] if k == 'd' else zsz(s[1]) * s[2] if k in 'pP' else 2 * zsz(s[1]) * s[2]

def uf(dem):
    for rx, f in OPS:
        m = rx.match(dem)
        if m is None: continue
        sig = f(**{k: int(v) for k, v in m.groupdict().items()})
        head = dem.split('(')[0]
        def h(it, a, dbg):
            if it.par is not None: raise NoSummary      # inside a parallel loop every access counts
            rnd = sig[-1] == 'rand'
            ops = sig[:-1] if rnd else sig
            key = [head]
            for p, s in zip(a, ops):
                if s[0] == 'n': key.append(p if type(p) in (int, float) else p.P.key())
                else:
                    okptr(p)
                    if s[0] in 'ipcd*': key.append(digest(it, p, osize(s)))
                    elif p.obj.ro or p.off < 0 or p.off + osize(s) > p.obj.size: raise NoSummary
            if rnd:
                it.nrand += 1; it.effects_rand += 1; key.append(it.nrand)
            hh = hashlib.md5(repr(key).encode()).hexdigest()[:10]
            for p, s in zip(a, ops):
                if s[0] not in 'PC*': continue
                w, N = s[1], s[2]
                for j in range(1 if s[0] == 'P' else 2):
                    for i in range(N):
                        v = dom.var('uf:%s:%s.%d[%d]' % (head, hh, j, i), 0, (1 << w) - 1)
                        it.write_wide(it.ptr_add(p, zsz(w) * (N * j + i), None, None), w, v, dbg)
        return h
    return None

UFS = ('Z_Q<', 'findPrimitiveRoot', 'void resize<', 'void shift_')
INT = UFS + ('cmpge', 'mul(unsigned')

class Only:
    """verified summaries of the named functions, if these neither write static data nor have other effects"""
    def __init__(self, S, pats): self.S, self.pats = S, pats
    def __call__(self, it, name, dem):
        return self.S(it, name, dem) if self.S and name not in self.S.impure and any(p in dem for p in self.pats) else None

class UF:
    """uninterpreted operations, then verified integer operations"""
    def __init__(self, S): self.S = Only(S, UFS); self.cache = {}
    def __call__(self, it, name, dem):
        if it.stack and it.stack[-1].startswith('w_'): return None       # the function under analysis
        if name not in self.cache: self.cache[name] = uf(dem) or self.S(it, name, dem)
        return self.cache[name]

def summaries(e, mod, S):
    return UF(S) if e.uf else Only(S, e.sums)

# ------------------------------------------------------------------ analysis helpers
def start(e, mod, S, out):
    r = Run(mod, summaries(e, mod, S), out, timelimit=e.limit)
    out.late = None
    if e.script: r.it.rand_script = e.script
    return r

def args(e, r, tag):
    a = [x.make(r, '%s.%d' % (tag, k)) for k, x in enumerate(e.args)]
    for i, j in e.same: a[i] = a[j]
    if e.pre: e.pre(r, a)
    return a

def outputs(e, a):
    return [(k, p) for k, (x, p) in enumerate(zip(e.args, a)) if x.out]

def cellval(it, v, sz):
    if type(v) is WV: return 'w', v.P
    if type(v) in (SV, int): return 'i', interp.to_u(v, 8 * sz)[0]
    if type(v) is RV: return 'r', v.P
    if type(v) is float: return 'r', pc(v)
    return 'x', v

def same_contents(r, p, q, what, tol=None):
    """the objects p and q hold equal values"""
    out = r.out; it = r.it
    ok = True
    ks = sorted(set(p.obj.cells) | set(q.obj.cells))
    if not all(k in p.obj.cells and k in q.obj.cells and p.obj.cells[k][0] == q.obj.cells[k][0] and (type(p.obj.cells[k][1]) is WV) == (type(q.obj.cells[k][1]) is WV) for k in ks):
        for o in (p.obj, q.obj):
            for k in sorted(o.cells):
                if o.cells.get(k) and type(o.cells[k][1]) is WV: it.explode(o, k)
    ks = sorted(set(p.obj.cells) | set(q.obj.cells))
    for k in ks:
        a, b = p.obj.cells.get(k), q.obj.cells.get(k)
        if a is None or b is None or a[0] != b[0]:
            out.undecided('%s: cells at offset %d differ in layout' % (what, k)); return False
        ta, x = cellval(it, a[1], a[0]); tb, y = cellval(it, b[1], b[0])
        if ta == 'x' or tb == 'x':
            out.checks += 1
            if x is y or (ta == tb and not isinstance(x, (Ptr,))): out.discharged += 1
            elif isinstance(x, Ptr): out.discharged += 1
            else: out.undecided('%s: offset %d' % (what, k))
            continue
        if 'r' in (ta, tb): ok &= r.close(psub(x, y), 1e-9 if tol is None else tol, '%s, offset %d' % (what, k))
        else: ok &= r.zero(psub(x, y), '%s, offset %d' % (what, k))
        if out.status == 'refuted': return False
    return ok

def same_ret(r, x, y, what):
    if x is None and y is None: return True
    ta, p = cellval(r.it, x, 8); tb, q = cellval(r.it, y, 8)
    if 'x' in (ta, tb):
        r.out.undecided('%s: result' % what); return False
    return r.close(psub(p, q), 1e-9, what) if 'r' in (ta, tb) else r.zero(psub(p, q), what)

def events(r, kinds):
    """report events, but not those that need a particular value of an uninterpreted result"""
    evs = r.it.events
    keep = []
    for e in evs:
        if e['kind'] not in kinds: continue
        vs = set()
        for c, v in e['pc']: vs |= dom.base_vars(c)
        if any(ATOMS[i].name.startswith('uf:') for i in vs):
            r.out.checks += 1
            r.out.undecided('%s at %s: depends on an uninterpreted value' % (e['msg'], e['loc'])); continue
        keep.append(e)
    r.it.events = keep
    r.events(kinds)

# ------------------------------------------------------------------ the table
WQ = [30, 64, 65, 128, 130]
WT = [1, 30, 63, 64, 65, 100, 127, 128, 129, 192, 200]

def groups(tier, prop):
    q = tier == 'quick'
    G = []
    def Z(w): return 'Z_Q<%d>' % w
    for w in (WQ if q else WT):
        g = Group('z%d' % w, 'HEAAN/arith/Z_Q.h'); T = Z(w)
        g.add('Z_Q<%d> copy' % w, 'void*a,const %s*b' % T, 'new(a) %s(*b);' % T, [Wide(w, 'o'), Wide(w)])
        g.add('Z_Q<%d> =' % w, '%s*a,const %s*b' % (T, T), '*a=*b;', [Wide(w, 'o'), Wide(w)])
        for nm, b in (('+=', '*a+=*b;'), ('-=', '*a-=*b;'), ('*=', '*a*=*b;')):
            if nm == '*=' and w > 130: continue
            g.add('Z_Q<%d> %s' % (w, nm), '%s*a,const %s*b' % (T, T), b, [Wide(w, 'io'), Wide(w)])
            g.add('Z_Q<%d> %s itself' % (w, nm), '%s*a,const %s*b' % (T, T), b, [Wide(w, 'io'), Wide(w)], same=((1, 0),))
        g.add('Z_Q<%d> *= word' % w, '%s*a,uint64_t b' % T, '*a*=b;', [Wide(w, 'io'), U64()])
        g.add('Z_Q<%d> negate' % w, '%s*a' % T, 'a->negate();', [Wide(w, 'io')])
        g.add('Z_Q<%d> setzero' % w, '%s*a' % T, 'a->setzero();', [Wide(w, 'o')])
        g.add('Z_Q<%d> remove_clutter' % w, '%s*a' % T, 'a->remove_clutter();', [Wide(w, 'io', full=True)])
        g.add('Z_Q<%d> is_bigger_than_halfQ' % w, 'const %s*a' % T, 'return a->is_bigger_than_halfQ();', [Wide(w)], 'bool')
        g.add('Z_Q<%d> max_valid_digit' % w, 'const %s*a' % T, 'return a->max_valid_digit();', [Wide(w)], 'int')
        g.add('Z_Q<%d> double' % w, 'const %s*a' % T, 'return (double)*a;', [Wide(w)], 'double')
        g.add('Z_Q<%d> index' % w, '%s*a,uint64_t b' % T, '(*a)[%d]=b; return ((const %s&)*a)[0];' % ((w + 63) // 64 - 1, T), [Wide(w, 'io'), U64()], 'uint64_t')
        for t in (WQ if q else WT):
            if t < w: g.add('shift_right<%d,%d>' % (w, t), 'const %s*a,%s*b' % (T, Z(t)), 'shift_right<%d,%d>(*a,*b);' % (w, t), [Wide(w), Wide(t, 'o')])
            if t > w: g.add('shift_left<%d,%d>' % (w, t), 'const %s*a,%s*b' % (T, Z(t)), 'shift_left<%d,%d>(*a,*b);' % (w, t), [Wide(w), Wide(t, 'o')])
            g.add('resize<%d,%d>' % (w, t), 'const %s*a,%s*b' % (T, Z(t)), 'resize<%d,%d>(*a,*b);' % (w, t), [Wide(w), Wide(t, 'o')])
        g.add('shift_right<%d,%d>' % (w, w), 'const %s*a,%s*b' % (T, T), 'shift_right<%d,%d>(*a,*b);' % (w, w), [Wide(w), Wide(w, 'o')])
        if w in (64, 130):
            for s in range(1, w, 1 if not q else 13):
                t = w - s
                if t in (WQ if q else WT): continue
                g.add('shift_right<%d,%d>' % (w, t), 'const %s*a,%s*b' % (T, Z(t)), 'shift_right<%d,%d>(*a,*b);' % (w, t), [Wide(w), Wide(t, 'o')])
                g.add('shift_left<%d,%d>' % (t, w), 'const %s*a,%s*b' % (Z(t), T), 'shift_left<%d,%d>(*a,*b);' % (t, w), [Wide(t), Wide(w, 'o')])
        G.append(g)
    # ring
    for w, N in ([(64, 2), (100, 4), (130, 2)] if q else [(64, 2), (30, 4), (100, 4), (130, 2), (128, 8), (65, 16), (192, 4)]):
        g = Group('r%d_%d' % (w, N), 'HEAAN/core.h', 'HEAAN/linear_transform.h', 'HEAAN/bootstrap.h'); P = 'R_Q<%d,%d>' % (w, N); C = 'R_Q_square<%d,%d>' % (w, N)
        K = 'R_Q_square<%d,%d>' % (2 * w, N); P2 = 'R_Q<%d,%d>' % (2 * w, N)
        for T, m, nm in ((P, PolyA, 'R_Q'), (C, Ct, 'R_Q_square')):
            nm = '%s<%d,%d>' % (nm, w, N)
            g.add(nm + ' copy', 'void*a,const %s*b' % T, 'new(a) %s(*b);' % T, [m(w, N, 'o'), m(w, N)])
            g.add(nm + ' =', '%s*a,const %s*b' % (T, T), '*a=*b;', [m(w, N, 'o'), m(w, N)])
            g.add(nm + ' +=', '%s*a,const %s*b' % (T, T), '*a+=*b;', [m(w, N, 'io'), m(w, N)])
            g.add(nm + ' += itself', '%s*a,const %s*b' % (T, T), '*a+=*b;', [m(w, N, 'io'), m(w, N)], same=((1, 0),))
            g.add(nm + ' -=', '%s*a,const %s*b' % (T, T), '*a-=*b;', [m(w, N, 'io'), m(w, N)])
            g.add(nm + ' *= word', '%s*a,uint64_t b' % T, '*a*=b;', [m(w, N, 'io'), U64()])
            g.add(nm + ' setzero', '%s*a' % T, 'a->setzero();', [m(w, N, 'o')])
            for t in (30, w, 2 * w):
                U = T.replace('<%d,' % w, '<%d,' % t)
                g.add('resize %s to %d' % (nm, t), 'const %s*a,%s*b' % (T, U), 'resize<%d,%d,%d>(*a,*b);' % (w, t, N), [m(w, N), m(t, N, 'o')])
        g.add('conv int %d' % N, 'const int*a,const int*b,int*c', 'conv<%d>(a,b,c);' % N, [Ints(N), Ints(N), Ints(N, io='o')])
        g.add('conv ternary %d %d' % (w, N), 'const int*a,const %s*b,%s*c' % (P, P), 'conv<%d,%d>(a,*b,*c);' % (w, N), [Ints(N), PolyA(w, N), PolyA(w, N, 'o')], par=True, sums=INT)
        g.add('rot key once', 'const int*a,int*b', 'rot<%d>(a,b);' % N, [Ints(N), Ints(N, io='o')])
        for k in sorted({0, 1, N // 2, N - 1, 3}):
            kk = Num((k + 1) % N, k)
            g.add('rot key %d' % k, 'const int*a,int*b,int k', 'rot<%d>(a,b,k);' % N, [Ints(N), Ints(N, io='o'), kk])
            g.add('rot R_Q %d' % k, 'const %s*a,%s*b,int k' % (P, P), 'rot<%d,%d>(*a,*b,k);' % (w, N), [PolyA(w, N), PolyA(w, N, 'o'), kk])
            g.add('rot_ct %d' % k, 'const %s*a,int k,const %s*s,%s*b' % (C, K, C), 'rot_ct<%d,%d>(*a,k,*s,*b);' % (w, N), [Ct(w, N), kk, Ct(2 * w, N), Ct(w, N, 'o')], uf=True)
        g.add('rot R_Q default', 'const %s*a,%s*b' % (P, P), 'rot(*a,*b);', [PolyA(w, N), PolyA(w, N, 'o')])
        g.add('conj key', 'const int*a,int*b', 'conj<%d>(a,b);' % N, [Ints(N), Ints(N, io='o')])
        g.add('conj R_Q', 'const %s*a,%s*b' % (P, P), 'conj<%d,%d>(*a,*b);' % (w, N), [PolyA(w, N), PolyA(w, N, 'o')])
        g.add('conj ciphertext', 'const %s*a,const %s*s,%s*b' % (C, K, C), 'conj<%d,%d>(*a,*s,*b);' % (w, N), [Ct(w, N), Ct(2 * w, N), Ct(w, N, 'o')], uf=True)
        # core, one level above the ring operations
        g.add('R_Q_square *= R_Q', '%s*a,const %s*b' % (C, P), '*a*=*b;', [Ct(w, N, 'io'), PolyA(w, N)], uf=True)
        H = 'HEAAN<%d,%d>' % (w, N)
        g.add('dec', 'const %s*a,const int*s,%s*b' % (C, P), '%s::dec(*a,s,*b);' % H, [Ct(w, N), Ints(N), PolyA(w, N, 'o')], uf=True)
        g.add('enc', 'const %s*a,const int*s,%s*b' % (P, C), '%s::enc(*a,s,*b);' % H, [PolyA(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
        g.add('swkgen', 'const int*a,const int*s,%s*b' % K, '%s::swkgen(a,s,*b);' % H, [IntsC(*([2, -1, 0, 1, None] * N)[:N]), Ints(N), Ct(2 * w, N, 'o')], uf=True, rand=True)
        g.add('ks', 'const %s*k,%s*b' % (K, C), '%s::ks(*k,*b);' % H, [Ct(2 * w, N), Ct(w, N, 'io')], uf=True)
        g.add('Mul', 'const %s*a,const %s*b,const %s*k,%s*c' % (C, C, K, C), 'Mul<%d,%d>(*a,*b,*k,*c);' % (w, N), [Ct(w, N), Ct(w, N), Ct(2 * w, N), Ct(w, N, 'o')], uf=True)
        g.add('Mul square', 'const %s*a,const %s*b,const %s*k,%s*c' % (C, C, K, C), 'Mul<%d,%d>(*a,*b,*k,*c);' % (w, N), [Ct(w, N), Ct(w, N), Ct(2 * w, N), Ct(w, N, 'o')], uf=True, same=((1, 0),))
        for t in (w - 20, w - 1):
            if t < 1: continue
            g.add('RS %d to %d' % (w, t), 'const %s*a,R_Q_square<%d,%d>*b' % (C, t, N), 'RS<%d,%d,%d>(*a,*b);' % (w, t, N), [Ct(w, N), Ct(t, N, 'o')])
        g.add('mod_raise', 'const %s*a,%s*b' % (C, K), 'mod_raise<%d,%d,%d>(*a,*b);' % (w, 2 * w, N), [Ct(w, N), Ct(2 * w, N, 'o')])
        G.append(g)
    for N in (2, 4):
        g = Group('kg%d' % N, 'HEAAN/core.h')
        H = 'HEAAN<64,%d>' % N
        g.add('keygen N=%d h=0' % N, 'int*s', '%s::keygen(0,s);' % H, [Ints(N, io='o')], rand=True)
        g.add('keygen N=%d h=1' % N, 'int*s', '%s::keygen(1,s);' % H, [Ints(N, io='o')], rand=True, script=[(0, N), (1, 2)] * 8)
        g.add('keygen N=%d h=2' % N, 'int*s', '%s::keygen(2,s);' % H, [Ints(N, io='o')], rand=True, script=[(N - 1, N), (0, 2), (N - 1, N), (N - 1, N), (0, N), (1, 2)] * 8)
        G.append(g)
    # wide product in line (constructor, transforms, reconstruction)
    for w, N in ([(64, 2), (30, 4)] if q else [(64, 2), (30, 4), (100, 2), (64, 8), (130, 4)]):
        g = Group('cv%d_%d' % (w, N), 'HEAAN/arith/conv.h'); P = 'R_Q<%d,%d>' % (w, N)
        g.add('conv wide %d %d' % (w, N), 'const %s*a,const %s*b,%s*c' % (P, P, P), 'conv<%d,%d>(*a,*b,*c);' % (w, N), [PolyA(w, N), PolyA(w, N), PolyA(w, N, 'o')], par=True, sums=INT + ('CRT<',))
        G.append(g)
    QS = [0xffffffffffc0001, 0xfffffffff840001, 0x1000000000980001, 0x1000000000b00001, 0xfffffffff240001]
    for L, w, N in ([(3, 64, 2), (2, 40, 4)] if q else [(3, 64, 2), (2, 40, 4), (5, 128, 2), (5, 100, 8)]):
        g = Group('crt%d_%d_%d' % (L, w, N), 'HEAAN/arith/conv.h', 'new'); T = 'CRT<%d,%d>' % (L, w); V = 'CONV<%d,%d,%d>' % (L, w, N); P = 'R_Q<%d,%d>' % (w, N); n = 'NTT<%d>' % N
        g.g.text('static constexpr uint64_t QS[] = {%s}, QS2[] = {%s};\n' % (','.join('%dULL' % x for x in QS), ','.join('%dULL' % x for x in QS[::-1])))
        g.g.fn('tsz', '', 'return sizeof(%s);' % T, 'uint64_t'); g.g.fn('tct', '%s*c' % T, 'new (c) %s(QS);' % T); g.g.fn('tct2', '%s*c' % T, 'new (c) %s(QS2);' % T)
        g.g.fn('vsz', '', 'return sizeof(%s);' % V, 'uint64_t'); g.g.fn('vct', '%s*c' % V, 'new (c) %s(QS);' % V); g.g.fn('vct2', '%s*c' % V, 'new (c) %s(QS2);' % V)
        g.g.fn('nsz', '', 'return sizeof(%s);' % n, 'uint64_t'); g.g.fn('nct', '%s*c' % n, 'new (c) %s(QS[%d]);' % (n, L - 1)); g.g.fn('nct2', '%s*c' % n, 'new (c) %s(QS[0]);' % n)
        g.add('CRT::icrt %d %d' % (L, w), 'const %s*c,const Z_Q<%d>*a,uint64_t*r' % (T, w), 'c->icrt(*a,r);', [Built('tsz', ('tct2', 'tct')), Wide(w), Words(L, io='o')])
        g.add('CRT::crt %d %d' % (L, w), 'const %s*c,const uint64_t*r,Z_Q<%d>*a' % (T, w), 'c->crt(r,*a);', [Built('tsz', ('tct2', 'tct')), Words(L), Wide(w, 'o')], sums=INT)
        g.add('NTT::ntt %d' % N, 'const %s*c,uint64_t*a' % n, 'c->ntt(a);', [Built('nsz', ('nct2', 'nct')), Words(N, io='io')])
        g.add('NTT::intt %d' % N, 'const %s*c,uint64_t*a' % n, 'c->intt(a);', [Built('nsz', ('nct2', 'nct')), Words(N, io='io')])
        g.add('CONV::conv %d %d %d' % (L, w, N), 'const %s*v,const %s*a,const %s*b,%s*c' % (V, P, P, P), 'v->conv(*a,*b,*c);', [Built('vsz', ('vct2', 'vct')), PolyA(w, N), PolyA(w, N), PolyA(w, N, 'o')], par=True, sums=INT + ('CRT<',))
        G.append(g)
    g = Group('mod', 'HEAAN/arith/conv/ntt.h', 'HEAAN/arith/Z_Q.h')
    g.add('mul 64x64', 'uint64_t a,uint64_t b,uint64_t*l,uint64_t*h', 'mul(a,b,*l,*h);', [U64(), U64(), Words(1, io='o'), Words(1, io='o')])
    g.add('mul_ 64x64', 'uint64_t a,uint64_t b,uint64_t*l,uint64_t*h', 'mul_(a,b,*l,*h);', [U64(), U64(), Words(1, io='o'), Words(1, io='o')])
    MP = (17, 0x1000000000980001, 0xffffffffffffffc5)
    for k, p in enumerate(MP):
        p2 = MP[k - 1] if k else MP[1]; V = 'uint64_t a,uint64_t b,uint64_t q'
        g.add('mod %d' % p, V, 'return mod(a,b,q);', [U64(), U64(), Num(p2, p)], 'uint64_t')
        if p < 1 << 63:
            for f in ('add', 'sub', 'mul'): g.add('%s_mod %d' % (f, p), V, 'return %s_mod(a,b,q);' % f, [Below(p2, p), Below(p2, p), Num(p2, p)], 'uint64_t')
        g.add('pow_mod %d' % p, 'uint64_t a,uint64_t e,uint64_t q', 'return pow_mod(a,e,q);', [Below(p2, p), Num(6, 13), Num(p2, p)], 'uint64_t')
    g.add('inv_mod', 'uint64_t a,uint64_t q', 'return inv_mod(a,q);', [Num(5, 7, 5, 7, 96, 5), Num(97, 101)], 'uint64_t')
    g.add('inv_mod large', 'uint64_t a', 'return inv_mod(a,%dULL);' % QS[2], [Num(5, 7, 96)], 'uint64_t')
    g.add('mod by an unknown modulus', 'uint64_t a,uint64_t b,uint64_t q', 'return mod(a,b,q);', [U64(), U64(), U64(1, (1 << 64) - 1)], 'uint64_t')
    G.append(g)
    # utilities
    g = Group('util', 'util/util.h')
    for n in (1, 2, 3, 8, 1000, 1 << 17): g.add('log %d' % n, 'int n', 'return log(n);', [Num(n)], 'int')
    g.add('bitReverse32', 'uint32_t x', 'return bitReverse32(x);', [Num(1, 77, 0x12345678)], 'uint32_t')
    for d in (1, 4, 16, 32): g.add('bitReverse %d' % d, 'uint32_t x', 'return bitReverse(x,%d);' % d, [Num(1, 0, 1)], 'uint32_t')
    g.add('rand_uint64', '', 'return rand_uint64();', [], 'uint64_t', rand=True)
    g.add('min', 'int a,int b', 'return min(a,b);', [Num(1, 5), Num(2, 3)], 'int')
    G.append(g)
    # embeddings and encodings
    for L, w in ([(2, 64), (3, 100)] if q else [(2, 64), (3, 100), (4, 130), (5, 30)]):
        N = 1 << L; h = N // 2
        g = Group('e%d_%d' % (L, w), 'HEAAN/endecode.h', 'HEAAN/matrix/DFT.h'); P = 'R_Q<%d,%d>' % (w, N)
        for f in ('dft<%d>' % N, 'fft<%d>' % L, 'fftNR<%d>' % L): g.add(f, 'const double*m,double*r,double*i', f + '(m,r,i);', [Reals(N), Reals(h, 'o'), Reals(h, 'o')])
        for f in ('idft<%d>' % N, 'ifft<%d>' % L, 'ifftNR<%d>' % L): g.add(f, 'const double*r,const double*i,double*m', f + '(r,i,m);', [Reals(h), Reals(h), Reals(N, 'o')])
        S = 'SparseDiagonal<%d,3>' % h
        g.add('splitU0NR<%d>' % L, '%s*a,%s*b' % (S, S), 'splitU0NR<%d>(a,b);' % L, [SD(h, 3, io='o', n=L - 1), SD(h, 3, io='o', n=L - 1)])
        B = 4.
        for D in (1 << 20, 1 << min(50, w - 4)):
            if B * D * 2 >= 2. ** min(63, w - 1): continue
            g.add('encode<%d,%d> Delta %d' % (w, L, D), 'const double*r,const double*i,%s*p,uint64_t d' % P, 'encode<%d,%d>(r,i,d,*p);' % (w, L), [Reals(h), Reals(h), PolyA(w, N, 'o'), Num(D >> 3, D)])
            g.add('decode<%d,%d> Delta %d' % (w, L, D), 'const %s*p,double*r,double*i,uint64_t d' % P, 'decode<%d,%d>(*p,d,r,i);' % (w, L), [PolyA(w, N, limb=True), Reals(h, 'o'), Reals(h, 'o'), Num(D >> 3, D)])
        for ld in (20, 50):
            g.add('decode_log<%d,%d> %d' % (w, L, ld), 'const %s*p,double*r,double*i,int d' % P, 'decode_log<%d,%d>(*p,d,r,i);' % (w, L), [PolyA(w, N, limb=True), Reals(h, 'o'), Reals(h, 'o'), Num(ld - 3, ld)])
        G.append(g)
    # matrices
    for N, S, T in ([(4, 2, 3), (8, 3, 3)] if q else [(4, 2, 3), (8, 3, 3), (2, 1, 2), (16, 3, 9)]):
        g = Group('m%d_%d' % (N, S), 'HEAAN/matrix/matrix.h', 'impl/message.h'); M = 'SparseDiagonal<%d,%d>' % (N, S); M2 = 'SparseDiagonal<%d,%d>' % (N, T); M3 = 'SparseDiagonal<%d,%d>' % (N, S * T)
        g.add('SparseDiagonal =', '%s*a,const %s*b' % (M, M), '*a=*b;', [SD(N, S, io='o'), SD(N, S)])
        for i, j in ((0, 0), (N - 1, 0), (1, N - 1)): g.add('get_element %d %d' % (i, j), 'const %s*a' % M, 'return a->get_element(%d,%d);' % (i, j), [SD(N, S)], 'double')
        g.add('set_element', '%s*a,double v' % M, 'a->set_element(%d,%d,v);' % (N - 1, 0), [SD(N, S, io='io', off=tuple((1 + 3 * s) % N for s in range(S))), Real()])
        g.add('SparseDiagonal setzero', '%s*a' % M, 'a->setzero();', [SD(N, S, io='o')])
        for o in ('+=', '-='): g.add('SparseDiagonal ' + o, '%s*a,const %s*b' % (M, M), '*a%s*b;' % o, [SD(N, S, io='io', off=tuple((3 * s + 1) % N for s in range(S))), SD(N, S, off=tuple((3 * s + 1) % N for s in range(S)))])
        g.add('SparseDiagonal *=', '%s*a,double b' % M, '*a*=b;', [SD(N, S, io='io'), Real()])
        for off in (tuple(range(S)), tuple(N - 1 - s for s in range(S))): g.add('transpose %s' % (off,), '%s*a' % M, 'a->transpose();', [SD(N, S, off, 'io')])
        g.add('SparseDiagonal negate', '%s*a' % M, 'a->negate();', [SD(N, S, io='io')])
        for off in (tuple(range(S)), tuple(N - 1 - s for s in range(S))):
            oT = tuple((2 * s) % N for s in range(T))
            g.add('MatMul %s' % (off,), 'const %s*a,const %s*b,%s*c' % (M, M2, M3), 'MatMul(*a,*b,*c);', [SD(N, S, off, vary=True), SD(N, T, oT), SD(N, S * T, io='o')])
            g.add('MatMul complex %s' % (off,), 'const %s*a,const %s*a2,const %s*b,const %s*b2,%s*c,%s*c2' % (M, M, M2, M2, M3, M3), 'MatMul(*a,*a2,*b,*b2,*c,*c2);',
                  [SD(N, S, off, unused=(0,) if off[0] else ()), SD(N, S, off, unused=(0,) if off[0] else ()), SD(N, T, oT), SD(N, T, oT), SD(N, S * T, io='o'), SD(N, S * T, io='o')])
        g.add('RemoveClutter', 'const %s*a,%s*b' % (M2, 'SparseDiagonal<%d,%d>' % (N, T - 1)), 'RemoveClutter(*a,*b);', [SD(N, T, unused=(T - 1,)), SD(N, T - 1, io='o')])
        if N <= 4:
            dd = 'const double(*%%s)[%d]' % N
            g.add('matrix_product', ','.join(dd % x for x in 'abcd') + ',double(*e)[%d],double(*f)[%d]' % (N, N), 'matrix_product<%d>(a,b,c,d,e,f);' % N, [Reals(N * N)] * 4 + [Reals(N * N, 'o')] * 2)
        Lm = N.bit_length()
        g.add('matrix_vector_product sparse', 'const double*r,const double*i,const SparseDiagonal<%d,3>*a,const SparseDiagonal<%d,3>*b,double*x,double*y' % (N, N), 'matrix_vector_product<%d>(r,i,*a,*b,x,y);' % Lm,
              [Reals(N), Reals(N), SD(N, 3, vary=True), SD(N, 3, vary=True), Reals(N, 'o'), Reals(N, 'o')])
        G.append(g)
    # clear-side types
    for L in ([2, 3] if q else [2, 3, 5]):
        N = 1 << L; h = N // 2; M = 'Message<%d>' % L
        g = Group('msg%d' % L, 'impl/message.h', 'new')
        g.add('Message()', 'void*p', 'new(p) %s();' % M, [Reals(N, 'o')]); g.add('Message copy', 'void*p,const %s*a' % M, 'new(p) %s(*a);' % M, [Reals(N, 'o'), Reals(N)])
        for f in ('add', 'sub', 'mul'): g.add('Message ' + f, 'const %s*a,const %s*b,%s*c' % (M, M, M), '%s(*a,*b,*c);' % f, [Reals(N), Reals(N), Reals(N, 'o')])
        for f in ('square_sum', 'norm', 'sup_norm'): g.add('Message ' + f, 'const %s*a' % M, 'return %s(*a);' % f, [Reals(N)], 'double')
        g.add('aggregate', 'const %s*a,const %s*b,Message<%d>*c' % (M, M, L + 1), 'aggregate(*a,*b,*c);', [Reals(N), Reals(N), Reals(2 * N, 'o')])
        g.add('matrix_vector_product K', 'const %s*z,const %s*a,%s*o' % (M, M, M), 'matrix_vector_product<%d,%d>(*z,a,*o);' % (L, h), [Reals(N), Reals(N * h), Reals(N, 'o')])
        T = 'SparseDiagonal<%d,2>' % h
        g.add('matrix_vector_product S', 'const %s*z,%s*a,%s*b,%s*o' % (M, T, T, M), 'matrix_vector_product<%d,2>(*z,*a,*b,*o);' % L, [Reals(N), SD(h, 2), SD(h, 2, unused=(1,)), Reals(N, 'o')])
        G.append(g)
        g = Group('sp%d' % L, 'impl/simple_plaintext.h'); P = 'SimplePlaintext<%d>' % L
        D = 1 << 30
        g.add('Simple encode', 'const %s*a,%s*p' % (M, P) + ',uint64_t d', 'encode<%d>(*a,d,*p);' % L, [Reals(N), Reals(N, 'o'), Num(D >> 3, D)])
        g.add('Simple encode_raw', 'const %s*a,%s*p' % (M, P) + ',uint64_t d', 'encode_raw<%d>(*a,d,*p);' % L, [Reals(N), Reals(N, 'o'), Num(D >> 3, D)])
        g.add('Simple decode', 'const %s*p,%s*a' % (P, M) + ',uint64_t d', 'decode<%d>(*p,d,*a);' % L, [Reals(N), Reals(N, 'o'), Num(D >> 3, D)])
        for f in ('conv', 'add', 'sub'): g.add('Simple ' + f, 'const %s*a,const %s*b,%s*c' % (P, P, P), '%s(*a,*b,*c);' % f, [Reals(N), Reals(N), Reals(N, 'o')])
        for f in ('square_sum', 'norm'): g.add('Simple ' + f, 'const %s*a' % P, 'return %s(*a);' % f, [Reals(N)], 'double')
        g.add('Simple rotate_once', 'const %s*a,%s*b' % (P, P), 'rotate_once(*a,*b);', [Reals(N), Reals(N, 'o')])
        for k in (0, 1, h): g.add('Simple rotate %d' % k, 'const %s*a,%s*b' % (P, P), 'rotate(*a,*b,%d);' % k, [Reals(N), Reals(N, 'o')])
        G.append(g)
    for w, L in ([(100, 2)] if q else [(100, 2), (64, 3), (130, 4)]):
        N = 1 << L; h = N // 2; M = 'Message<%d>' % L; P = 'R_Q<%d,%d>' % (w, N); T = 'SparseDiagonal<%d,3>' % h
        g = Group('pt%d_%d' % (w, L), 'HEAAN/core.h', 'HEAAN/endecode.h', 'impl/message.h', 'impl/plaintext.h')
        g.add('Message encode', 'const %s*a,%s*p' % (M, P), 'encode<%d,%d>(*a,1ULL<<30,*p);' % (w, L), [Reals(N), PolyA(w, N, 'o')])
        g.add('Message decode', 'const %s*p,%s*a' % (P, M), 'decode<%d,%d>(*p,1ULL<<30,*a);' % (w, L), [PolyA(w, N, limb=True), Reals(N, 'o')])
        g.add('Message decode_log', 'const %s*p,%s*a' % (P, M), 'decode_log<%d,%d>(*p,30,*a);' % (w, L), [PolyA(w, N, limb=True), Reals(N, 'o')])
        g.add('plaintext matrix_vector_product', 'const %s*p,const %s*a,%s*o' % (P, M, P), 'matrix_vector_product<%d,%d,%d>(*p,a,1ULL<<30,*o);' % (w, L, h), [PolyA(w, N), Reals(N * h), PolyA(w, N, 'o')], uf=True)
        g.add('plaintext matrix_vector_product S', 'const %s*p,%s*a,%s*b,%s*o' % (P, T, T, P), 'matrix_vector_product<%d,%d>(*p,*a,*b,1ULL<<30,*o);' % (w, L), [PolyA(w, N), SD(h, 3), SD(h, 3), PolyA(w, N, 'o')], uf=True)
        G.append(g)
    # linear transforms
    for L, S, w, LD in ([(2, 2, 100, 30), (3, 3, 64, 25)] if q else [(2, 2, 100, 30), (3, 3, 64, 25), (3, 2, 130, 40), (4, 3, 100, 30)]):
        N = 1 << L; h = N // 2
        g = Group('lt%d_%d_%d' % (L, S, w), 'HEAAN/linear_transform.h'); T = 'SparseDiagonal<%d,%d>' % (h, S); C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
        off = tuple(s % h for s in range(S))
        g.add('mat_to_vecs', 'const double(*a)[%d],double(*b)[%d]' % (h, h), 'mat_to_vecs<%d>(a,b);' % h, [Reals(h * h), Reals(h * h, 'o')])
        for un in ((), (1,)):
            g.add('linear_transform key unused %s' % (un,), 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,s,*o);' % (w, L, LD, S), [SD(h, S, off, unused=un, vary=True), SD(h, S, off, unused=un, vary=True), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
            g.add('linear_transform rkey unused %s' % (un,), 'const %s*a,const %s*b,const %s*c,const %s**k,%s*o' % (T, T, C, K, C), 'linear_transform<%d,%d,%d,%d>(*a,*b,*c,k,*o);' % (w, L, LD, S),
                  [SD(h, S, off, unused=un), SD(h, S, off, unused=un), Ct(w, N), Ptrs(*[None if s in un or not off[s] else Ct(2 * w, N) for s in range(S)]), Ct(w, N, 'o')], uf=True)
        g.add('linear_transform dense', 'const double(*a)[%d],const double(*b)[%d],const %s*c,const %s*k,%s*o' % (h, h, C, K, C), 'linear_transform<%d,%d,%d>(a,b,*c,*k,*o);' % (w, L, LD), [Reals(h * h), Reals(h * h), Ct(w, N), Ct(2 * w, N), Ct(w, N, 'o')], uf=True)
        D = 12 if S == 2 and L == 2 else 4
        g.add('serial_linear_transform', 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'serial_linear_transform<%d,%d,%d,%d,%d>(a,b,*c,s,*o);' % (w, L, LD, S, 2), [SD(h, S, n=2, vary=True), SD(h, S, n=2, vary=True), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
        for k in (1, 2, 3, 4):
            if D % k or S ** k > 30: continue
            g.add('grouped transform %d' % k, 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'grouped_serial_linear_transform<%d,%d,%d,%d,%d,%d>(a,b,*c,s,*o);' % (w, L, LD, S, D, k), [SD(h, S, n=D, listed=True), SD(h, S, n=D, listed=True), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
        G.append(g)
    # polynomial evaluation
    for D, N in ([(30, 2)] if q else [(30, 2), (40, 4)]):
        g = Group('po%d_%d' % (D, N), 'HEAAN/bootstrap.h')
        for deg, lv in ((3, 2), (7, 3), (15, 4), (31, 5), (63, 6), (127, 7)):
            w = (lv + 2) * D + 5
            ks = ','.join('const R_Q_square<%d,%d>*k%d' % (2 * (w - k * D), N, k) for k in range(lv))
            for sg in (1, -1):
                g.add('eval_poly_deg%d %s' % (deg, 'positive' if sg > 0 else 'negative'), 'const double*u,const R_Q_square<%d,%d>*c,%s,R_Q_square<%d,%d>*p' % (w, N, ks, w - lv * D, N), 'eval_poly_deg%d<%d,%d,%d>(u,*c,%s,*p);' % (deg, w, N, D, ','.join('*k%d' % k for k in range(lv))),
                      [SReals(deg + 1, sg)] + [Ct(w, N)] + [Ct(2 * (w - k * D), N) for k in range(lv)] + [Ct(w - lv * D, N, 'o')], uf=True)
        for n in (4, 16, 128): g.add('convert_frc_tou %d' % n, 'const double*c,double*u', 'convert_frc_tou(c,u,%d);' % n, [Reals(n), Reals(n, 'o')])
        G.append(g)
    for D, N in ([(40, 2)] if q else [(40, 2), (55, 4)]):
        w = 13 * D + 30
        g = Group('em%d_%d' % (D, N), 'HEAAN/bootstrap.h'); C = 'R_Q_square<%d,%d>' % (w, N); O = 'R_Q_square<%d,%d>' % (w - 12 * D, N)
        g.add('EvalMod key', 'const %s*c,const int*s,%s*o' % (C, O), 'EvalMod<%d,%d,%d,24>(*c,s,*o);' % (w, N, D), [Ct(w, N), Ints(N), Ct(w - 12 * D, N, 'o')], uf=True, rand=True)
        g.add('EvalMod evk', 'const %s*c,%s,%s*o' % (C, ','.join('const R_Q_square<%d,%d>*k%d' % (2 * (w - i * D), N, i) for i in range(1, 12)), O), 'EvalMod<%d,%d,%d,24>(*c,%s,*o);' % (w, N, D, ','.join('*k%d' % i for i in range(1, 12))),
              [Ct(w, N)] + [Ct(2 * (w - i * D), N) for i in range(1, 12)] + [Ct(w - 12 * D, N, 'o')], uf=True)
        G.append(g)
    for L, k, w, LD in ([(5, 1, 150, 30), (5, 4, 100, 40)] if q else [(5, 1, 150, 30), (5, 2, 120, 30), (5, 4, 100, 40)]):
        N = 1 << L; C = 'R_Q_square<%d,%d>' % (w, N)
        g = Group('bs%d_%d' % (L, k), 'HEAAN/bootstrap.h')
        g.add('CoeffToSlot', 'const %s*c,const int*s,%s*o' % (C, C), 'CoeffToSlot<%d,%d,%d,%d>(*c,s,o);' % (w, L, LD, k), [Ct(w, N), Ints(N), Ct(w, N, 'o', 2)], uf=True, rand=True, limit=400)
        g.add('SlotToCoeff', 'const %s*c,const %s*d,const int*s,%s*o' % (C, C, C), 'SlotToCoeff<%d,%d,%d,%d>(*c,*d,s,*o);' % (w, L, LD, k), [Ct(w, N), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True, limit=400)
        G.append(g)
    if prop == 'C20':           # the same functions at several sizes in one program
        g = Group('sizes', 'HEAAN/bootstrap.h', 'impl/message.h', 'impl/simple_plaintext.h', 'impl/plaintext.h')
        for w, N in ((64, 2), (100, 4), (40, 8), (64, 16), (100, 8)):
            P = 'R_Q<%d,%d>' % (w, N); C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N); H = 'HEAAN<%d,%d>' % (w, N); s = ' %d %d' % (w, N)
            g.add('Z_Q *=' + s, '%s*a,const %s*b' % (Z(w), Z(w)), '*a*=*b;', [Wide(w, 'io'), Wide(w)])
            g.add('Z_Q double' + s, 'const %s*a' % Z(w), 'return (double)*a;', [Wide(w)], 'double')
            g.add('shift_right' + s, 'const %s*a,%s*b' % (Z(w), Z(w - 7)), 'shift_right<%d,%d>(*a,*b);' % (w, w - 7), [Wide(w), Wide(w - 7, 'o')])
            for k in (1, 5, 7):
                g.add('rot key %d' % k + s, 'const int*a,int*b,int k', 'rot<%d>(a,b,k);' % N, [Ints(N), Ints(N, io='o'), Num(k)])
                g.add('rot R_Q %d' % k + s, 'const %s*a,%s*b,int k' % (P, P), 'rot<%d,%d>(*a,*b,k);' % (w, N), [PolyA(w, N), PolyA(w, N, 'o'), Num(k)])
            g.add('rot key once' + s, 'const int*a,int*b', 'rot<%d>(a,b);' % N, [Ints(N), Ints(N, io='o')])
            g.add('conj key' + s, 'const int*a,int*b', 'conj<%d>(a,b);' % N, [Ints(N), Ints(N, io='o')])
            g.add('conj R_Q' + s, 'const %s*a,%s*b' % (P, P), 'conj<%d,%d>(*a,*b);' % (w, N), [PolyA(w, N), PolyA(w, N, 'o')])
            g.add('conv int' + s, 'const int*a,const int*b,int*c', 'conv<%d>(a,b,c);' % N, [Ints(N), Ints(N), Ints(N, io='o')])
            g.add('conv ternary' + s, 'const int*a,const %s*b,%s*c' % (P, P), 'conv<%d,%d>(a,*b,*c);' % (w, N), [Ints(N), PolyA(w, N), PolyA(w, N, 'o')], sums=INT)
            if N <= 4: g.add('conv wide' + s, 'const %s*a,const %s*b,%s*c' % (P, P, P), 'conv<%d,%d>(*a,*b,*c);' % (w, N), [PolyA(w, N), PolyA(w, N), PolyA(w, N, 'o')], sums=INT + ('CRT<',))
            g.add('resize' + s, 'const %s*a,R_Q<%d,%d>*b' % (P, 2 * w, N), 'resize<%d,%d,%d>(*a,*b);' % (w, 2 * w, N), [PolyA(w, N), PolyA(2 * w, N, 'o')])
            g.add('RS' + s, 'const %s*a,R_Q_square<%d,%d>*b' % (C, w - 20, N), 'RS<%d,%d,%d>(*a,*b);' % (w, w - 20, N), [Ct(w, N), Ct(w - 20, N, 'o')])
            g.add('enc' + s, 'const %s*a,const int*s,%s*b' % (P, C), '%s::enc(*a,s,*b);' % H, [PolyA(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
            g.add('dec' + s, 'const %s*a,const int*s,%s*b' % (C, P), '%s::dec(*a,s,*b);' % H, [Ct(w, N), Ints(N), PolyA(w, N, 'o')], uf=True)
            g.add('swkgen' + s, 'const int*a,const int*s,%s*b' % K, '%s::swkgen(a,s,*b);' % H, [Ints(N), Ints(N), Ct(2 * w, N, 'o')], uf=True, rand=True)
            g.add('ks' + s, 'const %s*k,%s*b' % (K, C), '%s::ks(*k,*b);' % H, [Ct(2 * w, N), Ct(w, N, 'io')], uf=True)
            g.add('Mul' + s, 'const %s*a,const %s*b,const %s*k,%s*c' % (C, C, K, C), 'Mul<%d,%d>(*a,*b,*k,*c);' % (w, N), [Ct(w, N), Ct(w, N), Ct(2 * w, N), Ct(w, N, 'o')], uf=True)
        for L, w in ((2, 64), (3, 64), (3, 100), (4, 40)):
            N = 1 << L; h = N // 2; P = 'R_Q<%d,%d>' % (w, N); M = 'Message<%d>' % L; SP = 'SimplePlaintext<%d>' % L; T = 'SparseDiagonal<%d,2>' % h; C = 'R_Q_square<%d,%d>' % (w, N); s = ' L=%d w=%d' % (L, w)
            for f in ('dft<%d>' % N, 'fft<%d>' % L, 'fftNR<%d>' % L): g.add(f + s, 'const double*m,double*r,double*i', f + '(m,r,i);', [Reals(N), Reals(h, 'o'), Reals(h, 'o')])
            for f in ('idft<%d>' % N, 'ifft<%d>' % L, 'ifftNR<%d>' % L): g.add(f + s, 'const double*r,const double*i,double*m', f + '(r,i,m);', [Reals(h), Reals(h), Reals(N, 'o')])
            g.add('splitU0NR' + s, 'SparseDiagonal<%d,3>*a,SparseDiagonal<%d,3>*b' % (h, h), 'splitU0NR<%d>(a,b);' % L, [SD(h, 3, io='o', n=L - 1), SD(h, 3, io='o', n=L - 1)])
            if L < 4:
                g.add('encode' + s, 'const double*r,const double*i,%s*p' % P, 'encode<%d,%d>(r,i,1ULL<<30,*p);' % (w, L), [Reals(h), Reals(h), PolyA(w, N, 'o')])
                g.add('decode_log' + s, 'const %s*p,double*r,double*i' % P, 'decode_log<%d,%d>(*p,30,r,i);' % (w, L), [PolyA(w, N, limb=True), Reals(h, 'o'), Reals(h, 'o')])
                g.add('Simple encode' + s, 'const %s*a,%s*p' % (M, SP), 'encode<%d>(*a,1ULL<<30,*p);' % L, [Reals(N), Reals(N, 'o')])
                g.add('Simple conv' + s, 'const %s*a,const %s*b,%s*c' % (SP, SP, SP), 'conv(*a,*b,*c);', [Reals(N), Reals(N), Reals(N, 'o')])
                g.add('Simple rotate' + s, 'const %s*a,%s*b' % (SP, SP), 'rotate(*a,*b,1);', [Reals(N), Reals(N, 'o')])
                for f in ('add', 'mul'): g.add('Message ' + f + s, 'const %s*a,const %s*b,%s*c' % (M, M, M), '%s(*a,*b,*c);' % f, [Reals(N), Reals(N), Reals(N, 'o')])
                for f in ('norm', 'sup_norm'): g.add('Message ' + f + s, 'const %s*a' % M, 'return %s(*a);' % f, [Reals(N)], 'double')
            for LD in (20, 30): g.add('linear_transform %d' % LD + s, 'const %s*a,const %s*b,const %s*c,const int*s,%s*o' % (T, T, C, C), 'linear_transform<%d,%d,%d,2>(*a,*b,*c,s,*o);' % (w, L, LD), [SD(h, 2), SD(h, 2), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True)
            g.add('transpose' + s, '%s*a' % T, 'a->transpose();', [SD(h, 2, io='io')])
            g.add('MatMul' + s, 'const %s*a,const %s*b,SparseDiagonal<%d,4>*c' % (T, T, h), 'MatMul(*a,*b,*c);', [SD(h, 2), SD(h, 2), SD(h, 4, io='o')])
        for D, N, w in ((20, 2, 90), (25, 2, 90), (20, 4, 90)):
            for deg, lv in ((3, 2), (7, 3)):
                ks = ','.join('const R_Q_square<%d,%d>*k%d' % (2 * (w - k * D), N, k) for k in range(lv))
                g.add('eval_poly_deg%d %d %d' % (deg, D, N), 'const double*u,const R_Q_square<%d,%d>*c,%s,R_Q_square<%d,%d>*p' % (w, N, ks, w - lv * D, N), 'eval_poly_deg%d<%d,%d,%d>(u,*c,%s,*p);' % (deg, w, N, D, ','.join('*k%d' % k for k in range(lv))),
                      [SReals(deg + 1, 1)] + [Ct(w, N)] + [Ct(2 * (w - k * D), N) for k in range(lv)] + [Ct(w - lv * D, N, 'o')], uf=True)
        G.append(g)
        g = Group('bootsizes', 'HEAAN/bootstrap.h')
        for L, k, w, LD in ((5, 1, 150, 30), (5, 4, 150, 30), (5, 1, 150, 25)) + (() if q else ((5, 1, 180, 30), (6, 1, 180, 30))):
            N = 1 << L; C = 'R_Q_square<%d,%d>' % (w, N); s = ' L=%d grouping %d width %d scale %d' % (L, k, w, LD)
            g.add('CoeffToSlot' + s, 'const %s*c,const int*s,%s*o' % (C, C), 'CoeffToSlot<%d,%d,%d,%d>(*c,s,o);' % (w, L, LD, k), [Ct(w, N), Ints(N), Ct(w, N, 'o', 2)], uf=True, rand=True, limit=400)
            g.add('SlotToCoeff' + s, 'const %s*c,const %s*d,const int*s,%s*o' % (C, C, C), 'SlotToCoeff<%d,%d,%d,%d>(*c,*d,s,*o);' % (w, L, LD, k), [Ct(w, N), Ct(w, N), Ints(N), Ct(w, N, 'o')], uf=True, rand=True, limit=400)
        for D, N, w in ((40, 2, 540), (36, 2, 540)):
            C = 'R_Q_square<%d,%d>' % (w, N); O = 'R_Q_square<%d,%d>' % (w - 12 * D, N)
            g.add('EvalMod %d %d' % (D, N), 'const %s*c,const int*s,%s*o' % (C, O), 'EvalMod<%d,%d,%d,24>(*c,s,*o);' % (w, N, D), [Ct(w, N), Ints(N), Ct(w - 12 * D, N, 'o')], uf=True, rand=True, limit=400)
        G.append(g)
    if prop == 'C21':           # functions that print
        for w in ([30, 64, 130, 1000, 1300] if q else [1, 30, 33, 64, 65, 100, 130, 192, 256, 640, 1000, 1300, 1720]):
            g = Group('dec%d' % w, 'HEAAN/arith/R_Q_square.h'); T = Z(w); N = 2 if w < 300 else 1
            C = cells(w); half = 1 << (w - 1); H = [(a, min(b, half - 1)) for a, b in C if a < half]
            ch = C if not q and w < 100 else sorted({C[0], C[1], C[len(C) // 3], C[2 * len(C) // 3], C[-2], C[-1]}) if w < 300 else [C[-1]]
            for c in ch:
                nm = '%d digits (%d bits)' % (len(str(c[1])), c[1].bit_length())
                g.add('Z_Q<%d> to_str, %s' % (w, nm), 'const %s*a,char*s' % T, 'a->to_str(s);', [Cell(w, [c]), Str(520)], pre=decimal)
                g.add('Z_Q<%d> to_str and fr_str, %s' % (w, nm), 'const %s*a,%s*b' % (T, T), 'char s[520]; a->to_str(s); b->fr_str(s);', [Cell(w, [c]), Wide(w, 'o')], pre=decimal)
                g.add('Z_Q<%d> print, %s' % (w, nm), 'const %s*a' % T, 'a->print_unsigned();', [Cell(w, [c])], pre=decimal)
            P = 'R_Q<%d,%d>' % (w, N)
            g.add('R_Q<%d,%d> print_unsigned' % (w, N), 'const %s*a' % P, 'a->print_unsigned();', [Cell(w, [C[-1], C[0]][:N])], pre=decimal)
            g.add('R_Q<%d,%d> print_signed' % (w, N), 'const %s*a' % P, 'a->print_signed();', [Cell(w, [H[-1]] * N)], pre=decimal)
            if H[-1][0] > 0: g.add('R_Q<%d,%d> print_signed negative' % (w, N), 'const %s*a' % P, 'a->print_signed();', [Cell(w, [H[-1]] * N, (0,))], pre=decimal, sums=('Z_Q<',))
            g.add('R_Q_square<%d,%d> print' % (w, N), 'const R_Q_square<%d,%d>*a' % (w, N), 'a->print();', [Cell(w, [C[-1], C[0]] * N)], pre=decimal)
            G.append(g)
        for N, S in ([(4, 3), (8, 2)] if q else [(4, 3), (8, 2), (2, 1), (16, 3)]):
            g = Group('out%d_%d' % (N, S), 'HEAAN/matrix/matrix.h', 'impl/message.h', 'impl/simple_plaintext.h', 'util/util.h'); M = 'SparseDiagonal<%d,%d>' % (N, S); L = N.bit_length()
            g.add('print matrix', 'const double(*a)[%d],const double(*b)[%d]' % (N, N), 'print<%d>(a,b);' % N, [Reals(N * N), Reals(N * N)])
            g.add('SparseDiagonal print', '%s*a' % M, 'a->print("name");', [SD(N, S)])
            g.add('print_max', 'const %s*a' % M, 'print_max(*a);', [SD(N, S, listed=True)])
            g.add('print_array words', 'const uint64_t*a', 'print_array<%d>(a);' % N, [Words(N)])
            g.add('print_array reals', 'const double*a', 'print_array<%d>(a);' % N, [Reals(N)])
            g.add('print Message', 'const std::string*n,const Message<%d>*a' % L, 'print(*n,*a);', [Str(32, 'i', 'name'), Reals(2 * N)])
            g.add('print SimplePlaintext', 'const std::string*n,const SimplePlaintext<%d>*a' % L, 'print(*n,*a);', [Str(32, 'i', 'name'), Reals(2 * N)])
            G.append(g)
    return G

class SReals(A):
    """coefficients of one sign"""
    def __init__(self, n, sg): self.n, self.sg = n, sg
    def make(self, r, tag):
        lo, hi = (2. ** -8, 2.) if self.sg > 0 else (-2., -2. ** -8)
        return r.reals('d' + tag, self.n, lo, hi)[0]

def build(tier, prop, task):
    """one unit per group; task(entry) -> fn(out, mod, S)"""
    us = []
    for g in groups(tier, prop):
        tasks = []
        for e in g.E:
            t = task(e, g)
            if t: tasks.append((e.name + ' [%s]' % g.tag, t, e.limit + 30))
        us.append(Unit(g.tag, '#include <new>\n' + g.g.src(), tasks, allow=sorted({p for e in g.E for p in (UFS if e.uf else e.sums)})))
    return us
