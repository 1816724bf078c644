"""What ciphertexts hold along a pipeline.

The stages of a pipeline (encryption, modulus raising, CoeffToSlot, EvalMod, SlotToCoeff, rescaling, decryption) are
replaced by what their own checks establish; every polynomial is an element of a formal vector space and every
ciphertext carries its content: for each half of the coefficients (or for the slots) an exact linear form in the
message, the integer part I of the raised ciphertext and named errors.  Requirements of a stage (period, range,
modulus, key) are obligations at its call."""
import re, math
from fractions import Fraction as Fr
import interp, dom
from dom import Undecided
from interp import Ptr, NoSummary
from sums import zsz

class TV:
    """a polynomial: linear combination of formal polynomials"""
    __slots__ = ('c', 'w', 'N')
    def __init__(self, c, w, N): self.c, self.w, self.N = {k: v for k, v in c.items() if v}, w, N
    def __repr__(self): return 'poly%r' % (self.c,)
    undef = False
class Key:
    def __init__(self, id, h, N): self.id, self.h, self.N = id, h, N
    def __repr__(self): return 'key%d' % self.id

class Content:
    """form 'coef': lin = (first half, second half); form 'slot': lin = (slots,); linear forms over (symbol, part)"""
    def __init__(self, form, lin, w, N, key=None, flags=frozenset()): self.form, self.lin, self.w, self.N, self.key, self.flags = form, lin, w, N, key, flags
    def map(self, f, **k):
        c = Content(self.form, tuple(f(l) for l in self.lin), self.w, self.N, self.key, self.flags)
        for a, b in k.items(): setattr(c, a, b)
        return c

def lsum(*ts):
    d = {}
    for l, s in ts:
        for k, v in l.items(): d[k] = d.get(k, 0) + v * s
    return {k: v for k, v in d.items() if v}

class Compose:
    """summaries of the stages; results in self.sinks"""
    def __init__(self, r, S=None, kmax=24, part=None):
        self.part = part; self.top = -1; self.mine = []
        self.r, self.S, self.kmax = r, S, kmax
        self.n = 0
        self.ct = {}          # id -> Content (pair of components) ; plaintexts likewise
        self.sym = {}         # main symbol -> bound, kind
        self.sinks = []
        self.calls = []
        self.cache = {}
    impure = ()
    def without(self, *ex): return self
    def new(self): self.n += 1; return self.n

    # ---------------------------------------------------------- memory
    def get(self, p, w, N, what, dbg):
        if type(p) is not Ptr or type(p.off) is not int: raise Undecided('%s: unknown operand' % what)
        c = p.obj.cells.get(p.off)
        if c is None or type(c[1]) is not TV:
            ov = self.it.overlapping(p.obj, p.off, zsz(w) * N)
            if not ov: self.bad('%s is used before it is computed' % what, dbg); raise interp.Dead()
            raise Undecided('%s: contents not tracked' % what)
        t = c[1]
        if t.w != w or t.N != N: raise Undecided('%s: read with another type' % what)
        return t
    def put(self, p, t, dbg):
        if type(p) is not Ptr or type(p.off) is not int: raise Undecided('unknown destination')
        size = zsz(t.w) * t.N
        if not self.it.check(p.obj, p.off, size, True, dbg): return
        self.it.store_cell(p.obj, p.off, size, t, dbg)
    def pair(self, p, w, N, what, dbg):
        """content of a ciphertext"""
        b = self.get(p, w, N, what, dbg); a = self.get(self.it.ptr_add(p, zsz(w) * N, None, None), w, N, what, dbg)
        ids = {k[0] for k in b.c} | {k[0] for k in a.c}
        out = None
        for i in sorted(ids):
            if i not in self.ct or any(k[1] == 'm' for k in list(b.c) + list(a.c) if k[0] == i): raise Undecided('%s: not a ciphertext' % what)
            x, y = b.c.get((i, 'b'), 0), a.c.get((i, 'a'), 0)
            if x != y or (i, 'a') in b.c or (i, 'b') in a.c:
                self.bad('%s: its two components do not belong together' % what, dbg); raise interp.Dead()
            out = self.add(out, self.ct[i], x, what, dbg, (w, N))
        if out is None: out = Content('coef', ({}, {}), w, N)
        return out.map(lambda l: l, w=w)
    def plain(self, p, w, N, what, dbg):
        t = self.get(p, w, N, what, dbg)
        out = None
        for (i, part), x in sorted(t.c.items()):
            if part != 'm': raise Undecided('%s: not a plaintext' % what)
            out = self.add(out, self.ct[i], x, what, dbg, (w, N))
        if out is None: out = Content('coef', ({}, {}), w, N)
        return out.map(lambda l: l, w=w)
    def add(self, A, B, s, what, dbg, wN):
        if A is None: return B.map(lambda l: lsum((l, s)))
        if A.form != B.form: self.bad('%s combines coefficients with slots' % what, dbg); raise interp.Dead()
        if A.key is not None and B.key is not None and A.key is not B.key: self.bad('%s combines ciphertexts under different keys' % what, dbg); raise interp.Dead()
        fl = A.flags | B.flags
        lin = tuple(lsum((x, 1), (y, s)) for x, y in zip(A.lin, B.lin))
        # the integer part cancels between the raised ciphertext and the computed one
        def hasI(L): return any(k[0][0] == 'I' for l in L for k in l)
        if hasI(A.lin) and hasI(B.lin) and not hasI(lin): fl |= {'difference'}
        return Content(A.form, lin, wN[0], wN[1], A.key or B.key, fl)
    def ctnew(self, p, C, dbg):
        i = self.new(); self.ct[i] = C
        self.put(p, TV({(i, 'b'): Fr(1)}, C.w, C.N), dbg)
        self.put(self.it.ptr_add(p, zsz(C.w) * C.N, None, None), TV({(i, 'a'): Fr(1)}, C.w, C.N), dbg)
    def ptnew(self, p, C, dbg):
        i = self.new(); self.ct[i] = C
        self.put(p, TV({(i, 'm'): Fr(1)}, C.w, C.N), dbg)
    def key(self, p, N, dbg):
        if type(p) is not Ptr: raise Undecided('key')
        c = p.obj.cells.get(p.off)
        if c is None: self.bad('the key is used before it is generated', dbg); raise interp.Dead()
        if type(c[1]) is not Key or c[1].N != N: raise Undecided('key not tracked')
        return c[1]
    def err(self, what, kind): return ('e', kind, '%s %d' % (what, self.new()))
    def witherr(self, C, what, kind):
        e = self.err(what, kind)
        return C.map(lambda l: l, lin=tuple(lsum((l, 1), ({(e, j): Fr(1)}, 1)) for j, l in enumerate(C.lin)))

    # ---------------------------------------------------------- obligations
    def loc(self, dbg): return self.it.mod.loc(dbg) if dbg is not None else '?'
    def where(self): return self.it.mod.dem.get(self.it.stack[-2] if len(self.it.stack) > 1 else '', '?')
    def bad(self, what, dbg):
        out = self.r.out
        out.checks += 1
        if out.status != 'refuted': out.refute(what, {}, self.loc(dbg), self.where())
    def ok(self, cond, what, dbg):
        if cond: self.r.out.checks += 1; self.r.out.discharged += 1
        else: self.bad(what, dbg)
        return cond
    def bound(self, l):
        """bound of the main part (errors aside)"""
        return sum(abs(v) * self.sym[k[0]] for k, v in l.items() if k[0][0] != 'e')
    def fits(self, C, w, what, dbg):
        b = max([self.bound(l) for l in C.lin] + [0])
        self.ok(2 * b < 1 << w, '%s: values up to 2^%.1f do not fit the modulus 2^%d' % (what, math.log2(float(b) or 1), w), dbg)

    # ---------------------------------------------------------- lookup
    def __call__(self, it, name, dem):
        if name in self.cache: return self.cache[name]
        h = None
        if self.part and it.stack == ['main'] and dem.endswith('()') and dem.startswith('void '):
            # independent calls of main are shared out over the cases
            self.top += 1
            self.mine.append((dem, self.top % self.part[1] == self.part[0]))
            if not self.mine[-1][1]: h = lambda it, a, dbg: None
            self.cache[name] = h
            return h
        for rx, f in OPS:
            m = rx.match(dem)
            if m:
                g = f(*[int(x) for x in m.groups()])
                def h(it, a, dbg, g=g, dem=dem):
                    self.it = it
                    try: return g(self, a, dbg)
                    except NoSummary: raise Undecided(dem)
                break
        if h is None and self.S is not None: h = self.S(it, name, dem)
        self.cache[name] = h
        return h

OPS = []
def op(rx):
    def d(f): OPS.append((re.compile(rx), f)); return f
    return d

@op(r'^HEAAN<(\d+), (\d+)>::keygen\(int, int\*\)')
def o_keygen(w, N):
    def h(c, a, dbg):
        k, p = a
        if type(k) is not int: raise Undecided('weight of the key')
        if not c.ok(0 < k <= N, 'key of weight %d with %d coefficients' % (k, N), dbg): raise interp.Dead()
        c.it.store_cell(p.obj, p.off, 4 * N, Key(c.new(), k, N), dbg)
        c.it.nrand += 1
    return h

@op(r'^void encode<(\d+), (\d+)>\(double const\*, double const\*, unsigned long, R_Q<')
def o_encode(w, L):
    N = 1 << L
    def h(c, a, dbg):
        if type(a[2]) is not int: raise Undecided('scale')
        vals = []
        for p in a[:2]:
            for i in range(N // 2):
                v = c.it.load(c.it.ptr_add(p, 8 * i, None, None), ('f', 64), dbg)
                if type(v) is not float: raise Undecided('message')
                vals.append(v)
        B = max(abs(complex(x, y)) for x, y in zip(vals[:N // 2], vals[N // 2:]))
        s = ('z', hash(tuple(vals)))
        c.sym[s] = Fr(max(B, 1e-9))      # coefficients are bounded by the largest slot
        C = Content('coef', tuple({(s, j): Fr(a[2])} for j in range(2)), w, N)
        c.fits(C, min(w, 64), 'encoded message', dbg)
        c.msg = getattr(c, 'msg', {}); c.msg[s] = vals
        c.ptnew(a[3], c.witherr(C, 'rounding of encode', 'enc'), dbg)
    return h

@op(r'^HEAAN<(\d+), (\d+)>::enc\(')
def o_enc(w, N):
    def h(c, a, dbg):
        C = c.plain(a[0], w, N, 'plaintext', dbg); k = c.key(a[1], N, dbg)
        c.it.nrand += 1
        c.ctnew(a[2], c.witherr(C.map(lambda l: l, key=k), 'noise of enc', 'enc'), dbg)
    return h

@op(r'^HEAAN<(\d+), (\d+)>::dec\(')
def o_dec(w, N):
    def h(c, a, dbg):
        C = c.pair(a[0], w, N, 'ciphertext', dbg); k = c.key(a[1], N, dbg)
        if not c.ok(C.key is None or C.key is k, 'a ciphertext is decrypted with another key', dbg): raise interp.Dead()
        c.ptnew(a[2], C, dbg)
    return h

@op(r'^void resize<(\d+), (\d+), (\d+)>\(R_Q<')
def o_resize(w, t, N):
    def h(c, a, dbg):
        T = c.get(a[0], w, N, 'polynomial', dbg)
        if t <= w: c.put(a[1], TV(T.c, t, N), dbg); return
        # centred lift: the content changes by multiples of 2^w unless it is small
        key = tuple(sorted((i, x) for (i, part), x in T.c.items()))
        if len({p for (i, p) in T.c}) != 1: raise Undecided('raised polynomial')
        (part,) = {p for (i, p) in T.c}
        kk = ('lift', key, w, t)
        i = c.calls_lift.get(kk) if hasattr(c, 'calls_lift') else None
        if not hasattr(c, 'calls_lift'): c.calls_lift = {}
        if i is None:
            C = None
            for j, x in key: C = c.add(C, c.ct[j], x, 'raised polynomial', dbg, (w, N))
            i = c.new()
            if part == 'm': c.fits(C, w, 'raised plaintext', dbg); c.ct[i] = C.map(lambda l: l, w=t)
            else:
                k = C.key
                s = ('I', i)
                sd = math.sqrt((k.h + 1) / 12.)
                if c.kmax < 5 * sd: c.bad('a key of weight %d makes integer parts of standard deviation %.1f, beyond the range %d of EvalMod' % (k.h, sd, c.kmax), dbg)
                elif c.kmax < 6 * sd: raise Undecided('range of the integer part')
                c.sym[s] = Fr(c.kmax)
                c.ct[i] = C.map(lambda l: l, w=t, lin=tuple(lsum((l, 1), ({(s, j): Fr(1 << w)}, 1)) for j, l in enumerate(C.lin)), flags=C.flags | {'raised from 2^%d' % w})
            c.calls_lift[kk] = i
        c.put(a[1], TV({(i, part): Fr(1)}, t, N), dbg)
    return h

def binary(sign):
    def f(w, N, *_):
        def h(c, a, dbg):
            x = c.get(a[0], w, N, 'polynomial', dbg); y = c.get(a[1], w, N, 'polynomial', dbg)
            c.put(a[0], TV(lsum((x.c, 1), (y.c, sign)), w, N), dbg)
        return h
    return f
op(r'^R_Q<(\d+), (\d+)>::operator\+=\(R_Q<')(binary(1))
op(r'^R_Q<(\d+), (\d+)>::operator-=\(R_Q<')(binary(-1))
@op(r'^R_Q<(\d+), (\d+)>::operator\*=\(unsigned long\)')
def o_scale(w, N):
    def h(c, a, dbg):
        if type(a[1]) is not int: raise Undecided('factor')
        x = c.get(a[0], w, N, 'polynomial', dbg)
        c.put(a[0], TV(lsum((x.c, a[1])), w, N), dbg)
    return h
@op(r'^R_Q<(\d+), (\d+)>::setzero\(\)')
def o_zero(w, N):
    def h(c, a, dbg): c.put(a[0], TV({}, w, N), dbg)
    return h
def copy(w, N):
    def h(c, a, dbg): c.put(a[0], TV(c.get(a[1], w, N, 'polynomial', dbg).c, w, N), dbg)
    return h
op(r'^R_Q<(\d+), (\d+)>::operator=\(')(copy)
op(r'^R_Q<(\d+), (\d+)>::R_Q\(R_Q<')(copy)

@op(r'^void RS<(\d+), (\d+), (\d+)>\(')
def o_rs(w, t, N):
    def h(c, a, dbg):
        C = c.pair(a[0], w, N, 'ciphertext', dbg)
        if t >= w: raise Undecided('rescaling without a factor')
        c.fits(C, w, 'rescaled ciphertext', dbg)
        c.ctnew(a[1], c.witherr(C.map(lambda l: lsum((l, Fr(1, 1 << (w - t)))), w=t), 'rounding of RS', 'rs'), dbg)
    return h

def layers(c, L, LD, G):
    if (L - 1) % G: raise Undecided('grouping %d of %d layers' % (G, L - 1))
    return Fr(1 << (LD * (L - 1) // G))

@op(r'^void CoeffToSlot<(\d+), (\d+), (\d+), (\d+)>\(')
def o_cts(w, L, LD, G):
    N = 1 << L
    def h(c, a, dbg):
        C = c.pair(a[0], w, N, 'argument of CoeffToSlot', dbg)
        k = c.key(a[1], N, dbg)
        if not c.ok(C.form == 'coef', 'CoeffToSlot is applied to slots', dbg) or not c.ok(C.key is None or C.key is k, 'CoeffToSlot with another key', dbg): raise interp.Dead()
        s = layers(c, L, LD, G)
        O = []
        for j in range(2):
            e = c.err('error of CoeffToSlot', 'cts')
            D = Content('slot', (lsum((C.lin[j], s), ({(e, j): s}, 1)),), w, N, C.key, C.flags)
            c.fits(D, w, 'result of CoeffToSlot', dbg)
            O.append(D)
        for j in range(2): c.ctnew(c.it.ptr_add(a[2], 2 * zsz(w) * N * j, None, None), O[j], dbg)
    return h

@op(r'^void SlotToCoeff<(\d+), (\d+), (\d+), (\d+)>\(')
def o_stc(w, L, LD, G):
    N = 1 << L
    def h(c, a, dbg):
        C = [c.pair(a[j], w, N, 'argument %d of SlotToCoeff' % j, dbg) for j in range(2)]
        k = c.key(a[2], N, dbg)
        for D in C:
            if not c.ok(D.form == 'slot' or not any(D.lin), 'SlotToCoeff is applied to coefficients', dbg) or not c.ok(D.key is None or D.key is k, 'SlotToCoeff with another key', dbg): raise interp.Dead()
        s = layers(c, L, LD, G)
        D = Content('coef', tuple(lsum((x.lin[0], s)) for x in C), w, N, C[0].key, C[0].flags | C[1].flags)
        c.fits(D, w, 'result of SlotToCoeff', dbg)
        e = c.err('error of SlotToCoeff', 'stc')
        D.lin = tuple(lsum((l, 1), ({(e, j): s}, 1)) for j, l in enumerate(D.lin))
        c.ctnew(a[3], D, dbg)
    return h

@op(r'^void EvalMod<(\d+), (\d+), (\d+), (\d+)>\(R_Q_square<\d+, \d+> const&, int const\*')
def o_evalmod(w, N, LD, K):
    def h(c, a, dbg):
        C = c.pair(a[0], w, N, 'argument of EvalMod', dbg); k = c.key(a[1], N, dbg)
        if K != c.kmax: raise Undecided('EvalMod with K=%d' % K)
        if not c.ok(C.form == 'slot', 'EvalMod is applied to coefficients', dbg) or not c.ok(C.key is None or C.key is k, 'EvalMod with another key', dbg): raise interp.Dead()
        (l,) = C.lin
        per = 1 << LD
        o = {}; rest = Fr(0); I = Fr(0)
        for (s, j), v in l.items():
            if s[0] == 'I':
                if not c.ok(abs(v) == per, 'EvalMod has period 2^%d, but its argument holds %s times the integer part' % (LD, ('2^%.2f' % math.log2(abs(v)))), dbg): raise interp.Dead()
                I += c.sym[s]
            else:
                o[(s, j)] = v
                if s[0] != 'e': rest += abs(v) * c.sym[s] / per
        c.ok(I <= K, 'integer parts up to %s exceed the range %d of EvalMod' % (I, K), dbg)
        c.ok(rest < Fr(1, 4), 'the message takes %.3f of a period of EvalMod' % float(rest), dbg)
        if Fr(1, 64) < rest < Fr(1, 4): c.r.out.undecided('the message takes %.3f of a period of EvalMod' % float(rest))
        c.fits(C, w, 'argument of EvalMod', dbg)
        t = w - 12 * LD
        e = c.err('error of EvalMod', 'evalmod')
        o[(e, 0)] = Fr(1)
        c.ctnew(a[2], Content('slot', (o,), t, N, C.key, C.flags), dbg)
    return h

def sink(c, C, scale, zp, N, w, dbg):
    """a decoded message"""
    show = lambda l: ' + '.join('%s %s[%d]' % ('2^%.3g' % math.log2(abs(v)) if v > 0 else '-2^%.3g' % math.log2(abs(v)), k[0][0] if k[0][0] != 'e' else k[0][2], k[1]) for k, v in sorted(l.items(), key=str))
    ok = c.ok(C.form == 'coef', 'a message is decoded from slots', dbg)
    zs = {k[0] for l in C.lin for k in l if k[0][0] == 'z'}
    if ok:
        for j in range(2):
            main = {k: v for k, v in C.lin[j].items() if k[0][0] != 'e'}
            if not c.ok(len(zs) == 1 and len(main) == 1 and main.get((list(zs)[0], j)) == scale, 'the decoded message, %s half of the coefficients, is %s; it should be 2^%.3g z[%d]' % (('first', 'second')[j], show(C.lin[j]), math.log2(scale), j), dbg): ok = False; break
    if ok and 'difference' in C.flags:
        for j in range(2):
            b = [k[0][2] for k, v in C.lin[j].items() if k[0][0] == 'e' and k[0][1] == 'cts']
            if not c.ok(not b, 'the %s does not cancel from the difference of the raised ciphertext and the computed q*I' % (b or [''])[0], dbg): ok = False
    if ok:
        c.fits(C, w, 'decoded message', dbg)
        for f in C.flags:
            if f.startswith('raised from'):
                q = int(f.split('^')[1])
                ok = c.ok(w > q, 'the modulus 2^%d left is not larger than the original 2^%d' % (w, q), dbg)
    c.sinks.append((c.it.mod.loc(dbg) if dbg is not None else '?', ok, sorted(f for f in C.flags), w, math.log2(scale)))
    vals = c.msg[list(zs)[0]] if ok else [0.] * N
    for k, p in enumerate(zp):
        for i in range(N // 2): c.it.store(c.it.ptr_add(p, 8 * i, None, None), ('f', 64), vals[k * (N // 2) + i], dbg)

@op(r'^void decode_log<(\d+), (\d+)>\(R_Q<\d+, [^>]*> const&, int, double\*')
def o_decodelog(w, L):
    def h(c, a, dbg):
        if type(a[1]) is not int: raise Undecided('scale')
        N = 1 << L
        sink(c, c.plain(a[0], w, N, 'plaintext', dbg), Fr(1 << a[1]), a[2:4], N, w, dbg)
    return h
@op(r'^void decode<(\d+), (\d+)>\(R_Q<\d+, [^>]*> const&, unsigned long, double\*')
def o_decode(w, L):
    def h(c, a, dbg):
        if type(a[1]) is not int: raise Undecided('scale')
        N = 1 << L
        sink(c, c.plain(a[0], w, N, 'plaintext', dbg), Fr(a[1]), a[2:4], N, w, dbg)
    return h

@op(r'^Z_Q<(\d+)>::operator double\(\) const')
def o_double(w):
    def h(c, a, dbg):
        p = a[0]
        for k, (sz, v) in p.obj.cells.items():
            if k <= p.off < k + sz and type(v) is TV: return 0.       # statistics about errors are printed only
        raise NoSummary
    return h
