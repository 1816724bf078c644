"""Slots as exact linear maps of the input (used for CoeffToSlot and SlotToCoeff at larger ring sizes).

Polynomials are formal (compose.TV); a ciphertext id stands for a matrix of complex rows, one per slot, over the unknowns
of the inputs.  Homomorphic linear transforms, conjugation and products with a plaintext act on the rows; these
contracts are what C14, C10 and C08 establish on the bodies."""
import re, math, cmath
import interp, dom
from dom import Undecided
from interp import Ptr, NoSummary
from sums import zsz
import compose
from compose import TV, Compose

class Rows:
    __slots__ = ('r',)
    def __init__(self, r): self.r = r

def zeta(N):
    """roots in slot order"""
    out = []; e = 1
    for j in range(N // 2):
        out.append(cmath.exp(1j * math.pi * e / N)); e = e * 5 % (2 * N)
    return out

class Lin(Compose):
    @property
    def ops(self): return OPS
    def __init__(self, r, secret, S=None):
        Compose.__init__(self, r, S)
        self.secret = list(secret); self.keys = {}
        self.err = 0.
    def rows(self, p, w, N, what, dbg):
        b = self.get(p, w, N, what, dbg); a = self.get(self.it.ptr_add(p, zsz(w) * N, None, None), w, N, what, dbg)
        ids = {k[0] for k in b.c} | {k[0] for k in a.c}
        out = None
        for i in sorted(ids):
            x, y = b.c.get((i, 'b'), 0), a.c.get((i, 'a'), 0)
            if x != y or (i, 'a') in b.c or (i, 'b') in a.c or i not in self.ct:
                self.bad('%s: its two components do not belong together' % what, dbg); raise interp.Dead()
            R = self.ct[i]; x = float(x)
            out = [{k: v * x for k, v in row.items()} for row in R] if out is None else [addrow(p, q, x) for p, q in zip(out, R)]
        return out if out is not None else [{} for _ in range(N // 2)]
    def new_ct(self, p, w, N, R, dbg):
        i = self.new(); self.ct[i] = R
        self.put(p, TV({(i, 'b'): 1}, w, N), dbg)
        self.put(self.it.ptr_add(p, zsz(w) * N, None, None), TV({(i, 'a'): 1}, w, N), dbg)
    def ints(self, p, N, what):
        if type(p) is not Ptr or type(p.off) is not int: raise Undecided(what)
        out = []
        for i in range(N):
            v = self.it.load(self.it.ptr_add(p, 4 * i, None, None), ('i', 32))
            if type(v) is not int: raise Undecided(what)
            out.append(v - (1 << 32) if v >> 31 else v)
        return out
    def __call__(self, it, name, dem):
        if name in self.cache: return self.cache[name]
        h = None
        for rx, f in self.ops:
            m = rx.match(dem)
            if m:
                g = f(*[int(x) for x in m.groups()])
                def h(it, a, dbg, g=g, dem=dem):
                    self.it = it
                    try: return g(self, a, dbg)
                    except NoSummary: raise Undecided(dem)
                break
        if h is None and self.S is not None: h = self.S(it, name, dem)
        self.cache[name] = h
        return h

def addrow(p, q, x):
    d = dict(p)
    for k, v in q.items(): d[k] = d.get(k, 0) + x * v
    return d

OPS = []
def op(rx):
    def d(f): OPS.append((re.compile(rx), f)); return f
    return d

op(r'^R_Q<(\d+), (\d+)>::operator\+=\(R_Q<')(compose.binary(1))
op(r'^R_Q<(\d+), (\d+)>::operator-=\(R_Q<')(compose.binary(-1))
op(r'^R_Q<(\d+), (\d+)>::operator\*=\(unsigned long\)')(compose.o_scale)
def copy(w, N):
    def h(c, a, dbg):
        x = a[1].obj.cells.get(a[1].off) if type(a[1]) is Ptr and type(a[1].off) is int else None
        if x is None or type(x[1]) is not TV: raise Undecided('copy of a polynomial that is not tracked')
        c.put(a[0], TV(x[1].c, w, N), dbg)
    return h
op(r'^R_Q<(\d+), (\d+)>::operator=\(')(copy)
op(r'^R_Q<(\d+), (\d+)>::R_Q\(R_Q<')(copy)

@op(r'^R_Q_square<(\d+), (\d+)>::setzero\(\)')
def o_zero(w, N):
    def h(c, a, dbg):
        for j in range(2): c.put(c.it.ptr_add(a[0], zsz(w) * N * j, None, None), TV({}, w, N), dbg)
    return h

@op(r'^R_Q_square<(\d+), (\d+)>::operator\*=\(R_Q<')
def o_mulpt(w, N):
    def h(c, a, dbg):
        R = c.rows(a[0], w, N, 'ciphertext', dbg)
        P = []
        for k in range(N):
            v = c.it.read_wide(c.it.ptr_add(a[1], zsz(w) * k, None, None), w, dbg)
            if not v.isconst(): raise Undecided('plaintext factor')
            v = v.const()
            P.append(v - (1 << w) if v >> (w - 1) else v)
        Z = zeta(N); nz = [k for k in range(N) if P[k]]
        out = []
        for z, row in zip(Z, R):
            f = sum(P[k] * z ** k for k in nz)
            out.append({k: v * f for k, v in row.items()})
        c.new_ct(a[0], w, N, out, dbg)
    return h

@op(r'^HEAAN<(\d+), (\d+)>::swkgen\(int const\*, int const\*')
def o_swkgen(w, N):
    def h(c, a, dbg):
        f, s = c.ints(a[0], N, 'key'), c.ints(a[1], N, 'key')
        c.it.nrand += 1
        i = c.new(); c.keys[i] = (f, s)
        c.put(a[2], TV({(i, 'key'): 1}, 2 * w, N), dbg)
        c.put(c.it.ptr_add(a[2], zsz(2 * w) * N, None, None), TV({(i, 'key1'): 1}, 2 * w, N), dbg)
    return h

@op(r'^void conj<(\d+), (\d+)>\(R_Q_square<')
def o_conj(w, N):
    def h(c, a, dbg):
        R = c.rows(a[0], w, N, 'ciphertext', dbg)
        k = c.get(a[1], 2 * w, N, 'conjugation key', dbg)
        if len(k.c) != 1: raise Undecided('conjugation key')
        ((i, part),) = k.c
        if part != 'key': raise Undecided('conjugation key')
        f, s = c.keys[i]
        sc = [c.secret[0]] + [-c.secret[N - j] for j in range(1, N)]
        if not c.ok(f == sc and s == c.secret, 'the key given to conj is not one from the conjugated secret to the secret', dbg): raise interp.Dead()
        c.new_ct(a[2], w, N, [{k: complex(v).conjugate() for k, v in row.items()} for row in R], dbg)
    return h

@op(r'^void linear_transform<(\d+), (\d+), (\d+), (\d+)>\(SparseDiagonal<.*int const\*')
def o_lt(w, L, LD, S):
    N = 1 << L; n = N // 2
    size = (S * n * 8 + S * 4 + S + 7) // 8 * 8
    def h(c, a, dbg):
        R = c.rows(a[2], w, N, 'argument of linear_transform', dbg)
        if not c.ok(c.ints(a[3], N, 'key') == c.secret, 'linear_transform with another key', dbg): raise interp.Dead()
        it = c.it
        def ld(p, off, T):
            v = it.load(it.ptr_add(p, off, None, None), T, dbg)
            if type(v) not in (int, float): raise Undecided('matrix')
            return v
        out = [{} for _ in range(n)]
        for s in range(S):
            o = [ld(p, 8 * S * n + 4 * s, ('i', 32)) for p in a[:2]]; z = [ld(p, 8 * S * n + 4 * S + s, ('i', 8)) for p in a[:2]]
            if not c.ok(o[0] == o[1], 'linear_transform: offsets of real and imaginary diagonals differ', dbg): raise interp.Dead()
            if z[0] and z[1]: continue
            if not 0 <= o[0] < n: raise Undecided('offset %d' % o[0])
            for i in range(n):
                f = complex(ld(a[0], 8 * (n * s + i), ('f', 64)), ld(a[1], 8 * (n * s + i), ('f', 64)))
                if not f: continue
                f *= 2. ** LD
                d = out[i]
                for k, v in R[(i + o[0]) % n].items(): d[k] = d.get(k, 0) + f * v
        c.new_ct(a[4], w, N, out, dbg)
    return h

# ---- linear_transform itself: rotations and encodings by contract
LT = []
def lt(rx):
    def d(f): LT.append((re.compile(rx), f)); return f
    return d

class Inner(Lin):
    @property
    def ops(self): return LT + [o for o in OPS if o[1] is not o_lt]

@lt(r'^void encode<(\d+), (\d+)>\(double const\*, double const\*, unsigned long, R_Q<')
def o_encode(w, L):
    N = 1 << L; h = N // 2
    def hh(c, a, dbg):
        if type(a[2]) is not int: raise Undecided('scale')
        def ld(p):
            out = []
            for i in range(h):
                v = c.it.load(c.it.ptr_add(p, 8 * i, None, None), ('f', 64), dbg)
                if type(v) is not float: raise Undecided('message')
                out.append(v)
            return out
        i = c.new(); c.ct[i] = [complex(x, y) * a[2] for x, y in zip(ld(a[0]), ld(a[1]))]
        c.put(a[3], TV({(i, 'm'): 1}, w, N), dbg)
    return hh

@lt(r'^R_Q_square<(\d+), (\d+)>::operator\*=\(R_Q<')
def o_mulslots(w, N):
    def h(c, a, dbg):
        x = a[1].obj.cells.get(a[1].off) if type(a[1]) is Ptr and type(a[1].off) is int else None
        if x is None or type(x[1]) is not TV: return o_mulpt(w, N)(c, a, dbg)
        R = c.rows(a[0], w, N, 'ciphertext', dbg)
        out = [{} for _ in R]
        for (i, part), v in x[1].c.items():
            if part != 'm': raise Undecided('plaintext factor')
            out = [addrow(o, {k: q * f for k, q in row.items()}, v) for o, row, f in zip(out, R, c.ct[i])]
        c.new_ct(a[0], w, N, out, dbg)
    return h

def auto(s, N, e):
    out = [0] * N
    for i, v in enumerate(s):
        j = i * e % (2 * N)
        out[j % N] = v if j < N else -v
    return out

@lt(r'^void rot_ct<(\d+), (\d+)>\(R_Q_square<')
def o_rotct(w, N):
    def h(c, a, dbg):
        off = a[1]
        if type(off) is not int: raise Undecided('rotation amount')
        if not c.ok(0 <= off < N // 2, 'rotation by %d slots of %d' % (off - (1 << 32) if off >> 31 else off, N // 2), dbg): raise interp.Dead()
        R = c.rows(a[0], w, N, 'ciphertext', dbg)
        k = c.get(a[2], 2 * w, N, 'rotation key', dbg)
        if len(k.c) != 1: raise Undecided('rotation key')
        ((i, part),) = k.c
        if part != 'key': raise Undecided('rotation key')
        f, s = c.keys[i]
        if not c.ok(f == auto(c.secret, N, pow(5, off, 2 * N)) and s == c.secret, 'rotation by %d with a key that is not one from the rotated secret to the secret' % off, dbg): raise interp.Dead()
        c.new_ct(a[3], w, N, R[off:] + R[:off], dbg)
    return h

def compare(c, R, X, scale, what, dbg=None):
    """rows equal the expected ones"""
    tol = 1e-9 * scale
    for i, (r, x) in enumerate(zip(R, X)):
        for k in set(r) | set(x):
            d = r.get(k, 0) - x.get(k, 0)
            if not c.ok(abs(d) <= tol, '%s: slot %d holds %s times %s; it should hold %s' % (what, i, fmt(r.get(k, 0), scale), k, fmt(x.get(k, 0), scale)), dbg): return False
    return True

def fmt(v, scale):
    v = complex(v) / scale
    return '(%.6g%+.6gi) scale' % (v.real, v.imag)
