"""Abstract interpreter over LLVM IR.

One abstract state per program point: where a branch condition is not a constant of
the abstract domain both successors are analysed up to the immediate post-dominator
and the two states are joined there (values become  c*x + (1-c)*y).  No path is
enumerated to the end, nothing is handed to a solver, no input is ever chosen.
"""
import math, struct, time, re
import dom
from dom import (Poly, pc, pa, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ge0, eq0, gate, nameb,
                 fl, pmod, ATOMS, with_ctx, facts_of, INF, Undecided, TooBig, undef_atom, ctx_simplify)
from ir import GlobalRef, ConstAgg, ZEROINIT, UNDEFC, sgn

class SV:
    """integer value: congruent to P modulo 2^width; the integer P lies in [lo,hi]"""
    __slots__ = ('P', 'lo', 'hi')
    def __init__(self, P, lo=None, hi=None):
        a, b = prange(P)
        self.P = P
        self.lo = a if lo is None or a > lo else lo
        self.hi = b if hi is None or b < hi else hi
    def __repr__(self):
        return 'SV(%r)' % self.P

class RV:
    """real value (floating point is analysed over the reals)"""
    __slots__ = ('P',)
    def __init__(self, P):
        self.P = P
    def __repr__(self):
        return 'RV(%r)' % self.P

class WV:
    """a whole Z_Q object: P modulo 2^w"""
    __slots__ = ('P', 'w')
    def __init__(self, P, w):
        self.P = P; self.w = w
    def __repr__(self):
        return 'WV(%r,%d)' % (self.P, self.w)

class Undef:
    def __repr__(self):
        return 'UNDEF'
UNDEF = Undef()

class Obj:
    __slots__ = ('id', 'size', 'kind', 'name', 'cells', 'default', 'maxsz', 'freed', 'ro', 'gran', 'born', 'wrote')
    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)

class Ptr:
    __slots__ = ('obj', 'off', 'oob')
    def __init__(self, obj, off, oob=None):
        self.obj = obj; self.off = off; self.oob = oob
    def __repr__(self):
        return '&%r+%r' % (self.obj, self.off)
    def __eq__(self, o):
        return type(o) is Ptr and o.obj is self.obj and o.off == self.off
    def __hash__(self):
        return hash((id(self.obj), self.off if isinstance(self.off, int) else 0))

class PSel:
    __slots__ = ('c', 'x', 'y')
    def __init__(self, c, x, y):
        self.c = c; self.x = x; self.y = y

class Agg:
    __slots__ = ('f',)
    def __init__(self, f):
        self.f = f

class Dead(Exception):
    """current abstract path cannot continue (failed assertion, unreachable, abort)"""

class Budget(Exception):
    pass

def cf(x):
    if isinstance(x, float) and x == x and abs(x) < 9e15 and x == int(x):
        return int(x)
    return x

def rp(v):
    """real polynomial of a float-typed value"""
    if type(v) is RV:
        return v.P
    if isinstance(v, (int, float)):
        if v != v or v in (INF, -INF):
            raise Undecided('non-finite constant')
        return pc(cf(v))
    raise Undecided('float value %r' % (v,))

def mkrv(P):
    if P.isconst():
        return float(P.const())
    return RV(P)

def ip(v):
    return v.P if type(v) is SV else pc(v)

def to_u(v, w):
    """(poly, lo, hi) of the unsigned value of a w-bit integer"""
    if type(v) is int:
        return pc(v), v, v
    P, lo, hi = v.P, v.lo, v.hi
    if lo >= 0 and hi < (1 << w):
        return P, lo, hi
    if dom.CTX.rng or dom.CTX.fix:
        P = ctx_simplify(P)
        a, b = prange(P)
        lo = max(a, lo); hi = min(b, hi)
        if lo >= 0 and hi < (1 << w):
            return P, lo, hi
    F = fl(P, 1 << w, (lo, hi))
    U = psub(P, pscale(F, 1 << w))
    if F.isconst():
        k = F.const() << w
        return U, max(0, lo - k), min((1 << w) - 1, hi - k)
    return U, 0, (1 << w) - 1

def to_s(v, w):
    if type(v) is int:
        s = sgn(v, w)
        return pc(s), s, s
    h = 1 << (w - 1)
    P, lo, hi = v.P, v.lo, v.hi
    if lo >= -h and hi < h:
        return P, lo, hi
    F = fl(paddc(P, h), 1 << w, (lo + h, hi + h))
    S = psub(P, pscale(F, 1 << w))
    if F.isconst():
        k = F.const() << w
        return S, max(-h, lo - k), min(h - 1, hi - k)
    return S, -h, h - 1

def mkint(P, lo, hi, w):
    if P.isconst():
        return P.const() & ((1 << w) - 1)
    if lo == hi:
        return lo & ((1 << w) - 1)
    return SV(P, lo, hi)

def isundef(v):
    return v is UNDEF

RET = 1
REACH = 2
DEADR = 3

class Interp:
    def __init__(self, mod, sums=None, budget=40_000_000, timelimit=600):
        self.mod = mod
        self.objs = []
        self.gobj = {}
        self.log = None
        self.events = []
        self.pcs = []          # current path conditions [(poly, value)]
        self.effects = []
        self.printed = []
        self.sums = sums       # function: (interp, mangled, demangled) -> handler or None
        self._sumcache = {}
        self.nrand = 0
        self.rand_script = None
        self.steps = 0
        self.budget = budget
        self.t_end = time.time() + timelimit
        self.depth = 0
        self.par = None
        self.races = []
        self.parinfo = []
        self.stack = []
        self.loopmax = 200
        self.reject_max = None
        self.assumed = []
        self.branchcount = {}
        self.curloc = None
        self.forced_iter = None
        self.parallel_regions = {}
        self.funcs_seen = set()
        self.sums_used = {}
        self.static_inits = set()
        self.globals_written = {}
        self.intwrap = []
        self.region = None
        self.ompmode = 'iter'
        self.effects_rand = 0
        self.crit_saved = []
        self.guard_saved = []
        self.lazy = True

    # ---------------------------------------------------------------- objects
    def new_obj(self, size, kind, name, default=UNDEF):
        o = Obj()
        o.id = len(self.objs); o.size = size; o.kind = kind; o.name = name
        o.cells = {}; o.default = default; o.maxsz = 8; o.freed = False; o.ro = False; o.gran = 0
        o.born = self.par.it if self.par else None
        o.wrote = False
        self.objs.append(o)
        return o

    def event(self, kind, msg, cond=None, dbg=None):
        loc = self.mod.loc(dbg) if dbg is not None else (self.mod.loc(self.curloc) if self.curloc else '?')
        self.events.append({'kind': kind, 'msg': msg, 'loc': loc, 'func': self.stack[-1] if self.stack else '?',
                            'pc': list(self.pcs) + ([(cond, 1)] if cond is not None else []),
                            'stack': list(self.stack[-4:])})

    def is_header(self, p):
        return p.off != 0 or p.obj.kind == 'stack'

    def global_obj(self, name):
        o = self.gobj.get(name)
        if o is not None:
            return o
        d = self.mod.globals.get(name)
        if d is None:
            raise Undecided('unknown global %s' % name)
        toks = None
        from ir import tokenize
        import re as _re
        d2 = _re.sub(r'(, (align \d+|!\w[\w.]* !\d+|comdat(\([^)]*\))?|section "[^"]*"))+\s*$', '', d)
        t = tokenize(d2)
        i = 0
        isconst = False
        ext = False
        tls = False
        while True:
            j = self.mod.skip_attrs(t, i)
            seg = t[i:j]
            if 'thread_local' in seg: tls = True
            if 'constant' in seg: isconst = True
            if 'external' in seg: ext = True
            if j == i:
                break
            i = j
        T, i = self.mod.parse_type(t, i)
        size = self.mod.size(T)
        o = self.new_obj(size, 'global', self.mod.demg.get(name, name), 0)
        o.born = None
        o.ro = isconst
        if tls: o.kind = 'tls'
        self.gobj[name] = o
        if ext or i >= len(t):
            o.default = UNDEF
            o.kind = 'extern'
            return o
        v, i = self.mod.parse_val(T, t, i)
        self.init_cells(o, 0, T, v)
        return o

    def init_cells(self, o, off, T, v):
        if v is ZEROINIT or v is UNDEFC:
            return
        if isinstance(v, ConstAgg):
            for (k, ET, x) in v.items:
                self.init_cells(o, off + k, ET, x)
            return
        if isinstance(v, GlobalRef):
            v = self.gref(v)
        sz = self.mod.size(T)
        o.cells[off] = (sz, v)
        if o.gran == 0: o.gran = sz
        elif o.gran != sz: o.gran = -1

    def gref(self, g):
        if g.name in self.mod.funcs or g.name in self.mod.decls:
            return g
        return Ptr(self.global_obj(g.name), g.off)

    # ---------------------------------------------------------------- memory
    def setcell(self, o, off, cell):
        if self.log is not None:
            self.log.append((o, off, o.cells.get(off)))
        if cell is None:
            o.cells.pop(off, None)
        else:
            o.cells[off] = cell

    def overlapping(self, o, off, size):
        """cells overlapping [off,off+size) other than an exact match"""
        out = []
        cells = o.cells
        lo = off - o.maxsz + 1
        n = o.maxsz + size
        if n > len(cells) * 2:
            for k, c in cells.items():
                if k < off + size and k + c[0] > off:
                    out.append(k)
            out.sort()
            return out
        for k in range(lo, off + size):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                out.append(k)
        return out

    def explode(self, o, off):
        """replace a wide cell by its limbs, or a constant cell by bytes"""
        sz, v = o.cells[off]
        if type(v) is WV:
            limbs = self.limbs_of(v.P, v.w, sz // 8)
            self.setcell(o, off, None)
            if sz != 8: o.gran = -1
            for i, l in enumerate(limbs):
                self.setcell(o, off + 8 * i, (8, l))
            return
        if type(v) is int and sz > 1:
            self.setcell(o, off, None)
            o.gran = -1
            for i in range(sz):
                self.setcell(o, off + i, (1, (v >> (8 * i)) & 255))
            return
        if type(v) is float and sz == 8:
            b = struct.pack('<d', v)
            self.setcell(o, off, None)
            o.gran = -1
            for i in range(8):
                self.setcell(o, off + i, (1, b[i]))
            return
        if v is UNDEF:
            self.setcell(o, off, None)
            o.gran = -1
            for i in range(sz):
                self.setcell(o, off + i, (1, UNDEF))
            return
        raise Undecided('partial access to a %d byte cell' % sz)

    def limbs_of(self, P, w, n):
        P = umod(P, w)
        lo, hi = prange(P)
        out = []
        q = [P]
        for i in range(1, n + 1):
            q.append(fl(P, 1 << (64 * i)))
        for i in range(n):
            L = psub(q[i], pscale(q[i + 1], 1 << 64))
            if i == n - 1:
                top = (1 << (w - 64 * (n - 1))) - 1
                out.append(mkint(q[i], 0, top, 64))
            else:
                out.append(mkint(L, 0, (1 << 64) - 1, 64))
        return out

    def rec(self, o, off, size, wr):
        p = self.par
        if p is not None and o.born != p.it and o.kind != 'const' and o.kind != 'tls':
            (p.w if wr else p.r).append((o, off, size, self.curloc, p.ph))

    def check(self, o, off, size, wr, dbg):
        if off < 0 or off + size > o.size:
            self.event('oob', '%s of %d bytes at offset %d of %s (%d bytes)' % ('write' if wr else 'read', size, off, o.name, o.size), None, dbg)
            return False
        if o.freed:
            self.event('uaf', 'access to %s after its lifetime ended' % o.name, None, dbg)
        return True

    def load(self, p, T, dbg=None):
        tp = type(p)
        if tp is not Ptr:
            if tp is PSel:
                return self.gated(p.c, lambda: self.load(p.x, T, dbg), lambda: self.load(p.y, T, dbg), T)
            if p is None or p == 0:
                self.event('null', 'null pointer read', None, dbg)
                raise Dead()
            if p is UNDEF:
                self.event('uninit', 'read through an uninitialised pointer', None, dbg)
                raise Dead()
            if isinstance(p, GlobalRef):
                return self.load(self.gref(p), T, dbg)
            raise Undecided('load through %r' % (p,))
        o = p.obj; off = p.off
        if T[0] == 's' or T[0] == 'a':
            return Agg({k: self.load(Ptr(o, off + fo, p.oob) if type(off) is int else self.ptr_add(p, fo, None, None), FT, dbg) for k, fo, FT in self.parts(T)})
        if type(off) is not int:
            return self.sym_access(p, T, None, dbg)
        if p.oob is not None:
            self.oob_event(p, 'read', dbg)
        size = self.mod.size(T)
        if not self.check(o, off, size, False, dbg):
            return self.fresh_undef(T, 'out of bounds read')
        if self.par is not None:
            self.rec(o, off, size, False)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if type(v) is WV:
                if T[0] == 'i' and T[1] == 64 and size == 8:
                    self.explode(o, off)
                    v = o.cells[off][1]
                else:
                    raise Undecided('load of wide as %r' % (T,))
        else:
            v = self.load_slow(o, off, size, T)
        return self.conv_loaded(v, T)

    def conv_loaded(self, v, T):
        k = T[0]
        tv = type(v)
        if k == 'i':
            if tv is float:
                if T[1] == 64:
                    return struct.unpack('<Q', struct.pack('<d', v))[0]
            if tv is RV:
                raise Undecided('reinterpretation of a real as an integer')
            if v is None:
                return 0
            if tv is bool:
                return int(v)
            return v
        if k == 'f':
            if tv is int:
                if v == 0: return 0.0
                if T[1] == 64:
                    return struct.unpack('<d', struct.pack('<Q', v))[0]
            if tv is SV:
                raise Undecided('reinterpretation of an integer as a real')
            return v
        if k == 'p':
            if tv is int and v == 0:
                return None
            return v
        if k in ('a', 's', 'vec') and v == 0:
            return Agg({})
        return v

    def load_slow(self, o, off, size, T):
        ov = self.overlapping(o, off, size)
        if not ov:
            return o.default if o.default is UNDEF else 0
        # wide cells -> limbs
        ch = False
        for k in ov:
            if type(o.cells[k][1]) is WV:
                self.explode(o, k); ch = True
        if ch:
            c = o.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
            ov = self.overlapping(o, off, size)
        # part of a bigger integer cell
        if len(ov) == 1:
            k = ov[0]
            sz, v = o.cells[k]
            if k <= off and k + sz >= off + size and type(v) in (int, SV):
                w = 8 * sz
                P, lo, hi = to_u(v, w)
                sh = 8 * (off - k)
                P1 = fl(P, 1 << sh, (lo, hi)) if sh else P
                P2 = psub(P1, pscale(fl(P1, 1 << (8 * size)), 1 << (8 * size)))
                return mkint(P2, 0, (1 << (8 * size)) - 1, 8 * size)
            if k <= off and k + sz >= off + size and v is UNDEF:
                return UNDEF
        # several smaller cells
        P = ZERO
        pos = off
        for k in ov:
            sz, v = o.cells[k]
            if k < off or k + sz > off + size:
                self.explode(o, k)
                return self.load_slow(o, off, size, T)
        for k in ov:
            sz, v = o.cells[k]
            if k != pos and o.default is UNDEF:
                return UNDEF
            if v is UNDEF:
                return UNDEF
            if type(v) is float:
                v = struct.unpack('<Q', struct.pack('<d', v))[0]
            if type(v) not in (int, SV):
                raise Undecided('mixed load of %r at %d+%d in %r: %r in %r %s' % (T, off, size, o, [(k, o.cells[k][0], type(o.cells[k][1]).__name__) for k in ov][:6], self.stack[-3:], self.mod.loc(self.curloc) if self.curloc else ''))
            Q, lo, hi = to_u(v, 8 * sz)
            P = padd(P, pscale(Q, 1 << (8 * (k - off))))
            pos = k + sz
        if pos != off + size and o.default is UNDEF:
            return UNDEF
        return mkint(P, 0, (1 << (8 * size)) - 1, 8 * size)

    def store(self, p, T, v, dbg=None):
        tp = type(p)
        if tp is not Ptr:
            if tp is PSel:
                for q, neg in ((p.x, 0), (p.y, 1)):
                    c = psub(ONE, p.c) if neg else p.c
                    if q is None or q is UNDEF:
                        self.event('null', 'write through a null pointer', c, dbg)
                        continue
                    old = self.load(q, T, dbg)
                    self.store(q, T, self.join(c, v, old, T), dbg)
                return
            if p is None or p == 0:
                self.event('null', 'null pointer write', None, dbg)
                raise Dead()
            if isinstance(p, GlobalRef):
                return self.store(self.gref(p), T, v, dbg)
            if p is UNDEF:
                self.event('uninit', 'write through an uninitialised pointer', None, dbg)
                raise Dead()
            raise Undecided('store through %r' % (p,))
        o = p.obj; off = p.off
        if T[0] == 's' or T[0] == 'a':
            for k, fo, FT in self.parts(T):
                x = v.f.get(k, UNDEF) if type(v) is Agg else (v if v is UNDEF else 0)
                self.store(Ptr(o, off + fo, p.oob) if type(off) is int else self.ptr_add(p, fo, None, None), FT, x, dbg)
            return
        if type(off) is not int:
            return self.sym_access(p, T, v, dbg)
        if p.oob is not None:
            self.oob_event(p, 'write', dbg)
        size = self.mod.size(T)
        if not self.check(o, off, size, True, dbg):
            return
        if self.par is not None:
            self.rec(o, off, size, True)
        self.store_cell(o, off, size, v, dbg)

    def store_cell(self, o, off, size, v, dbg=None):
        if o.ro:
            self.event('input-write', 'write to %s, which must not be modified' % o.name, None, dbg)
        if o.kind == 'global' or o.kind == 'tls':
            o.wrote = True
            if o.name not in self.globals_written:
                self.globals_written[o.name] = (self.mod.loc(dbg) if dbg else '?', self.stack[-1] if self.stack else '?')
        cells = o.cells
        c = cells.get(off)
        if (c is None or c[0] != size) and not (o.gran == size and off % size == 0):
            if o.gran == 0:
                o.gran = size if off % size == 0 else -1
            elif o.gran != size:
                o.gran = -1
            for k in self.overlapping(o, off, size):
                if k == off and cells[k][0] == size:
                    continue
                sz = cells[k][0]
                if k >= off and k + sz <= off + size:
                    self.setcell(o, k, None)
                else:
                    self.explode(o, k)
                    for k2 in self.overlapping(o, off, size):
                        if k2 >= off and k2 + cells[k2][0] <= off + size:
                            self.setcell(o, k2, None)
                        else:
                            self.explode(o, k2)
        if size > o.maxsz:
            o.maxsz = size
        self.setcell(o, off, (size, v))

    def parts(self, T):
        if T[0] == 'a':
            n = self.mod.size(T[2])
            return [(k, k * n, T[2]) for k in range(T[1])]
        return [(k, self.mod.field_off(T, k), FT) for k, FT in enumerate(T[1])]

    def oob_event(self, p, what, dbg):
        c = p.oob
        if c is True:
            self.event('oob', '%s past the end of an array member of %s (offset %s)' % (what, p.obj.name, p.off), None, dbg)
        else:
            self.event('oob', '%s with an index outside the array in %s' % (what, p.obj.name), c, dbg)

    def fresh_undef(self, T, where):
        if T[0] == 'i':
            return SV(undef_atom(0, (1 << T[1]) - 1, True, where))
        if T[0] == 'f':
            return RV(undef_atom(-1e6, 1e6, False, where))
        return UNDEF

    def sym_access(self, p, T, v, dbg):
        """access through a symbolic offset: enumerate the possible offsets"""
        off = p.off
        P = ctx_simplify(off.P)
        if P.isconst():
            q = Ptr(p.obj, P.const(), p.oob)
            return self.load(q, T, dbg) if v is None else self.store(q, T, v, dbg)
        c0 = P.const()
        g = 0
        for m, c in P.d.items():
            if m:
                g = math.gcd(g, c)
        lo, hi = prange(P)
        lo = max(lo, off.lo); hi = min(hi, off.hi)
        if hi - lo > g * 4096:
            raise Undecided('symbolic offset with a large range')
        lo = c0 + -((-(lo - c0)) // g) * g
        size = self.mod.size(T)
        offs = list(range(lo, hi + 1, g))
        inb = [k for k in offs if 0 <= k and k + size <= p.obj.size]
        if len(inb) != len(offs):
            cond = ZERO
            for k in offs:
                if k not in inb:
                    cond = padd(cond, eq0(paddc(P, -k)))
            self.event('oob', '%s through an index outside %s' % ('read' if v is None else 'write', p.obj.name), cond, dbg)
        if p.oob is not None:
            self.oob_event(p, 'read' if v is None else 'write', dbg)
        if not inb:
            if v is None:
                return self.fresh_undef(T, 'oob')
            return
        if len(inb) > 256:
            raise Undecided('symbolic offset with %d candidates' % len(inb))
        conds = [eq0(paddc(P, -k)) for k in inb]
        if v is None:
            out = None
            for k, c in zip(inb, conds):
                if c.isconst() and c.const() == 0:
                    continue
                x = self.load(Ptr(p.obj, k), T, dbg)
                out = x if out is None else self.join(c, x, out, T)
            return out
        for k, c in zip(inb, conds):
            if c.isconst() and c.const() == 0:
                continue
            old = self.load(Ptr(p.obj, k), T, dbg)
            self.store(Ptr(p.obj, k), T, self.join(c, v, old, T), dbg)

    # ------------------------------------------------------------ wide objects
    def read_wide(self, p, w, dbg=None):
        n = (w + 63) // 64
        if type(p) is PSel:
            a = self.read_wide(p.x, w, dbg); b = self.read_wide(p.y, w, dbg)
            return gate(nameb(p.c), a, b)
        if type(p) is not Ptr:
            if p is None or p is UNDEF:
                self.event('null', 'invalid reference', None, dbg); raise Dead()
            raise Undecided('wide read through %r' % (p,))
        o, off = p.obj, p.off
        if type(off) is not int:
            raise Undecided('wide read at a symbolic offset')
        if p.oob is not None:
            self.oob_event(p, 'read', dbg)
        if not self.check(o, off, 8 * n, False, dbg):
            return undef_atom(0, (1 << w) - 1, True, 'oob')
        if self.par is not None:
            self.rec(o, off, 8 * n, False)
        c = o.cells.get(off)
        if c is not None and type(c[1]) is WV and c[0] == 8 * n:
            P = c[1].P
            if c[1].w != w:
                raise Undecided('width mismatch')
            return P
        P = ZERO
        for i in range(n):
            v = self.conv_loaded(self.load_limb(o, off + 8 * i), ('i', 64))
            if v is UNDEF:
                v = SV(undef_atom(0, (1 << 64) - 1, True, self.mod.loc(dbg) if dbg else '?'))
            Q, lo, hi = to_u(v, 64)
            P = padd(P, pscale(Q, 1 << (64 * i)))
        return ctx_simplify(P)

    def load_limb(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 8 and type(c[1]) is not WV:
            return c[1]
        return self.load_slow(o, off, 8, ('i', 64))

    def write_wide(self, p, w, P, dbg=None):
        n = (w + 63) // 64
        if type(p) is PSel:
            for q, c in ((p.x, p.c), (p.y, psub(ONE, p.c))):
                old = self.read_wide(q, w, dbg)
                self.write_wide(q, w, gate(nameb(c), P, old), dbg)
            return
        o, off = p.obj, p.off
        if type(off) is not int:
            raise Undecided('wide write at a symbolic offset')
        if p.oob is not None:
            self.oob_event(p, 'write', dbg)
        if not self.check(o, off, 8 * n, True, dbg):
            return
        if self.par is not None:
            self.rec(o, off, 8 * n, True)
        P = wnorm(P, w)
        if P.isconst():
            c = P.const() % (1 << w)
            for i in range(n):
                self.store_cell(o, off + 8 * i, 8, (c >> (64 * i)) & ((1 << 64) - 1), dbg)
            return
        if len(P.d) > dom.MAXTERMS:
            raise TooBig('wide value')
        self.store_cell(o, off, 8 * n, WV(P, w), dbg)

    # ---------------------------------------------------------------- joins
    def join(self, c, x, y, T):
        """c ? x : y"""
        if x is y:
            return x
        if c.isconst():
            return x if c.const() else y
        tx, ty = type(x), type(y)
        if x is UNDEF or y is UNDEF:
            k = T[0] if T else 'i'
            if k == 'i':
                if x is UNDEF: x = SV(undef_atom(0, (1 << T[1]) - 1, True, 'join'))
                else: y = SV(undef_atom(0, (1 << T[1]) - 1, True, 'join'))
            elif k == 'f':
                if x is UNDEF: x = RV(undef_atom(-1e6, 1e6, False, 'join'))
                else: y = RV(undef_atom(-1e6, 1e6, False, 'join'))
            elif k == 'p':
                return PSel(c, x, y)
            else:
                raise Undecided('join of an uninitialised aggregate')
            tx, ty = type(x), type(y)
        if tx in (int, SV) and ty in (int, SV):
            if tx is int and ty is int and x == y:
                return x
            w = T[1] if T and T[0] == 'i' else 64
            c = nameb(c)
            if tx is int and ty is int:
                a, b = x, y
                h = 1 << (w - 1)
                if w > 1 and (a >= h) != (b >= h) and min(a, (1 << w) - a) < 1 << 16 and min(b, (1 << w) - b) < 1 << 16:
                    a, b = sgn(a, w), sgn(b, w)
                return SV(gate(c, pc(a), pc(b)), min(a, b), max(a, b))
            if tx is int:
                lx = hx = x
                if x >= 1 << (w - 1) and y.lo < 0 and (1 << w) - x < 1 << 31:
                    x = sgn(x, w); lx = hx = x
                X = pc(x); Y, ly, hy = y.P, y.lo, y.hi
            elif ty is int:
                if y >= 1 << (w - 1) and x.lo < 0 and (1 << w) - y < 1 << 31:
                    y = sgn(y, w)
                Y = pc(y); ly = hy = y; X, lx, hx = x.P, x.lo, x.hi
            else:
                X, lx, hx = x.P, x.lo, x.hi
                Y, ly, hy = y.P, y.lo, y.hi
            P = gate(c, X, Y)
            lo, hi = min(lx, ly), max(hx, hy)
            if lo >= 0 and hi <= 1 and len(P.d) > 1:
                P = dom.bnorm(P)
            elif tx is SV and ty is SV:
                D = psub(X, Y)
                if D.isconst() and isinstance(D.const(), int): P = dom.cond_sub(P, abs(D.const()))
            return mkint(P, lo, hi, w)
        if tx in (float, RV, int) and ty in (float, RV, int):
            if tx is float and ty is float and x == y:
                return x
            return mkrv(gate(nameb(c), rp(x), rp(y)))
        if tx is WV and ty is WV:
            if x.w != y.w:
                raise Undecided('join of widths')
            return WV(wnorm(gate(nameb(c), x.P, y.P), x.w), x.w)
        if tx in (Ptr, PSel, type(None), GlobalRef) and ty in (Ptr, PSel, type(None), GlobalRef):
            if tx is Ptr and ty is Ptr and x.obj is y.obj:
                if x.off == y.off and type(x.off) is int:
                    return x
                if x.oob is None and y.oob is None:
                    a = x.off if type(x.off) is int else x.off
                    o1 = x.off if type(x.off) is SV else SV(pc(x.off))
                    o2 = y.off if type(y.off) is SV else SV(pc(y.off))
                    return Ptr(x.obj, SV(gate(nameb(c), o1.P, o2.P), min(o1.lo, o2.lo), max(o1.hi, o2.hi)))
            if isinstance(x, GlobalRef) and isinstance(y, GlobalRef) and x.name == y.name:
                return x
            return PSel(c, x, y)
        if tx is Agg and ty is Agg:
            return Agg({k: self.join(c, x.f.get(k, UNDEF), y.f.get(k, UNDEF), None) for k in set(x.f) | set(y.f)})
        raise Undecided('join of %r and %r' % (x, y))

    def gated(self, c, fx, fy, T):
        with with_ctx(facts_of(c, 1)) as w1:
            d1 = w1.dead
            x = None if d1 else fx()
        with with_ctx(facts_of(c, 0)) as w0:
            d0 = w0.dead
            y = None if d0 else fy()
        if d1: return y
        if d0: return x
        return self.join(c, x, y, T)

    def rollback(self, log, start):
        """undo log[start:]; returns {(obj,off): cell after}"""
        after = {}
        for (o, off, old) in log[start:]:
            after[(o, off)] = None
        for (o, off) in after:
            after[(o, off)] = o.cells.get(off)
        for k in range(len(log) - 1, start - 1, -1):
            o, off, old = log[k]
            if old is None:
                o.cells.pop(off, None)
            else:
                o.cells[off] = old
        del log[start:]
        return after

    def merge_mem(self, c, a1, a0, nobj):
        keys = set(a1) | set(a0)
        # bring both sides to the same granularity where a wide cell meets limbs
        todo = {}
        for (o, off) in keys:
            todo.setdefault(o, set()).add(off)
        for o, offs in todo.items():
            if o.id >= nobj:
                # created inside one of the branches
                for off in offs:
                    v = a1.get((o, off))
                    if v is None:
                        v = a0.get((o, off))
                    self.setcell(o, off, v)
                continue
            done = set()
            for off in sorted(offs):
                if off in done:
                    continue
                base = o.cells.get(off)
                c1 = a1[(o, off)] if (o, off) in a1 else base
                c0 = a0[(o, off)] if (o, off) in a0 else base
                if c1 is c0:
                    self.setcell(o, off, c1)
                    continue
                s1 = c1[0] if c1 else None
                s0 = c0[0] if c0 else None
                w1 = c1 is not None and type(c1[1]) is WV
                w0 = c0 is not None and type(c0[1]) is WV
                if (w1 or w0) and not (w1 and w0 and s1 == s0):
                    sz = max(s1 or 0, s0 or 0)
                    wv = c1[1] if w1 else c0[1]
                    def side(a, cc, isw):
                        if isw:
                            if cc[0] != sz:
                                raise Undecided('join of wide objects')
                            return cc[1].P
                        P = ZERO
                        for i in range(0, sz, 8):
                            k = (o, off + i)
                            x = a[k] if k in a else o.cells.get(off + i)
                            if x is None:
                                if o.default is UNDEF:
                                    v = SV(undef_atom(0, (1 << 64) - 1, True, 'join'))
                                else:
                                    v = 0
                            elif x[0] != 8:
                                raise Undecided('join of wide objects')
                            else:
                                v = x[1]
                                if v is UNDEF:
                                    v = SV(undef_atom(0, (1 << 64) - 1, True, 'join'))
                            P = padd(P, pscale(to_u(v, 64)[0], 1 << (8 * i)))
                        return P
                    P1 = side(a1, c1, w1); P0 = side(a0, c0, w0)
                    for i in range(8, sz, 8):
                        done.add(off + i)
                        if o.cells.get(off + i) is not None:
                            self.setcell(o, off + i, None)
                    if sz > o.maxsz: o.maxsz = sz
                    if o.gran != sz: o.gran = -1
                    self.setcell(o, off, (sz, WV(wnorm(gate(nameb(c), P1, P0), wv.w), wv.w)))
                    continue
                if s1 is not None and s0 is not None and s1 != s0:
                    raise Undecided('join of cells of different sizes')
                sz = s1 or s0
                if sz is None:
                    self.setcell(o, off, None); continue
                dv = o.default
                v1 = c1[1] if c1 else dv
                v0 = c0[1] if c0 else dv
                v1 = self.fixdefault(v1, v0); v0 = self.fixdefault(v0, v1)
                T = self.guess_type(v1, v0, sz)
                self.setcell(o, off, (sz, self.join(c, v1, v0, T)))

    def fixdefault(self, v, other):
        if v == 0 and type(v) is int:
            if type(other) in (float, RV):
                return 0.0
            if type(other) in (Ptr, PSel):
                return None
        return v

    def guess_type(self, a, b, sz):
        for v in (a, b):
            if type(v) in (float, RV):
                return ('f', 8 * sz)
            if type(v) in (Ptr, PSel, GlobalRef) or v is None:
                return ('p',)
        return ('i', 8 * sz)

    # ---------------------------------------------------------------- execution
    def val(self, fr, x, T=None):
        t = type(x)
        if t is str:
            try:
                return fr[x]
            except KeyError:
                raise Undecided('undefined register %s' % x)
        if t is int or t is float or x is None:
            return x
        if t is GlobalRef:
            return self.gref(x)
        if x is UNDEFC:
            return UNDEF
        if x is ZEROINIT:
            if T and T[0] == 'f': return 0.0
            if T and T[0] == 'p': return None
            if T and T[0] in ('s', 'a'): return Agg({})
            return 0
        if t is ConstAgg:
            return Agg({n: v for n, (o, ET, v) in enumerate(x.items)})
        raise Undecided('operand %r' % (x,))

    def call_name(self, name, args):
        f = self.mod.get(name)
        if f is None:
            raise Undecided('no function %s' % name)
        return self.call_func(f, args)

    def call_func(self, f, args, dbg=None):
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Undecided('recursion too deep in %s' % f.name)
        fr = {}
        self.funcs_seen.add(f.name)
        for (nm, T, byval), a in zip(f.params, args):
            fr[nm] = a
        self.stack.append(f.name)
        allocas = []
        fr['#allocas'] = allocas
        fr['#iter'] = {}
        try:
            r = self.run(f, fr, f.order[0], None, None)
        finally:
            self.stack.pop()
            self.depth -= 1
        for o in allocas:
            o.freed = True
        if r[0] == DEADR:
            raise Dead()
        return r[1]

    def phis(self, f, fr, b, prev):
        out = []
        for (dst, T, inc) in b.phis:
            out.append((dst, self.val(fr, inc[prev], T)))
        return out

    def run(self, f, fr, cur, prev, stop, pre=None):
        """analyse from block cur until stop is reached.  (RET,value) (REACH,prev,phivals) (DEADR,)"""
        try:
            return self.run_(f, fr, cur, prev, stop, pre)
        except Dead:
            return (DEADR,)

    def run_(self, f, fr, cur, prev, stop, pre):
        blocks = f.blocks
        val = self.val
        while True:
            b = blocks[cur]
            if cur == stop:
                return (REACH, prev, [v for _, v in self.phis(f, fr, b, prev)])
            if b.phis:
                if pre is not None:
                    for (dst, T, inc), v in zip(b.phis, pre):
                        fr[dst] = v
                else:
                    pv = self.phis(f, fr, b, prev)
                    for dst, v in pv:
                        fr[dst] = v
            pre = None
            self.steps += len(b.ins)
            if self.steps > self.budget:
                raise Budget('instruction budget')
            if (self.steps & 0x3ff) < len(b.ins) and time.time() > self.t_end:
                raise Budget('time limit')
            for ins in b.ins:
                op = ins[0]
                if op == 'load':
                    self.curloc = ins[4]
                    p = ins[3]
                    fr[ins[1]] = self.load(fr[p] if type(p) is str else val(fr, p), ins[2], ins[4])
                elif op == 'getelementptr':
                    fr[ins[1]] = self.gep(fr, ins)
                elif op == 'store':
                    self.curloc = ins[5]
                    v = ins[3]; p = ins[4]
                    self.store(fr[p] if type(p) is str else val(fr, p), ins[2],
                               fr[v] if type(v) is str else val(fr, v, ins[2]), ins[5])
                elif op == 'br':
                    prev, cur = cur, ins[2]
                    break
                elif op == 'cbr':
                    c = ins[2]
                    c = fr[c] if type(c) is str else val(fr, c)
                    if type(c) is int:
                        prev, cur = cur, (ins[3] if c & 1 else ins[4])
                        break
                    r = self.branch(f, fr, cur, c, ins[3], ins[4], stop, ins[5])
                    if r[0] != REACH:
                        return r
                    _, prev, cur, pre = r
                    if cur == stop:
                        return (REACH, prev, pre)
                    break
                elif op == 'call':
                    self.curloc = ins[5]
                    r = self.do_call(fr, ins)
                    if ins[1] is not None:
                        fr[ins[1]] = r
                elif op in BINOPS:
                    x = ins[3]; y = ins[4]
                    T = ins[2]
                    x = fr[x] if type(x) is str else val(fr, x, T)
                    y = fr[y] if type(y) is str else val(fr, y, T)
                    if type(x) is int and type(y) is int and T[0] == 'i':
                        fr[ins[1]] = self.cbin(op, x, y, T[1], ins)
                    elif type(x) is float and type(y) is float:
                        fr[ins[1]] = self.fbinc(op, x, y, ins)
                    else:
                        self.curloc = ins[5]
                        fr[ins[1]] = self.binop(op, x, y, T, ins)
                elif op == 'icmp':
                    x = ins[4]; y = ins[5]
                    x = fr[x] if type(x) is str else val(fr, x, ins[3])
                    y = fr[y] if type(y) is str else val(fr, y, ins[3])
                    fr[ins[1]] = self.icmp(ins[2], x, y, ins[3], ins)
                elif op == 'ret':
                    return (RET, val(fr, ins[2]) if ins[2] is not None else None)
                elif op == 'alloca':
                    n = val(fr, ins[3])
                    if type(n) is not int:
                        raise Undecided('variable length array of unknown size')
                    o = self.new_obj(ins[2] * n, 'stack', '%s in %s' % (ins[1], self.mod.dem.get(f.name, f.name).split('(')[0]))
                    fr['#allocas'].append(o)
                    fr[ins[1]] = Ptr(o, 0)
                elif op in CASTS:
                    x = val(fr, ins[3], ins[2])
                    self.curloc = ins[5]
                    fr[ins[1]] = self.cast(op, ins[2], x, ins[4], ins)
                elif op == 'fcmp':
                    x = val(fr, ins[4], ins[3]); y = val(fr, ins[5], ins[3])
                    fr[ins[1]] = self.fcmp(ins[2], x, y, ins)
                elif op == 'fneg':
                    x = val(fr, ins[3])
                    if x is UNDEF:
                        fr[ins[1]] = UNDEF
                    else:
                        fr[ins[1]] = -x if type(x) is float else mkrv(pneg(rp(x)))
                elif op == 'freeze':
                    fr[ins[1]] = val(fr, ins[3])
                elif op == 'select':
                    c = val(fr, ins[3]); x = val(fr, ins[4], ins[2]); y = val(fr, ins[5], ins[2])
                    if type(c) is int:
                        fr[ins[1]] = x if c & 1 else y
                    elif c is UNDEF:
                        fr[ins[1]] = UNDEF
                    else:
                        fr[ins[1]] = self.join(self.boolp(c), x, y, ins[2])
                elif op == 'switch':
                    v = val(fr, ins[3])
                    if type(v) is int:
                        t = ins[4]
                        for cv, lb in ins[5]:
                            if cv == v:
                                t = lb; break
                        prev, cur = cur, t
                        break
                    raise Undecided('switch on an unknown value')
                elif op == 'atomicrmw':
                    self.curloc = ins[5]
                    T = ins[2]
                    p = val(fr, ins[4]); v = val(fr, ins[6], T)
                    sp, self.par = self.par, None
                    x = self.load(p, T, ins[5])
                    bop = ins[3]
                    if bop == 'xchg': y = v
                    else:
                        di = (bop, None, T, x, v, ins[5], ())
                        if bop not in ('add', 'sub', 'and', 'or', 'xor', 'fadd', 'fsub'): raise Undecided('atomic ' + bop)
                        y = self.cbin(bop, x, v, T[1], di) if type(x) is int and type(v) is int else self.fbinc(bop, x, v, di) if type(x) is float and type(v) is float else self.binop(bop, x, v, T, di)
                    self.store(p, T, y, ins[5])
                    self.par = sp
                    if ins[1] is not None: fr[ins[1]] = x
                elif op == 'cmpxchg':
                    self.curloc = ins[5]
                    T = ins[2]
                    p = val(fr, ins[3]); c = val(fr, ins[4], T); v = val(fr, ins[6], T)
                    sp, self.par = self.par, None
                    x = self.load(p, T, ins[5])
                    if not (type(x) is int and type(c) is int):
                        # a retry loop around its own read succeeds when nobody interferes
                        if not (type(x) is SV and type(c) is SV and x.P.key() == c.P.key()): raise Undecided('compare-exchange of unknown values')
                        eq = 1
                    else: eq = int(x == c)
                    if eq: self.store(p, T, v, ins[5])
                    self.par = sp
                    if ins[1] is not None: fr[ins[1]] = Agg({0: x, 1: eq})
                elif op == 'extractvalue':
                    a = val(fr, ins[3])
                    for k in ins[4]:
                        a = a.f.get(k, UNDEF) if type(a) is Agg else UNDEF
                    fr[ins[1]] = a
                elif op == 'insertvalue':
                    a = val(fr, ins[3]); v = val(fr, ins[4])
                    a = Agg(dict(a.f) if type(a) is Agg else {})
                    if len(ins[5]) != 1:
                        raise Undecided('nested insertvalue')
                    a.f[ins[5][0]] = v
                    fr[ins[1]] = a
                elif op == 'unreachable':
                    raise Dead()
                else:
                    raise Undecided('instruction %s %s' % (op, ins[2:4]))
            else:
                raise Undecided('fallthrough')

    def boolp(self, c):
        if type(c) is int:
            return ONE if c & 1 else ZERO
        return ctx_simplify(c.P)

    # a conditional branch whose condition is not constant
    def branch(self, f, fr, cur, c, t1, t0, stop, dbg):
        if c is UNDEF:
            self.event('uninit', 'branch on an uninitialised value', None, dbg)
            c = SV(undef_atom(0, 1, True, 'branch'))
        P = self.boolp(c)
        if P.isconst():
            return (REACH, cur, t1 if P.const() else t0, None)
        if any(ATOMS[i].undef for i in dom.base_vars(P)):
            self.event('uninit', 'branch depends on an uninitialised value', None, dbg)
        j = f.ipdom.get(cur)
        if j is None:
            # only sides that never return; try both
            j = '<exit>'
        if j == '<exit>':
            j = None
        key = (id(fr), cur)
        it = fr['#iter']
        n = it.get(cur, 0) + 1
        it[cur] = n
        lim = self.loopmax
        try:
            if n > lim:
                self.assumed.append(('loop at %s assumed to end after %d undecided iterations' % (self.mod.loc(dbg), lim)))
                raise Undecided('loop with an undecided exit at %s' % self.mod.loc(dbg))
            if self.reject_max is not None and n > self.reject_max:
                # rejection loop: assume that it ends here (the exit side is the one leaving the loop)
                self.assumed.append('rejection loop at %s ends' % self.mod.loc(dbg))
                out = [t for t in (t1, t0) if not reaches(f, t, cur)]
                if len(out) == 1:
                    return (REACH, cur, out[0], None)
            own = self.log is None
            if own:
                self.log = []
            log = self.log
            start = len(log)
            nobj = len(self.objs)
            facts1, facts0 = facts_of(P, 1), facts_of(P, 0)
            with with_ctx(facts1) as w:
                if w.dead:
                    r1 = (DEADR,)
                    skip1 = True
                else:
                    skip1 = False
                    self.pcs.append((P, 1))
                    fr1 = dict(fr)
                    r1 = self.run(f, fr1, t1, cur, j)
                    self.pcs.pop()
            a1 = self.rollback(log, start)
            with with_ctx(facts0) as w:
                if w.dead:
                    r0 = (DEADR,)
                else:
                    self.pcs.append((P, 0))
                    fr0 = dict(fr)
                    r0 = self.run(f, fr0, t0, cur, j)
                    self.pcs.pop()
            if r1[0] == DEADR and r0[0] == DEADR:
                if own: self.log = None
                raise Dead()
            if r1[0] == DEADR:
                res = r0
                if own: self.log = None
            elif r0[0] == DEADR:
                a0 = self.rollback(log, start)
                for (o, off), cell in a1.items():
                    self.setcell(o, off, cell)
                res = r1
                if own: self.log = None
            else:
                a0 = self.rollback(log, start)
                self.merge_mem(P, a1, a0, nobj)
                if own: self.log = None
                if r1[0] == RET:
                    if r0[0] != RET:
                        raise Undecided('join of return and fallthrough')
                    if r1[1] is None and r0[1] is None:
                        return (RET, None)
                    return (RET, self.join(P, r1[1], r0[1], f.rett))
                b = f.blocks[j]
                pre = [self.join(P, x, y, T) for (dst, T, inc), x, y in zip(b.phis, r1[2], r0[2])]
                return (REACH, r1[1], j, pre)
            if res[0] == RET:
                return res
            return (REACH, res[1], j, res[2])
        finally:
            it[cur] = n - 1

    # ---------------------------------------------------------------- instructions
    def gep(self, fr, ins):
        base = ins[2]
        p = fr[base] if type(base) is str else self.val(fr, base)
        off = ins[3]
        oob = True if ins[6] else None
        symP = None
        for (r, w, sc, bound) in ins[4]:
            v = fr[r]
            if type(v) is int:
                k = v - (1 << w) if v >> (w - 1) else v
                off += k * sc
                if bound is not None and not (0 <= k < bound):
                    oob = True
            elif v is UNDEF:
                self.event('uninit', 'index is uninitialised', None, ins[5])
                v = SV(undef_atom(0, 1 << 30, True, 'index'))
                symP = (pscale(v.P, sc), 0, sc << 30)
            else:
                S, lo, hi = to_s(v, w)
                if S.isconst():
                    off += S.const() * sc
                    continue
                if bound is not None and (lo < 0 or hi >= bound):
                    cnd = psub(ONE, pmul(ge0(S, (lo, hi)), ge0(psub(pc(bound - 1), S), (bound - 1 - hi, bound - 1 - lo))))
                    if not (cnd.isconst() and cnd.const() == 0):
                        oob = cnd
                t = (pscale(S, sc), lo * sc, hi * sc)
                symP = t if symP is None else (padd(symP[0], t[0]), symP[1] + t[1], symP[2] + t[2])
        return self.ptr_add(p, off, symP, oob)

    def ptr_add(self, p, off, symP, oob):
        if type(p) is Ptr:
            if symP is None and type(p.off) is int:
                return Ptr(p.obj, p.off + off, oob if oob is not None else (p.oob if off == 0 else None))
            bo = p.off
            if type(bo) is int:
                P, lo, hi = pc(bo), bo, bo
            else:
                P, lo, hi = bo.P, bo.lo, bo.hi
            P = paddc(P, off); lo += off; hi += off
            if symP is not None:
                P = padd(P, symP[0]); lo += symP[1]; hi += symP[2]
            if P.isconst():
                return Ptr(p.obj, P.const(), oob)
            return Ptr(p.obj, SV(P, lo, hi), oob if oob is not None else p.oob)
        if type(p) is PSel:
            return PSel(p.c, self.ptr_add(p.x, off, symP, oob), self.ptr_add(p.y, off, symP, oob))
        if p is None:
            if off == 0 and symP is None:
                return None
            return None
        if p is UNDEF:
            return UNDEF
        if isinstance(p, GlobalRef):
            return self.ptr_add(self.gref(p), off, symP, oob)
        raise Undecided('gep on %r' % (p,))

    def cbin(self, op, x, y, w, ins):
        M = (1 << w) - 1
        if op == 'add':
            r = x + y
            if 'nsw' in ins[6]:
                s = sgn(x, w) + sgn(y, w)
                if not (-(1 << (w - 1)) <= s < (1 << (w - 1))):
                    self.event('overflow', 'signed overflow in addition', None, ins[5])
            return r & M
        if op == 'sub':
            if 'nsw' in ins[6]:
                s = sgn(x, w) - sgn(y, w)
                if not (-(1 << (w - 1)) <= s < (1 << (w - 1))):
                    self.event('overflow', 'signed overflow in subtraction', None, ins[5])
            return (x - y) & M
        if op == 'mul':
            if 'nsw' in ins[6]:
                s = sgn(x, w) * sgn(y, w)
                if not (-(1 << (w - 1)) <= s < (1 << (w - 1))):
                    self.event('overflow', 'signed overflow in multiplication', None, ins[5])
            return (x * y) & M
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w:
                self.event('shift', 'shift of a %d-bit value by %d' % (w, sgn(y, w)), None, ins[5])
                return self.fresh_undef(('i', w), 'shift')
            if op == 'shl':
                return (x << y) & M
            if op == 'lshr':
                return x >> y
            return (sgn(x, w) >> y) & M
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if y == 0:
            self.event('divzero', 'division by zero', None, ins[5])
            raise Dead()
        if op == 'udiv': return x // y
        if op == 'urem': return x % y
        a, b = sgn(x, w), sgn(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        if op == 'sdiv':
            return q & M
        return (a - b * q) & M

    def fbinc(self, op, x, y, ins):
        try:
            if op == 'fadd': return x + y
            if op == 'fsub': return x - y
            if op == 'fmul': return x * y
            if op == 'fdiv':
                if y == 0:
                    return float('nan') if x == 0 else math.copysign(INF, x)
                return x / y
            if op == 'frem': return math.fmod(x, y)
        except OverflowError:
            return INF
        raise Undecided(op)

    def und(self, v, T):
        if v is UNDEF:
            return self.fresh_undef(T, self.mod.loc(self.curloc) if self.curloc else '?')
        return v

    def binop(self, op, x, y, T, ins):
        if T[0] == 'f':
            if x is UNDEF: x = self.und(x, T)
            if y is UNDEF: y = self.und(y, T)
            return self.fbin(op, x, y, ins)
        if T[0] != 'i':
            raise Undecided('vector arithmetic')
        w = T[1]
        if x is UNDEF: x = self.und(x, T)
        if y is UNDEF: y = self.und(y, T)
        if type(x) in (Ptr, PSel) or type(y) in (Ptr, PSel) or x is None or y is None:
            return self.ptr_arith(op, x, y, w)
        if op in ('add', 'sub', 'mul') and w > 1:
            X, Y = ip(x), ip(y)
            lx, hx = (x, x) if type(x) is int else (x.lo, x.hi)
            ly, hy = (y, y) if type(y) is int else (y.lo, y.hi)
            h = 1 << (w - 1)
            # constants near the top of the range are treated as small negative numbers
            if type(x) is int and x >= h and (w <= 32 or (1 << w) - x <= (1 << 32)):
                x = sgn(x, w); X = pc(x); lx = hx = x
            if type(y) is int and y >= h and (w <= 32 or (1 << w) - y <= (1 << 32)):
                y = sgn(y, w); Y = pc(y); ly = hy = y
            if op == 'mul':
                # keep factors small
                if lx < -(1 << w) or hx >= (1 << w) + (1 << (w - 1)):
                    X, lx, hx = to_u(x, w)
                if ly < -(1 << w) or hy >= (1 << w) + (1 << (w - 1)):
                    Y, ly, hy = to_u(y, w)
            if op == 'add':
                P = padd(X, Y); lo, hi = lx + ly, hx + hy
            elif op == 'sub':
                P = psub(X, Y); lo, hi = lx - hy, hx - ly
            else:
                P = pmul(X, Y); lo, hi = dom.mulr(lx, hx, ly, hy)
            if 'nsw' in ins[6] and (lo < -h or hi >= h):
                self.nsw_check(op, x, y, w, ins)
            return mkint(P, lo, hi, w)
        if op == 'shl':
            if type(y) is int:
                if y >= w:
                    self.event('shift', 'shift by %d of a %d-bit value' % (y, w), None, ins[5])
                    return self.fresh_undef(T, 'shift')
                X, lo, hi = ip(x), (x.lo if type(x) is SV else x), (x.hi if type(x) is SV else x)
                if lo < -(1 << w) or hi >= 2 << w:
                    X, lo, hi = to_u(x, w)
                return mkint(pscale(X, 1 << y), lo << y, hi << y, w)
            return self.sym_shift(op, x, y, w, T, ins)
        if op in ('lshr', 'ashr'):
            if type(y) is int:
                if y >= w:
                    self.event('shift', 'shift by %d of a %d-bit value' % (y, w), None, ins[5])
                    return self.fresh_undef(T, 'shift')
                X, lo, hi = to_u(x, w) if op == 'lshr' else to_s(x, w)
                F = fl(X, 1 << y, (lo, hi))
                r = mkint(F, lo >> y, hi >> y, w)
                return r
            return self.sym_shift(op, x, y, w, T, ins)
        if op in ('and', 'or', 'xor'):
            return self.bitop(op, x, y, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            return self.divop(op, x, y, w, ins)
        raise Undecided('binop %s' % op)

    def nsw_check(self, op, x, y, w, ins):
        h = 1 << (w - 1)
        X, lx, hx = to_s(x if type(x) is SV else x & ((1 << w) - 1), w)
        Y, ly, hy = to_s(y if type(y) is SV else y & ((1 << w) - 1), w)
        if op == 'add':
            P = padd(X, Y); lo, hi = lx + ly, hx + hy
        elif op == 'sub':
            P = psub(X, Y); lo, hi = lx - hy, hx - ly
        else:
            P = pmul(X, Y); lo, hi = dom.mulr(lx, hx, ly, hy)
        if lo >= -h and hi < h:
            return
        c = psub(ONE, pmul(ge0(paddc(P, h), (lo + h, hi + h)), ge0(psub(pc(h - 1), P), (h - 1 - hi, h - 1 - lo))))
        if c.isconst() and c.const() == 0:
            return
        self.event('overflow', 'signed overflow in %s' % op, c, ins[5])

    def ptr_arith(self, op, x, y, w):
        if op == 'sub' and type(x) is Ptr and type(y) is Ptr and x.obj is y.obj:
            if type(x.off) is int and type(y.off) is int:
                return (x.off - y.off) & ((1 << w) - 1)
        if op == 'add' and type(x) is Ptr and type(y) is int:
            return self.ptr_add(x, sgn(y, w), None, None)
        if op == 'add' and type(y) is Ptr and type(x) is int:
            return self.ptr_add(y, sgn(x, w), None, None)
        if op == 'and' and type(x) is Ptr and type(y) is int:
            return 0
        raise Undecided('pointer arithmetic %s' % op)

    def sym_shift(self, op, x, y, w, T, ins):
        Y, lo, hi = to_u(y, w)
        Y = ctx_simplify(Y)
        a, b = prange(Y)
        lo = max(lo, a); hi = min(hi, b)
        if hi - lo > 130:
            raise Undecided('shift by an unknown amount')
        out = None
        for k in range(lo, hi + 1):
            if k >= w:
                c = ge0(paddc(Y, -w))
                if not (c.isconst() and c.const() == 0):
                    self.event('shift', 'shift amount may reach %d' % w, c, ins[5])
                break
            if type(x) is int:
                v = self.cbin(op, x, k, w, ins)
            else:
                v = self.binop(op, x, k, T, ins)
            out = v if out is None else self.join(eq0(paddc(Y, -k)), v, out, T)
        return out

    def bitop(self, op, x, y, w):
        if type(x) is int:
            x, y = y, x
        if type(y) is int:
            M = (1 << w) - 1
            if op == 'and':
                if y == 0: return 0
                if y == M: return x
                X, lo, hi = to_u(x, w)
                P = ZERO
                k = 0
                while k < w:
                    if y >> k & 1:
                        e = k
                        while e < w and y >> e & 1:
                            e += 1
                        a = fl(X, 1 << k, (lo, hi)) if k else X
                        bq = fl(X, 1 << e, (lo, hi)) if e < w else ZERO
                        P = padd(P, pscale(psub(a, pscale(bq, 1 << (e - k))), 1 << k))
                        k = e
                    else:
                        k += 1
                return mkint(P, 0, min(y, hi), w)
            if op == 'xor':
                if y == 0: return x
                if y == M:
                    X, lo, hi = to_u(x, w)
                    return mkint(psub(pc(M), X), M - hi, M - lo, w)
                # x ^ y = x + y - 2 (x & y)
                a = self.bitop('and', x, y, w)
                X, lo, hi = to_u(x, w)
                return mkint(psub(paddc(X, y), pscale(ip(a), 2)), 0, M, w)
            if y == 0: return x
            if y == M: return M
            a = self.bitop('and', x, y, w)
            X, lo, hi = to_u(x, w)
            return mkint(psub(paddc(X, y), ip(a)), max(y, lo), M, w)
        X, lx, hx = to_u(x, w)
        Y, ly, hy = to_u(y, w)
        if hx <= 1 and hy <= 1:
            p = pmul(X, Y)
            if op == 'and': P = p
            elif op == 'or': P = psub(padd(X, Y), p)
            else: P = psub(padd(X, Y), pscale(p, 2))
            return mkint(P, 0, 1, w)
        if X == Y:
            return x if op in ('and', 'or') else 0
        if (hx <= 1 or hy <= 1) and op == 'and':
            # bit & word = bit * (word mod 2)
            if hy <= 1:
                X, Y, hx, hy = Y, X, hy, hx
            return mkint(pmul(X, psub(Y, pscale(fl(Y, 2), 2))), 0, 1, w)
        # disjoint bit ranges
        if op in ('or', 'xor'):
            for (A, ha, B, lb) in ((X, hx, Y, None), (Y, hy, X, None)):
                g = 0
                for m, c in B.d.items():
                    g = math.gcd(g, c) if isinstance(c, int) else 1
                tz = (g & -g) if g else 0
                if tz and ha < tz:
                    return mkint(padd(X, Y), max(lx, ly), (1 << w) - 1, w)
        # boolean words: Shannon on a single boolean is too special; give up precisely
        if op == 'and':
            r = dom.uf('and', (X, Y), 0, min(hx, hy), True)
        else:
            r = dom.uf(op, (X, Y), 0, (1 << max(hx.bit_length(), hy.bit_length())) - 1, True)
        return SV(r)

    def divop(self, op, x, y, w, ins):
        if op in ('sdiv', 'srem'):
            X, lx, hx = to_s(x, w)
            Y, ly, hy = to_s(y, w)
            if lx >= 0 and ly > 0:
                return self.udivop('udiv' if op == 'sdiv' else 'urem', X, lx, hx, Y, ly, hy, w, ins)
            if not Y.isconst() or Y.const() == 0:
                raise Undecided('signed division')
            d = Y.const()
            # truncating division by Shannon on the sign
            c = ge0(X, (lx, hx))
            ad = abs(d)
            def q1():
                return fl(ctx_simplify(X), ad)
            def q0():
                return pneg(fl(pneg(ctx_simplify(X)), ad))
            with with_ctx(facts_of(c, 1)): a = q1()
            with with_ctx(facts_of(c, 0)): b = q0()
            Q = gate(nameb(c), a, b)
            if d < 0: Q = pneg(Q)
            m = max(abs(lx), abs(hx)) // ad
            if op == 'sdiv':
                return mkint(Q, -m, m, w)
            return mkint(psub(X, pscale(Q, d)), -min(ad - 1, abs(min(lx, 0))), min(ad - 1, max(hx, 0)), w)
        X, lx, hx = to_u(x, w)
        Y, ly, hy = to_u(y, w)
        return self.udivop(op, X, lx, hx, Y, ly, hy, w, ins)

    def udivop(self, op, X, lx, hx, Y, ly, hy, w, ins):
        Y = ctx_simplify(Y)
        if Y.isconst():
            d = Y.const()
            if d == 0:
                self.event('divzero', 'division by zero', None, ins[5]); raise Dead()
            if op == 'udiv':
                return mkint(fl(X, d, (lx, hx)), lx // d, hx // d, w)
            return mkint(pmod(X, d, (lx, hx)), 0 if hx >= d else lx, min(d - 1, hx), w)
        if ly <= 0:
            c = eq0(Y)
            if not (c.isconst() and c.const() == 0):
                self.event('divzero', 'divisor may be zero', c, ins[5])
            ly = 1
        if op == 'urem':
            return mkint(dom.remq(X, Y, ly, hy), 0, min(hy - 1, hx), w)
        return mkint(dom.fdiv(X, Y, lx // hy, hx // ly), lx // hy, hx // ly, w)

    def fbin(self, op, x, y, ins):
        if type(x) is float and x != x or type(y) is float and y != y:
            return float('nan')
        if op == 'fadd':
            return mkrv(padd(rp(x), rp(y)))
        if op == 'fsub':
            return mkrv(psub(rp(x), rp(y)))
        if op == 'fmul':
            if type(x) is float and abs(x) == INF or type(y) is float and abs(y) == INF:
                raise Undecided('infinite factor')
            return mkrv(pmul(rp(x), rp(y)))
        if op == 'fdiv':
            if type(y) is float:
                if y == 0:
                    raise Undecided('real division by zero')
                if y == INF or y == -INF: return 0.0
                m, e = math.frexp(y)
                if abs(m) == 0.5:
                    return mkrv(pscale(rp(x), 1.0 / y))
                return mkrv(Poly({k: cf(c / y) for k, c in rp(x).d.items()}))
            return mkrv(dom.uf('div', (rp(x), rp(y)), -INF, INF, False))
        raise Undecided(op)

    def icmp(self, pr, x, y, T, ins):
        if type(x) is int and type(y) is int:
            if T[0] == 'i':
                w = T[1]
                if pr[0] == 's':
                    x, y = sgn(x, w), sgn(y, w)
            if pr == 'eq': return int(x == y)
            if pr == 'ne': return int(x != y)
            k = pr[1:]
            return int(x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y)
        if T[0] == 'p' or type(x) in (Ptr, PSel, GlobalRef) or type(y) in (Ptr, PSel, GlobalRef):
            return self.pcmp(pr, x, y)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        w = T[1]
        if pr in ('eq', 'ne'):
            X, Y = ip(x), ip(y)
            lx, hx = (x, x) if type(x) is int else (x.lo, x.hi)
            ly, hy = (y, y) if type(y) is int else (y.lo, y.hi)
            lo, hi = lx - hy, hx - ly
            if not (lo > -(1 << w) and hi < (1 << w)):
                Xs, lx, hx = to_s(x, w); Ys, ly, hy = to_s(y, w)
                Xu, lu, hu = to_u(x, w); Yu, mu, nu = to_u(y, w)
                if len(Xu.d) + len(Yu.d) <= len(Xs.d) + len(Ys.d):
                    X, Y = Xu, Yu; lo, hi = lu - nu, hu - mu
                else:
                    X, Y = Xs, Ys; lo, hi = lx - hy, hx - ly
            r = eq0(psub(X, Y), (lo, hi))
            if pr == 'ne':
                r = psub(ONE, r)
            return self.mkb(r)
        if pr[0] == 'u':
            X, lx, hx = to_u(x, w); Y, ly, hy = to_u(y, w)
        else:
            X, lx, hx = to_s(x, w); Y, ly, hy = to_s(y, w)
        k = pr[1:]
        if k == 'ge':
            r = ge0(psub(X, Y), (lx - hy, hx - ly))
        elif k == 'lt':
            r = psub(ONE, ge0(psub(X, Y), (lx - hy, hx - ly)))
        elif k == 'le':
            r = ge0(psub(Y, X), (ly - hx, hy - lx))
        else:
            r = psub(ONE, ge0(psub(Y, X), (ly - hx, hy - lx)))
        return self.mkb(r)

    def mkb(self, r):
        if r.isconst():
            return int(r.const())
        return SV(dom.bnorm(r) if len(r.d) > 1 else r, 0, 1)

    def pcmp(self, pr, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if type(x) is PSel:
            a = self.pcmp(pr, x.x, y); b = self.pcmp(pr, x.y, y)
            return self.join(x.c, a, b, ('i', 1))
        if type(y) is PSel:
            a = self.pcmp(pr, x, y.x); b = self.pcmp(pr, x, y.y)
            return self.join(y.c, a, b, ('i', 1))
        if x == 0 and type(x) is int: x = None
        if y == 0 and type(y) is int: y = None
        if type(x) is Ptr and type(y) is Ptr and x.obj is y.obj:
            if type(x.off) is int and type(y.off) is int:
                a, b = x.off, y.off
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                            'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pr])
            A = x.off.P if type(x.off) is SV else pc(x.off)
            B = y.off.P if type(y.off) is SV else pc(y.off)
            D = psub(A, B)
            if pr == 'eq': return self.mkb(eq0(D))
            if pr == 'ne': return self.mkb(psub(ONE, eq0(D)))
            raise Undecided('pointer comparison')
        eq = (x is None and y is None) or (isinstance(x, GlobalRef) and isinstance(y, GlobalRef) and x.name == y.name)
        if pr == 'eq': return int(eq)
        if pr == 'ne': return int(not eq)
        if pr in ('ult', 'ule', 'ugt', 'uge') and type(x) is Ptr and type(y) is Ptr:
            a, b = x.obj.id, y.obj.id
            return int({'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pr])
        raise Undecided('pointer comparison')

    def fcmp(self, pr, x, y, ins):
        if pr == 'true': return 1
        if pr == 'false': return 0
        if type(x) is float and type(y) is float:
            un = x != x or y != y
            k = pr[1:]
            if pr == 'ord': return int(not un)
            if pr == 'uno': return int(un)
            if un: return int(pr[0] == 'u')
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if pr == 'ord': return 1
        if pr == 'uno': return 0
        k = pr[1:]
        D = psub(rp(x), rp(y))
        if k == 'ge': r = ge0(D)
        elif k == 'lt': r = psub(ONE, ge0(D))
        elif k == 'le': r = ge0(pneg(D))
        elif k == 'gt': r = psub(ONE, ge0(pneg(D)))
        elif k == 'eq': r = eq0(D)
        else: r = psub(ONE, eq0(D))
        return self.mkb(r)

    def cast(self, op, T, x, T2, ins):
        if op in ('bitcast', 'addrspacecast'):
            return self.conv_loaded(x, T2) if T2 != T else x
        if x is UNDEF:
            if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
                return UNDEF
            x = self.und(x, T)
        if op == 'zext':
            if type(x) is int: return x
            P, lo, hi = to_u(x, T[1])
            return mkint(P, lo, hi, T2[1])
        if op == 'sext':
            if type(x) is int: return sgn(x, T[1]) & ((1 << T2[1]) - 1)
            P, lo, hi = to_s(x, T[1])
            if T[1] == 1:
                P, lo, hi = to_u(x, 1); P = pneg(P); lo, hi = -hi, -lo
            return mkint(P, lo, hi, T2[1])
        if op == 'trunc':
            if type(x) is int: return x & ((1 << T2[1]) - 1)
            if type(x) is Ptr: raise Undecided('truncated pointer')
            w = T2[1]
            P, lo, hi = to_u(x, T[1]) if (x.lo < 0 or x.hi >= 1 << T[1]) else (x.P, x.lo, x.hi)
            if x.lo < 0 and x.lo >= -(1 << (w - 1)) and x.hi < (1 << (w - 1)):
                return SV(x.P, x.lo, x.hi)
            if lo >= 0 and hi < (1 << w):
                return mkint(P, lo, hi, w)
            if w == 1:
                U = psub(P, pscale(fl(P, 2, (lo, hi)), 2))
                return mkint(U, 0, 1, 1)
            # representative modulo 2^w is enough; keep it small
            return mkint(x.P, x.lo, x.hi, w)
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and x == 0: return None
            if op == 'ptrtoint' and x is None: return 0
            return x
        if op in ('fpext',):
            return x
        if op == 'fptrunc':
            if type(x) is float:
                return struct.unpack('<f', struct.pack('<f', x))[0] if T2[1] == 32 else x
            return x
        if op == 'uitofp':
            if type(x) is int: return float(x)
            return mkrv(to_u(x, T[1])[0])
        if op == 'sitofp':
            if type(x) is int: return float(sgn(x, T[1]))
            return mkrv(to_s(x, T[1])[0])
        if op in ('fptosi', 'fptoui'):
            w = T2[1]
            lo = 0 if op == 'fptoui' else -(1 << (w - 1))
            hi = (1 << w) - 1 if op == 'fptoui' else (1 << (w - 1)) - 1
            if type(x) is float:
                if x != x or x >= hi + 1 or x <= lo - 1:
                    self.event('fconv', 'conversion of %g to a %s %d-bit integer' % (x, 'unsigned' if op == 'fptoui' else 'signed', w), None, ins[5])
                    return self.fresh_undef(T2, 'fconv')
                return int(x) & ((1 << w) - 1)
            P = rp(x)
            a, b = prange(P)
            if a <= lo - 1 or b >= hi + 1:
                c = psub(ONE, pmul(ge0(paddc(P, 1 - lo)), psub(ONE, ge0(paddc(P, -(hi + 1))))))
                if not (c.isconst() and c.const() == 0):
                    self.event('fconv', 'conversion to %s %d-bit integer of a value outside its range' % ('unsigned' if op == 'fptoui' else 'signed', w), c, ins[5])
            R = dom_round('trunc', P)
            a, b = prange(R)
            return mkint(R, max(a, -(1 << 200)), min(b, 1 << 200), w)
        raise Undecided('cast %s' % op)

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, ins):
        callee = ins[3]
        if callee == 'asm':
            return None
        if type(callee) is str:
            c = fr[callee]
            if isinstance(c, GlobalRef):
                name = c.name
            else:
                raise Undecided('indirect call')
        else:
            name = callee.name
        val = self.val
        args = []
        for (T, v, byval) in ins[4]:
            a = val(fr, v, T) if T[0] != 'metadata' else None
            if byval is not None:
                o = self.new_obj(self.mod.size(byval), 'stack', 'by-value argument')
                fr['#allocas'].append(o)
                q = Ptr(o, 0)
                self.memcpy(q, a, self.mod.size(byval), ins[5])
                a = q
            args.append(a)
        return self.call(name, args, ins[2], ins[5], ins)

    def call(self, name, args, RT=None, dbg=None, ins=None):
        h = self._sumcache.get(name, 0)
        if h == 0:
            h = self.sums(self, name, self.mod.dem.get(name, name)) if self.sums else None
            self._sumcache[name] = h
        if h is not None:
            self.stack.append(name)
            try:
                r = h(self, args, dbg)
            except NoSummary:
                r = NoSummary
            finally:
                self.stack.pop()
            if r is not NoSummary:
                self.sums_used[name] = self.sums_used.get(name, 0) + 1
                return r
        f = self.mod.get(name)
        if f is not None:
            return self.call_func(f, args, dbg)
        import models
        m = models.lookup(self, name)
        if m is None:
            raise Undecided('external function %s' % self.mod.dem.get(name, name))
        return m(self, args, RT, dbg, ins)

    def memcpy(self, d, s, n, dbg):
        if n == 0:
            return
        if type(d) is PSel or type(s) is PSel or type(n) is not int:
            raise Undecided('memcpy with unknown operands')
        if d is None or s is None:
            self.event('null', 'memcpy with a null pointer', None, dbg); raise Dead()
        if isinstance(s, GlobalRef): s = self.gref(s)
        if type(s.off) is not int or type(d.off) is not int:
            raise Undecided('memcpy at unknown offset')
        so, sf, do, df = s.obj, s.off, d.obj, d.off
        if not self.check(so, sf, n, False, dbg): return
        if not self.check(do, df, n, True, dbg): return
        if self.par is not None:
            self.rec(so, sf, n, False); self.rec(do, df, n, True)
        ov = self.overlapping(so, sf, n)
        for k in ov:
            c = so.cells[k]
            if k < sf or k + c[0] > sf + n:
                self.explode(so, k)
        ov = self.overlapping(so, sf, n)
        src = [(k, so.cells[k]) for k in ov]
        # clear the destination
        for k in self.overlapping(do, df, n):
            c = do.cells[k]
            if k < df or k + c[0] > df + n:
                self.explode(do, k)
        for k in self.overlapping(do, df, n):
            self.setcell(do, k, None)
        pos = sf
        fill = (so.default is UNDEF) != (do.default is UNDEF)
        def pad(a, b):
            v = UNDEF if so.default is UNDEF else 0
            while a < b:
                s = 8 if (a % 8 == 0 and b - a >= 8) else 4 if (a % 4 == 0 and b - a >= 4) else 1
                self.store_cell(do, a - sf + df, s, v, dbg)
                a += s
        for k, c in src:
            if fill and k > pos:
                pad(pos, k)
            self.store_cell(do, k - sf + df, c[0], c[1], dbg)
            pos = k + c[0]
        if fill and pos < sf + n:
            pad(pos, sf + n)

    def memset(self, d, v, n, dbg):
        if n == 0:
            return
        if type(d) is not Ptr or type(n) is not int or type(d.off) is not int:
            raise Undecided('memset with unknown operands')
        if type(v) is not int:
            raise Undecided('memset with unknown byte')
        o, off = d.obj, d.off
        if not self.check(o, off, n, True, dbg): return
        if self.par is not None:
            self.rec(o, off, n, True)
        for k in self.overlapping(o, off, n):
            c = o.cells[k]
            if k < off or k + c[0] > off + n:
                self.explode(o, k)
        for k in self.overlapping(o, off, n):
            self.setcell(o, k, None)
        if v == 0 and o.default == 0 and o.default is not UNDEF:
            return
        a = off
        while a < off + n:
            s = 8 if (a % 8 == 0 and off + n - a >= 8) else 4 if (a % 4 == 0 and off + n - a >= 4) else 1
            self.store_cell(o, a, s, int.from_bytes(bytes([v & 255] * s), 'little'), dbg)
            a += s

class NoSummary(Exception):
    pass

BINOPS = frozenset(('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'))
CASTS = frozenset(('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'))

_reach = {}
def reaches(f, a, b):
    """can block b be reached from a"""
    k = (id(f), a)
    s = _reach.get(k)
    if s is None:
        s = {a}
        st = [a]
        while st:
            x = st.pop()
            for y in f.blocks[x].succ:
                if y not in s:
                    s.add(y); st.append(y)
        _reach[k] = s
    return b in s

def wnorm(P, w):
    """reduce integer coefficients modulo 2^w to the centred range (all atoms are integers)"""
    M = 1 << w
    h = M >> 1
    big = False
    for c in P.d.values():
        if not (-h < c <= h):
            big = True; break
    if not big:
        return P
    d = {}
    for m, c in P.d.items():
        if isinstance(c, int):
            c %= M
            if c > h: c -= M
        if c:
            d[m] = c
    return Poly(d)

def umod(P, w):
    """canonical representative in [0,2^w) of P modulo 2^w"""
    lo, hi = prange(P)
    if lo >= 0 and hi < 1 << w:
        return P
    if P.isconst():
        return pc(P.const() % (1 << w))
    if len(P.d) <= 3 and not any(len(m) > 1 for m in P.d):
        F = fl(P, 1 << w)
        U = psub(P, pscale(F, 1 << w))
        if F.isconst():
            return U
    k = ('umod', wnorm(P, w).key(), w)
    a = dom._intern.get(k)
    if a is None:
        a = dom._new('umod', (wnorm(P, w), w), 0, (1 << w) - 1, True, False)
        dom._intern[k] = a
    return pa(a.id)

def cmod(P, w):
    """centred representative in [-2^(w-1),2^(w-1)) of P modulo 2^w"""
    h = 1 << (w - 1)
    lo, hi = prange(P)
    if lo >= -h and hi < h:
        return P
    if P.isconst():
        c = P.const() % (1 << w)
        return pc(c - (1 << w) if c >= h else c)
    P = wnorm(P, w)
    lo, hi = prange(P)
    if lo >= -h and hi < h:
        return P
    if len(P.d) == 1:
        (m, c), = P.d.items()
        if len(m) == 1 and ATOMS[m[0]].kind == 'cmod' and ATOMS[m[0]].args[1] == w and c == 1:
            return P
    k = ('cmod', P.key(), w)
    a = dom._intern.get(k)
    if a is None:
        a = dom._new('cmod', (P, w), -h, h - 1, True, False)
        dom._intern[k] = a
    return pa(a.id)

ODD = ('round', 'trunc', 'rint')
def dom_round(name, P, depth=0):
    """round/trunc/floor/ceil of a real polynomial, with Shannon expansion over booleans and oddness"""
    P = ctx_simplify(P)
    if P.isconst():
        c = P.const()
        f = {'round': dom.c_round, 'trunc': lambda x: int(x), 'floor': math.floor, 'ceil': math.ceil, 'rint': lambda x: round(x)}[name]
        return pc(f(c))
    if all(isinstance(cf(c), int) for c in P.d.values()) and all(ATOMS[i].isint for i in dom.patoms(P)):
        return Poly({m: cf(c) for m, c in P.d.items()})
    bs = [i for i in dom.patoms(P) if ATOMS[i].isbool]
    if bs and depth < 6:
        b = max(bs)
        with with_ctx([('fix', b, 1)]) as w:
            r1 = ZERO if w.dead else dom_round(name, dom.psubst1(P, b, 1), depth + 1)
        with with_ctx([('fix', b, 0)]) as w:
            r0 = ZERO if w.dead else dom_round(name, dom.psubst1(P, b, 0), depth + 1)
        return gate(pa(b), r1, r0)
    lo, hi = prange(P)
    if name == 'trunc':
        if lo >= 0: name = 'floor'
        elif hi <= 0: name = 'ceil'
    neg = False
    ms = [m for m in P.d if m]
    lead = P.d[min(ms, key=lambda m: (len(m), m))]
    if lead < 0:
        if name in ODD:
            neg = True; P = pneg(P)
        elif name in ('floor', 'ceil'):
            neg = True; P = pneg(P); name = 'ceil' if name == 'floor' else 'floor'
        lo, hi = -hi, -lo
    Pn = Poly({m: float('%.14e' % c) if isinstance(c, float) else c for m, c in P.d.items()})
    f = {'round': dom.c_round, 'trunc': int, 'floor': math.floor, 'ceil': math.ceil, 'rint': round}[name]
    def cv(x, d):
        if x in (INF, -INF): return x
        return f(x + d * (abs(x) * 1e-9 + 1e-11))
    r = dom.uf(name, (Pn,), cv(lo, -1), cv(hi, 1), True)
    return pneg(r) if neg else r
