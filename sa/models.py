"""Transfer functions for functions that have no body in the analysed module."""
import math
import dom
from dom import (pc, pa, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ge0, eq0, gate, INF, Undecided, ATOMS, with_ctx, facts_of)
import interp as I
from interp import SV, RV, Ptr, PSel, UNDEF, Agg, Dead, rp, mkrv, mkint, to_s, to_u, dom_round, cf
from ir import GlobalRef, sgn

TABLE = {}

def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d

def lookup(it, name):
    m = TABLE.get(name)
    if m is not None:
        return m
    for pre, f in PREFIX:
        if name.startswith(pre):
            return f
    d = it.mod.dem.get(name, name)
    for pre, f in DPREFIX:
        if d.startswith(pre) or (' ' + pre) in d.split('(')[0]:
            return f
    return None

def io_effect(it, args, RT, dbg, ins):
    it.effects.append(('io', it.mod.loc(dbg), list(it.stack)))
    it.event('io', 'output is produced', None, dbg)
    if RT and RT[0] == 'p':
        return args[0] if args and isinstance(args[0], (Ptr, PSel)) else Ptr(it.new_obj(1 << 20, 'heap', 'stream', 0), 0)
    if RT and RT[0] == 'i':
        return it.fresh_undef(RT, 'io') if False else 0
    return None

def cstring(it, p, dbg):
    """the characters before the terminating zero (each an integer or a value expression)"""
    if isinstance(p, GlobalRef): p = it.gref(p)
    if not isinstance(p, Ptr) or type(p.off) is not int: raise Undecided('string')
    out = []
    while True:
        v = it.load(Ptr(p.obj, p.off + len(out)), ('i', 8), dbg)
        if type(v) is not int:
            lo, hi = to_s(v, 8)[1:] if type(v) is SV else (0, 0)
            if lo <= 0 <= hi: raise Undecided('strlen')
        elif v == 0: return out
        out.append(v)

def text(it, cs):
    if it.pcs: it.printed.append(None)      # written on some paths only
    it.printed += cs

def m_printf(it, a, RT, dbg, ins):
    f = cstring(it, a[0], dbg)
    a = list(a[1:]); out = []; i = 0
    while i < len(f):
        c = f[i]; i += 1
        if c != 37: out.append(c); continue
        j = i
        while i < len(f) and chr(f[i]) in '-+ #0123456789.hlzjt': i += 1
        k = chr(f[i]) if i < len(f) else ''
        i += 1
        if k == '%': out.append(37); continue
        v = a.pop(0) if a else None
        if v is None: it.event('oob', 'printf reads a missing argument', None, dbg); out.append(None)
        elif k == 's' and i == j + 1: out += cstring(it, v, dbg)
        elif k == 'c': out.append(v)
        elif k in 'dui' and type(v) is int and i == j + 1: out += [ord(x) for x in str(v if k == 'u' else I.sgn(v & 0xffffffff, 32))]
        else: out.append(None)
    text(it, out)
    return io_effect(it, a, RT, dbg, ins)

def m_puts(it, a, RT, dbg, ins):
    text(it, cstring(it, a[0], dbg) + [10])
    return io_effect(it, a, RT, dbg, ins)

def m_putchar(it, a, RT, dbg, ins):
    text(it, [a[0]])
    return io_effect(it, a, RT, dbg, ins)

def nop(it, args, RT, dbg, ins):
    if RT and RT[0] == 'i':
        return 0
    return None

# ------------------------------------------------------------------ memory
def m_memcpy(it, a, RT, dbg, ins):
    it.memcpy(a[0], a[1], a[2], dbg)
    return a[0]

def m_memset(it, a, RT, dbg, ins):
    it.memset(a[0], a[1], a[2], dbg)
    return a[0]

@model('memcpy', 'memmove')
def _(it, a, RT, dbg, ins):
    return m_memcpy(it, a, RT, dbg, ins)

@model('memset')
def _(it, a, RT, dbg, ins):
    return m_memset(it, a, RT, dbg, ins)

@model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def m_new(it, a, RT, dbg, ins):
    n = a[0]
    if type(n) is not int:
        raise Undecided('allocation of unknown size')
    o = it.new_obj(n, 'heap', 'object allocated at %s' % it.mod.loc(dbg))
    if it.par is None and it.lazy:
        pass
    return Ptr(o, 0)

@model('calloc')
def _(it, a, RT, dbg, ins):
    o = it.new_obj(a[0] * a[1], 'heap', 'object allocated at %s' % it.mod.loc(dbg), 0)
    return Ptr(o, 0)

@model('aligned_alloc')
def _(it, a, RT, dbg, ins):
    return m_new(it, a[1:], RT, dbg, ins)

@model('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def m_delete(it, a, RT, dbg, ins):
    p = a[0]
    if type(p) is Ptr:
        if p.obj.freed:
            it.event('uaf', 'object freed twice', None, dbg)
        p.obj.freed = True

# ------------------------------------------------------------------ control
@model('__assert_fail')
def _(it, a, RT, dbg, ins):
    it.event('assert', 'assertion fails', None, dbg)
    raise Dead()

@model('abort', 'exit', '_ZSt9terminatev', '__cxa_pure_virtual', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
       '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc', '__clang_call_terminate', '_ZSt24__throw_out_of_range_fmtPKcz',
       '_ZSt25__throw_bad_function_callv', '_ZSt20__throw_out_of_rangePKc')
def _(it, a, RT, dbg, ins):
    it.event('abort', 'call that does not return', None, dbg)
    raise Dead()

@model('__cxa_guard_acquire')
def _(it, a, RT, dbg, ins):
    p = a[0]
    if isinstance(p, GlobalRef):
        p = it.gref(p)
    sp, it.par = it.par, None          # initialisation under the guard is synchronised
    v = it.load(p, ('i', 8), dbg)
    if type(v) is int and v & 1:
        it.par = sp
        return 0
    it.guard_saved.append(sp)
    return 1

@model('__cxa_guard_release')
def _(it, a, RT, dbg, ins):
    p = a[0]
    if isinstance(p, GlobalRef):
        p = it.gref(p)
    it.store(p, ('i', 8), 1, dbg)
    if it.guard_saved: it.par = it.guard_saved.pop()

# ------------------------------------------------------------------ real functions
def const1(f):
    def m(it, a, RT, dbg, ins):
        x = a[0]
        if type(x) is float:
            try:
                return float(f(x))
            except (ValueError, OverflowError):
                return float('nan')
        if x is UNDEF:
            x = it.und(x, RT)
        P = rp(x)
        lo, hi = prange(P)
        r = dom.uf(m.nm, (P,), m.lo, m.hi, False)
        return RV(r)
    m.nm = f.__name__; m.lo = -INF; m.hi = INF
    return m

for nm, f, lo, hi in (('cos', math.cos, -1, 1), ('sin', math.sin, -1, 1), ('tan', math.tan, -INF, INF), ('exp', math.exp, 0, INF), ('log', math.log, -INF, INF),
                      ('asin', math.asin, -1.6, 1.6), ('acos', math.acos, 0, 3.2), ('atan', math.atan, -1.6, 1.6), ('log2', math.log2, -INF, INF), ('log10', math.log10, -INF, INF)):
    m = const1(f)
    m.nm = nm; m.lo = lo; m.hi = hi
    TABLE[nm] = m
    TABLE['llvm.%s.f64' % nm] = m

def psqrt(it, x):
    if type(x) is float:
        return math.sqrt(x) if x >= 0 else float('nan')
    P = rp(x)
    # Shannon expansion on booleans so that sqrt distributes over joins
    return mkrv(sqrtP(P))

def sqrtP(P, depth=0):
    P = dom.ctx_simplify(P)
    if P.isconst():
        c = P.const()
        return pc(cf(math.sqrt(c))) if c >= 0 else pc(0)
    bs = [i for i in dom.patoms(P) if ATOMS[i].isbool]
    if bs and depth < 6:
        b = max(bs)
        with with_ctx([('fix', b, 1)]) as w:
            r1 = ZERO if w.dead else sqrtP(dom.psubst1(P, b, 1), depth + 1)
        with with_ctx([('fix', b, 0)]) as w:
            r0 = ZERO if w.dead else sqrtP(dom.psubst1(P, b, 0), depth + 1)
        return gate(pa(b), r1, r0)
    lo, hi = prange(P)
    return dom.uf('sqrt', (P,), math.sqrt(lo) if lo > 0 else 0, math.sqrt(hi) if hi not in (INF,) and hi > 0 else INF, False)

@model('sqrt', 'llvm.sqrt.f64')
def _(it, a, RT, dbg, ins):
    return psqrt(it, it.und(a[0], RT))

@model('hypot')
def _(it, a, RT, dbg, ins):
    x, y = it.und(a[0], RT), it.und(a[1], RT)
    if type(x) is float and type(y) is float:
        return math.hypot(x, y)
    return mkrv(sqrtP(padd(pmul(rp(x), rp(x)), pmul(rp(y), rp(y)))))

@model('fabs', 'llvm.fabs.f64')
def _(it, a, RT, dbg, ins):
    x = it.und(a[0], RT)
    if type(x) is float:
        return abs(x)
    P = rp(x)
    lo, hi = prange(P)
    if lo >= 0: return x
    if hi <= 0: return mkrv(pneg(P))
    # |P| = P*(2[P>=0]-1); the sign test is made on a canonical orientation
    ms = [m for m in P.d if m]
    lead = P.d[min(ms, key=lambda m: (len(m), m))]
    if lead < 0:
        P = pneg(P)
    c = ge0(P)
    return mkrv(gate(dom.nameb(c), P, pneg(P)))

def rounder(name):
    def m(it, a, RT, dbg, ins):
        x = it.und(a[0], RT)
        if type(x) is float:
            if x != x or abs(x) == INF: return x
            f = {'round': dom.c_round, 'trunc': int, 'floor': math.floor, 'ceil': math.ceil, 'rint': round}[name]
            return float(f(x))
        R = dom_round(name, rp(x))
        return mkrv(R)
    return m
for nm in ('round', 'trunc', 'floor', 'ceil', 'rint'):
    TABLE[nm] = TABLE['llvm.%s.f64' % nm] = rounder(nm)
TABLE['nearbyint'] = TABLE['llvm.nearbyint.f64'] = TABLE['rint']

def iround(it, a, RT, dbg, ins):
    x = it.und(a[0], ('f', 64))
    w = RT[1]
    if type(x) is float:
        return dom.c_round(x) & ((1 << w) - 1)
    P = rp(x)
    R = dom_round('round', P)
    lo, hi = prange(R)
    h = 1 << (w - 1)
    if lo < -h or hi >= h:
        c = psub(ONE, pmul(ge0(paddc(P, h)), psub(ONE, ge0(paddc(P, -h)))))
        if not (c.isconst() and c.const() == 0):
            it.event('fconv', 'rounding to a %d-bit integer of a value outside its range' % w, c, dbg)
    return mkint(R, max(lo, -(1 << 200)), min(hi, 1 << 200), w)
for nm in ('lround', 'llround', 'llvm.lround.i64.f64', 'llvm.llround.i64.f64'):
    TABLE[nm] = iround

@model('pow', 'llvm.pow.f64')
def _(it, a, RT, dbg, ins):
    x, y = a
    if type(x) is float and type(y) is float:
        try:
            return math.pow(x, y)
        except OverflowError:
            return INF
    if type(y) is float and y == int(y) and 0 <= y <= 8:
        r = ONE
        for _ in range(int(y)):
            r = pmul(r, rp(x))
        return mkrv(r)
    raise Undecided('pow')

@model('llvm.powi.f64.i32')
def _(it, a, RT, dbg, ins):
    x, y = a
    if type(y) is int:
        y = sgn(y, 32)
        if type(x) is float: return x ** y
        if 0 <= y <= 8:
            r = ONE
            for _ in range(y): r = pmul(r, rp(x))
            return mkrv(r)
    raise Undecided('powi')

@model('ldexp', 'scalbn', 'llvm.ldexp.f64.i32')
def _(it, a, RT, dbg, ins):
    x, e = a
    if e is UNDEF:
        e = it.und(e, ('i', 32))
    if type(e) is int:
        e = sgn(e, 32)
        if type(x) is float:
            return math.ldexp(x, e)
        return mkrv(pscale(rp(x), cf(2.0 ** e) if e >= 0 else 2.0 ** e))
    # exponent from a join: expand over its boolean atoms
    E = to_s(e, 32)[0]
    return mkrv(exp2mul(rp(x), E))

def exp2mul(X, E, depth=0):
    E = dom.ctx_simplify(E); X = dom.ctx_simplify(X)
    if E.isconst():
        e = int(E.const())
        return pscale(X, cf(2.0 ** e) if e >= 0 else 2.0 ** e)
    bs = [i for i in dom.patoms(E) if ATOMS[i].isbool]
    if not bs or depth > 10:
        raise Undecided('ldexp with an unknown exponent')
    b = max(bs)
    with with_ctx([('fix', b, 1)]) as w:
        r1 = ZERO if w.dead else exp2mul(dom.psubst1(X, b, 1), dom.psubst1(E, b, 1), depth + 1)
    with with_ctx([('fix', b, 0)]) as w:
        r0 = ZERO if w.dead else exp2mul(dom.psubst1(X, b, 0), dom.psubst1(E, b, 0), depth + 1)
    return gate(pa(b), r1, r0)

@model('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma')
def _(it, a, RT, dbg, ins):
    if all(type(x) is float for x in a):
        return a[0] * a[1] + a[2]
    a = [it.und(x, RT) for x in a]
    return mkrv(padd(pmul(rp(a[0]), rp(a[1])), rp(a[2])))

@model('fmax', 'llvm.maxnum.f64')
def _(it, a, RT, dbg, ins):
    x, y = a
    if type(x) is float and type(y) is float: return max(x, y)
    D = psub(rp(x), rp(y))
    return mkrv(gate(dom.nameb(ge0(D)), rp(x), rp(y)))

@model('fmin', 'llvm.minnum.f64')
def _(it, a, RT, dbg, ins):
    x, y = a
    if type(x) is float and type(y) is float: return min(x, y)
    D = psub(rp(x), rp(y))
    return mkrv(gate(dom.nameb(ge0(D)), rp(y), rp(x)))

@model('llvm.copysign.f64', 'copysign')
def _(it, a, RT, dbg, ins):
    if type(a[0]) is float and type(a[1]) is float: return math.copysign(*a)
    raise Undecided('copysign')

@model('fmod')
def _(it, a, RT, dbg, ins):
    if type(a[0]) is float and type(a[1]) is float: return math.fmod(*a)
    raise Undecided('fmod')

# ------------------------------------------------------------------ integer intrinsics
def ovf(op, signed):
    def m(it, a, RT, dbg, ins):
        w = RT[1][0][1] if RT[0] == 's' and isinstance(RT[1], (list, tuple)) else 64
        x, y = a
        X, lx, hx = (to_s if signed else to_u)(it.und(x, ('i', w)), w)
        Y, ly, hy = (to_s if signed else to_u)(it.und(y, ('i', w)), w)
        if op == 'add': P = padd(X, Y); lo, hi = lx + ly, hx + hy
        elif op == 'sub': P = psub(X, Y); lo, hi = lx - hy, hx - ly
        else: P = pmul(X, Y); lo, hi = dom.mulr(lx, hx, ly, hy)
        a, b = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if lo >= a and hi <= b:
            o = 0
        else:
            o = it.mkb(psub(ONE, pmul(ge0(paddc(P, -a), (lo - a, hi - a)), ge0(psub(pc(b), P), (b - hi, b - lo)))))
        return Agg({0: mkint(P, lo, hi, w), 1: o})
    return m

def minmax(op):
    def m(it, a, RT, dbg, ins):
        w = RT[1]
        s = op[0] == 's'
        X, lx, hx = (to_s if s else to_u)(it.und(a[0], RT), w)
        Y, ly, hy = (to_s if s else to_u)(it.und(a[1], RT), w)
        c = ge0(psub(X, Y), (lx - hy, hx - ly))
        if op[1:] == 'max':
            return mkint(gate(dom.nameb(c), X, Y), max(lx, ly), max(hx, hy), w)
        return mkint(gate(dom.nameb(c), Y, X), min(lx, ly), min(hx, hy), w)
    return m

def m_abs(it, a, RT, dbg, ins):
    w = RT[1]
    X, lx, hx = to_s(it.und(a[0], RT), w)
    if lx >= 0: return mkint(X, lx, hx, w)
    c = ge0(X, (lx, hx))
    return mkint(gate(dom.nameb(c), X, pneg(X)), 0, max(-lx, hx), w)
for nm in ('abs', 'labs', 'llabs'):
    TABLE[nm] = m_abs

def m_bswap(it, a, RT, dbg, ins):
    if type(a[0]) is int:
        n = RT[1] // 8
        return int.from_bytes(a[0].to_bytes(n, 'little'), 'big')
    raise Undecided('bswap')

def m_bitrev(it, a, RT, dbg, ins):
    if type(a[0]) is int:
        return int(format(a[0], '0%db' % RT[1])[::-1], 2)
    raise Undecided('bitreverse')

def m_ctlz(it, a, RT, dbg, ins):
    w = RT[1]
    x = a[0]
    if type(x) is int:
        return w - x.bit_length()
    X, lo, hi = to_u(it.und(x, RT), w)
    # sum of threshold tests: ctlz = sum_k [X < 2^k]
    P = ZERO
    for k in range(w):
        P = padd(P, psub(ONE, ge0(paddc(X, -(1 << k)), (lo - (1 << k), hi - (1 << k)))))
    return mkint(P, 0, w, w)

def m_cttz(it, a, RT, dbg, ins):
    x = a[0]
    if type(x) is int:
        return RT[1] if x == 0 else (x & -x).bit_length() - 1
    raise Undecided('cttz')

def m_ctpop(it, a, RT, dbg, ins):
    if type(a[0]) is int: return bin(a[0]).count('1')
    raise Undecided('ctpop')

def m_fsh(left):
    def m(it, a, RT, dbg, ins):
        w = RT[1]
        x, y, s = a
        if type(s) is not int: raise Undecided('funnel shift')
        s %= w
        if not left: s = w - s if s else 0
        if s == 0:
            return x if left else y
        hi = it.binop('shl', x, s, RT, (0, 0, 0, 0, 0, dbg, ())) if type(x) is not int else (x << s) & ((1 << w) - 1)
        lo = it.binop('lshr', y, w - s, RT, (0, 0, 0, 0, 0, dbg, ())) if type(y) is not int else y >> (w - s)
        if type(hi) is int and type(lo) is int: return hi | lo
        return it.binop('or', hi, lo, RT, (0, 0, 0, 0, 0, dbg, ()))
    return m

def m_usat(op):
    def m(it, a, RT, dbg, ins):
        raise Undecided('saturating arithmetic')
    return m

# ------------------------------------------------------------------ randomness
@model('rand', 'random', 'lrand48')
def m_rand(it, a, RT, dbg, ins):
    it.nrand += 1
    if it.par is not None:
        it.effects.append(('par-rand', it.mod.loc(dbg), list(it.stack)))
        it.event('par-rand', 'random generator called inside a parallel loop', None, dbg)
    it.effects_rand = it.effects_rand + 1
    sc = it.rand_script
    if sc is not None:
        # case distinction on the residue of this result
        if it.nrand > len(sc): raise Undecided('random script exhausted')
        c, n = sc[it.nrand - 1]
        u = dom.var('rand%d' % it.nrand, 0, ((1 << 31) - 1 - c) // n)
        return SV(paddc(pscale(u, n), c))
    p = dom.var('rand%d' % it.nrand, 0, (1 << 31) - 1)
    return SV(p)

@model('srand', 'srandom')
def _(it, a, RT, dbg, ins):
    it.effects.append(('srand', it.mod.loc(dbg), list(it.stack)))
    it.event('srand', 'the random generator is reseeded', None, dbg)

@model('time', 'clock', 'getpid', 'rand_r', 'drand48', 'getrandom', 'getenv')
def _(it, a, RT, dbg, ins):
    it.effects.append(('environment', it.mod.loc(dbg), list(it.stack)))
    it.event('environment', 'depends on the environment', None, dbg)
    return it.fresh_undef(RT, 'environment')

@model('strlen')
def _(it, a, RT, dbg, ins):
    p = a[0]
    if isinstance(p, GlobalRef): p = it.gref(p)
    n = 0
    while True:
        v = it.load(Ptr(p.obj, p.off + n), ('i', 8), dbg)
        if type(v) is not int:
            lo, hi = to_s(v, 8)[1:] if type(v) is SV else (0, 0)
            if lo <= 0 <= hi: raise Undecided('strlen')
        elif v == 0: return n
        n += 1

@model('memcmp', 'bcmp')
def _(it, a, RT, dbg, ins):
    p, q, n = a
    if isinstance(p, GlobalRef): p = it.gref(p)
    if isinstance(q, GlobalRef): q = it.gref(q)
    if type(n) is not int or n > 4096: raise Undecided('memcmp')
    if n % 8 == 0:
        r = ONE
        for k in range(0, n, 8):
            x = it.load(Ptr(p.obj, p.off + k), ('i', 64), dbg); y = it.load(Ptr(q.obj, q.off + k), ('i', 64), dbg)
            e = it.icmp('eq', x, y, ('i', 64), None)
            r = pmul(r, it.boolp(e))
        return it.mkb(psub(ONE, r))
    raise Undecided('memcmp')

# ------------------------------------------------------------------ std::set tree support (unbalanced, same order)
PT = ('p',)
def ld(it, n, off): return it.load(it.ptr_add(n, off, None, None), PT, None)
def st(it, n, off, v): it.store(it.ptr_add(n, off, None, None), PT, v, None)

@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _(it, a, RT, dbg, ins):
    left, x, p, h = a
    if type(left) is not int: raise Undecided('tree insertion with unknown order')
    st(it, x, 8, p); st(it, x, 16, None); st(it, x, 24, None)
    it.store(x, ('i', 32), 0, None)
    if left & 1:
        st(it, p, 16, x)
        if p == h:
            st(it, h, 8, x); st(it, h, 24, x)
        elif ld(it, h, 16) == p:
            st(it, h, 16, x)
    else:
        st(it, p, 24, x)
        if ld(it, h, 24) == p:
            st(it, h, 24, x)

def rb_inc(it, a, RT, dbg, ins):
    x = a[0]
    if ld(it, x, 24) is not None:
        x = ld(it, x, 24)
        while ld(it, x, 16) is not None: x = ld(it, x, 16)
        return x
    y = ld(it, x, 8)
    while x == ld(it, y, 24):
        x = y; y = ld(it, y, 8)
    if ld(it, x, 24) != y: x = y
    return x

def rb_dec(it, a, RT, dbg, ins):
    x = a[0]
    # header: its parent's parent is itself; header colour is red (0), the root never is in this model (colour unused)
    par = ld(it, x, 8)
    if par is not None and ld(it, par, 8) == x and it.is_header(x):
        return ld(it, x, 24)
    if ld(it, x, 16) is not None:
        y = ld(it, x, 16)
        while ld(it, y, 24) is not None: y = ld(it, y, 24)
        return y
    y = ld(it, x, 8)
    while x == ld(it, y, 16):
        x = y; y = ld(it, y, 8)
    return y
for nm in ('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'):
    TABLE[nm] = rb_inc
for nm in ('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'):
    TABLE[nm] = rb_dec

# ------------------------------------------------------------------ OpenMP
class Par:
    """one iteration (or one thread) of a parallel region"""
    __slots__ = ('it', 'r', 'w', 'ph')
    def __init__(self, it):
        self.it = it; self.r = []; self.w = []; self.ph = 0       # ph: number of barriers passed

class Region:
    __slots__ = ('loc', 'fn', 'mode', 'k', 'bounds', 'loops', 'iters', 'served', 'n', 'target')

@model('__kmpc_fork_call')
def m_fork(it, a, RT, dbg, ins):
    fn = a[2]
    args = a[3:]
    if not isinstance(fn, GlobalRef):
        raise Undecided('fork of an unknown function')
    f = it.mod.get(fn.name)
    o = it.new_obj(4, 'stack', 'thread id'); o.cells[0] = (4, 0)
    if it.region is not None:
        # nested region: executed by one thread
        it.call_func(f, [Ptr(o, 0), Ptr(o, 0)] + args, dbg)
        return
    R = Region()
    R.loc = it.mod.loc(dbg); R.fn = fn.name; R.bounds = []; R.k = None; R.served = None; R.n = 0; R.target = None
    info = it.parallel_regions.setdefault((R.loc, fn.name), {'iterations': 0, 'loops': 0, 'mode': it.ompmode, 'conflicts': [], 'accesses': 0})
    nloops = count_loops(it, f)
    info['loops'] = nloops
    it.region = R
    sp = it.par
    def run(mode, loop=None, k=None):
        R.mode = mode; R.target = loop; R.k = k; R.n = 0; R.served = None
        it.par = pr = Par(object()) if mode != 'probe' and it.ompmode != 'serial' else None
        it.call_func(f, [Ptr(o, 0), Ptr(o, 0)] + args, dbg)
        it.par = sp
        if pr is not None: info['accesses'] += len(pr.r) + len(pr.w)
        return pr
    try:
        if it.ompmode == 'serial' or has_special(it, f):
            # one thread executes everything
            info['mode'] = 'serial'
            R.mode = 'serial'
            it.call_func(f, [Ptr(o, 0), Ptr(o, 0)] + args, dbg)
            return
        if nloops == 0:
            # every thread executes the whole region: two of them
            info['mode'] = 'threads'
            parts = [(k, run('serial')) for k in range(2)]
            info['iterations'] += 2
            conflicts(it, parts, info)
            return
        # find the bounds: run the region with empty iteration ranges
        run('probe')
        bounds, R.bounds = R.bounds, None
        parts = []
        for j, (lo, hi, step) in enumerate(bounds):
            ks = list(range(lo, hi + (1 if step > 0 else -1), step))
            if it.ompmode == 'reverse':
                ks.reverse()
            if len(ks) > 4096:
                raise Undecided('parallel loop with %d iterations' % len(ks))
            info['iterations'] += len(ks)
            for k in ks:
                R.bounds = bounds
                parts.append((k if len(bounds) == 1 else (j, k), run('one', j, k)))
        conflicts(it, parts, info)
    finally:
        it.region = None
        it.par = None

def region_calls(it, f):
    """names called by the outlined function (with debug information clang puts a wrapper around it)"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        for b in g.blocks.values():
            for ins in b.ins:
                if ins[0] == 'call':
                    nm = getattr(ins[3], 'name', None)
                    if not nm: continue
                    yield nm
                    if '.omp_outlined_debug__' in nm and nm not in seen:
                        seen.add(nm)
                        h = it.mod.get(nm)
                        if h is not None: todo.append(h)

def has_special(it, f):
    return any(nm.startswith(('__kmpc_single', '__kmpc_master', '__kmpc_masked', '__kmpc_omp_task', 'omp_get_thread_num')) for nm in region_calls(it, f))

def count_loops(it, f):
    return sum(nm.startswith(('__kmpc_for_static_init', '__kmpc_dispatch_init')) for nm in region_calls(it, f))

def conflicts(it, parts, info):
    """two iterations (or threads) touch the same bytes between the same barriers, one of them writing"""
    w = {}
    for k, p in parts:
        for (o, off, size, loc, ph) in p.w:
            for b in range(off & ~7, off + size, 8):
                d = w.setdefault((o, b, ph), {})
                e = d.setdefault(k, [])
                if not e or e[-1][:2] != (off, size): e.append((off, size, loc))
    rep = set()
    def add(kind, o, off, k1, k2, l1, l2):
        key = (kind, o.name, it.mod.loc(l1), it.mod.loc(l2))
        if key not in rep:
            rep.add(key)
            info['conflicts'].append((kind, o.name, off_s(off), k1, k2, it.mod.loc(l1), it.mod.loc(l2)))
    for (o, b, ph), d in w.items():
        if len(d) > 1:
            ks = list(d)
            for x in range(len(ks) - 1):
                for (o1, s1, l1) in d[ks[x]]:
                    for (o2, s2, l2) in d[ks[x + 1]]:
                        if o1 < o2 + s2 and o2 < o1 + s1: add('write/write', o, o1, ks[x], ks[x + 1], l1, l2)
    for k, p in parts:
        for (o, off, size, loc, ph) in p.r:
            for b in range(off & ~7, off + size, 8):
                d = w.get((o, b, ph))
                if not d: continue
                for k2, e in d.items():
                    if k2 == k: continue
                    for (o2, s2, l2) in e:
                        if off < o2 + s2 and o2 < off + size: add('read/write', o, off, k, k2, loc, l2)

def off_s(o):
    return 'offset %d' % o

def static_init(w, signed):
    def m(it, a, RT, dbg, ins):
        R = it.region
        pl, pu, ps = a[4], a[5], a[6]
        T = ('i', w)
        lo = it.load(pl, T, dbg); hi = it.load(pu, T, dbg)
        inc = a[7]
        if R is None:
            return
        if type(lo) is not int or type(hi) is not int:
            raise Undecided('parallel loop with unknown bounds')
        M = (1 << w) - 1
        sp, it.par = it.par, None
        try:
            last = a[3]
            j = R.n; R.n += 1
            n = sgn(hi, w) - sgn(lo, w) + 1
            if R.mode == 'probe':
                R.bounds.append((sgn(lo, w), sgn(hi, w), sgn(inc, w)))
            if R.mode == 'probe' or R.mode == 'one' and j != R.target:
                it.store(pu, T, (sgn(lo, w) - 1) & M, dbg)
                it.store(ps, T, (n + 1) & M, dbg)
                return
            if R.mode == 'one':
                it.store(pl, T, R.k & M, dbg)
                it.store(pu, T, R.k & M, dbg)
                it.store(last, ('i', 32), int(R.k == R.bounds[j][1]), dbg)
            else:
                it.store(last, ('i', 32), 1, dbg)
            it.store(ps, T, (n + 1) & M, dbg)
        finally:
            it.par = sp
    return m
for w, s in ((4, ''), (8, '')):
    TABLE['__kmpc_for_static_init_%d' % w] = static_init(8 * w, True)
    TABLE['__kmpc_for_static_init_%du' % w] = static_init(8 * w, False)

def disp_init(w):
    def m(it, a, RT, dbg, ins):
        R = it.region
        if R is None: return
        lo, hi, st_ = a[3], a[4], a[5]
        if type(lo) is not int or type(hi) is not int: raise Undecided('parallel loop with unknown bounds')
        j = R.n; R.n += 1
        b = (sgn(lo, w), sgn(hi, w), sgn(st_, w))
        if R.mode == 'probe': R.bounds.append(b)
        R.served = None if R.mode == 'probe' or R.mode == 'one' and j != R.target else b if R.mode != 'one' else (R.k, R.k, b[2], b[1])
    return m
def disp_next(w):
    def m(it, a, RT, dbg, ins):
        R = it.region
        T = ('i', w)
        if R is None: raise Undecided('dispatch outside a region')
        if R.served is None: return 0
        lo, hi, s = R.served[:3]
        last = len(R.served) == 3 or R.served[3] == hi
        R.served = None
        sp, it.par = it.par, None
        it.store(a[2], ('i', 32), int(last), dbg)
        it.store(a[3], T, lo & ((1 << w) - 1), dbg); it.store(a[4], T, hi & ((1 << w) - 1), dbg)
        it.store(a[5], T, s & ((1 << w) - 1), dbg)
        it.par = sp
        return 1
    return m
for w in (4, 8):
    for u in ('', 'u'):
        TABLE['__kmpc_dispatch_init_%d%s' % (w, u)] = disp_init(8 * w)
        TABLE['__kmpc_dispatch_next_%d%s' % (w, u)] = disp_next(8 * w)
        TABLE['__kmpc_dispatch_fini_%d%s' % (w, u)] = nop
@model('__kmpc_barrier')
def _(it, a, RT, dbg, ins):
    if it.par is not None: it.par.ph += 1

for nm in ('__kmpc_for_static_fini', '__kmpc_push_num_threads', '__kmpc_push_proc_bind',
           '__kmpc_flush', '__cxa_atexit', '__kmpc_ordered', '__kmpc_end_ordered', '__kmpc_dispatch_deinit'):
    TABLE[nm] = nop
def sync_begin(it, a, RT, dbg, ins):
    it.crit_saved.append(it.par)
    it.par = None
    return 1
def sync_end(it, a, RT, dbg, ins):
    if it.crit_saved: it.par = it.crit_saved.pop()
for nm in ('__kmpc_master', '__kmpc_single', '__kmpc_reduce', '__kmpc_reduce_nowait', '__kmpc_masked'):
    TABLE[nm] = sync_begin
for nm in ('__kmpc_end_master', '__kmpc_end_single', '__kmpc_end_reduce', '__kmpc_end_reduce_nowait', '__kmpc_end_masked'):
    TABLE[nm] = sync_end

@model('__kmpc_critical')
def _(it, a, RT, dbg, ins):
    it.crit_saved.append(it.par)
    it.par = None

@model('__kmpc_end_critical')
def _(it, a, RT, dbg, ins):
    it.par = it.crit_saved.pop() if it.crit_saved else it.par

@model('__kmpc_global_thread_num')
def _(it, a, RT, dbg, ins):
    return 0

@model('omp_get_thread_num')
def _(it, a, RT, dbg, ins):
    if it.region is None: return 0
    it.effects.append(('thread-id', it.mod.loc(dbg), list(it.stack)))
    it.event('thread-id', 'thread number used', None, dbg)
    it.nrand += 1
    return SV(dom.var('thread%d' % it.nrand, 0, 63))

@model('omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs')
def _(it, a, RT, dbg, ins):
    it.nrand += 1
    return SV(dom.var('nthreads%d' % it.nrand, 1, 64))

@model('omp_get_wtime')
def _(it, a, RT, dbg, ins):
    return it.fresh_undef(('f', 64), 'clock')

# ------------------------------------------------------------------ tables
PREFIX = [
    ('llvm.memcpy.', m_memcpy), ('llvm.memmove.', m_memcpy), ('llvm.memset.', m_memset),
    ('llvm.dbg.', nop), ('llvm.lifetime.', nop), ('llvm.assume', nop), ('llvm.stackrestore', nop), ('llvm.experimental.noalias', nop), ('llvm.donothing', nop),
    ('llvm.stacksave', lambda it, a, RT, dbg, ins: None), ('llvm.prefetch', nop),
    ('llvm.expect.', lambda it, a, RT, dbg, ins: a[0]),
    ('llvm.is.constant', lambda it, a, RT, dbg, ins: 0),
    ('llvm.uadd.with.overflow', ovf('add', False)), ('llvm.usub.with.overflow', ovf('sub', False)), ('llvm.umul.with.overflow', ovf('mul', False)),
    ('llvm.sadd.with.overflow', ovf('add', True)), ('llvm.ssub.with.overflow', ovf('sub', True)), ('llvm.smul.with.overflow', ovf('mul', True)),
    ('llvm.umin', minmax('umin')), ('llvm.umax', minmax('umax')), ('llvm.smin', minmax('smin')), ('llvm.smax', minmax('smax')),
    ('llvm.abs.', m_abs), ('llvm.bswap', m_bswap), ('llvm.bitreverse', m_bitrev), ('llvm.ctlz', m_ctlz), ('llvm.cttz', m_cttz), ('llvm.ctpop', m_ctpop),
    ('llvm.fshl', m_fsh(True)), ('llvm.fshr', m_fsh(False)),
    ('llvm.trap', TABLE['abort']), ('llvm.threadlocal.address', lambda it, a, RT, dbg, ins: it.gref(a[0]) if isinstance(a[0], GlobalRef) else a[0]),
    ('llvm.objectsize', lambda it, a, RT, dbg, ins: (1 << RT[1]) - 1),
    ('printf', m_printf), ('fprintf', io_effect), ('puts', m_puts), ('putchar', m_putchar), ('fputs', io_effect), ('fwrite', io_effect), ('fflush', io_effect), ('fputc', io_effect), ('write', io_effect), ('perror', io_effect), ('putc', io_effect),
]
DPREFIX = [
    ('std::ostream::', io_effect), ('std::basic_ostream', io_effect), ('std::operator<<', io_effect), ('std::endl', io_effect), ('std::flush', io_effect), ('std::ios_base::Init', nop),
    ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::basic_string(std::', nop), ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::~basic_string', nop),      # strings only name what is printed
    ('std::__ostream_insert', io_effect), ('std::ostream& std::', io_effect), ('std::basic_ios', io_effect),
    ('std::chrono::_V2', lambda it, a, RT, dbg, ins: it.fresh_undef(('i', 64), 'clock')),
]
