"""Obligations: set up abstract inputs, analyse a library function, decide equalities."""
import os, sys, time, json, math, random, subprocess, hashlib, signal, traceback, multiprocessing, re
from fractions import Fraction
import dom, interp, ir, models
from dom import (Poly, pc, pa, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ge0, eq0, gate, fl, ATOMS, INF, Undecided, TooBig, ev, EvalError)
from interp import Interp, SV, RV, WV, Ptr, PSel, UNDEF, Budget, Dead, to_u, to_s, umod, cmod, wnorm, NoSummary

REPO = os.environ.get('VERIF_REPO', '/repo')
def tool(*names):
    for n in names:
        if os.path.exists(n):
            return n
    return names[-1].split('/')[-1]
CLANG = tool('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++')
OPT = tool('/usr/bin/opt-18', '/usr/lib/llvm-18/bin/opt', '/usr/bin/opt')
BUILD = os.environ.get('VERIF_BUILD', '/verif/build')

class BuildError(Exception):
    pass

def compile_ir(src, tag):
    return ir.Module(compile_ll(src, tag))

def compile_ll(src, tag):
    """C++ source text -> LLVM IR text (compiled against the current source of the repository)"""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s_%d' % (tag, os.getpid()))
    cpp, a, b = d + '.cpp', d + '.a.ll', d + '.b.ll'
    open(cpp, 'w').write(src)
    try:
        r = subprocess.run([CLANG, '-std=gnu++17', '-fopenmp', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-ffp-contract=off', '-g',
                            '-w', '-I', REPO + '/include', '-S', '-emit-llvm', cpp, '-o', a], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        r = subprocess.run([OPT, '-S', '-passes=mem2reg,lcssa', a, '-o', b], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        return open(b).read()
    finally:
        for f in (cpp, a, b):
            if os.path.exists(f):
                os.unlink(f)

# ------------------------------------------------------------------ results
class Outcome:
    def __init__(self, name):
        self.name = name
        self.status = 'proved'
        self.notes = []
        self.viol = None
        self.checks = 0
        self.discharged = 0
        self.stats = {}

    def undecided(self, why):
        if self.status == 'proved':
            self.status = 'undecided'
        self.notes.append(why)

    def refute(self, what, witness=None, loc=None, func=None):
        self.status = 'refuted'
        if self.viol is None:
            self.viol = {'what': what, 'witness': witness or {}, 'loc': loc, 'func': func}

class Run:
    """one abstract execution context"""
    def __init__(self, mod, sums=None, out=None, timelimit=300, budget=60_000_000, **kw):
        dom.reset()
        self.mod = mod
        self.it = Interp(mod, sums, budget, timelimit)
        self.out = out
        self.pre = []          # preconditions: (poly, 'ge0')
        for k, v in kw.items():
            setattr(self.it, k, v)
        self.inputs = []
        self.specials = {}     # var id -> extra candidate values
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.fname = None
        if out is not None:
            if not hasattr(out, 'runs'): out.runs = []
            out.runs.append((mod, self.it))
            out.late = self.events     # what to do when the analysis stops early

    # ---------------------------------------------------------------- inputs
    def obj(self, size, name, kind='input', default=UNDEF, ro=False):
        o = self.it.new_obj(size, kind, name, default)
        o.ro = ro
        return o

    def limbs(self, o, off, name, w, full=False):
        n = (w + 63) // 64
        P = ZERO
        for i in range(n):
            top = w - 64 * (n - 1) if (i == n - 1 and not full) else 64
            v = dom.var('%s.%d' % (name, i), 0, (1 << top) - 1)
            o.cells[off + 8 * i] = (8, SV(v))
            P = padd(P, pscale(v, 1 << (64 * i)))
        o.gran = 8
        return P

    def wide(self, name, w, ro=True, full=False):
        """Z_Q<w> with symbolic limbs"""
        o = self.obj(8 * ((w + 63) // 64), name, ro=ro)
        P = self.limbs(o, 0, name, w, full)
        self.inputs.append((name, P))
        return Ptr(o, 0), P

    def wideout(self, name, w, default=UNDEF):
        return Ptr(self.obj(8 * ((w + 63) // 64), name, default=default), 0)

    def poly(self, name, w, N, ro=True, limb=False, o=None, base=0):
        """R_Q<w,N>: one unknown per coefficient"""
        sz = 8 * ((w + 63) // 64)
        if o is None:
            o = self.obj(sz * N, name, ro=ro)
        Ps = []
        for i in range(N):
            if limb:
                P = self.limbs(o, base + sz * i, '%s[%d]' % (name, i), w)
            else:
                P = dom.var('%s[%d]' % (name, i), 0, (1 << w) - 1)
                o.cells[base + sz * i] = (sz, WV(P, w))
                if sz > o.maxsz: o.maxsz = sz
                o.gran = sz if base % sz == 0 else -1
            Ps.append(P)
        return Ptr(o, base), Ps

    def pair(self, name, w, N, ro=True, limb=False):
        sz = 8 * ((w + 63) // 64)
        o = self.obj(2 * sz * N, name, ro=ro)
        p0, P0 = self.poly(name + '0', w, N, ro, limb, o, 0)
        p1, P1 = self.poly(name + '1', w, N, ro, limb, o, sz * N)
        return Ptr(o, 0), [P0, P1]

    def ints(self, name, N, lo, hi, ro=True):
        o = self.obj(4 * N, name, ro=ro)
        Ps = []
        for i in range(N):
            v = dom.var('%s[%d]' % (name, i), lo, hi)
            o.cells[4 * i] = (4, SV(v))
            Ps.append(v)
        o.gran = 4
        return Ptr(o, 0), Ps

    def const_ints(self, name, vals, ro=True):
        o = self.obj(4 * len(vals), name, ro=ro)
        for i, v in enumerate(vals):
            o.cells[4 * i] = (4, v & 0xffffffff)
        o.gran = 4
        return Ptr(o, 0)

    def reals(self, name, n, lo=-1.0, hi=1.0, ro=True, o=None, base=0):
        if o is None:
            o = self.obj(8 * n, name, ro=ro)
        Ps = []
        for i in range(n):
            v = dom.var('%s[%d]' % (name, i), lo, hi, False)
            o.cells[base + 8 * i] = (8, RV(v))
            Ps.append(v)
        o.gran = 8
        return Ptr(o, base), Ps

    def const_reals(self, name, vals, ro=True):
        o = self.obj(8 * len(vals), name, ro=ro)
        for i, v in enumerate(vals):
            o.cells[8 * i] = (8, float(v))
        o.gran = 8
        return Ptr(o, 0)

    def words(self, name, n, lo=0, hi=(1 << 64) - 1, ro=False):
        o = self.obj(8 * n, name, ro=ro)
        Ps = []
        for i in range(n):
            v = dom.var('%s[%d]' % (name, i), lo, hi)
            o.cells[8 * i] = (8, SV(v)); Ps.append(v)
        o.gran = 8
        return Ptr(o, 0), Ps

    def word(self, name, lo=0, hi=(1 << 64) - 1):
        v = dom.var(name, lo, hi)
        return SV(v), v

    def out_words(self, name, n, size=8):
        return Ptr(self.obj(size * n, name), 0)

    # ---------------------------------------------------------------- running and reading
    def call(self, fn, args):
        self.fname = fn
        f = self.mod.get(fn)
        if f is None:
            raise Undecided('no function ' + fn)
        return self.it.call_func(f, args)

    def get(self, p, off, T):
        return self.it.load(self.it.ptr_add(p, off, None, None), T)

    def gwide(self, p, off, w):
        """(value, canonical?) of a Z_Q<w>"""
        P = self.it.read_wide(self.it.ptr_add(p, off, None, None), w)
        return P

    def canonical(self, p, off, w, what):
        """the stored limbs are those of a value in [0, 2^w)"""
        q = self.it.ptr_add(p, off, None, None)
        out = self.out
        out.checks += 1
        n = (w + 63) // 64
        c = q.obj.cells.get(q.off)
        if c is not None and type(c[1]) is WV and c[1].w == w:
            out.discharged += 1
            return True
        v = self.it.load_limb(q.obj, q.off + 8 * (n - 1))
        if v is UNDEF:
            loc, fn = self.site()
            out.refute('%s: the top limb is never written' % what, {}, loc, fn)
            return False
        P, lo, hi = to_u(v, 64)
        top = (1 << (w - 64 * (n - 1))) - 1
        a, b = prange(P)
        lo = max(lo, a); hi = min(hi, b)
        if hi <= top:
            out.discharged += 1
            return True
        wt = self.witness(P, lambda x: x > top)
        if wt is not None:
            loc, fn = self.site()
            out.refute('%s: top limb is %s, more than %s' % (what, dom.fmtnum(wt[1]), dom.fmtnum(top)), wt[0], loc, fn)
            return False
        out.undecided('%s: top limb range [%s,%s]' % (what, dom.fmtnum(lo), dom.fmtnum(hi)))
        return False

    def gpoly(self, p, w, N, base=0):
        sz = 8 * ((w + 63) // 64)
        return [self.gwide(p, base + sz * i, w) for i in range(N)]

    def gpair(self, p, w, N):
        sz = 8 * ((w + 63) // 64)
        return [self.gpoly(p, w, N), self.gpoly(p, w, N, sz * N)]

    def gints(self, p, N):
        return [to_s(self.it.und(self.get(p, 4 * i, ('i', 32)), ('i', 32)), 32)[0] for i in range(N)]

    def gwords(self, p, N):
        return [to_u(self.it.und(self.get(p, 8 * i, ('i', 64)), ('i', 64)), 64)[0] for i in range(N)]

    def greals(self, p, n, base=0):
        return [interp.rp(self.it.und(self.get(p, base + 8 * i, ('f', 64)), ('f', 64))) for i in range(n)]

    # ---------------------------------------------------------------- deciders
    def site(self):
        f = self.mod.get(self.fname) if self.fname else None
        # first library callee of the wrapper
        if f is not None:
            for b in f.blocks.values():
                for ins in b.ins:
                    if ins[0] == 'call':
                        n = getattr(ins[3], 'name', None)
                        g = self.mod.get(n) if n else None
                        if g is not None and n != self.fname:
                            return self.mod.func_loc(g), self.mod.dem.get(n, n)
        return '?', self.fname

    def zero(self, P, what, mod=None):
        """P must be 0 (modulo 2^mod)"""
        out = self.out
        out.checks += 1
        if mod is not None:
            P = modreduce(P, mod)
        if P.d and any(ATOMS[i].kind == 'nm' for i in dom.patoms(P)):
            try:
                P = dom.unname(P)
                if mod is not None: P = modreduce(P, mod)
            except TooBig:
                pass
        if P.d: P = selfgate(P)
        for form in (lambda: P, lambda: small_vars(P), lambda: expand_residues(P) if res else P, lambda: small_vars(expand_residues(P)) if res else P):
            res = any(ATOMS[i].kind in ('umod', 'cmod') for i in dom.patoms(P))
            try:
                Q = form()
                if Q is not P and mod is not None: Q = modreduce(Q, mod)
            except TooBig:
                continue
            if not Q.d:
                out.discharged += 1
                return True
        if any(ATOMS[i].undef for i in dom.base_vars(P)):
            # depends on uninitialised memory: the value is arbitrary
            pass
        w = self.witness(P, (lambda v: v % (1 << mod) != 0) if mod is not None else (lambda v: v != 0))
        if w is not None:
            env, v = w
            loc, fn = self.site()
            if mod is not None:
                v %= 1 << mod
                if v >> (mod - 1): v -= 1 << mod
            out.refute('%s: result differs from the specified value by %s' % (what, dom.fmtnum(v)), env, loc, fn)
            return False
        out.undecided('%s: residual %s' % (what, dom.pstr(P, 6)))
        return False

    def close(self, P, tol, what):
        """|P| <= tol for all values of the unknowns"""
        out = self.out
        out.checks += 1
        a, b = prange(P)
        if not (a >= -tol and b <= tol):
            P = selfgate(P)
            a, b = split_range(P, 8)
        if a >= -tol and b <= tol:
            out.discharged += 1
            return True
        w = self.witness(P, lambda v: not (-tol <= v <= tol))
        if w is not None:
            loc, fn = self.site()
            out.refute('%s: result differs from the specified value by %s (allowed %s)' % (what, dom.fmtnum(w[1]), dom.fmtnum(tol)), w[0], loc, fn)
            return False
        out.undecided('%s: difference range [%s,%s], allowed %s: %s' % (what, dom.fmtnum(a), dom.fmtnum(b), dom.fmtnum(tol), dom.pstr(P, 4)))
        return False

    def holds(self, C, what):
        """boolean polynomial C must be 1"""
        return self.zero(psub(ONE, C), what)

    def in_range(self, P, lo, hi, what):
        out = self.out
        out.checks += 1
        a, b = split_range(P)
        if a >= lo and b <= hi:
            out.discharged += 1
            return True
        w = self.witness(P, lambda v: v < lo or v > hi)
        if w is not None:
            loc, fn = self.site()
            out.refute('%s: value %s outside [%s,%s]' % (what, dom.fmtnum(w[1]), dom.fmtnum(lo), dom.fmtnum(hi)), w[0], loc, fn)
            return False
        out.undecided('%s: range [%s,%s] not shown inside [%s,%s]' % (what, dom.fmtnum(a), dom.fmtnum(b), dom.fmtnum(lo), dom.fmtnum(hi)))
        return False

    def events(self, kinds=('oob', 'uaf', 'null', 'input-write', 'overflow', 'shift', 'divzero', 'fconv', 'uninit', 'assert', 'abort'), ignore=()):
        out = self.out
        for e in self.it.events:
            if e['kind'] not in kinds or e['kind'] in ignore:
                continue
            out.checks += 1
            conds = [(c, v) for c, v in e['pc']]
            w = self.cond_witness(conds)
            fn = self.mod.dem.get(e['func'], e['func'])
            if w is False:
                out.discharged += 1      # condition contradictory
                continue
            if w is None:
                out.undecided('%s at %s: reachability undecided' % (e['msg'], e['loc']))
                continue
            out.refute('%s' % e['msg'], w, e['loc'], fn)

    # ---------------------------------------------------------------- witnesses
    def assignments(self, vs, n=400):
        rnd = random.Random(self.seed)
        vs = sorted(vs)
        def corner(i):
            A = ATOMS[i]
            lo, hi = A.lo, A.hi
            if not A.isint:
                lo = -1.0 if lo == -INF else lo; hi = 1.0 if hi == INF else hi
                return [lo, hi, (lo + hi) / 2, lo + (hi - lo) * .25, lo + (hi - lo) * .75]
            c = [lo, hi]
            for x in (0, 1, 2, -1, -2, hi - 1, lo + 1, (hi + 1) // 2, (hi + 1) // 2 - 1, (hi + 1) // 2 + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63), (1 << 63) - 1):
                if lo <= x <= hi: c.append(x)
            c += self.specials.get(i, [])
            return c
        cs = {i: corner(i) for i in vs}
        def rv(i):
            A = ATOMS[i]
            if not A.isint:
                lo = -1.0 if A.lo == -INF else A.lo; hi = 1.0 if A.hi == INF else A.hi
                return rnd.uniform(lo, hi)
            k = rnd.random()
            if k < .5:
                return rnd.randint(A.lo, A.hi)
            if k < .75:
                b = rnd.randint(0, max(1, (A.hi - A.lo).bit_length()))
                return max(A.lo, min(A.hi, A.lo + rnd.getrandbits(b) if b else A.lo))
            return rnd.choice(cs[i])
        for t in range(n):
            env = {}
            m = t % 8
            if t == 0:
                env = {i: ATOMS[i].lo if ATOMS[i].isint else cs[i][0] for i in vs}
            elif t == 1:
                env = {i: ATOMS[i].hi if ATOMS[i].isint else cs[i][1] for i in vs}
            elif m < 3:
                env = {i: rv(i) for i in vs}
            elif m < 5:
                env = {i: rnd.choice(cs[i]) for i in vs}
            elif m == 5:
                # mostly maximal / minimal
                env = {i: (ATOMS[i].hi if rnd.random() < .7 else rv(i)) for i in vs}
                for i in vs:
                    if env[i] == INF: env[i] = 1.0
            elif m == 6:
                env = {i: (max(ATOMS[i].lo, min(0, ATOMS[i].hi)) if rnd.random() < .7 else rv(i)) for i in vs}
                for i in vs:
                    if env[i] == -INF: env[i] = -1.0
            else:
                # pairs that sum to a power of two
                env = {i: rv(i) for i in vs}
                for j in range(len(vs) - 1):
                    a = vs[j]; b = vs[rnd.randrange(len(vs))]
                    if a != b and ATOMS[a].isint and ATOMS[b].isint:
                        s = (1 << 64) + rnd.choice((-2, -1, 0, 0, 1))
                        x = s - env[a]
                        if ATOMS[b].lo <= x <= ATOMS[b].hi: env[b] = x
            yield env

    def allowed(self, env):
        for p in self.pre:
            try:
                if ev(p, dict(env)) < 0: return False
            except EvalError:
                return False
        return True

    def goal_assignments(self, P, vs, rnd, n=300):
        """assignments aimed at the thresholds of the step and floor atoms of P"""
        ats = all_atoms(P)
        steps = [ATOMS[i] for i in ats if ATOMS[i].kind in ('step', 'fl', 'rem', 'cmod', 'umod')]
        if not steps:
            return
        gen = self.assignments(vs, n)
        for env in gen:
            A = rnd.choice(steps)
            try:
                if A.kind == 'step':
                    L = dom.CORES[A.core]; t = A.t + rnd.choice((-1, 0, 0, 1))
                elif A.kind in ('fl',):
                    L, d = A.args
                    base = ev(L, dict(env))
                    t = (base // d + rnd.choice((0, 1))) * d + rnd.choice((-1, 0, 0, 1))
                else:
                    L = A.args[0]
                    if isinstance(A.args[1], Poly): continue
                    d = A.args[1] if A.kind == 'rem' else 1 << A.args[1]
                    base = ev(L, dict(env))
                    t = (base // d + rnd.choice((0, 1))) * d + rnd.choice((-1, 0, 0, 1, d // 2, d // 2 - 1))
                # solve L = t by changing one variable
                ls = [i for i in dom.patoms(L) if ATOMS[i].kind == 'var' and ATOMS[i].isint]
                rnd.shuffle(ls)
                for i in ls[:3]:
                    e0 = dict(env); e0[i] = 0
                    e1 = dict(env); e1[i] = 1
                    c0 = ev(L, dict(e0)); c1 = ev(L, dict(e1)) - c0
                    if c1 == 0: continue
                    x = (t - c0) // c1 if isinstance(c1, int) and isinstance(t, int) and isinstance(c0, int) else None
                    if x is not None and ATOMS[i].lo <= x <= ATOMS[i].hi:
                        env = dict(env); env[i] = x
                        break
            except (EvalError, OverflowError):
                pass
            yield env

    def witness(self, P, bad, n=400):
        if len(P.d) > 40000: n = 4
        elif len(P.d) > 4000: n = 24
        vs = dom.base_vars(P)
        for p in self.pre: vs |= dom.base_vars(p)
        rnd = random.Random(self.seed + 7)
        t_end = time.time() + 20
        def tries():
            yield from self.assignments(vs, n)
            yield from self.goal_assignments(P, vs, rnd, n)
        for env in tries():
            if time.time() > t_end: break
            if self.pre and not self.allowed(env): continue
            try:
                v = ev(P, dict(env))
            except (EvalError, OverflowError, ValueError):
                continue
            if bad(v):
                return {ATOMS[i].name: dom.fmtnum(env[i]) for i in sorted(vs)[:80]}, v
        return None

    def cond_witness(self, conds, n=600):
        """assignment satisfying all (poly,value) conditions: dict, None (not found) or False (impossible)"""
        cs = [(c, v) for c, v in conds if not c.isconst()]
        for c, v in conds:
            if c.isconst() and bool(c.const()) != bool(v):
                return False
        vs = set()
        for c, v in cs: vs |= dom.base_vars(c)
        for p in self.pre: vs |= dom.base_vars(p)
        if not cs and not self.pre:
            return {}
        S = ZERO
        rnd = random.Random(self.seed + 11)
        def tries():
            yield from self.assignments(vs, n)
            for c, v in cs:
                yield from self.goal_assignments(c, vs, rnd, n // 2)
        t_end = time.time() + 20
        for env in tries():
            if time.time() > t_end: break
            if self.pre and not self.allowed(env): continue
            try:
                e = dict(env)
                if all(bool(ev(c, e)) == bool(v) for c, v in cs):
                    return {ATOMS[i].name: dom.fmtnum(env[i]) for i in sorted(vs)[:80]}
            except (EvalError, OverflowError, ValueError):
                continue
        return None

def split_range(P, depth=3):
    """range of P, case by case over its booleans"""
    lo, hi = prange(P)
    if depth:
        bs = [i for i in dom.patoms(P) if ATOMS[i].isbool]
        if bs:
            b = max(bs)
            rs = []
            for v in (0, 1):
                with dom.with_ctx([('fix', b, v)]) as c:
                    if not c.dead: rs.append(split_range(dom.ctx_simplify(dom.psubst1(P, b, v)), depth - 1))
            if rs:
                lo = max(lo, min(r[0] for r in rs)); hi = min(hi, max(r[1] for r in rs))
    return lo, hi

def selfgate(P):
    """x*[x>=1] = x*[x>=0]  (= x when x is never negative), x an integer unknown"""
    mp = {}
    for i in dom.patoms(P):
        A = ATOMS[i]
        if A.kind != 'step' or A.t not in (0, 1): continue
        L = dom.CORES[A.core]
        if len(L.d) != 1: continue
        (m, c), = L.d.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0]].isint: mp[i] = (m[0], A.t)
    if not mp: return P
    acc = ZERO; d = {}
    for m, c in P.d.items():
        k = [i for i in m if i in mp and mp[i][0] in m and (ATOMS[mp[i][0]].lo >= 0 or mp[i][1] == 1)]
        if not k:
            d[m] = d.get(m, 0) + c; continue
        T = Poly({tuple(i for i in m if i not in k): c})
        for i in k:
            v = mp[i][0]
            if ATOMS[v].lo < 0: T = pmul(T, ge0(pa(v)))
        acc = padd(acc, T)
    return padd(Poly({m: c for m, c in d.items() if c}), acc)

def small_vars(P):
    """unknowns with a handful of values, written with their threshold atoms"""
    thr = set()
    for i in dom.patoms(P):
        A = ATOMS[i]
        if A.kind == 'step': thr |= dom.patoms(dom.CORES[A.core])
    mp = {}
    for i in dom.patoms(P):
        A = ATOMS[i]
        if A.kind == 'var' and A.isint and not A.isbool and i in thr and A.hi - A.lo <= 4:
            v = pa(i)
            Q = pc(A.lo)
            for t in range(A.lo + 1, A.hi + 1): Q = padd(Q, ge0(paddc(v, -t)))
            mp[i] = Q
    return dom.psubst(P, mp) if mp else P

def all_atoms(p):
    seen = set()
    st = [p]
    while st:
        q = st.pop()
        for i in dom.patoms(q):
            if i in seen: continue
            seen.add(i)
            A = ATOMS[i]
            if A.kind == 'step': st.append(dom.CORES[A.core])
            else:
                for x in A.args:
                    if isinstance(x, Poly): st.append(x)
    return seen

def residue_form(A):
    """P mod 2^w (or its centred form) written with floors, case by case over the booleans in P"""
    P, w = A.args
    h = (1 << (w - 1)) if A.kind == 'cmod' else 0
    def rec(P, d):
        P = dom.ctx_simplify(P)
        bs = [i for i in dom.patoms(P) if ATOMS[i].isbool]
        lo, hi = prange(P)
        if bs and d < 6 and not (lo >= -h and hi < (1 << w) - h):
            b = max(bs)
            with dom.with_ctx([('fix', b, 1)]) as c:
                r1 = ZERO if c.dead else rec(dom.psubst1(P, b, 1), d + 1)
            with dom.with_ctx([('fix', b, 0)]) as c:
                r0 = ZERO if c.dead else rec(dom.psubst1(P, b, 0), d + 1)
            return gate(pa(b), r1, r0)
        return psub(P, pscale(fl(paddc(P, h), 1 << w), 1 << w))
    return rec(P, 0)

def expand_residues(P):
    for _ in range(4):
        mp = {}
        for i in dom.patoms(P):
            if ATOMS[i].kind in ('umod', 'cmod') and len(ATOMS[i].args[0].d) <= 400:
                mp[i] = residue_form(ATOMS[i])
        if not mp: return P
        P = dom.psubst(P, mp)
    return P

def modreduce(P, w):
    """normal form modulo 2^w: coefficients reduced, residues unfolded where their modulus divides"""
    for _ in range(30):
        P = wnorm(P, w)
        mp = {}
        for m, c in P.d.items():
            if not isinstance(c, int):
                continue
            tz = (c & -c).bit_length() - 1
            for i in m:
                A = ATOMS[i]
                if A.kind in ('umod', 'cmod') and tz + A.args[1] >= w:
                    mp.setdefault(i, []).append(m)
        if not mp:
            return P
        # unfold only where every occurrence allows it
        ok = {}
        for i, ms in mp.items():
            n = sum(1 for m in P.d if i in m)
            if n == len(ms):
                ok[i] = ATOMS[i].args[0]
        if not ok:
            # unfold monomial by monomial
            Q = {}
            extra = ZERO
            for m, c in P.d.items():
                tz = (c & -c).bit_length() - 1 if isinstance(c, int) else 0
                j = next((i for i in m if ATOMS[i].kind in ('umod', 'cmod') and tz + ATOMS[i].args[1] >= w and m.count(i) == 1), None)
                if j is None:
                    Q[m] = Q.get(m, 0) + c
                else:
                    rest = tuple(x for x in m if x != j)
                    extra = padd(extra, pmul(Poly({rest: c}), ATOMS[j].args[0]))
            P2 = padd(Poly({m: c for m, c in Q.items() if c}), extra)
            if P2 == P:
                return P
            P = P2
            continue
        P = dom.psubst(P, ok)
    return wnorm(P, w)

# ------------------------------------------------------------------ pool
class TaskTimeout(Exception):
    pass

def _alarm(sig, frm):
    raise TaskTimeout()

_TASKS = None
DEADLINE = [float('inf')]
def _run_task(k):
    name, fn, limit = _TASKS[k]
    out = Outcome(name)
    t0 = time.time()
    left = int(DEADLINE[0] - t0)
    if left < 2:
        out.undecided('time budget of the check used up'); return out
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(min(limit, left))
    sys.setrecursionlimit(100000)
    try:
        fn(out)
    except TaskTimeout:
        out.undecided('time limit')
    except Dead:
        out.undecided('no normal return'); late(out)
    except (Undecided, TooBig, Budget) as e:
        out.undecided('%s: %s' % (type(e).__name__, e)); late(out)
    except RecursionError:
        out.undecided('recursion limit')
    except MemoryError:
        out.undecided('memory')
    except Exception as e:
        out.undecided('internal: %s' % traceback.format_exc()[-900:])
        out.stats['internal'] = 1
    finally:
        signal.alarm(0)
    collect(out)
    out.stats['wall'] = round(time.time() - t0, 2)
    return out

def late(out):
    """events recorded before the analysis stopped are violations all the same"""
    f = getattr(out, 'late', None)
    if f is None: return
    try: f()
    except Exception: pass

def collect(out):
    """what was analysed (measured)"""
    fs = set(); st = 0; su = 0
    for mod, it in getattr(out, 'runs', ()):
        fs |= {mod.dem.get(n, n) for n in it.funcs_seen}
        st += it.steps; su += sum(it.sums_used.values())
    out.runs = []; out.late = None
    if fs or st:
        out.stats['funcs'] = sorted(fs); out.stats['steps'] = st; out.stats['sumuses'] = su

def run_tasks(tasks, procs=8):
    """tasks: (name, fn(out), limit seconds)"""
    global _TASKS
    _TASKS = tasks
    if procs <= 1 or len(tasks) <= 1:
        return [_run_task(k) for k in range(len(tasks))]
    ctx = multiprocessing.get_context('fork')
    res = [None] * len(tasks)
    with ctx.Pool(procs, maxtasksperchild=40) as pool:
        its = [pool.apply_async(_run_task, (k,)) for k in range(len(tasks))]
        for k, r in enumerate(its):
            try:
                res[k] = r.get(max(60, min(tasks[k][2] + 600, DEADLINE[0] - time.time() + 60)))
            except Exception as e:
                o = Outcome(tasks[k][0]); o.undecided('worker lost: %r' % (e,)); res[k] = o
    return res
