"""C20: computing functions are history-independent and free of side effects"""
import lib, interp
from interp import SV, RV, WV, Ptr

META = dict(level='proof', floor=.5,
  rule='the result of a call after a history of calls (other arguments; the same objects with other contents; other functions of the header when static data then depends on arguments) equals, as a value expression of its arguments, the result of the same call from a fresh program state; no effects other than writing the outputs (no output, no environment, no reseeding, no writes to inputs, random draws only in key generation, encryption and switching-key generation)',
  explanation='one case per library function and parameter set; arguments are unknowns, distinct ones in the history; pipelines with their ciphertext operations as uninterpreted functions')

KINDS = ('io', 'environment', 'srand', 'input-write')
COPY = (lib.Wide, lib.PolyA, lib.Ints, lib.Reals, lib.SReals, lib.Words, lib.SD)

def value(v, seen, depth=0):
    if type(v) is WV: return 'w', v.w, v.P.key()
    if type(v) is SV: return 's', v.P.key()
    if type(v) is RV: return 'r', v.P.key()
    if type(v) is Ptr:
        if v.obj.kind in ('global', 'const', 'extern', 'tls'): return 'ptr', v.obj.name, v.off
        if id(v.obj) in seen or depth > 6: return 'ptr', v.off
        return 'ptr', v.off, contents(v.obj, seen, depth + 1)
    return repr(v) if type(v) in (int, float) else type(v).__name__

def contents(o, seen=None, depth=0):
    seen = seen or set(); seen.add(id(o))
    return hash(tuple((k, sz, value(v, seen, depth)) for k, (sz, v) in sorted(o.cells.items())))

def statics(it):
    """static data: name -> (contents, written)"""
    return {n: (contents(o), o.wrote) for n, o in it.gobj.items() if not o.ro and o.kind in ('global', 'tls')}

def moving(x, y):
    """static data that differs between two states"""
    return [n for n in x if n in y and (x[n][1] or y[n][1]) and x[n][0] != y[n][0]]

def refill(e, old, new):
    """the new contents in the old objects"""
    a = []
    for x, o, n in zip(e.args, old, new):
        if type(x) in COPY and type(o) is Ptr and type(n) is Ptr and o.off == n.off:
            if not x.out or x.io != 'o':
                o.obj.cells = n.obj.cells; o.obj.gran = n.obj.gran; o.obj.maxsz = n.obj.maxsz
            a.append(o)
        else: a.append(n)
    for i, j in e.same: a[i] = a[j]
    return a

def positions(o, n):
    """cells in which two objects of one layout differ: first, middle, last"""
    ks = [k for k in sorted(o.cells) if k in n.cells and value(o.cells[k][1], set()) != value(n.cells[k][1], set())]
    return sorted({ks[0], ks[len(ks) // 2], ks[-1]}) if ks else []

def near(e, r):
    """argument builders: as in the first call except for one cell or one number"""
    def build(k, pos):
        def mk():
            a = lib.args(e, r, '1'); n = lib.args(e, r, '3')
            if pos is None: a[k] = n[k]
            else: a[k].obj.cells[pos] = n[k].obj.cells[pos]
            for i, j in e.same: a[i] = a[j]
            return a
        return mk
    a = lib.args(e, r, '1'); n = lib.args(e, r, '3')
    out = []
    for k, (x, p, q) in enumerate(zip(e.args, a, n)):
        if x.out and getattr(x, 'io', 'o') == 'o' or any(i == k for i, j in e.same): continue
        if type(x) in COPY: out += [('argument %d, offset %d' % (k, c), build(k, c)) for c in positions(p.obj, q.obj)]
        elif type(x) in (lib.U64, lib.Real, lib.Num, lib.Below) and value(p, set()) != value(q, set()): out.append(('argument %d' % k, build(k, None)))
    return out

def shared(g):
    """data shared by the functions of a group: every pair whose static data disagrees"""
    E = [e for e in g.E if not e.script]
    def t(out, mod, S):
        pairs = n = 0
        st = {}
        for e in E:
            for tag in '45':
                r = lib.start(e, mod, S, out); r.concrete = True; r.it.nrand = 1000
                try: r.call('w_' + e.fn, lib.args(e, r, tag))
                except interp.Dead: pass
                st[e.fn, tag] = statics(r.it)
        for e in E:
            for f in E:
                if f is e or not moving({k: v for k, v in st[f.fn, '4'].items() if v[1]}, st[e.fn, '5']): continue
                if f.uf != e.uf or f.sums != e.sums: continue
                pairs += 1
                if pairs > 400: out.undecided('too many functions share static data'); return
                r = lib.start(e, mod, S, out); r.concrete = True
                base = 1000
                def call(f, tag):
                    r.it.nrand = base
                    a = lib.args(f, r, tag)
                    return a, r.call('w_' + f.fn, a)
                try:
                    call(f, '4'); b, y = call(e, '5')
                    r.it.gobj = {}
                    c, x = call(e, '5')
                except interp.Dead: continue
                if not compare(r, e, b, y, c, x, 'a call of %s' % f.name): return
        out.checks += len(E); out.discharged += len(E)
        out.stats['functions'] = len(E); out.stats['pairs sharing data'] = pairs
    return t

def compare(r, f, b, y, c, x, what):
    for (k, p), (_, q) in zip(lib.outputs(f, b), lib.outputs(f, c)):
        if not lib.same_contents(r, p, q, '%s: result %d after %s and from a fresh state' % (f.name, k, what)): return False
    return f.ret == 'void' or lib.same_ret(r, y, x, '%s: returned value after %s and from a fresh state' % (f.name, what))

def task(e, g):
    def t(out, mod, S):
        if not e.script and not partial(e, mod, S, out): return
        r = lib.start(e, mod, S, out)
        it = r.it
        base = 0 if e.script else 1000
        def call(a, f=e):
            return r.call('w_' + f.fn, a)
        call(lib.args(e, r, '2'))
        if not e.rand:
            out.checks += 1
            if it.effects_rand:
                loc, fn = r.site()
                out.refute('draws random numbers', {}, loc, fn); return
            out.discharged += 1
        r.events(KINDS)
        if out.status == 'refuted': return
        it.nrand = 0
        a1 = lib.args(e, r, '1'); call(a1)
        it.nrand = base
        b = refill(e, a1, lib.args(e, r, '3'))
        y = call(b)
        def fresh(f, tag):
            it.gobj = {}; it.nrand = base
            c = lib.args(f, r, tag)
            return c, call(c, f)
        c, x = fresh(e, '3')
        compare(r, e, b, y, c, x, 'earlier calls')
    return t

def partial(e, mod, S, out):
    """static data that depends on arguments: calls whose arguments agree except in one place"""
    r = lib.start(e, mod, S, out); r.concrete = True
    it = r.it; base = 1000
    def run(a):
        it.nrand = base
        return a, r.call('w_' + e.fn, a)
    try:
        run(lib.args(e, r, '1')); x = statics(it)
        it.gobj = {}
        run(lib.args(e, r, '2')); y = statics(it)
    except interp.Dead: return True
    m = moving(x, y)
    out.stats['static data'] = sorted(k for k in x if x[k][1])[:20]
    if not m: return True
    out.stats['static data depending on arguments'] = m[:20]
    for what, mk in near(e, r):
        try:
            it.gobj = {}
            run(lib.args(e, r, '1')); b, y = run(mk())
            it.gobj = {}
            c, x = run(mk())
        except interp.Dead: continue
        if not compare(r, e, b, y, c, x, 'a call with the same arguments but for %s' % what): return False
    return out.status != 'refuted'

def units(tier):
    us = lib.build(tier, 'C20', task)
    for u, g in zip(us, lib.groups(tier, 'C20')): u.tasks.append(('shared static data [%s]' % g.tag, shared(g), 400))
    return us
