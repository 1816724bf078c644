"""debug: every integer operation's abstract result is compared with the concrete operation at sample points"""
import sys, random, os
sys.path.insert(0, os.environ.get('SC_SA', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa')))
import dom, interp
from interp import SV, UNDEF, Interp, ip
N = int(os.environ.get('SC_N', '3'))
ENVS = []
seen = set()
cnt = [0, 0]
rnd = random.Random(int(os.environ.get('SC_SEED', '1')))
def fresh(a):
    lo, hi = a.lo, a.hi
    if a.isint:
        if lo == -dom.INF: lo = -10**9
        if hi == dom.INF: hi = 10**9
        k = rnd.randrange(4)
        if k == 0: return lo if rnd.random() < .5 else hi
        if k == 1 and hi - lo > 4: 
            b = rnd.randrange(1, (hi - lo).bit_length()); return min(hi, lo + rnd.getrandbits(b))
        return rnd.randint(int(lo), int(hi))
    if lo == -dom.INF: lo = -1e6
    if hi == dom.INF: hi = 1e6
    return rnd.uniform(float(lo), float(hi))
class Env(dict):
    def get(self, i, d=None):
        v = dict.get(self, i)
        if v is None and dom.ATOMS[i].kind == 'var':
            v = self[i] = fresh(dom.ATOMS[i])
        return v
_r=dom.reset
def _reset():
    ENVS.clear(); _r()
dom.reset=_reset
def envs():
    if not ENVS or ENVS[0][1] != id(dom.ATOMS) or len(dom.ATOMS) < ENVS[0][2]:
        ENVS.clear()
        for _ in range(N): ENVS.append([Env(), id(dom.ATOMS), 0])
    ENVS[0][2] = len(dom.ATOMS)
    return [e[0] for e in ENVS]
def sat(env):
    for i, v in dom.CTX.fix.items():
        if dom.ev_atom(i, env) != v: return False
    for c, (lo, hi) in dom.CTX.rng.items():
        if not lo <= dom.ev(dom.CORES[c], env) <= hi: return False
    return True
def cv(x, env, w):
    if type(x) is int: return x & ((1 << w) - 1)
    v = dom.ev(x.P, env)
    if not (x.lo <= v <= x.hi): raise ValueError('range [%s,%s] misses %s' % (x.lo, x.hi, v))
    return v & ((1 << w) - 1)
def sg(v, w): return v - (1 << w) if v >> (w - 1) else v
def conc(op, a, b, w):
    M = (1 << w) - 1
    if op == 'add': return (a + b) & M
    if op == 'sub': return (a - b) & M
    if op == 'mul': return (a * b) & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & M if b < w else None
    if op == 'lshr': return a >> b if b < w else None
    if op == 'ashr': return (sg(a, w) >> b) & M if b < w else None
    if op == 'udiv': return a // b if b else None
    if op == 'urem': return a % b if b else None
    if op in ('sdiv', 'srem'):
        a, b = sg(a, w), sg(b, w)
        if b == 0: return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return (q if op == 'sdiv' else a - q * b) & M
CMP = dict(eq=lambda a, b: a == b, ne=lambda a, b: a != b, ult=lambda a, b: a < b, ule=lambda a, b: a <= b, ugt=lambda a, b: a > b, uge=lambda a, b: a >= b)
def report(kind, key, env, *a):
    if key in seen: return
    seen.add(key)
    open('/tmp/selfcheck.log','a').write(' '.join(map(str,('SELFCHECK', kind)+a))+'\n')
def chk(kind, op, x, y, w, r, f, wr):
    if r is UNDEF or x is UNDEF or y is UNDEF: return
    for v in (x, y, r):
        if type(v) not in (int, SV): return
    if type(x) is int and type(y) is int and type(r) is int: pass
    for env in envs():
        try:
            if not sat(env): continue
            try: a = cv(x, env, w); b = cv(y, env, w)
            except ValueError: continue   # reported at its definition
            e = f(a, b)
            if e is None: continue
            cnt[0] += 1
            try: g = cv(r, env, wr)
            except ValueError as z:
                report(kind, (kind, op, str(z)[:10], w), env, op, 'i%d' % w, z, 'x=', str(ip(x))[:300], 'y=', str(ip(y))[:300], 'r=', str(ip(r))[:300], 'a=%d b=%d' % (a, b), [(dom.ATOMS[i].name,dom.ATOMS[i].lo,dom.ATOMS[i].hi,v) for i,v in env.items() if i in dom.base_vars(ip(x))], [(dom.pstr(dom.CORES[k]),v) for k,v in dom.CTX.rng.items()], dom.CTX.fix); continue
            if g != e:
                report(kind, (kind, op, w), env, op, 'i%d' % w, 'a=%d b=%d got %d expected %d' % (a, b, g, e), 'x=', str(ip(x))[:300], 'y=', str(ip(y))[:300], 'r=', str(ip(r))[:300], 'fix', [(dom.ATOMS[i].name,dom.ATOMS[i].kind,dom.ATOMS[i].t,v) for i,v in dom.CTX.fix.items()], 'rng', [(dom.pstr(dom.CORES[k]),v) for k,v in dom.CTX.rng.items()], 'ranges', (x.lo,x.hi) if type(x) is SV else x, dom.prange(x.P) if type(x) is SV else 0, [(dom.ATOMS[i].name, dom.ATOMS[i].kind, dom.ATOMS[i].lo, dom.ATOMS[i].hi, str(dom.ATOMS[i].args)[:100]) for i in dom.patoms(ip(x))])
        except (dom.EvalError, OverflowError, ZeroDivisionError): cnt[1] += 1
        except RecursionError: pass
ob_, oi, oc = Interp.binop, Interp.icmp, Interp.cast
def binop(self, op, x, y, T, ins):
    r = ob_(self, op, x, y, T, ins)
    if T[0] == 'i': chk('bin', op, x, y, T[1], r, lambda a, b: conc(op, a, b, T[1]), T[1])
    return r
def icmp(self, pr, x, y, T, ins):
    r = oi(self, pr, x, y, T, ins)
    if T[0] == 'i':
        w = T[1]
        f = CMP.get(pr) or (lambda a, b: CMP['u' + pr[1:]](sg(a, w), sg(b, w)))
        chk('cmp', pr, x, y, w, r, lambda a, b: int(f(a, b)), 1)
    return r
def cast(self, op, T, x, T2, ins):
    r = oc(self, op, T, x, T2, ins)
    if T[0] == 'i' and T2[0] == 'i' and op in ('zext', 'sext', 'trunc'):
        w, w2 = T[1], T2[1]
        f = {'zext': lambda a, b: a, 'sext': lambda a, b: sg(a, w) & ((1 << w2) - 1), 'trunc': lambda a, b: a & ((1 << w2) - 1)}[op]
        chk('cast', op, x, 0, w, r, f, w2)
    return r
Interp.binop, Interp.icmp, Interp.cast = binop, icmp, cast
# memory: what is loaded must be what was stored is covered by comparing at the ends
import check
if __name__ == '__main__':
    
    try: check.main()
    finally: print('selfcheck', cnt, file=sys.stderr)
