"""Ciphertext phases: residues and rounded shifts are replaced by congruent expressions in bounded error terms"""
import math
import dom, interp, ob
from dom import Poly, pc, pa, ZERO, ONE, padd, psub, pmul, pscale, paddc, pneg, prange, ge0, ATOMS, Undecided, TooBig
from interp import umod, cmod, wnorm

def v2(c):
    return (c & -c).bit_length() - 1

class Resolver:
    """P modulo 2^m -> (R, K): R/2^K is an integer congruent to P modulo 2^m, R a polynomial without residues of larger modulus"""
    def __init__(self, limit=400000):
        self.memo = {}; self.low = {}; self.limit = limit
    def lowvar(self, i, d):
        v = self.low.get(i)
        if v is None:
            # i = (L - d/2 + psi)/d
            v = self.low[i] = psub(pc(d // 2), dom.var('psi%d' % i, 1 - d // 2, d // 2)) if d > 1 else ZERO
        return v
    def atom(self, i, m):
        """(R,K) or None (keep the atom)"""
        A = ATOMS[i]
        if A.kind == 'fl':
            L, d = A.args
            if isinstance(d, Poly) or d & (d - 1): return None
            k = d.bit_length() - 1
            R, K = self.poly(L, m + k)
            return psub(R, pscale(self.lowvar(i, d), 1 << K)), K + k
        if A.kind in ('umod', 'cmod'):
            X, W = A.args
            if W < m: return None
            return self.poly(X, m)
        if A.kind == 'nm':
            return None
        return None
    def poly(self, P, m):
        m0 = m
        key = (P.key(), m)
        r = self.memo.get(key)
        if r is not None: return r
        P = wnorm(P, m)
        parts = {}   # K -> Poly
        simple = {}
        for mono, c in P.d.items():
            if not isinstance(c, int): raise Undecided('phase of a non-integer polynomial')
            need = m - v2(c)
            keep = []; subs = []
            for i in mono:
                r = self.atom_memo(i, need)
                if r is None: keep.append(i)
                else: subs.append(r)
            if not subs:
                simple[mono] = simple.get(mono, 0) + c
                continue
            T = Poly({tuple(keep): c}); K = 0
            for R, k in subs:
                T = pmul(T, R); K += k
                if len(T.d) > self.limit: raise TooBig('phase')
            parts.setdefault(K, []).append(T)
        if simple: parts.setdefault(0, []).append(Poly(simple))
        KM = max(parts) if parts else 0
        acc = {}
        for K, ts in parts.items():
            s = KM - K
            for T in ts:
                for mono, c in T.d.items():
                    acc[mono] = acc.get(mono, 0) + (c << s)
        R = wnorm(Poly({a: b for a, b in acc.items() if b}), m + KM)
        # common power of two
        if KM and R.d:
            g = min(v2(c) for c in R.d.values())
            g = min(g, KM)
            if g:
                R = Poly({a: b >> g for a, b in R.d.items()}); KM -= g
        r = (R, KM)
        self.memo[key] = r
        return r
    def atom_memo(self, i, m):
        k = (i, m)
        if k in self.memo: return self.memo[k]
        r = self.memo[k] = self.atom(i, m)
        return r

def unstep(P):
    """thresholds of three-valued unknowns in {-1,0,1} written as powers: (Q, j) with Q = 2^j P"""
    mp = {}
    tern = set()
    for i in dom.patoms(P):
        A = ATOMS[i]
        if A.kind == 'step' and A.t in (0, 1):
            L = dom.CORES[A.core]
            if len(L.d) == 1:
                (mo, c), = L.d.items()
                if len(mo) == 1 and c == 1 and ATOMS[mo[0]].kind == 'var' and ATOMS[mo[0]].lo == -1 and ATOMS[mo[0]].hi == 1 and ATOMS[mo[0]].isint:
                    v = mo[0]; tern.add(v)
                    mp[i] = (v, A.t)
    for i in dom.patoms(P):
        A = ATOMS[i]
        if A.kind == 'var' and A.isint and A.lo == -1 and A.hi == 1: tern.add(i)
    if not tern: return P, 0
    deg = 0
    for mono in P.d: deg = max(deg, sum(1 for i in mono if i in mp))
    acc = {}
    for mono, c in P.d.items():
        terms = {tuple(i for i in mono if i not in mp): c}
        n = 0
        for i in mono:
            if i in mp:
                v, t = mp[i]; n += 1
                # [v>=1] = (v^2+v)/2, [v>=0] = 1 + (v-v^2)/2
                new = {}
                for mo, k in terms.items():
                    for extra, f in (((v, v), 1 if t == 1 else -1), ((v,), 1)) + ((((), 2),) if t == 0 else ()):
                        mm = tuple(sorted(mo + extra))
                        new[mm] = new.get(mm, 0) + k * f
                terms = new
        f = 1 << (deg - n)
        for mo, k in terms.items():
            mo = cube(mo, tern)
            acc[mo] = acc.get(mo, 0) + k * f
    return Poly({a: b for a, b in acc.items() if b}), deg

def cube(mo, tern):
    out = []; last = None; n = 0
    cnt = {}
    for i in mo: cnt[i] = cnt.get(i, 0) + 1
    for i in sorted(cnt):
        n = cnt[i]
        if i in tern and n > 2: n = 2 if n % 2 == 0 else 1
        out += [i] * n
    return tuple(out)

def signs(P):
    """r*b with r in [0,h] and one boolean b: r - 2rb is one unknown in [-h,h]: (Q, j), Q = 2^j P"""
    co = {}
    for mono in P.d:
        for i in mono:
            A = ATOMS[i]
            if A.kind in ('rem', 'var') and A.isint and A.lo == 0 and 0 < A.hi < 1 << 20:
                for b in mono:
                    if ATOMS[b].isbool: co.setdefault(i, set()).add(b)
    co = {i: next(iter(bs)) for i, bs in co.items() if len(bs) == 1}
    if not co: return P, 0
    new = {i: dom.var('signed%d' % i, -ATOMS[i].hi, ATOMS[i].hi) for i in co}
    hit = [mono for mono in P.d if any(i in co and co[i] in mono for i in mono)]
    acc = {}
    for mono, c in P.d.items():
        i = next((i for i in mono if i in co and co[i] in mono and mono.count(i) == 1), None)
        if i is None:
            acc[mono] = acc.get(mono, 0) + 2 * c; continue
        rest = tuple(x for x in mono if x != i and x != co[i])
        (e,), = new[i].d
        m1 = tuple(sorted(rest + (i,))); m2 = tuple(sorted(rest + (e,)))
        acc[m1] = acc.get(m1, 0) + c
        acc[m2] = acc.get(m2, 0) - c
    return Poly({a: b for a, b in acc.items() if b}), 1

def error_range(E, m, R=None):
    """range of the centered representative of E modulo 2^m (rational bounds, as floats rounded outwards), or None"""
    R = R or Resolver()
    Q, K = R.poly(E, m)
    for f in (unstep, signs, signs, signs):
        Q, j = f(Q); K += j
    Q = wnorm(Q, m + K) if m + K >= 1 else Q
    # centre every coefficient
    M = 1 << (m + K)
    Q = Poly({a: (c if 2 * c <= M else c - M) for a, c in ((a, c % M) for a, c in Q.d.items()) if c})
    lo, hi = prange(Q)
    return lo, hi, K, Q

def bounded(r, E, m, B, what):
    """|E| <= B modulo 2^m; B a number with B*2^K integral, or a pair (lo,hi)"""
    out = r.out
    out.checks += 1
    lo_b, hi_b = B if isinstance(B, tuple) else (-B, B)
    E = wnorm(E, m)
    try:
        lo, hi, K, Q = error_range(E, m)
        if lo >= lo_b * (1 << K) and hi <= hi_b * (1 << K) and hi - lo < 1 << (m + K):
            out.discharged += 1
            return True
        why = 'range [%s,%s]' % (dom.fmtnum(lo / (1 << K)) if K < 900 else '?', dom.fmtnum(hi / (1 << K)) if K < 900 else '?')
        why += ' of ' + dom.pstr(Q, 4)
    except TooBig:
        why = 'expression too big'
    h = 1 << (m - 1)
    def bad(v):
        v %= 1 << m
        if v >= h: v -= 1 << m
        return v < lo_b or v > hi_b
    w = r.witness(E, bad)
    if w is not None:
        env, v = w
        v %= 1 << m
        if v >= h: v -= 1 << m
        loc, fn = r.site()
        out.refute('%s: error %s, allowed [%s,%s]' % (what, dom.fmtnum(v), lo_b, hi_b), env, loc, fn)
        return False
    out.undecided('%s: error %s not shown inside [%s,%s]' % (what, why[:300], lo_b, hi_b))
    return False
