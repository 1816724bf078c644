"""C07: key generation, encryption, decryption"""
from check import Unit
from gen import W
import ob, interp, dom, sums, phase
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ONE, ge0, eq0, prange, gate, ATOMS
from interp import Ptr, to_u, SV, WV, to_s
from sums import nega, zsz

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR with one unknown per rand() call: every mask limb must be a mixed-radix combination of rand() values used nowhere else that reaches all 64 bits, the decryption of the encryption minus the message must stay in [-8,8] and not involve the mask, and key generation must place exactly h entries of value +-1 in distinct positions',
  explanation='message, key and every rand() result are unknown; key generation is decided by the state reached after each placement; one obligation per coefficient')

def mixed_radix(r, P, bits, what, used):
    """P modulo 2^bits = sum of c_k * rand_k over rand() values used nowhere else, reaching every value"""
    out = r.out
    out.checks += 1
    P = interp.wnorm(P, bits)
    loc, fn = r.site()
    terms = []
    for m, c in P.d.items():
        if len(m) != 1 or ATOMS[m[0]].kind != 'var' or not ATOMS[m[0]].name.startswith('rand'):
            # not a plain combination
            return nonlinear(r, P, bits, what, used)
        terms.append((c % (1 << bits), m[0]))
    terms.sort()
    reach = 1
    exact = True
    for c, i in terms:
        if c > reach: break
        if c != reach and reach < 1 << bits: exact = False
        reach = reach + c * ATOMS[i].hi
    if reach < 1 << bits:
        out.refute('%s takes at most %d of 2^%d values' % (what, reach, bits), {}, loc, fn); return False
    if not exact: out.undecided('%s is not uniform by radix' % what); return False
    terms = [(c, DIG.get(i, i)) for c, i in terms if c < 1 << bits]
    dup = [i for c, i in terms if i in used]
    if dup:
        out.refute('%s reuses the random value %s of %s' % (what, ATOMS[dup[0]].name, used[dup[0]]), {}, loc, fn); return False
    for c, i in terms: used[i] = what
    out.discharged += 1
    return True

def nonlinear(r, P, bits, what, used):
    out = r.out
    if P.isconst():
        loc, fn = r.site()
        out.refute('%s is the constant %d' % (what, P.const()), {}, loc, fn); return False
    bad = [i for i in dom.base_vars(P) if ATOMS[i].name.split('[')[0].split('.')[0] in ('m', 's')]
    if bad:
        loc, fn = r.site()
        out.refute('%s depends on %s' % (what, ATOMS[bad[0]].name), {}, loc, fn); return False
    # some bit never set or always set?
    import random
    vs = sorted(dom.base_vars(P)); rnd = random.Random(r.seed)
    lo, hi = prange(P)
    if lo >= 0 and hi < (1 << bits) - 1:
        loc, fn = r.site()
        out.refute('%s never exceeds %d' % (what, hi), {}, loc, fn); return False
    o = 0; a = (1 << bits) - 1
    for _ in range(200):
        try: v = dom.ev(P, {i: rnd.randint(ATOMS[i].lo, ATOMS[i].hi) for i in vs}) % (1 << bits)
        except dom.EvalError: break
        o |= v; a &= v
    else:
        if o != (1 << bits) - 1 or a:
            out.undecided('%s: some bit looks constant' % what); return False
    out.undecided('%s is not a plain combination of random values' % what)
    return False

def fresh(r, o, w, N, s, M):
    """the pair at o is a fresh encryption of M under s"""
    out = r.out
    used = {}; DIG.clear()
    n = (w + 63) // 64
    q = r.it.ptr_add(o, zsz(w) * N, None, None)
    A = []
    for k in range(N):
        und = [j for j in range(n) if (q.off + zsz(w) * k + 8 * j) not in q.obj.cells and type(q.obj.cells.get(q.off + zsz(w) * k, (0, 0))[1]) is not WV]
        if und:
            out.checks += 1
            loc, fn = r.site(); out.refute('mask coefficient %d limb %d is never written' % (k, und[0]), {}, loc, fn)
        P = r.gwide(q, zsz(w) * k, w)
        A.append(P)
        mixed_radix(r, digits(strip(P, w), w), w, 'mask coefficient %d' % k, used)
        r.canonical(q, zsz(w) * k, w, 'canonical mask')
    B = r.gpoly(o, w, N)
    for k in range(N):
        E = psub(padd(B[k], nega(s, A, N, k)), M[k])
        E = ob.modreduce(ob.small_vars(ob.modreduce(E, w)), w)
        out.checks += 1
        dep = [i for i in dom.base_vars(E) if i in used or i in {j for x in list(s) + list(M) for j in dom.base_vars(x)}]
        if dep:
            phase.bounded(r, E, w, 8, 'noise of coefficient %d (which involves %s)' % (k, ATOMS[dep[0]].name))
        else:
            out.discharged += 1
            phase.bounded(r, E, w, 8, 'noise of coefficient %d' % k)
        r.canonical(o, zsz(w) * k, w, 'canonical body')

def digits(P, w):
    """r - 2^j floor(r/2^j) written as a digit in [0,2^j)"""
    P = interp.wnorm(P, w)
    for i in list(dom.patoms(P)):
        A = ATOMS[i]
        if A.kind != 'fl' or isinstance(A.args[1], dom.Poly): continue
        L, d = A.args
        if len(L.d) != 1: continue
        ((m, c),) = L.d.items()
        if c != 1 or len(m) != 1 or (m not in P.d) or ((i,) not in P.d): continue
        if (P.d[(i,)] + P.d[m] * d) % (1 << w): continue
        if sum(1 for x in P.d if i in x) != 1 or sum(1 for x in P.d if m[0] in x) != 1: continue
        v = dom.var('rand-digit of ' + ATOMS[m[0]].name, 0, d - 1)
        DIG[next(iter(v.d))[0]] = m[0]
        k = P.d[m]
        dd = dict(P.d); del dd[m]; del dd[(i,)]
        P = padd(dom.Poly(dd), pscale(v, k))
    return P

DIG = {}
def strip(P, bits):
    """undo the reduction modulo 2^bits of a stored limb"""
    for _ in range(8):
        P = interp.wnorm(P, bits)
        mp = {}
        for i in dom.patoms(P):
            A = ATOMS[i]
            if A.kind == 'umod' and A.args[1] >= bits: mp[i] = A.args[0]
        if not mp: return P
        P = dom.psubst(P, mp)
    return P

def units(tier):
    q = tier == 'quick'
    cfg = [(30, 2), (64, 2), (65, 2), (130, 4), (20, 4)] if q else [(30, 2), (64, 2), (65, 2), (130, 4), (20, 4), (200, 8), (5, 2), (63, 1), (128, 4), (600, 4), (1200, 2), (33, 8), (20, 16)]
    us = [u_enc(w, N) for w, N in cfg]
    us.append(u_keygen([(2, 1), (4, 2), (8, 1), (4, 3), (16, 2), (4, 0), (2, 2)] if q else [(2, 1), (2, 2), (4, 1), (4, 2), (4, 3), (8, 1), (8, 2), (4, 4), (4, 0), (16, 2), (32, 2), (64, 3)]))
    return us

def u_enc(w, N):
    g = W('HEAAN/core.h')
    T = 'R_Q<%d,%d>' % (w, N); T2 = 'R_Q_square<%d,%d>' % (w, N)
    g.fn('enc', 'const %s*m,const int*s,%s*c' % (T, T2), 'HEAAN<%d,%d>::enc(*m,s,*c);' % (w, N))
    g.fn('dec', 'const %s*c,const int*s,%s*m' % (T2, T), 'HEAAN<%d,%d>::dec(*c,s,*m);' % (w, N))
    tasks = []
    def t(out, mod, S):
        r = Run(mod, S.without('::enc('), out)
        p, s = r.ints('s', N, -1, 1); mp, M = r.poly('m', w, N)
        for rd in range(2):
            o = Ptr(r.obj(2 * zsz(w) * N, 'ct'), 0)
            r.call('w_enc', [mp, p, o])
            fresh(r, o, w, N, s, M)
        r.events()
    tasks.append(('encryption N=%d width %d' % (N, w), t, 200))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, s = r.ints('s', N, -1, 1); c, C = r.pair('c', w, N)
        o = Ptr(r.obj(zsz(w) * N, 'm'), 0)
        r.call('w_dec', [c, p, o])
        R = r.gpoly(o, w, N)
        for k in range(N):
            r.zero(psub(R[k], padd(C[0][k], nega(s, C[1], N, k))), 'coefficient %d of the decryption' % k, w)
            r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        r.events()
    tasks.append(('decryption N=%d width %d' % (N, w), t, 200))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, s = r.ints('s', N, -1, 1); mp, M = r.poly('m', w, N)
        o = Ptr(r.obj(2 * zsz(w) * N, 'ct'), 0); d = Ptr(r.obj(zsz(w) * N, 'd'), 0)
        r.call('w_enc', [mp, p, o])
        o.obj.ro = True
        r.call('w_dec', [o, p, d])
        R = r.gpoly(d, w, N)
        for k in range(N):
            phase.bounded(r, psub(R[k], M[k]), w, 8, 'decryption of a fresh encryption, coefficient %d' % k)
        r.events()
    if w > 6: tasks.append(('round trip N=%d width %d' % (N, w), t, 200))
    return Unit('e%d_%d' % (w, N), g.src(), tasks)

def u_keygen(cfg):
    import itertools, random
    g = W('HEAAN/core.h')
    tasks = []
    for N, h in cfg:
        g.fn('kg%d' % N, 'int h,int*s', 'HEAAN<60,%d>::keygen(h,s);' % N)
        def t(out, mod, S, N=N, h=h):
            # cases: the residues modulo N of the successive rand() results
            n = 2 * h + 2
            if N ** n <= 1500: seqs = list(itertools.product(range(N), repeat=n))
            else:
                rnd = random.Random(3)
                seqs = [tuple(rnd.randrange(N) for _ in range(n + N)) for _ in range(400)]
            done = 0; seen = set()
            for sq in seqs:
                r = Run(mod, S, out)
                r.it.rand_script = [(c, N if N % 2 == 0 else 2 * N) for c in sq]
                o = r.out_words('s', N, 4)
                try: r.call('w_kg%d' % N, [h, o])
                except dom.Undecided as e:
                    if 'script' in str(e): continue
                    raise
                if sq[:r.it.nrand] in seen: continue
                seen.add(sq[:r.it.nrand])
                done += 1
                s = r.gints(o, N)
                tot = ZERO
                for k in range(N):
                    r.in_range(s[k], -1, 1, 'entry %d when the draws are %s modulo %d' % (k, list(sq), N))
                    tot = padd(tot, pmul(s[k], s[k]))
                r.zero(paddc(tot, -h), 'number of non-zero entries when the draws are %s modulo %d' % (list(sq), N))
                r.events()
            if not done: out.undecided('no case completed')
        tasks.append(('key generation N=%d h=%d' % (N, h), t, 120))
    return Unit('kg', g.src(), tasks)
