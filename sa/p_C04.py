"""C04: CRT decomposition and reconstruction"""
from check import Unit
from gen import W
import ob, interp, dom, nt
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ge0, fl, prange, gate, cnorm
from interp import Ptr, to_u, SV
from p_C02 import centred

NOSUM = ('CRT<',)
META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: each residue written by icrt, minus the centered operand, must vanish modulo the prime; the value written by crt must equal P - Q*floor((2P+Q)/2Q) modulo 2^LOGQ where P is the CRT combination of the supplied residues (any 64-bit representatives), Q the product of the primes',
  explanation='operands are unknown limbs / unknown residue words; the primes are the constants of the driver; one obligation per residue or reconstructed integer')

BIG = nt.primes_1mod(1 << 18, 1 << 60, 50)
SMALL = [97, 193, 257, 12289, 65537, 786433]
MID = nt.primes_1mod(1 << 10, 1 << 40, 8)
BELOW = [0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff240001, 0xffffffffe7c0001]

def units(tier):
    cfg = [(1, 20, BIG), (2, 30, BIG), (3, 64, BIG), (3, 63, BELOW), (3, 62, BIG), (2, 10, SMALL), (3, 20, SMALL), (5, 100, BIG), (4, 100, MID), (5, 128, BIG), (4, 65, BELOW + BIG)]
    if tier != 'quick': cfg += [(4, 64, MID), (6, 130, BIG), (8, 192, BIG), (10, 256, BIG), (12, 300, BIG)]
    cfg += [(22, 600, BIG)] if tier == 'quick' else [(22, 600, BIG), (44, 1270, BIG)]
    icfg = cfg + [(44, 1270, BIG)] + ([(43, 1240, BIG), (11, 300, MID + BIG)] if tier != 'quick' else [])
    return [unit(c, 'r%d' % k, c in cfg, tier) for k, c in enumerate(icfg)]

def unit(c, tag, both, tier):
    L, w, tab = c
    q = tab[:L]
    Q = 1
    for x in q: Q *= x
    g = W('HEAAN/arith/conv/crt.h', 'new')
    T = 'CRT<%d,%d>' % (L, w)
    g.text('static constexpr uint64_t QS[] = {%s};\n' % ','.join('%dULL' % x for x in q))
    g.fn('ctor', '%s*c' % T, 'new (c) %s(QS);' % T)
    g.fn('crt', 'const %s*c, const uint64_t*r, Z_Q<%d>*A' % (T, w), 'c->crt(r,*A);')
    g.fn('icrt', 'const %s*c, const Z_Q<%d>*A, uint64_t*r' % (T, w), 'c->icrt(*A,r);')
    g.fn('size', '', 'return sizeof(%s);' % T, 'uint64_t')
    W64 = 64 * (L + 1)
    def setup(out, mod, S):
        r = Run(mod, S, out)
        sz = r.call('w_size', [])
        c = Ptr(r.obj(sz, 'crt'), 0)
        r.call('w_ctor', [c])
        return r, c
    tasks = []
    def t(out, mod, S):
        r, c = setup(out, mod, S)
        p, A = r.wide('A', w); o = r.out_words('r', L)
        c.obj.ro = True
        r.call('w_icrt', [c, p, o])
        R = r.gwords(o, L)
        C = centred(A, w)
        for i in range(L):
            congruent(r, psub(R[i], C), q[i], 'residue %d of a width-%d integer' % (i, w))
        r.events()
    tasks.append(('decompose L=%d width %d' % (L, w), t, 300))
    if both:
        def t(out, mod, S):
            r, c = setup(out, mod, S)
            rs, R = r.words('r', L, ro=True)
            for v in R:
                (m,) = v.d
                r.specials[m[0]] = [q[0], q[0] - 1, q[0] // 2, 0, 1]
            a = r.wideout('A', w)
            c.obj.ro = True
            r.call('w_crt', [c, rs, a])
            V = r.gwide(a, 0, w)
            r.zero(psub(V, lift(R, q)), 'integer reconstructed from residues', w)
            r.canonical(a, 0, w, 'canonical result')
            r.events()
        tasks.append(('reconstruct L=%d width %d' % (L, w), t, 400))
        def t(out, mod, S):
            # reconstruction of a decomposition; the bound is the product of the primes
            if w > Q.bit_length() - 1:
                return
            r, c = setup(out, mod, S)
            p, A = r.wide('A', w); o = r.out_words('r', L); a = r.wideout('B', w)
            C = centred(A, w)
            # residues of the centered value
            for i in range(L):
                r.it.store(Ptr(o.obj, 8 * i), ('i', 64), SV(dom.rem(C, q[i])))
            r.call('w_crt', [c, o, a])
            r.zero(psub(r.gwide(a, 0, w), lift([C] * L, q)), 'reconstruction of a decomposition', w)
            r.events()
        if L <= 3: tasks.append(('round trip L=%d width %d' % (L, w), t, 300))
    return Unit(tag, g.src(), tasks)

def lift(R, q):
    """centered integer with residues R modulo the primes q"""
    Q = 1
    for x in q: Q *= x
    P = ZERO
    for i, x in enumerate(q):
        m = Q // x
        P = padd(P, pscale(dom.rem(pmul(R[i], pc(pow(m, -1, x))), x), m))
    # nearest multiple of Q: 0 <= P < L*Q
    K = ZERO
    for k in range(1, len(q) + 1):
        K = padd(K, ge0(paddc(P, -(((2 * k - 1) * Q + 1) // 2))))
    return psub(P, pscale(K, Q))

def congruent(r, P, q, what):
    """P = 0 modulo q"""
    out = r.out
    out.checks += 1
    N = cnorm(P, q)
    if not N.d:
        out.discharged += 1; return True
    N = cnorm(ob.expand_residues(N), q)
    if not N.d:
        out.discharged += 1; return True
    w = r.witness(P, lambda v: v % q != 0)
    if w is not None:
        loc, fn = r.site()
        out.refute('%s is not congruent modulo %d (off by %d)' % (what, q, w[1] % q), w[0], loc, fn)
        return False
    out.undecided('%s: residual %s' % (what, dom.pstr(N, 6)))
    return False
