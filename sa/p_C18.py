"""C18: switching keys and key switching"""
from check import Unit
from gen import W
import ob, interp, dom, sums, phase, random
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ONE, ge0, prange, ATOMS
from interp import Ptr, to_u, SV, WV
from sums import nega, zsz

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the phase of a switching key minus 2^LOGQ times the source key must stay in [-8,8] modulo 2^(2 LOGQ); the phase of a switched ciphertext minus the phase of the input under the source key must stay within N(8+1/2)+1 modulo 2^LOGQ, where floors of rounded shifts are replaced by bounded error terms',
  explanation='ciphertext coefficients, switching-key masks, noises and (N<=4) the target key are unknown; source keys are listed integer vectors or unknown; larger degrees use listed sparse target keys; one obligation per coefficient')

def swk(r, name, w, N, s, fr):
    """unknown switching key from fr to s: pointer, (b,a), e"""
    W2 = 2 * w
    sz = zsz(W2)
    o = r.obj(2 * sz * N, name, ro=True)
    a = [dom.var('%s_a[%d]' % (name, k), 0, (1 << W2) - 1) for k in range(N)]
    e = [dom.var('%s_e[%d]' % (name, k), -8, 8) for k in range(N)]
    b = []
    for k in range(N):
        P = psub(padd(pscale(fr[k], 1 << w), e[k]), nega(s, a, N, k))
        b.append(P)
        o.cells[sz * k] = (sz, WV(P, W2)); o.cells[sz * (N + k)] = (sz, WV(a[k], W2))
    o.maxsz = max(8, sz); o.gran = sz
    return Ptr(o, 0), b, a, e

def key(r, name, N, kind):
    """(pointer, polynomials) of a ternary key: unknown or a listed one"""
    if kind == 'any': return r.ints(name, N, -1, 1)
    vals = [0] * N
    rnd = random.Random(kind * 1000 + N)
    for i in rnd.sample(range(N), min(N, 2 + kind % 2)): vals[i] = rnd.choice((-1, 1))
    return r.const_ints(name, vals), [pc(v) for v in vals]

def pairphase(C, s, N, k):
    return padd(C[0][k], nega(s, C[1], N, k))

def units(tier):
    q = tier == 'quick'
    us = []
    for w, N, kind in ([(30, 2, 'any'), (64, 2, 'any'), (40, 4, 'any'), (65, 4, 1), (100, 8, 2), (50, 16, 1)] if q else
                       [(30, 2, 'any'), (64, 2, 'any'), (40, 4, 'any'), (33, 2, 'any'), (128, 4, 'any'), (65, 4, 1), (100, 8, 2), (100, 8, 3), (50, 16, 1), (200, 8, 1), (40, 32, 1), (300, 4, 2), (600, 2, 'any'), (32, 2, 'any'), (31, 2, 'any')]):
        us.append(unit(w, N, kind))
    return us

SRC = [lambda N: [((i * 7) % 5) - 2 for i in range(N)], lambda N: [(-1) ** i * (i % 4) for i in range(N)], lambda N: [1 if i == N - 1 else 0 for i in range(N)], lambda N: [-3] + [0] * (N - 1)]

def unit(w, N, kind):
    g = W('HEAAN/core.h')
    H = 'HEAAN<%d,%d>' % (w, N)
    C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('gen', 'const int*f,const int*t,%s*k' % K, '%s::swkgen(f,t,*k);' % H)
    g.fn('ks', 'const %s*k,%s*c' % (K, C), '%s::ks(*k,*c);' % H)
    tasks = []
    B = N * 8.5 + 1
    for n, src in enumerate(SRC):
        def t(out, mod, S, src=src):
            r = Run(mod, S, out)
            p, s = key(r, 's', N, kind)
            f = src(N); fp = r.const_ints('f', f)
            o = Ptr(r.obj(2 * zsz(2 * w) * N, 'k'), 0)
            r.call('w_gen', [fp, p, o])
            R = r.gpair(o, 2 * w, N)
            for k in range(N):
                phase.bounded(r, psub(pairphase(R, s, N, k), pc(f[k] << w)), 2 * w, 8, 'switching key from %s, coefficient %d' % (f, k))
                for j in range(2): r.canonical(o, zsz(2 * w) * (N * j + k), 2 * w, 'canonical coefficient')
            r.events()
        tasks.append(('switching key %d N=%d width %d key %s' % (n, N, w, kind), t, 200))
    def t(out, mod, S):
        # unknown ternary source key
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind); fp, f = r.ints('f', N, -1, 1)
        o = Ptr(r.obj(2 * zsz(2 * w) * N, 'k'), 0)
        r.call('w_gen', [fp, p, o])
        R = r.gpair(o, 2 * w, N)
        for k in range(N):
            phase.bounded(r, psub(pairphase(R, s, N, k), pscale(f[k], 1 << w)), 2 * w, 8, 'switching key from an unknown ternary key, coefficient %d' % k)
        r.events()
    tasks.append(('switching key from any ternary N=%d width %d key %s' % (N, w, kind), t, 200))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind)
        f = [dom.var('f[%d]' % k, -2, 2) for k in range(N)]
        kp, b, a, e = swk(r, 'swk', w, N, s, f)
        c, Cc = r.pair('c', w, N, ro=False)
        r.call('w_ks', [kp, c])
        R = r.gpair(c, w, N)
        for k in range(N):
            E = psub(pairphase(R, s, N, k), pairphase(Cc, f, N, k))
            phase.bounded(r, E, w, B, 'switched ciphertext, coefficient %d' % k)
            for j in range(2): r.canonical(c, zsz(w) * (N * j + k), w, 'canonical coefficient')
        r.events()
    tasks.append(('key switching N=%d width %d key %s' % (N, w, kind), t, 300))
    def t(out, mod, S):
        # the second component of the result only depends on the second component of the input
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind)
        kp, K2 = r.pair('k', 2 * w, N)
        c, C1 = r.pair('c', w, N, ro=False)
        r.call('w_ks', [kp, c])
        R = r.gpair(c, w, N)
        for k in range(N):
            X = [dom.fl(paddc(interp.umod(nega(K2[j], C1[1], N, k), 2 * w), 1 << (w - 1)), 1 << w) for j in range(2)]
            r.zero(psub(R[0][k], padd(C1[0][k], X[0])), 'first component of the switched ciphertext, coefficient %d' % k, w)
            r.zero(psub(R[1][k], X[1]), 'second component of the switched ciphertext, coefficient %d' % k, w)
        r.events()
    if N <= 4: tasks.append(('switching formula N=%d width %d' % (N, w), t, 200))
    return Unit('k%d_%d_%s' % (w, N, kind), g.src(), tasks)
