"""C09: rescaling and modulus raising"""
from check import Unit
from gen import W
import ob, interp, dom, sums, phase
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, prange, fl, ge0
from interp import Ptr, cmod, umod
from sums import nega, zsz
from p_C18 import key, pairphase
from p_C02 import centred

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: 2^k times the phase of the rescaled ciphertext minus the phase of the input must stay within 2^k(1+N)/2 modulo the old modulus (error terms of the rounded shifts are bounded unknowns); every component of the raised pair must equal the centered component of the input',
  explanation='ciphertext coefficients and (N<=4) the key are unknown; one obligation per coefficient')

def units(tier):
    q = tier == 'quick'
    cfg = [(60, 30, 2, 'any'), (128, 64, 2, 'any'), (100, 80, 4, 'any'), (130, 65, 4, 1), (200, 136, 8, 2), (129, 128, 2, 'any'), (192, 128, 2, 'any'), (64, 63, 2, 'any'), (90, 26, 4, 'any')]
    if not q: cfg += [(W2, t, N, k) for W2, t in ((70, 6), (65, 64), (256, 100), (300, 299), (500, 436), (500, 435), (1200, 600), (1200, 1137), (127, 65)) for N, k in ((2, 'any'), (8, 1))]
    up = [(20, 60, 2), (64, 128, 2), (65, 130, 4), (63, 64, 2), (40, 200, 4), (128, 500, 2), (60, 200, 1024), (65, 1450, 512)] + ([] if q else [(30, 600, 8), (192, 193, 2), (100, 1200, 2), (33, 65, 4), (64, 65, 2), (127, 256, 2)])
    return [down(*c) for c in cfg] + [raised(*c) for c in up]

def down(w, t_, N, kind):
    g = W('HEAAN/core.h')
    g.fn('rs', 'const R_Q_square<%d,%d>*a,R_Q_square<%d,%d>*b' % (w, N, t_, N), 'RS<%d,%d,%d>(*a,*b);' % (w, t_, N))
    k_ = w - t_
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind)
        x, X = r.pair('x', w, N)
        o = Ptr(r.obj(2 * zsz(t_) * N, 'y'), 0)
        r.call('w_rs', [x, o])
        R = r.gpair(o, t_, N)
        h = N if kind == 'any' else sum(1 for v in s if v.d)
        for k in range(N):
            E = psub(pscale(pairphase(R, s, N, k), 1 << k_), pairphase(X, s, N, k))
            phase.bounded(r, E, w, ((1 + h) << k_) // 2, 'rescaled ciphertext, coefficient %d (error in units of 2^-%d)' % (k, k_))
            for j in range(2): r.canonical(o, zsz(t_) * (N * j + k), t_, 'canonical coefficient')
        r.events()
    return Unit('d%d_%d_%d_%s' % (w, t_, N, kind), g.src(), [('rescale %d to %d N=%d key %s' % (w, t_, N, kind), t, 200)])

def raised(w, t_, N):
    g = W('HEAAN/bootstrap.h')
    g.fn('up', 'const R_Q_square<%d,%d>*a,R_Q_square<%d,%d>*b' % (w, N, t_, N), 'resize(*a,*b);')
    g.fn('up1', 'const R_Q<%d,%d>*a,R_Q<%d,%d>*b' % (w, N, t_, N), 'resize(*a,*b);')
    g.fn('mr', 'const R_Q_square<%d,%d>*a,R_Q_square<%d,%d>*b' % (w, N, t_, N), 'mod_raise(*a,*b);')
    def run(out, mod, S, f, n):
        r = Run(mod, S, out)
        x, X = r.pair('x', w, N, limb=False) if n == 2 else r.poly('x', w, N)
        if n == 1: X = [X]
        o = Ptr(r.obj(n * zsz(t_) * N, 'y'), 0)
        r.call(f, [x, o])
        for j in range(n):
            for k in range(N):
                R = r.gwide(o, zsz(t_) * (N * j + k), t_)
                r.zero(psub(R, centred(X[j][k], w)), 'component %d coefficient %d of the raised ciphertext' % (j, k), t_)
                r.canonical(o, zsz(t_) * (N * j + k), t_, 'canonical coefficient')
        r.events()
    return Unit('u%d_%d_%d' % (w, t_, N), g.src(), [
        ('modulus raising %d to %d N=%d' % (w, t_, N), lambda o, m, S: run(o, m, S, 'w_mr', 2), 200),
        ('pair resize %d to %d N=%d' % (w, t_, N), lambda o, m, S: run(o, m, S, 'w_up', 2), 200),
        ('polynomial resize %d to %d N=%d' % (w, t_, N), lambda o, m, S: run(o, m, S, 'w_up1', 1), 200)])
