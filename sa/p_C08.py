"""C08: relinearised multiplication"""
from check import Unit
from gen import W
import ob, interp, dom, sums, phase
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, prange
from interp import Ptr
from sums import nega, zsz
from p_C18 import swk, key, pairphase

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the phase of the product ciphertext minus the negacyclic product of the two input phases must stay within N(8+1/2)+1 modulo 2^LOGQ for unknown ciphertexts and an evaluation key whose phase is 2^LOGQ s^2 + e, |e|<=8 (rounded shifts become bounded error terms)',
  explanation='all ciphertext coefficients, the evaluation key mask and noise and (N<=4) the secret key are unknown; one obligation per coefficient, for distinct and for identical arguments, repeated calls included')

def units(tier):
    q = tier == 'quick'
    cfg = [(30, 2, 'any'), (64, 2, 'any'), (40, 4, 'any'), (65, 4, 1), (100, 8, 2), (50, 16, 1), (32, 2, 'any'), (33, 4, 'any'), (128, 4, 2), (31, 2, 'any')]
    if not q: cfg += [(33, 2, 'any'), (128, 4, 'any'), (100, 8, 3), (200, 8, 1), (40, 32, 1), (40, 64, 2), (300, 4, 2), (600, 2, 'any'), (63, 4, 'any'), (96, 8, 'any'), (30, 8, 'any')]
    return [unit(*c) for c in cfg]

def unit(w, N, kind):
    g = W('HEAAN/core.h')
    C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('mul', 'const %s*a,const %s*b,const %s*k,%s*c' % (C, C, K, C), 'Mul<%d,%d>(*a,*b,*k,*c);' % (w, N))
    g.fn('ci', 'const int*a,const int*b,int*c', 'conv<%d>(a,b,c);' % N)
    g.fn('gen', 'const int*f,const int*t,%s*k' % K, 'HEAAN<%d,%d>::swkgen(f,t,*k);' % (w, N))
    B = N * 8.5 + 1
    tasks = []
    def check(r, R, s, P1, P2, what):
        for k in range(N):
            E = psub(pairphase(R, s, N, k), nega(P1, P2, N, k))
            phase.bounded(r, E, w, B, '%s, coefficient %d' % (what, k))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind)
        s2 = [nega(s, s, N, k) for k in range(N)]
        kp, b, a, e = swk(r, 'evk', w, N, s, s2)
        x, X = r.pair('x', w, N); y, Y = r.pair('y', w, N)
        PX = [pairphase(X, s, N, k) for k in range(N)]; PY = [pairphase(Y, s, N, k) for k in range(N)]
        o = Ptr(r.obj(2 * zsz(w) * N, 'z'), 0)
        r.call('w_mul', [x, y, kp, o])
        R = r.gpair(o, w, N)
        check(r, R, s, PX, PY, 'product')
        for j in range(2):
            for k in range(N): r.canonical(o, zsz(w) * (N * j + k), w, 'canonical coefficient')
        o2 = Ptr(r.obj(2 * zsz(w) * N, 'zz'), 0)
        r.call('w_mul', [x, x, kp, o2])
        check(r, r.gpair(o2, w, N), s, PX, PX, 'square (both arguments the same object)')
        o3 = Ptr(r.obj(2 * zsz(w) * N, 'zzz'), 0)
        r.call('w_mul', [y, x, kp, o3])
        check(r, r.gpair(o3, w, N), s, PY, PX, 'product in the other order')
        r.events()
    tasks.append(('product N=%d width %d key %s' % (N, w, kind), t, 400))
    def t(out, mod, S):
        # evaluation key made by the library
        r = Run(mod, S, out)
        p, s = key(r, 's', N, kind)
        s2 = r.out_words('s2', N, 4)
        r.call('w_ci', [p, p, s2])
        kp = Ptr(r.obj(2 * zsz(2 * w) * N, 'evk'), 0)
        r.call('w_gen', [s2, p, kp])
        x, X = r.pair('x', w, N); y, Y = r.pair('y', w, N)
        PX = [pairphase(X, s, N, k) for k in range(N)]; PY = [pairphase(Y, s, N, k) for k in range(N)]
        o = Ptr(r.obj(2 * zsz(w) * N, 'z'), 0)
        r.call('w_mul', [x, y, kp, o])
        check(r, r.gpair(o, w, N), s, PX, PY, 'product with a generated evaluation key')
        r.events()
    if kind != 'any': tasks.append(('product with a generated key N=%d width %d key %s' % (N, w, kind), t, 400))
    return Unit('m%d_%d_%s' % (w, N, kind), g.src(), tasks)
