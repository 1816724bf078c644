"""C10: rotation and conjugation"""
from check import Unit
from gen import W
import ob, interp, dom, sums, phase
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, prange
from interp import Ptr
from sums import nega, zsz
from p_C18 import swk, key, pairphase

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: every output coefficient must be the signed input coefficient that X -> X^(5^r) (X -> X^-1) puts there, in the integer and the polynomial forms; the phase under s of a rotated or conjugated and switched ciphertext minus the automorphism of the input phase must stay within N(8+1/2)+1',
  explanation='inputs are unknown; every rotation amount in [0,N/2) of the listed degrees; one obligation per coefficient')

def auto(A, N, g):
    """A(X^g) in Z[X]/(X^N+1)"""
    R = [ZERO] * N
    for i in range(N):
        j = i * g % (2 * N)
        R[j % N] = A[i] if j < N else pneg(A[i])
    return R

def units(tier):
    q = tier == 'quick'
    us = [ints([2, 4, 8, 16, 32] if q else [2, 4, 8, 16, 32, 64, 128])]
    us.append(ints([512, 1 << 13, 1 << 17] if q else [256, 512, 1024, 1 << 11, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17], True))
    for w, N in ([(60, 512), (100, 1 << 13), (64, 1 << 16)] if q else [(60, 512), (100, 1 << 13), (64, 1 << 15), (64, 1 << 17)]): us.append(polys(w, N, True))
    for w, N in ([(64, 4), (65, 8), (30, 16)] if q else [(64, 4), (65, 8), (30, 16), (130, 8), (200, 32), (63, 2), (600, 4), (40, 64)]): us.append(polys(w, N))
    for w, N, kind in ([(40, 4, 'any'), (65, 8, 1), (50, 16, 2)] if q else [(40, 4, 'any'), (65, 8, 1), (50, 16, 2), (100, 4, 'any'), (128, 8, 2), (40, 32, 1)]): us.append(cts(w, N, kind))
    return us

def some(N):
    return sorted({1, 3, N // 8 - 1, N // 4, N // 2 - 1, N // 2})

def ints(Ns, few=False):
    g = W('HEAAN/linear_transform.h')
    tasks = []
    for N in Ns:
        g.fn('r1_%d' % N, 'const int*a,int*b', 'rot<%d>(a,b);' % N)
        g.fn('rr_%d' % N, 'const int*a,int*b,int r', 'rot<%d>(a,b,r);' % N)
        g.fn('cj_%d' % N, 'const int*a,int*b', 'conj<%d>(a,b);' % N)
        def t(out, mod, S, N=N):
            r = Run(mod, S, out, timelimit=500, budget=400_000_000)
            p, A = r.ints('a', N, -(1 << 30), 1 << 30)
            def one(f, args, g_, what):
                o = r.out_words('o', N, 4)
                r.call(f, [p, o] + args)
                R = r.gints(o, N); X = auto(A, N, g_)
                for k in range(N): r.zero(psub(R[k], X[k]), '%s, entry %d' % (what, k))
            one('w_r1_%d' % N, [], 5 % (2 * N), 'key rotated by one')
            one('w_cj_%d' % N, [], 2 * N - 1, 'conjugated key')
            for x in (some(N) if few else range(N // 2 + 1)): one('w_rr_%d' % N, [x], pow(5, x, 2 * N), 'key rotated by %d' % x)
            r.events()
        tasks.append(('key automorphisms N=%d' % N, t, 520 if few else 200))
    return Unit('ints%d' % few, g.src(), tasks)

def polys(w, N, few=False):
    g = W('HEAAN/linear_transform.h')
    T = 'R_Q<%d,%d>' % (w, N)
    g.fn('rot', 'const %s*a,%s*b,int r' % (T, T), 'rot<%d,%d>(*a,*b,r);' % (w, N))
    g.fn('rot1', 'const %s*a,%s*b' % (T, T), 'rot<%d,%d>(*a,*b);' % (w, N))
    g.fn('cj', 'const %s*a,%s*b' % (T, T), 'conj<%d,%d>(*a,*b);' % (w, N))
    def t(out, mod, S):
        r = Run(mod, S, out, timelimit=500, budget=400_000_000)
        p, A = r.poly('a', w, N)
        def one(f, args, g_, what):
            o = Ptr(r.obj(zsz(w) * N, 'o'), 0)
            r.call(f, [p, o] + args)
            R = r.gpoly(o, w, N); X = auto(A, N, g_)
            for k in range(N):
                r.zero(psub(R[k], X[k]), '%s, coefficient %d' % (what, k), w)
                r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        one('w_rot1', [], 5 % (2 * N), 'polynomial rotated by one')
        one('w_cj', [], 2 * N - 1, 'conjugated polynomial')
        for x in (some(N)[:-1] if few else range(max(1, N // 2))): one('w_rot', [x], pow(5, x, 2 * N), 'polynomial rotated by %d' % x)
        r.events()
    return Unit('p%d_%d' % (w, N), g.src(), [('polynomial automorphisms N=%d width %d' % (N, w), t, 520 if few else 200)])

def cts(w, N, kind):
    g = W('HEAAN/linear_transform.h')
    C = 'R_Q_square<%d,%d>' % (w, N); K = 'R_Q_square<%d,%d>' % (2 * w, N)
    g.fn('rc', 'const %s*c,int r,const %s*k,%s*o' % (C, K, C), 'rot_ct<%d,%d>(*c,r,*k,*o);' % (w, N))
    g.fn('cc', 'const %s*c,const %s*k,%s*o' % (C, K, C), 'conj<%d,%d>(*c,*k,*o);' % (w, N))
    B = N * 8.5 + 1
    def case(f, g_, args, what):
        def t(out, mod, S):
            r = Run(mod, S, out)
            p, s = key(r, 's', N, kind)
            kp, b, a, e = swk(r, 'key', w, N, s, auto(s, N, g_))
            x, X = r.pair('x', w, N)
            PX = [pairphase(X, s, N, k) for k in range(N)]
            Y = auto(PX, N, g_)
            o = Ptr(r.obj(2 * zsz(w) * N, 'o'), 0)
            r.call(f, [x] + args + [kp, o])
            R = r.gpair(o, w, N)
            for k in range(N): phase.bounded(r, psub(pairphase(R, s, N, k), Y[k]), w, B, '%s, coefficient %d' % (what, k))
            for j in range(2):
                for k in range(N): r.canonical(o, zsz(w) * (N * j + k), w, 'canonical coefficient')
            r.events()
        return ('%s N=%d width %d key %s' % (what, N, w, kind), t, 300)
    tasks = [case('w_rc', pow(5, x, 2 * N), [x], 'ciphertext rotated by %d' % x) for x in range(N // 2)]
    tasks.append(case('w_cc', 2 * N - 1, [], 'conjugated ciphertext'))
    return Unit('c%d_%d_%s' % (w, N, kind), g.src(), tasks)
