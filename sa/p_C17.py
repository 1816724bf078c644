"""C17: EvalMod"""
import math
from check import Unit
from gen import W
import ob, interp, dom, sums, flow
from flow import M, mmul, madd, mscale, mconst, cheb1
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO
from interp import Ptr
from sums import zsz
from p_C14 import coeffs

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR with verified contracts for Mul, RS and switching keys: the graph of constants, products and rescalings computed by EvalMod, evaluated with Chebyshev models over every input |t|<=K, must equal 2^LOGDELTA (s+s^3/6)/(2 pi), s=sin(2 pi t), within the approximation accuracy plus the noise',
  explanation='the encrypted value ranges over the whole interval [-K,K] (K=24, the value the fixed polynomial is made for), masks and noises are unknown, keys are listed; one obligation per coefficient of the decrypted result')

K = 24

def f(t):
    s = math.sin(2 * math.pi * t)
    return (s + s * s * s / 6) / (2 * math.pi)

def units(tier):
    q = tier == 'quick'
    us = []
    for D, w in ([(40, 540), (30, 400), (33, 440), (32, 424), (60, 790)] if q else [(40, 540), (30, 400), (32, 424), (33, 440), (48, 640), (56, 740), (50, 660), (35, 460), (45, 600), (54, 760), (58, 800), (60, 790), (60, 1362)]): us.append(unit(D, w, 2))
    us.append(unit(50, 660, 4, slow=not q))
    return us

def unit(D, w, N, slow=True):
    g = W('HEAAN/bootstrap.h')
    C = 'R_Q_square<%d,%d>' % (w, N); wo = w - 12 * D; O = 'R_Q_square<%d,%d>' % (wo, N)
    g.fn('sk', 'const %s*c,const int*s,%s*o' % (C, O), 'EvalMod<%d,%d,%d,%d>(*c,s,*o);' % (w, N, D, K))
    g.fn('ek', 'const %s*c,%s,%s*o' % (C, ','.join('const R_Q_square<%d,%d>*k%d' % (2 * (w - i * D), N, i) for i in range(1, 12)), O),
         'EvalMod<%d,%d,%d,%d>(*c,%s,*o);' % (w, N, D, K, ','.join('*k%d' % i for i in range(1, 12))))
    tasks = []
    for form, sec in (('ek', (1, 0)), ('sk', (0, -1))):
        def t(out, mod, S_, form=form, sec=sec):
            r = Run(mod, S_, out, timelimit=400)
            sec = list(sec) + [0] * (N - 2)
            if N > 2: sec[2] = 1
            fl = flow.Flow(r, sec, N)
            h = N // 2
            sl = [1., .5, -.75, .125][:h]
            x = dom.var('t', -float(K), float(K), False)
            Xs = [mscale(m, 2. ** D) for m in coeffs(N, [(mscale(fl.poly(x), c), M()) for c in sl])]
            V = []
            from p_C11 import inv
            L = inv(N, [pscale(x, c) for c in sl], [ZERO] * h)
            for k in range(N):
                if not fl.poly(L[k]).bound() > 1e-9: V.append(ZERO)
                else: V.append(fl.node(pscale(L[k], 2. ** D), 0, .5, 'message'))
            c = flow.ct(r, fl, 'ct', w, V)
            p = Ptr(r.obj(2 * zsz(wo) * N, 'o'), 0)
            (mo,) = x.d
            Y = coeffs(N, [(cheb1(mo[0], lambda u, c=c_: f(K * u * c), 700), M()) for c_ in sl])
            X = [mscale(m, 2. ** D) for m in Y]
            if form == 'sk': r.call('w_sk', [c, r.const_ints('s', sec), p])
            else: r.call('w_ek', [c] + [flow.keyct(r, fl, 'evk%d' % i, w - i * D, fl.S2) for i in range(1, 12)] + [p])
            P = flow.result(r, fl, p, wo)
            tol = 2. ** D * 1e-10 + 2. ** (18 if N == 2 else 26)
            for k in range(N): fl.check(P[k], wo, X[k], tol, 'evaluated scaled sine, coefficient of X^%d' % k)
            for j in range(2):
                for k in range(N): r.canonical(p, zsz(wo) * (N * j + k), wo, 'canonical coefficient')
            r.events()
        if N > 2 and not slow and form == 'ek': continue
        tasks.append(('EvalMod (%s) N=%d width %d scale 2^%d' % (form, N, w, D), t, 420))
    return Unit('m%d_%d_%d' % (D, w, N), g.src(), tasks)
