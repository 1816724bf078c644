"""C02: shifts, resizing, sign and double conversion of wide integers"""
from check import Unit
from gen import W
import ob, interp
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ge0, fl
from interp import Ptr, to_u, SV

NOSUM = ('shift_right<', 'shift_left<', 'resize<')
META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the limbs written by shift_right / shift_left / resize and the value returned by the sign test and operator double, as expressions in the operand limbs, must equal floor(A/2^k + 1/2) mod 2^w, A*2^k, the centered value mod 2^w, [A >= 2^(w-1)] and the centered value',
  explanation='every function is analysed at each listed pair of widths with all operand limbs unknown (no value is chosen); an obligation is one equality of normal forms')

SH = [(64, 2), (65, 64), (100, 40), (128, 64), (127, 63), (129, 1), (192, 100), (193, 129), (256, 192), (300, 250), (300, 30), (320, 256), (640, 600), (1270, 1230), (1270, 640), (128, 127), (191, 128)]
SHT = SH + [(66, 2), (100, 99), (130, 65), (130, 66), (192, 64), (192, 128), (192, 129), (256, 1), (257, 193), (384, 320), (385, 320), (512, 448), (777, 555), (1300, 1250), (1300, 60), (2500, 2450), (2500, 1200), (320, 10), (321, 257), (640, 576), (640, 577)]

def centred(A, w):
    return psub(A, pscale(ge0(paddc(A, -(1 << (w - 1)))), 1 << w))

def units(tier):
    ps = SH if tier == 'quick' else SHT
    us = []
    for k in range(0, len(ps), 8):
        us.append(unit(ps[k:k + 8], 's%d' % k))
    us.append(unit2([2, 30, 60, 63, 64, 65, 100, 128, 129, 191, 192, 193, 300, 640, 1270] + ([3, 31, 33, 62, 96, 127, 130, 256, 257, 320, 512, 1024, 1300, 2500] if tier != 'quick' else [])))
    us.append(polyunit())
    return us

def unit(ps, tag):
    g = W('HEAAN/arith/Z_Q.h')
    tasks = []
    for (a, b) in ps:
        for (f, t, op) in ((a, b, 'shift_right'), (b, a, 'shift_left'), (a, b, 'resize'), (b, a, 'resize'), (a, a, 'resize'), (a, a, 'shift_right')):
            n = '%s_%d_%d' % (op, f, t)
            if n in g.n: continue
            g.fn(n, 'const Z_Q<%d>*a, Z_Q<%d>*b' % (f, t), '%s(*a,*b);' % op)
            def task(out, mod, S, f=f, t=t, op=op, n=n):
                r = Run(mod, S, out)
                p, A = r.wide('a', f); q = r.wideout('b', t)
                r.call('w_' + n, [p, q])
                R = r.gwide(q, 0, t)
                if op == 'shift_right':
                    k = f - t
                    E = psub(fl(A, 1 << (k - 1)), fl(A, 1 << k)) if k else A
                elif op == 'shift_left': E = pscale(A, 1 << (t - f))
                else: E = centred(A, f)
                r.zero(psub(R, E), '%s from width %d to %d' % (op, f, t), t)
                r.canonical(q, 0, t, 'canonical result')
                r.events()
            tasks.append((n, task, 120))
    return Unit(tag, g.src(), tasks)

def unit2(ws):
    g = W('HEAAN/arith/Z_Q.h')
    tasks = []
    for w in ws:
        g.fn('half_%d' % w, 'const Z_Q<%d>*a' % w, 'return a->is_bigger_than_halfQ();', 'bool')
        g.fn('dbl_%d' % w, 'const Z_Q<%d>*a' % w, 'return (double)*a;', 'double')
        def t(out, mod, S, w=w):
            r = Run(mod, S, out)
            p, A = r.wide('a', w)
            v = r.call('w_half_%d' % w, [p])
            v = to_u(v, 1)[0]
            r.zero(psub(v, ge0(paddc(A, -(1 << (w - 1))))), 'sign test at width %d' % w)
            r.events()
        tasks.append(('sign %d' % w, t, 60))
        if w < 2: continue
        def t(out, mod, S, w=w):
            r = Run(mod, S if w > 8 else None, out)
            p, A = r.wide('a', w)
            v = r.call('w_dbl_%d' % w, [p])
            P = interp.rp(v)
            r.zero(psub(P, centred(A, w)), 'double of a width-%d integer' % w)
            r.events()
        tasks.append(('double %d' % w, t, 60))
    return Unit('sgn', g.src(), tasks)

def polyunit():
    g = W('HEAAN/arith/R_Q_square.h')
    tasks = []
    for (f, t, N) in ((100, 300, 4), (300, 100, 4), (64, 192, 2), (192, 64, 2), (100, 100, 2), (60, 130, 1024), (200, 60, 512)):
        for kind, n in (('R_Q', N), ('R_Q_square', 2 * N)):
            nm = 'resize_%s_%d_%d_%d' % (kind, f, t, N)
            g.fn(nm, 'const %s<%d,%d>*a, %s<%d,%d>*b' % (kind, f, N, kind, t, N), 'resize(*a,*b);')
            def task(out, mod, S, f=f, t=t, n=n, nm=nm):
                r = Run(mod, S, out)
                p, A = r.poly('a', f, n, True, limb=True)
                sz = 8 * ((t + 63) // 64)
                q = Ptr(r.obj(sz * n, 'b'), 0)
                r.call('w_' + nm, [p, q])
                for i in range(n):
                    r.zero(psub(r.gwide(q, sz * i, t), centred(A[i], f)), 'coefficient %d' % i, t)
                    r.canonical(q, sz * i, t, 'canonical coefficient')
                r.events()
            tasks.append((nm, task, 60))
    return Unit('poly', g.src(), tasks)
