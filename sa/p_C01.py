"""C01: ring operations on wide integers"""
from check import Unit
from gen import W
import ob
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, ZERO
from interp import Ptr

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the limbs stored by each ring operation, as a polynomial in the operand limbs, must equal the specified polynomial modulo 2^LOGQ, the top limb must be < 2^(LOGQ mod 64), operands passed by const reference must be unwritten',
  explanation='every listed operator is analysed at each listed width with all operand limbs unknown (no value is chosen); an obligation is one equality of normal forms')

WQ = [2, 30, 60, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 300, 640, 1270]
WT = WQ + [3, 31, 32, 33, 62, 66, 96, 126, 130, 190, 255, 257, 319, 320, 321, 383, 384, 385, 448, 512, 777, 1024, 1280, 1300, 1920, 2500, 2560]

def units(tier):
    ws = WQ if tier == 'quick' else WT
    us = []
    for k in range(0, len(ws), 6):
        us.append(unit(ws[k:k + 6], 'z%d' % k))
    us.append(polyunit([(64, 2), (100, 4), (192, 2), (300, 2), (60, 1024), (100, 512), (60, 1 << 15)] if tier == 'quick' else [(64, 2), (65, 8), (100, 4), (192, 2), (300, 2), (640, 4), (1300, 2), (60, 1024), (100, 512), (130, 4096)]))
    return us

OPS = {
    'add': ('*a += *b;', lambda A, B, X: padd(A, B)),
    'sub': ('*a -= *b;', lambda A, B, X: psub(A, B)),
    'mul': ('*a *= *b;', lambda A, B, X: pmul(A, B)),
    'mulw': ('*a *= x;', lambda A, B, X: pmul(A, X)),
    'neg': ('a->negate();', lambda A, B, X: pneg(A)),
    'zero': ('a->setzero();', lambda A, B, X: ZERO),
    'copy': ('*a = *b;', lambda A, B, X: B),
    'ctor': ('new (a) %s(*b);', lambda A, B, X: B),
    'clutter': ('a->remove_clutter();', lambda A, B, X: A),
}

def unit(ws, tag):
    g = W('new', 'HEAAN/arith/Z_Q.h')
    tasks = []
    for w in ws:
        T = 'Z_Q<%d>' % w
        for op, (body, f) in OPS.items():
            g.fn('%s_%d' % (op, w), '%s*a, const %s*b, uint64_t x' % (T, T), body % T if '%' in body else body)
            if op in ('mul',) and w > 1400: continue
            def t(out, mod, S, op=op, w=w, f=f):
                r = Run(mod, S, out)
                p, A = r.wide('a', w, False, full=(op == 'clutter')); q, B = r.wide('b', w); x, X = r.word('x')
                if op in ('ctor', 'copy', 'zero'): p = r.wideout('a', w)
                r.call('w_%s_%d' % (op, w), [p, q, x])
                r.zero(psub(r.gwide(p, 0, w), f(A, B, X)), '%s at width %d' % (op, w), w)
                r.canonical(p, 0, w, 'canonical result')
                r.events()
            tasks.append(('Z_Q<%d> %s' % (w, op), t, 120))
        for op in ('add', 'sub', 'mul', 'copy'):
            if op == 'mul' and w > 700: continue
            def t(out, mod, S, op=op, w=w, f=OPS[op][1]):
                r = Run(mod, S, out)
                p, A = r.wide('a', w, False); x, X = r.word('x')
                r.call('w_%s_%d' % (op, w), [p, p, x])
                r.zero(psub(r.gwide(p, 0, w), f(A, A, X)), '%s with itself at width %d' % (op, w), w)
                r.canonical(p, 0, w, 'canonical result')
                r.events()
            tasks.append(('Z_Q<%d> %s with itself' % (w, op), t, 120))
    return Unit(tag, g.src(), tasks)

def polyunit(ps):
    g = W('new', 'HEAAN/arith/R_Q_square.h')
    tasks = []
    for (w, N) in ps:
        for kind, n in (('R_Q', N), ('R_Q_square', 2 * N)):
            T = '%s<%d,%d>' % (kind, w, N)
            ops = {'add': OPS['add'], 'sub': OPS['sub'], 'mulw': OPS['mulw'], 'zero': OPS['zero'], 'copy': OPS['copy'], 'ctor': OPS['ctor']}
            for op, (body, f) in ops.items():
                g.fn('%s_%s_%d_%d' % (kind, op, w, N), '%s*a, const %s*b, uint64_t x' % (T, T), body % T if '%' in body else body)
                for alias in ((False, True) if op in ('add', 'sub', 'copy') else (False,)):
                    def t(out, mod, S, kind=kind, op=op, w=w, N=N, n=n, f=f, alias=alias):
                        r = Run(mod, S, out)
                        sz = 8 * ((w + 63) // 64)
                        if kind == 'R_Q':
                            p, A = r.poly('a', w, n, False, limb=True)
                            q, B = r.poly('b', w, n, True, limb=True)
                        else:
                            p, A = r.pair('a', w, N, False, limb=True); q, B = r.pair('b', w, N, True, limb=True)
                            A = A[0] + A[1]; B = B[0] + B[1]
                        if alias: q, B = p, A
                        elif op in ('zero', 'copy', 'ctor'): p = Ptr(r.obj(sz * n, 'a'), 0)
                        x, X = r.word('x')
                        r.call('w_%s_%s_%d_%d' % (kind, op, w, N), [p, q, x])
                        for i in range(n):
                            r.zero(psub(r.gwide(p, sz * i, w), f(A[i], B[i], X)), '%s coefficient %d' % (op, i), w)
                            r.canonical(p, sz * i, w, 'canonical coefficient')
                        r.events()
                    tasks.append(('%s<%d,%d> %s%s' % (kind, w, N, op, ' with itself' if alias else ''), t, 120))
    return Unit('poly', g.src(), tasks)
