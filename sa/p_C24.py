"""C24: decimal input and output of wide integers"""
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pscale, pc, paddc, ZERO
from interp import Ptr, SV, WV, UNDEF, to_u

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: for an unknown integer between two consecutive points 10^j 2^(32k) (the range is partitioned at these points, so every "is the quotient zero" decision is the same throughout a cell) character i of the string written must be \'0\' + the i-th decimal digit as an expression in the integer, the string must end there, and reading it back must store the integer',
  explanation='the integer is unknown within its cell, the cells cover all values of the width; one obligation per character and per integer read')

WQ = [2, 30, 32, 33, 64, 65, 96, 100, 128, 192]
WT = WQ + [1, 31, 63, 95, 127, 129, 160, 193, 256, 640, 1300]

KINDS = ('oob', 'uaf', 'null', 'input-write', 'overflow', 'shift', 'divzero', 'fconv', 'uninit', 'assert', 'abort')

def cells(w):
    top = 1 << w
    pts = {1, top}
    a = 1
    while a < top:
        b = a
        while b < top:
            pts.add(b); b *= 10
        a <<= 32
    pts = sorted(pts)
    return [(0, 0)] + [(a, b - 1) for a, b in zip(pts, pts[1:])]

def units(tier):
    us = []
    for w in (WQ + [1300] if tier == 'quick' else WT):
        g = W('HEAAN/arith/Z_Q.h')
        Z = 'Z_Q<%d>' % w
        g.fn('out', 'const %s*a,char*s' % Z, 'a->to_str(s);')
        g.fn('in', 'const char*s,%s*a' % Z, 'a->fr_str(s);')
        C = cells(w)
        if w > 300: C = C[:1] + C[-2:] + C[len(C) // 2:len(C) // 2 + 1]
        n = 8 if w < 100 else 4 if w < 300 else 1
        tasks = []
        for t0 in range(0, len(C), n):
            def t(out, mod, S, cs=C[t0:t0 + n], w=w):
                for lo, hi in cs: roundtrip(out, mod, S, w, lo, hi)
            tasks.append(('write and read back, width %d, cells %d..%d of %d' % (w, t0, min(t0 + n, len(C)) - 1, len(C)), t, 200))
        us.append(Unit('d%d' % w, g.src(), tasks))
    for w, N in ([(64, 2), (100, 2), (1300, 1)] if tier == 'quick' else [(30, 2), (64, 2), (65, 2), (100, 4), (192, 2), (1300, 1)]): us.append(printers(w, N))
    return us

def printers(w, N):
    g = W('HEAAN/arith/R_Q_square.h')
    g.fn('z', 'const Z_Q<%d>*a' % w, 'a->print_unsigned();')
    g.fn('u', 'const R_Q<%d,%d>*a' % (w, N), 'a->print_unsigned();')
    g.fn('s', 'const R_Q<%d,%d>*a' % (w, N), 'a->print_signed();')
    g.fn('q', 'const R_Q_square<%d,%d>*a' % (w, N), 'a->print();')
    C = cells(w); half = 1 << (w - 1)
    # cells below the half (for the signed form), the last one cut there
    H = [(a, min(b, half - 1)) for a, b in C if a < half]
    if w > 300: pick = [C[-1], C[0], C[len(C) // 2]]; hp = [H[-1]]
    else: pick = [C[-1], C[-2], C[0]] + C[1:-2:max(1, len(C) // 6)]; hp = [H[-1], H[0], H[-2]] + H[1:-2:max(1, len(H) // 4)]
    tasks = []
    def cell(c, k): return lambda: (pc(c[0]) if c[0] == c[1] else dom.var('a%d' % k, c[0], c[1]))
    def run(out, mod, S, fn, vals, want):
        """vals: per coefficient (cell, negative)"""
        r = Run(mod, S, out)
        dom.RADIX.update(10 ** k for k in range(1, 20)); dom.FL_STEPS = 0
        sz = 8 * ((w + 63) // 64)
        o = r.obj(sz * len(vals), 'A', ro=True); o.maxsz = o.gran = sz
        X = []
        for k, (c, neg) in enumerate(vals):
            x = cell(c, k)(); X.append((x, neg, len(str(c[1]))))
            o.cells[sz * k] = (sz, WV(paddc(pscale(x, -1), 1 << w) if neg else x, w))
            r.inputs.append(('a%d' % k, x))
        r.call('w_' + fn, [Ptr(o, 0)])
        T = r.it.printed
        if any(c is None for c in T): out.checks += 1; out.undecided('text written on some paths only'); return
        T = [c for c in T if c not in (10, 32, 13, 9)]
        exp = []
        for t in want:
            if type(t) is str: exp += [(None, ord(t), 'the character %s' % t)]; continue
            x, neg, nd = X[t]
            if neg: exp.append((None, 45, 'the sign of value %d' % t))
            for i in range(nd): exp.append((psub(fl(x, 10 ** (nd - 1 - i)), pscale(fl(x, 10 ** (nd - i)), 10)), 48, 'digit %d of value %d' % (i, t)))
        loc, fn_ = r.site()
        out.checks += 1
        if len(T) != len(exp): out.refute('%d characters are printed, %d expected' % (len(T), len(exp)), {}, loc, fn_); return
        out.discharged += 1
        for c, (d, b, what) in zip(T, exp):
            if c is UNDEF: out.checks += 1; out.refute('%s is printed from uninitialised memory' % what, {}, loc, fn_); return
            r.zero(psub(to_u(c, 8)[0], paddc(d if d is not None else ZERO, b)), what)
        r.events(KINDS)
    def lst(i0): return ['['] + [x for i in range(N) for x in ([','] if i else []) + [i0 + i]] + [']']
    def add(name, fn, vals, want): tasks.append(('%s, width %d' % (name, w), lambda out, mod, S: run(out, mod, S, fn, vals, want), 200))
    for k, c in enumerate(pick): add('print an integer of %d digits (%d)' % (len(str(c[1])), k), 'z', [(c, False)], [0])
    for k in range(0, len(pick), N): add('print a polynomial (%d)' % k, 'u', [(pick[(k + i) % len(pick)], False) for i in range(N)], lst(0))
    n = 0
    for k, c in enumerate(hp):
        neg = [c[0] > 0 and (i + k) % 2 == 0 for i in range(N)]
        add('print a signed polynomial (%d)' % k, 's', [(c, neg[i] and c[0] > 0) for i in range(N)], lst(0))
        if N == 1 and c[0] > 0: add('print a signed polynomial (%d, positive)' % k, 's', [(c, False)], lst(0))
    add('print a ciphertext', 'q', [(pick[i % len(pick)], False) for i in range(2 * N)], ['['] + lst(0) + [','] + lst(N) + [']'])
    return Unit('p%d_%d' % (w, N), g.src(), tasks, optional=True)

def fl(P, d): return dom.fl(P, d)

def roundtrip(out, mod, S, w, lo, hi):
    r = Run(mod, S, out)
    dom.RADIX.update(10 ** k for k in range(1, 20))
    dom.FL_STEPS = 0
    sz = 8 * ((w + 63) // 64)
    o = r.obj(sz, 'A', ro=True)
    if lo == hi: X = pc(lo)
    else: X = dom.var('A', lo, hi)
    o.cells[0] = (sz, WV(X, w)); o.maxsz = sz; o.gran = sz
    r.inputs.append(('A', X))
    nd = len(str(lo)); assert nd == len(str(hi))
    s = r.obj(520, 'str')
    p = Ptr(s, 0)
    r.call('w_out', [Ptr(o, 0), p])
    loc, fn = r.site()
    for i in range(nd):
        k = nd - 1 - i
        dig = psub(fl(X, 10 ** k), pscale(fl(X, 10 ** (k + 1)), 10))
        v = r.get(p, i, ('i', 8))
        if v is UNDEF: out.checks += 1; out.refute('character %d is not written' % i, {}, loc, fn); return
        P, a, b = to_u(v, 8)
        r.zero(psub(P, paddc(dig, 48)), 'character %d of the string (digit of 10^%d)' % (i, k))
    v = r.get(p, nd, ('i', 8))
    out.checks += 1
    if type(v) is SV:
        out.checks -= 1; r.zero(to_u(v, 8)[0], 'end of the string after its %d digits' % nd)
    elif v is not UNDEF and type(v) is int and v == 0: out.discharged += 1
    else: out.refute('the string does not end after its %d digits' % nd, {}, loc, fn)
    s.ro = True
    q = r.wideout('B', w)
    r.call('w_in', [p, q])
    B = r.gwide(q, 0, w)
    r.zero(psub(B, X), 'integer read back')
    r.canonical(q, 0, w, 'integer read back')
    r.events()
