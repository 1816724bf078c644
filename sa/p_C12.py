"""C12: encoding and decoding"""
import math, time
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, Poly, ATOMS, ge0
from interp import Ptr, SV, WV
from sums import zsz
from p_C11 import inv, fwd, emb

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: every encoded coefficient, centered, must be Delta times the inverse embedding within 1/2 (roundings are replaced by their argument plus a bounded unknown); every decoded slot must be the embedding of the centered coefficients over Delta as a linear form; decoding an encoding must return the message within the rounding',
  explanation='message entries are unknown reals, coefficients are unknown wide integers split by sign and by number of significant limbs; one obligation per coefficient or slot')

def unround(P):
    """round(L) -> L + phi, |phi| <= 1/2 (real relaxation)"""
    for _ in range(6):
        mp = {}
        for i in dom.patoms(P):
            A = ATOMS[i]
            if A.kind == 'uf' and A.name in ('round', 'rint'):
                mp[i] = padd(A.args[0], dom.var('phi%d' % i, -.5, .5, False))
        if not mp: return P
        P = dom.psubst(P, mp)
    return P

def centre_coeffs(P, w):
    P = ob.modreduce(P, w)
    M = 1 << w
    return Poly({m: centre1(c, M) for m, c in P.d.items()})

def centre1(c, M):
    if not isinstance(c, int): return c
    c %= M
    return c if 2 * c <= M else c - M

def enc_close(r, P, X, w, tol, what):
    """P (an integer modulo 2^w) is X within tol"""
    C = centre_coeffs(ob.modreduce(P, w), w)
    C = Poly({m: c for m, c in C.d.items() if c})
    E = psub(unround(C), X)
    lo, hi = ob.split_range(E, 6)
    if lo >= -tol and hi <= tol:
        r.out.checks += 1; r.out.discharged += 1
        return True
    # refute on the original value (exact integer arithmetic for P)
    M = 1 << w
    r.out.checks += 1
    vs = dom.base_vars(P) | dom.base_vars(X)
    t_end = time.time() + 10
    for env in r.assignments(vs, 300):
        if time.time() > t_end: break
        try: p = dom.ev(P, dict(env)); x = dom.ev(X, dict(env))
        except (dom.EvalError, OverflowError, ValueError): continue
        v = (int(p) + M // 2) % M - M // 2 - x
        if not (-tol - abs(x) * 1e-12 - 1e-9 <= v <= tol + abs(x) * 1e-12 + 1e-9):
            loc, fn = r.site()
            r.out.refute('%s: differs from Delta times the inverse embedding by %s (allowed %s)' % (what, dom.fmtnum(v), tol), {ATOMS[i].name: dom.fmtnum(env[i]) for i in sorted(vs)[:60]}, loc, fn)
            return False
    r.out.undecided('%s: difference range [%s,%s]: %s' % (what, dom.fmtnum(lo), dom.fmtnum(hi), dom.pstr(E, 4)))
    return False

def units(tier):
    q = tier == 'quick'
    us = []
    for w, L in ([(64, 2), (100, 3), (65, 4), (40, 3)] if q else [(64, 2), (100, 3), (65, 4), (40, 3), (200, 4), (63, 5), (128, 3), (600, 3), (30, 6), (1200, 2)]): us.append(u_enc(w, L))
    for w, L in ([(64, 2), (100, 2), (40, 3), (130, 3), (192, 2), (257, 2)] if q else [(64, 2), (100, 2), (40, 3), (130, 3), (192, 2), (257, 2), (63, 4), (65, 2), (128, 3), (600, 2), (1200, 2), (500, 3), (30, 5), (300, 4)]): us.append(u_dec(w, L))
    for w, L in ([(60, 9), (100, 10), (200, 12)] if q else [(60, 9), (100, 10), (130, 11), (200, 12), (64, 13), (1450, 9)]): us.append(columns(w, L))
    return us

def columns(w, L):
    """larger rings: a few unknown inputs, the others zero"""
    N = 1 << L; h = N // 2
    g = W('HEAAN/endecode.h')
    T = 'R_Q<%d,%d>' % (w, N)
    g.fn('enc', 'const double*r,const double*i,uint64_t D,%s*p' % T, 'encode<%d,%d>(r,i,D,*p);' % (w, L))
    g.fn('dec', 'const %s*p,uint64_t D,double*r,double*i' % T, 'decode<%d,%d>(*p,D,r,i);' % (w, L))
    g.fn('dlog', 'const %s*p,int D,double*r,double*i' % T, 'decode_log<%d,%d>(*p,D,r,i);' % (w, L))
    cs = [math.cos(math.pi * e / N) for e in range(2 * N)]
    f5 = [pow(5, j, 2 * N) for j in range(h)]
    def reals(r, name, V):
        o = r.obj(8 * h, name, ro=True)
        for k in range(h): o.cells[8 * k] = (8, interp.RV(V[k]) if k in V else 0.)
        o.gran = 8
        return Ptr(o, 0)
    def enc(out, mod, S):
        r = Run(mod, S, out, timelimit=500, budget=400_000_000)
        d = min(40, w - 4)
        for j0, j1 in ((0, h - 1), (h // 2 + 1, 1)):
            # one real and one imaginary part, of fixed sign and distinct sizes, so that the coefficients have known signs
            a = dom.var('zr[%d]' % j0, -2., 2., False)
            for V, U in (({j0: a}, {}), ({}, {j1: a})):
                o = Ptr(r.obj(zsz(w) * N, 'pt'), 0)
                r.call('w_enc', [reals(r, 'zr', V), reals(r, 'zi', U), 1 << d, o])
                R = r.gpoly(o, w, N)
                tol = .5 + (1 << d) * N * 1e-12
                for k in range(N):
                    c = cs[f5[j0] * k % (2 * N)] if V else cs[(f5[j1] * k - h) % (2 * N)]
                    if not enc_close(r, R[k], pscale(a, c * 2 / N * (1 << d)), w, tol, 'encoding with Delta=2^%d, coefficient %d' % (d, k)): return
                    r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
        r.events()
    n = (w + 63) // 64
    def dec(f, D, sc):
        def t(out, mod, S):
            r = Run(mod, S, out, timelimit=500, budget=400_000_000)
            sz = zsz(w)
            for rd, pos in enumerate(((0, 1, N - 1), (h, h + 3))):
                o = r.obj(sz * N, 'pt', ro=True); V = {}
                for i, k in enumerate(pos):
                    nd = min(1 + (i + rd) % n, n if (w - 1) % 64 else n - 1); P = ZERO
                    for j in range(nd):
                        top = min(64, w - 1 - 64 * j)
                        P = padd(P, pscale(dom.var('pt[%d].%d' % (k, j), 1 if j == nd - 1 else 0, (1 << top) - 1), 1 << (64 * j)))
                    V[k] = pneg(P) if i == 1 else P
                    o.cells[sz * k] = (sz, WV(psub(pc(1 << w), P) if i == 1 else P, w))
                for k in range(N):
                    if k not in V: o.cells[sz * k] = (sz, WV(ZERO, w))
                o.maxsz = max(o.maxsz, sz); o.gran = sz
                a, b = r.out_words('a', h), r.out_words('b', h)
                r.call(f, [Ptr(o, 0), D, a, b])
                C = {k: Poly({m: float(c) * sc for m, c in v.d.items()}) for k, v in V.items()}
                A, B = r.greals(a, h), r.greals(b, h)
                for j in range(h):
                    X = Y = ZERO
                    for k, v in C.items():
                        X = padd(X, pscale(v, cs[f5[j] * k % (2 * N)])); Y = padd(Y, pscale(v, cs[(f5[j] * k - h) % (2 * N)]))
                    if not relclose(r, A[j], X, '%s with scale %d, real part of slot %d' % (f[2:], D, j), w, sc): return
                    if not relclose(r, B[j], Y, '%s with scale %d, imaginary part of slot %d' % (f[2:], D, j), w, sc): return
            r.events()
        return ('%s N=%d width %d, selected inputs' % (f[2:], N, w), t, 520)
    return Unit('l%d_%d' % (w, N), g.src(), [('encode N=%d width %d, selected inputs' % (N, w), enc, 520), dec('w_dec', (1 << 50) + 12345, 1. / ((1 << 50) + 12345)), dec('w_dlog', 51, 2. ** -51)])

def u_enc(w, L):
    N = 1 << L; h = N // 2
    g = W('HEAAN/endecode.h')
    T = 'R_Q<%d,%d>' % (w, N)
    g.fn('enc', 'const double*r,const double*i,uint64_t D,%s*p' % T, 'encode<%d,%d>(r,i,D,*p);' % (w, L))
    g.fn('dec', 'const %s*p,uint64_t D,double*r,double*i' % T, 'decode<%d,%d>(*p,D,r,i);' % (w, L))
    g.fn('dlog', 'const %s*p,int D,double*r,double*i' % T, 'decode_log<%d,%d>(*p,D,r,i);' % (w, L))
    tasks = []
    ds = [d for d in (0, 1, 7, 20, 30, 40, 50) if d + 3 <= min(w - 1, 63)]
    if w == 64: ds.append(58)
    for d in ds:
        def t(out, mod, S, d=d):
            r = Run(mod, S, out)
            for rd in range(2):
                p, ZR = r.reals('zr%d' % rd, h, -2., 2.); p2, ZI = r.reals('zi%d' % rd, h, -2., 2.)
                X = inv(N, ZR, ZI)
                for D in (1 << d, (1 << d) + (1 << d) // 3 + 1):
                    o = Ptr(r.obj(zsz(w) * N, 'pt'), 0)
                    r.call('w_enc', [p, p2, D, o])
                    R = r.gpoly(o, w, N)
                    tol = .5 + D * N * 1e-12
                    for k in range(N):
                        enc_close(r, R[k], pscale(X[k], float(D)), w, tol, 'encoding with Delta=%d, coefficient %d' % (D, k))
                        r.canonical(o, zsz(w) * k, w, 'canonical coefficient')
            r.events()
        tasks.append(('encode N=%d width %d scale 2^%d' % (N, w, d), t, 200))
    # mixed sign cases: exact inputs where a coefficient is negative / positive / zero are covered by the unknown reals;
    # decode after encode
    for d in ds[-2:]:
        def t(out, mod, S, d=d):
            for f, arg in (('w_dec', 1 << d), ('w_dlog', d)):
                r = Run(mod, S, out)
                # coefficients of known sign: the message is the embedding of unknown coefficients around fixed values
                base = [1. if (k * 7 + 3) % 5 < 3 else -1. for k in range(N)]
                M = [dom.var('m[%d]' % k, *((.25, 1.) if b > 0 else (-1., -.25)), False) for k, b in enumerate(base)]
                R, I = fwd(N, M)
                p = r.obj(8 * h, 'zr'); p2 = r.obj(8 * h, 'zi')
                for k in range(h):
                    p.cells[8 * k] = (8, interp.RV(R[k])); p2.cells[8 * k] = (8, interp.RV(I[k]))
                p.gran = p2.gran = 8
                o = Ptr(r.obj(zsz(w) * N, 'pt'), 0)
                r.call('w_enc', [Ptr(p, 0), Ptr(p2, 0), 1 << d, o])
                a, b = r.out_words('a', h), r.out_words('b', h)
                r.call(f, [o, arg, a, b])
                A, B = r.greals(a, h), r.greals(b, h)
                tol = N * .5 / (1 << d) * 1.0001 + 1e-9 * N
                for j in range(h):
                    r.close(psub(unround(A[j]), R[j]), tol, 'decoding of an encoding (%s), real part of slot %d' % (f[2:], j))
                    r.close(psub(unround(B[j]), I[j]), tol, 'decoding of an encoding (%s), imaginary part of slot %d' % (f[2:], j))
                r.events()
        tasks.append(('decode after encode N=%d width %d scale 2^%d' % (N, w, d), t, 200))
    return Unit('e%d_%d' % (w, N), g.src(), tasks)

def signed_input(r, w, N, cases, off):
    """a polynomial whose k-th coefficient is +-V with V having a given number of significant limbs"""
    sz = zsz(w)
    o = r.obj(sz * N, 'pt', ro=True)
    C = []
    for k in range(N):
        sg, d = cases[(k + off) % len(cases)]
        V = ZERO
        for j in range(d):
            top = 64
            if j == (w - 1) // 64: top = (w - 1) - 64 * j
            hi = (1 << top) - 1
            if j == d - 1 and sg < 0 and j == (w - 1) // 64: hi = (1 << top) - 1
            v = dom.var('pt[%d].%d' % (k, j), 1 if j == d - 1 else 0, hi)
            V = padd(V, pscale(v, 1 << (64 * j)))
        if sg > 0 or d == 0:
            o.cells[sz * k] = (sz, WV(V, w)) if d else (sz, WV(ZERO, w))
            C.append(V)
        else:
            o.cells[sz * k] = (sz, WV(psub(pc(1 << w), V), w))
            C.append(pneg(V))
    o.maxsz = max(o.maxsz, sz); o.gran = sz
    return Ptr(o, 0), C

def u_dec(w, L):
    N = 1 << L; h = N // 2
    g = W('HEAAN/endecode.h')
    T = 'R_Q<%d,%d>' % (w, N)
    g.fn('dec', 'const %s*p,uint64_t D,double*r,double*i' % T, 'decode<%d,%d>(*p,D,r,i);' % (w, L))
    g.fn('dlog', 'const %s*p,int D,double*r,double*i' % T, 'decode_log<%d,%d>(*p,D,r,i);' % (w, L))
    n = (w + 63) // 64
    nd = n if (w - 1) % 64 else n - 1     # limbs of |coefficient| below 2^(w-1)
    nd = min(nd, 15)     # doubles end at 2^1024
    cases = [(1, 0)] + [(s, d) for d in range(1, nd + 1) for s in (1, -1)]
    tasks = []
    def check(r, R, I, A, B, top, what):
        tol = N * top * 1e-11
        for j in range(h):
            r.close(psub(A[j], R[j]), tol, '%s, real part of slot %d' % (what, j))
            r.close(psub(B[j], I[j]), tol, '%s, imaginary part of slot %d' % (what, j))
    for f, scales in (('w_dec', [1, 1000003, 1 << 30, 1 << 55, (1 << 63) + 5]), ('w_dlog', [0, 30, 64, 65, 100, 200])):
        def t(out, mod, S, f=f, scales=scales):
            for off in range(len(cases)):
                for D in scales[:: 1 if off < 3 else 2]:
                    r = Run(mod, S, out)
                    p, C = signed_input(r, w, N, cases, off)
                    # and a run with the coefficients scaled so that magnitudes compare
                    a, b = r.out_words('a', h), r.out_words('b', h)
                    r.call(f, [p, D, a, b])
                    sc = 1. / D if f == 'w_dec' else 2. ** -D
                    C2 = [Poly({m: float(c) * sc for m, c in c_.d.items()}) for c_ in C]
                    R, I = fwd(N, C2)
                    # compare relative to each magnitude: coefficient of limb j of coefficient k
                    for X, Y, nm in ((r.greals(a, h), R, 'real'), (r.greals(b, h), I, 'imaginary')):
                        for j in range(h):
                            relclose(r, X[j], Y[j], '%s with scale %d, %s part of slot %d' % (f[2:], D, nm, j), w, sc)
                    r.events()
        tasks.append(('%s N=%d width %d' % (f[2:], N, w), t, 300))
    return Unit('d%d_%d' % (w, N), g.src(), tasks)

def relclose(r, X, Y, what, w, sc):
    """X = Y up to relative rounding: each coefficient of the difference is small against the magnitude of its own monomial"""
    out = r.out
    out.checks += 1
    X = dom.unname(X) if any(ATOMS[i].kind == 'nm' for i in dom.patoms(X)) else X
    D = ob.selfgate(psub(X, Y))
    bad = []
    for m, c in D.d.items():
        # magnitude of the limb this monomial carries
        mag = max([abs(float(Y.d.get(m, 0))), sc * 2. ** (64 * max([limb(i) for i in m] or [0]))])
        if abs(float(c)) > 1e-9 * mag: bad.append((m, c))
    if not bad:
        out.discharged += 1
        return True
    wt = r.witness(D, lambda v: abs(v) > 0)
    vs = dom.base_vars(X) | dom.base_vars(Y)
    import random
    for env in r.assignments(vs, 200):
        try: x = dom.ev(X, dict(env)); y = dom.ev(Y, dict(env))
        except Exception: continue
        big = max([abs(env[i]) * sc * 2. ** (64 * limb(i)) for i in vs] or [sc])
        if abs(x - y) > 1e-6 * big:
            loc, fn = r.site()
            out.refute('%s: value %s instead of %s' % (what, dom.fmtnum(x), dom.fmtnum(y)), {ATOMS[i].name: dom.fmtnum(env[i]) for i in sorted(vs)[:60]}, loc, fn)
            return False
    out.undecided('%s: %s' % (what, dom.pstr(D, 4)))
    return False

def limb(i):
    n = ATOMS[i].name or ''
    return int(n.rsplit('.', 1)[1]) if '.' in n and n.rsplit('.', 1)[1].isdigit() else 0
