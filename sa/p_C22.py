"""C22: clear-side reference arithmetic"""
import random
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, Poly, ge0, ATOMS
from interp import Ptr
from sums import nega, zsz
from p_C10 import auto
from p_C11 import fwd, inv
from p_C12 import unround, enc_close
from p_C13 import SIZE, SD, mk, offsets
import phase

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: every output entry of the clear-side operations, as an expression in the unknown inputs, must be the defining expression; encodings must be within 1/2 of Delta times the inverse embedding; plaintext matrix products must be the sum of negacyclic products of the encoded diagonals and the rotated plaintext',
  explanation='message, plaintext and matrix entries are unknown; one obligation per entry; distinct and identical arguments')

def cm(a, b): return (psub(pmul(a[0], b[0]), pmul(a[1], b[1])), padd(pmul(a[0], b[1]), pmul(a[1], b[0])))

def msg(r, name, h, ro=True, B=4.):
    o = r.obj(16 * h, name, ro=ro)
    _, R = r.reals(name + '.r', h, -B, B, o=o, base=0)
    _, I = r.reals(name + '.i', h, -B, B, o=o, base=8 * h)
    o.gran = 8
    return Ptr(o, 0), list(zip(R, I))

def rmsg(r, p, h):
    return list(zip(r.greals(p, h), r.greals(p, h, 8 * h)))

def units(tier):
    q = tier == 'quick'
    Ls = [1, 2, 3, 4, 5, 10] if q else [1, 2, 3, 4, 5, 6, 7, 10, 13]
    us = [u_msg(L) for L in Ls]
    us += [u_mat(L) for L in ([2, 3, 4] if q else [2, 3, 4, 5])]
    us += [u_sp(L) for L in ([2, 3, 4] if q else [2, 3, 4, 5, 6])]
    us += [u_pt(w, L) for w, L in ([(64, 2), (100, 3), (40, 2)] if q else [(64, 2), (100, 3), (40, 2), (130, 3), (65, 4), (200, 2)])]
    return us

def u_msg(L):
    h = 1 << (L - 1)
    g = W('impl/message.h')
    M = 'Message<%d>' % L
    for f in ('add', 'sub', 'mul'): g.fn(f, 'const %s*a,const %s*b,%s*c' % (M, M, M), '%s(*a,*b,*c);' % f)
    for f in ('square_sum', 'norm', 'sup_norm'): g.fn(f, 'const %s*a' % M, 'return %s(*a);' % f, 'double')
    g.fn('agg', 'const %s*a,const %s*b,Message<%d>*c' % (M, M, L + 1), 'aggregate(*a,*b,*c);')
    g.fn('ctor', 'void*p', 'new(p) %s();' % M); g.fn('copy', 'void*p,const %s*a' % M, 'new(p) %s(*a);' % M)
    g.text('#include <new>\n')
    src = '#include <new>\n' + g.src()
    tasks = []
    def t(out, mod, S):
        for f, op in (('add', lambda a, b: (padd(a[0], b[0]), padd(a[1], b[1]))), ('sub', lambda a, b: (psub(a[0], b[0]), psub(a[1], b[1]))), ('mul', cm)):
            for same in (0, 1):
                r = Run(mod, S, out)
                p, A = msg(r, 'a', h); q, B = (p, A) if same else msg(r, 'b', h)
                o = Ptr(r.obj(16 * h, 'c'), 0)
                r.call('w_' + f, [p, q, o])
                C = rmsg(r, o, h)
                for k in range(h):
                    X = op(A[k], B[k])
                    for z in range(2): r.close(psub(C[k][z], X[z]), 0, '%s, %s part of entry %d%s' % (f, 'ri'[z], k, ' (same argument twice)' if same else ''))
                r.events()
            # result in place of an operand is allowed for add and sub
            if f != 'mul':
                for which in (0, 1):
                    r = Run(mod, S, out)
                    p, A = msg(r, 'a', h, False); q, B = msg(r, 'b', h, False)
                    r.call('w_' + f, [p, q, (p, q)[which]])
                    C = rmsg(r, (p, q)[which], h)
                    for k in range(h):
                        X = op(A[k], B[k])
                        for z in range(2): r.close(psub(C[k][z], X[z]), 0, '%s into operand %d, entry %d' % (f, which, k))
    tasks.append(('message arithmetic %d slots' % h, t, 100))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, A = msg(r, 'a', h)
        sq = ZERO
        for a in A: sq = padd(sq, padd(pmul(a[0], a[0]), pmul(a[1], a[1])))
        v = interp.rp(r.it.und(r.call('w_square_sum', [p]), ('f', 64)))
        r.close(psub(v, sq), 0, 'sum of squares')
        v = interp.rp(r.it.und(r.call('w_norm', [p]), ('f', 64)))
        import models
        r.close(psub(v, models.sqrtP(sq)), 1e-12, 'norm')
        r.events()
    tasks.append(('norms %d slots' % h, t, 100))
    def t(out, mod, S):
        import models
        # the largest entry in every position, smaller ones apart from it by bands
        for top in range(h):
            r = Run(mod, S, out)
            o = r.obj(16 * h, 'a', ro=True); A = []
            for k in range(h):
                lo, hi = (3., 4.) if k == top else (0., 2.) if h <= 8 else (1.9 * ((k * 7) % h) / h, 1.9 * ((k * 7) % h + .4) / h)
                bb = .5 if h <= 8 else .05 / h
                for z in range(2):
                    neg = (k + z) % 2
                    if z == 0: x = dom.var('a%d' % k, *((-hi, -lo) if neg else (lo, hi)), False)
                    else: x = dom.var('b%d' % k, -bb, bb, False)
                    o.cells[8 * (h * z + k)] = (8, interp.RV(x))
                    A.append(x)
            o.gran = 8
            v = interp.rp(r.it.und(r.call('w_sup_norm', [Ptr(o, 0)]), ('f', 64)))
            a, b = A[2 * top], A[2 * top + 1]
            r.close(psub(v, models.sqrtP(padd(pmul(a, a), pmul(b, b)))), 1e-12, 'largest modulus, at position %d' % top)
            r.events()
        # imaginary part dominates
        if h > 8: return
        r = Run(mod, S, out)
        o = r.obj(16 * h, 'a', ro=True)
        for k in range(h):
            x = dom.var('a%d' % k, -.5, .5, False); y = dom.var('b%d' % k, *((2., 3.) if k == h - 1 else (-1., 1.)), False)
            o.cells[8 * k] = (8, interp.RV(x)); o.cells[8 * (h + k)] = (8, interp.RV(y))
        o.gran = 8
        v = interp.rp(r.it.und(r.call('w_sup_norm', [Ptr(o, 0)]), ('f', 64)))
        r.close(psub(v, models.sqrtP(padd(pmul(x, x), pmul(y, y)))), 1e-12, 'largest modulus, imaginary part dominating')
        r.events()
    tasks.append(('sup-norm %d slots' % h, t, 100))
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, A = msg(r, 'a', h); q, B = msg(r, 'b', h)
        o = Ptr(r.obj(32 * h, 'c'), 0)
        r.call('w_agg', [p, q, o])
        C = rmsg(r, o, 2 * h)
        for k in range(2 * h):
            X = A[k] if k < h else B[k - h]
            for z in range(2): r.close(psub(C[k][z], X[z]), 0, 'aggregation, entry %d' % k)
        o = Ptr(r.obj(16 * h, 'd'), 0)
        r.call('w_ctor', [o])
        for k, c in enumerate(rmsg(r, o, h)):
            for z in range(2): r.close(c[z], 0, 'new message, entry %d' % k)
        o = Ptr(r.obj(16 * h, 'd'), 0)
        r.call('w_copy', [o, p])
        for k, c in enumerate(rmsg(r, o, h)):
            for z in range(2): r.close(psub(c[z], A[k][z]), 0, 'copied message, entry %d' % k)
        r.events()
    tasks.append(('aggregation and construction %d slots' % h, t, 100))
    return Unit('m%d' % L, src, tasks)

def u_mat(L):
    h = 1 << (L - 1)
    g = W('impl/message.h')
    M = 'Message<%d>' % L
    Ks = sorted({1, 2, h}); Ss = [1, 3] if h > 2 else [1, 2]
    for K in Ks: g.fn('mk%d' % K, 'const %s*z,const %s*A,%s*o' % (M, M, M), 'matrix_vector_product<%d,%d>(*z,A,*o);' % (L, K))
    for S_ in Ss:
        T = 'SparseDiagonal<%d,%d>' % (h, S_)
        g.fn('ms%d' % S_, 'const %s*z,%s*a,%s*b,%s*o' % (M, T, T, M), 'matrix_vector_product<%d,%d>(*z,*a,*b,*o);' % (L, S_))
        mk(g, h, S_)
    tasks = []
    def t(out, mod, S):
        for K in Ks:
            r = Run(mod, S, out)
            p, Z = msg(r, 'z', h)
            o = r.obj(16 * h * K, 'A', ro=True); A = []
            for k in range(K):
                _, R = r.reals('A%d.r' % k, h, -4., 4., o=o, base=16 * h * k); _, I = r.reals('A%d.i' % k, h, -4., 4., o=o, base=16 * h * k + 8 * h)
                A.append(list(zip(R, I)))
            q = Ptr(r.obj(16 * h, 'o'), 0)
            r.call('w_mk%d' % K, [p, Ptr(o, 0), q])
            C = rmsg(r, q, h)
            for i in range(h):
                X = (ZERO, ZERO)
                for k in range(K):
                    c = cm(A[k][i], Z[(i + k) % h]); X = (padd(X[0], c[0]), padd(X[1], c[1]))
                for z in range(2): r.close(psub(C[i][z], X[z]), 0, 'matrix of %d diagonals times message, entry %d' % (K, i))
            r.events()
        for S_ in Ss:
            rnd = random.Random(L)
            for off in offsets(h, S_, 8, rnd):
                for un in (((), ()), ((0,), (0,)), (tuple(range(S_)), ()), ((), (S_ - 1,))):
                    r = Run(mod, S, out)
                    p, Z = msg(r, 'z', h)
                    A = SD(r, 'a', h, S_, off, un[0]); B = SD(r, 'b', h, S_, off, un[1]); A.p.obj.ro = B.p.obj.ro = True
                    q = Ptr(r.obj(16 * h, 'o'), 0)
                    r.call('w_ms%d' % S_, [p, A.p, B.p, q])
                    C = rmsg(r, q, h)
                    for i in range(h):
                        X = (ZERO, ZERO)
                        for j in range(h):
                            c = cm((A.D[i][j], B.D[i][j]), Z[j]); X = (padd(X[0], c[0]), padd(X[1], c[1]))
                        for z in range(2): r.close(psub(C[i][z], X[z]), 0, 'sparse matrix times message, entry %d, offsets %s, unused %s' % (i, off, un))
                    r.events()
    return Unit('mat%d' % L, g.src(), [('matrix times message %d slots' % h, t, 200)])

def u_sp(L):
    N = 1 << L; h = N // 2
    g = W('impl/simple_plaintext.h')
    M = 'Message<%d>' % L; P = 'SimplePlaintext<%d>' % L
    for f in ('encode', 'encode_raw'): g.fn(f, 'const %s*z,uint64_t D,%s*p' % (M, P), '%s(*z,D,*p);' % f)
    g.fn('decode', 'const %s*p,uint64_t D,%s*z' % (P, M), 'decode(*p,D,*z);')
    for f in ('conv', 'add', 'sub'): g.fn(f, 'const %s*a,const %s*b,%s*c' % (P, P, P), '%s(*a,*b,*c);' % f)
    for f in ('square_sum', 'norm'): g.fn(f, 'const %s*a' % P, 'return %s(*a);' % f, 'double')
    g.fn('rot1', 'const %s*a,%s*b' % (P, P), 'rotate_once(*a,*b);'); g.fn('rot', 'const %s*a,%s*b,int r' % (P, P), 'rotate(*a,*b,r);')
    tasks = []
    def t(out, mod, S):
        for D in (1, 1 << 20, (1 << 40) + 12345):
            for f in ('encode', 'encode_raw'):
                r = Run(mod, S, out)
                p, Z = msg(r, 'z', h)
                o = Ptr(r.obj(8 * N, 'p'), 0)
                r.call('w_' + f, [p, D, o])
                X = inv(N, [z[0] for z in Z], [z[1] for z in Z])
                R = r.greals(o, N)
                for k in range(N):
                    tol = D * N * 1e-12 + 1e-12
                    if f == 'encode':
                        r.close(psub(unround(R[k]), pscale(X[k], float(D))), .5 + tol, 'encoding with Delta=%d, coefficient %d' % (D, k))
                        # the result is an integer: nothing but roundings
                        out.checks += 1
                        if dom.isint_poly(R[k]): out.discharged += 1
                        else:
                            w = r.witness(R[k], lambda v: abs(v - round(v)) > 1e-6)
                            if w: loc, fn = r.site(); out.refute('encoding with Delta=%d, coefficient %d is not an integer: %s' % (D, k, w[1]), w[0], loc, fn)
                            else: out.undecided('integrality of coefficient %d' % k)
                    else: r.close(psub(R[k], pscale(X[k], float(D))), tol, 'unrounded encoding with Delta=%d, coefficient %d' % (D, k))
                r.events()
            r = Run(mod, S, out)
            p, A = r.reals('p', N, -4. * D, 4. * D)
            o = Ptr(r.obj(16 * h, 'z'), 0)
            r.call('w_decode', [p, D, o])
            R, I = fwd(N, [pscale(a, 1. / D) for a in A])
            for k, c in enumerate(rmsg(r, o, h)):
                r.close(psub(c[0], R[k]), 1e-10 * N, 'decoding with Delta=%d, real part of slot %d' % (D, k))
                r.close(psub(c[1], I[k]), 1e-10 * N, 'decoding with Delta=%d, imaginary part of slot %d' % (D, k))
            r.events()
    tasks.append(('simple plaintext encoding N=%d' % N, t, 100))
    def t(out, mod, S):
        import models
        for same in (0, 1):
            r = Run(mod, S, out)
            p, A = r.reals('a', N, -4., 4.); q, B = (p, A) if same else r.reals('b', N, -4., 4.)
            for f, op in (('add', lambda k: padd(A[k], B[k])), ('sub', lambda k: psub(A[k], B[k])), ('conv', lambda k: nega(A, B, N, k))):
                o = Ptr(r.obj(8 * N, 'c'), 0)
                r.call('w_' + f, [p, q, o])
                for k, c in enumerate(r.greals(o, N)): r.close(psub(c, op(k)), 0, '%s, coefficient %d' % (f, k))
            r.events()
        r = Run(mod, S, out)
        p, A = r.reals('a', N, -4., 4.)
        sq = ZERO
        for a in A: sq = padd(sq, pmul(a, a))
        r.close(psub(interp.rp(r.it.und(r.call('w_square_sum', [p]), ('f', 64))), sq), 0, 'sum of squares')
        r.close(psub(interp.rp(r.it.und(r.call('w_norm', [p]), ('f', 64))), models.sqrtP(sq)), 1e-12, 'norm')
        for n in range(0, h + 2):
            o = Ptr(r.obj(8 * N, 'c'), 0)
            r.call('w_rot', [p, o, n])
            X = auto(A, N, pow(5, n, 2 * N))
            for k, c in enumerate(r.greals(o, N)): r.close(psub(c, X[k]), 0, 'rotation by %d, coefficient %d' % (n, k))
        o = Ptr(r.obj(8 * N, 'c'), 0)
        r.call('w_rot1', [p, o])
        X = auto(A, N, 5 % (2 * N))
        for k, c in enumerate(r.greals(o, N)): r.close(psub(c, X[k]), 0, 'rotation by one, coefficient %d' % k)
        r.events()
    tasks.append(('simple plaintext arithmetic N=%d' % N, t, 100))
    return Unit('sp%d' % L, g.src(), tasks)

def u_pt(w, L):
    N = 1 << L; h = N // 2
    g = W('impl/message.h', 'impl/plaintext.h')
    M = 'Message<%d>' % L; P = 'R_Q<%d,%d>' % (w, N)
    g.fn('enc', 'const %s*z,uint64_t D,%s*p' % (M, P), 'encode<%d,%d>(*z,D,*p);' % (w, L))
    g.fn('dec', 'const %s*p,uint64_t D,%s*z' % (P, M), 'decode<%d,%d>(*p,D,*z);' % (w, L))
    g.fn('dlog', 'const %s*p,int D,%s*z' % (P, M), 'decode_log<%d,%d>(*p,D,*z);' % (w, L))
    T = 'SparseDiagonal<%d,3>' % h
    mk(g, h, 3)
    g.fn('mvs', 'const %s*p,%s*a,%s*b,uint64_t D,%s*o' % (P, T, T, P), 'matrix_vector_product<%d,%d>(*p,*a,*b,D,*o);' % (w, L))
    Ks = sorted({1, 2, h})
    for K in Ks: g.fn('mvk%d' % K, 'const %s*p,const %s*A,uint64_t D,%s*o' % (P, M, P), 'matrix_vector_product<%d,%d,%d>(*p,A,D,*o);' % (w, L, K))
    tasks = []
    d = min(w - 8, 40)
    def t(out, mod, S):
        r = Run(mod, S, out)
        p, Z = msg(r, 'z', h, B=2.)
        o = Ptr(r.obj(zsz(w) * N, 'p'), 0)
        r.call('w_enc', [p, 1 << d, o])
        X = inv(N, [z[0] for z in Z], [z[1] for z in Z])
        for k, c in enumerate(r.gpoly(o, w, N)): enc_close(r, c, pscale(X[k], 2. ** d), w, .5 + 2. ** d * N * 1e-12, 'encoded message, coefficient %d' % k)
        for f, D in (('dec', 1 << d), ('dlog', d)):
            r = Run(mod, S, out)
            from p_C12 import signed_input, relclose
            p, C = signed_input(r, w, N, [(1, 1), (-1, 1), (1, 0)], 0)
            o = Ptr(r.obj(16 * h, 'z'), 0)
            r.call('w_' + f, [p, D, o])
            R, I = fwd(N, [pscale(c, 2. ** -d) for c in C])
            for k, c in enumerate(rmsg(r, o, h)):
                relclose(r, c[0], R[k], 'decoded message (%s), real part of slot %d' % (f, k), w, 2. ** -d)
                relclose(r, c[1], I[k], 'decoded message (%s), imaginary part of slot %d' % (f, k), w, 2. ** -d)
            r.events()
    tasks.append(('message encoding N=%d width %d' % (N, w), t, 100))
    # products of encoded diagonals and rotated plaintexts: diagonal coefficients are integers of known embedding
    def diag(r, nm, un=False):
        """slot values of a polynomial with unknown integer coefficients around +-; returns (re, im, coefficients)"""
        M_ = [dom.var('%s[%d]' % (nm, k), *((1, 7) if (k + len(nm)) % 2 else (-7, -1))) for k in range(N)]
        R, I = fwd(N, [pscale(m, 1.) for m in M_])
        return R, I, M_
    def put(o, base, V):
        for k, v in enumerate(V): o.cells[base + 8 * k] = (8, mkcell(v))
    def mkcell(v): return float(v.const()) if v.isconst() else interp.RV(v)
    D = 1 << d
    def cexp(A, B, k): return nega(A, B, N, k)
    def t(out, mod, S):
        for off in ([(0, 1, h - 1)] if h > 1 else [(0, 0, 0)]) + ([(1, 0, h // 2)] if h > 2 else []):
            r = Run(mod, S, out)
            p, A = r.poly('p', w, N)
            o1, o2 = r.obj(SIZE(h, 3), 'Ar'), r.obj(SIZE(h, 3), 'Ai')
            vr = r.obj(24 * h, 'vr'); vi = r.obj(24 * h, 'vi'); E = []
            for s in range(3):
                R, I, M_ = diag(r, 'd%d' % s)
                put(vr, 8 * h * s, [pscale(x, 1.) for x in R]); put(vi, 8 * h * s, I); E.append(M_)
            vr.gran = vi.gran = 8
            of = r.const_ints('off', off); z = r.const_ints('z', [0, 0, 0])
            r.call('w_mk_%d_3' % h, [Ptr(o1, 0), Ptr(vr, 0), of, z]); r.call('w_mk_%d_3' % h, [Ptr(o2, 0), Ptr(vi, 0), of, z])
            q = Ptr(r.obj(zsz(w) * N, 'o'), 0)
            r.call('w_mvs', [p, Ptr(o1, 0), Ptr(o2, 0), D, q])
            C = r.gpoly(q, w, N)
            for k in range(N):
                X = ZERO
                for s in range(3): X = padd(X, cexp([pscale(e, D) for e in E[s]], auto(A, N, pow(5, off[s], 2 * N)), k))
                r.zero(psub(exact(C[k], E), X), 'sparse matrix times plaintext, coefficient %d, offsets %s' % (k, off), w)
            r.events()
    tasks.append(('sparse matrix times plaintext N=%d width %d' % (N, w), t, 100))
    def t(out, mod, S):
        for K in Ks:
            r = Run(mod, S, out)
            p, A = r.poly('p', w, N)
            o = r.obj(16 * h * K, 'A'); E = []
            for s in range(K):
                R, I, M_ = diag(r, 'd%d' % s)
                put(o, 16 * h * s, R); put(o, 16 * h * s + 8 * h, I); E.append(M_)
            o.gran = 8; o.ro = True
            q = Ptr(r.obj(zsz(w) * N, 'o'), 0)
            r.call('w_mvk%d' % K, [p, Ptr(o, 0), D, q])
            C = r.gpoly(q, w, N)
            for k in range(N):
                X = ZERO
                for s in range(K): X = padd(X, cexp([pscale(e, D) for e in E[s]], auto(A, N, pow(5, s, 2 * N)), k))
                r.zero(psub(exact(C[k], E), X), 'matrix of %d diagonals times plaintext, coefficient %d' % (K, k), w)
            r.events()
    tasks.append(('matrix times plaintext N=%d width %d' % (N, w), t, 100))
    return Unit('pt%d_%d' % (w, N), g.src(), tasks)

def exact(P, E):
    """round(L) with L within 1e-6 (relative) of an integer combination of integer unknowns is that combination"""
    for _ in range(4):
        mp = {}
        for i in dom.patoms(P):
            A = ATOMS[i]
            if A.kind == 'uf' and A.name == 'round':
                L = A.args[0]
                Q = {}
                top = max([abs(c) for c in L.d.values()] or [0])
                for m, c in L.d.items():
                    n = round(c)
                    if abs(c - n) > 1e-6 * top + 1e-9: break
                    if n and abs(n) > 1e-9 * top: Q[m] = n
                else: mp[i] = Poly(Q)
        if not mp: return P
        P = dom.psubst(P, mp)
    return P
