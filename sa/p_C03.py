"""C03: word-size modular arithmetic"""
from check import Unit
from gen import W
import ob, interp, dom
from ob import Run
from dom import padd, psub, pmul, pneg, pscale, pc, paddc, ZERO, ge0, fl, prange, gate
from interp import Ptr, to_u, SV, NoSummary

META = dict(level='proof', floor=.3,
  rule='value-flow over LLVM IR: the value returned by each helper must be the least non-negative residue of the specified integer expression (normal forms of residues are compared after unfolding inner residues); no subtraction may leave [0,2^64); powers are decided by induction over the recursion (n -> n/2) and directly for small exponents',
  explanation='all operands (and the modulus, except where a case names one) are unknown words; an obligation is one equality of normal forms or one range')

PRIMES = [2, 3, 5, 7, 13, 17, 97, (1 << 60) - 93, 1152921504598720513, (1 << 61) - 1, (1 << 62) - 57, (1 << 63) - 25, (1 << 64) - 59]

def rem_of(P, q):
    if isinstance(q, int): return dom.rem(P, q) if q & (q - 1) else psub(P, pscale(fl(P, q), q))
    lo, hi = prange(q)
    if lo == hi: return rem_of(P, lo)
    return dom.remq(P, q, lo, hi)

def units(tier):
    g = W('HEAAN/arith/conv/crt.h')
    g.fn('mod', 'uint64_t a, uint64_t b, uint64_t q', 'return mod(a,b,q);', 'uint64_t')
    g.fn('add', 'uint64_t a, uint64_t b, uint64_t q', 'return add_mod(a,b,q);', 'uint64_t')
    g.fn('sub', 'uint64_t a, uint64_t b, uint64_t q', 'return sub_mod(a,b,q);', 'uint64_t')
    g.fn('mulm', 'uint64_t a, uint64_t b, uint64_t q', 'return mul_mod(a,b,q);', 'uint64_t')
    g.fn('pow', 'uint64_t a, uint64_t b, uint64_t q', 'return pow_mod(a,b,q);', 'uint64_t')
    g.fn('inv', 'uint64_t a, uint64_t q', 'return inv_mod(a,q);', 'uint64_t')
    g.fn('mul2', 'uint64_t a, uint64_t b, uint64_t*lo, uint64_t*hi', 'mul(a,b,*lo,*hi);')
    g.fn('mul_', 'uint64_t a, uint64_t b, uint64_t*lo, uint64_t*hi', 'mul_(a,b,*lo,*hi);')
    tasks = []
    spec = {'mod': lambda a, b: padd(a, pscale(b, 1 << 64)), 'add': padd, 'sub': psub, 'mulm': pmul}
    def val(v): return to_u(v, 64)[0]
    for op, f in spec.items():
        for q in [None] + PRIMES + [4, 6, 1 << 32, 10**18, (1 << 64) - 1, 1 << 63]:
            for al in (False, True):
                if al and q is not None: continue
                def t(out, mod, S, op=op, f=f, q=q, al=al):
                    r = Run(mod, S, out)
                    a, A = r.word('a'); b, B = (a, A) if al else r.word('b')
                    if q is None: qv, Q = r.word('q', 2)
                    else: qv, Q = q, q
                    R = val(r.call('w_' + op, [a, b, qv]))
                    E = f(A, B)
                    r.zero(psub(R, rem_of(E, Q)), '%s modulo %s' % (op, 'q' if q is None else q))
                    r.events()
                tasks.append(('%s%s mod %s' % (op, ' (same operand)' if al else '', q or 'any q'), t, 60))
    for op in ('mul2', 'mul_'):
        for al in (False, True):
            def t(out, mod, S, op=op, al=al):
                r = Run(mod, S.without('mul(unsigned'), out)
                a, A = r.word('a'); b, B = (a, A) if al else r.word('b')
                lo = r.out_words('lo', 1); hi = r.out_words('hi', 1)
                r.call('w_' + op, [a, b, lo, hi])
                L = r.gwords(lo, 1)[0]; H = r.gwords(hi, 1)[0]
                r.zero(psub(padd(L, pscale(H, 1 << 64)), pmul(A, B)), 'two-word product')
                r.events()
            tasks.append(('%s%s' % (op, ' (same operand)' if al else ''), t, 60))
    def powname(mod):
        return next((n for n in mod.funcs if mod.dem.get(n, n).startswith('pow_mod(')), None)
    # induction step for powers
    for q in [None] + PRIMES:
        def t(out, mod, S, q=q):
            pn = powname(mod)
            calls = []
            def h(it, args, dbg):
                if it.stack.count(pn) < 2: raise NoSummary
                qp = to_u(args[2], 64)[0]
                e = dom.var('E%d' % len(calls), 0, (1 << 64) - 1 if q is None else q - 1)
                calls.append((to_u(args[0], 64)[0], to_u(args[1], 64)[0], qp, e))
                return SV(e)
            def sums(it, name, dem):
                return h if name == pn else S(it, name, dem)
            r = Run(mod, sums, out)
            a, A = r.word('a'); n, N = r.word('n', 1)
            if q is None: qv, Q = r.word('q', 2)
            else: qv, Q = q, pc(q)
            R = val(r.call('w_pow', [a, n, qv]))
            if len(calls) != 1 or not psub(calls[0][0], A).d == {} or not psub(calls[0][2], Q).d == {} or psub(calls[0][1], fl(N, 2)).d:
                out.undecided('powers are not computed by halving the exponent'); return
            E = calls[0][3]
            odd = psub(N, pscale(fl(N, 2), 2))
            q_ = Q if q is None else q
            r.zero(psub(R, gate(odd, rem_of(pmul(pmul(E, E), A), q_), rem_of(pmul(E, E), q_))), 'power: step from n/2 to n')
            r.events()
        tasks.append(('pow induction mod %s' % (q or 'any q'), t, 20))
    for q in [None] + PRIMES:
        for n in list(range(0, 20)) + [31, 32, 33, 47, 63, 64]:
            if q is not None and n > 9: continue
            def t(out, mod, S, q=q, n=n):
                r = Run(mod, S, out)
                a, A = r.word('a')
                if q is None: qv, Q = r.word('q', 2)
                else: qv, Q = q, q
                R = val(r.call('w_pow', [a, n, qv]))
                E = pc(1)
                for _ in range(n): E = pmul(E, A)
                r.zero(psub(R, rem_of(E, Q)), 'power %d' % n)
                r.events()
            tasks.append(('pow %d mod %s' % (n, q or 'any q'), t, 60))
    # inverses
    def t(out, mod, S):
        pn = powname(mod)
        calls = []
        def h(it, args, dbg):
            e = dom.var('E%d' % len(calls), 0, (1 << 64) - 1)
            calls.append(([to_u(x, 64)[0] for x in args], e))
            return SV(e)
        r = Run(mod, lambda it, name, dem: h if name == pn else S(it, name, dem), out)
        a, A = r.word('a'); qv, Q = r.word('q', 3)
        R = val(r.call('w_inv', [a, qv]))
        if len(calls) != 1 or psub(R, calls[0][1]).d:
            out.undecided('the inverse is not one power'); return
        (x, n, q), e = calls[0]
        r.zero(psub(rem_of(x, Q), rem_of(A, Q)), 'base of the power'); r.zero(psub(q, Q), 'modulus of the power')
        r.zero(psub(n, paddc(Q, -2)), 'exponent of the power (Fermat)')
        r.events()
    tasks.append(('inverse is the power q-2', t, 60))
    for q in [3, 5, 7, 13, 17, 97]:
        def t(out, mod, S, q=q):
            r = Run(mod, S, out)
            a, A = r.word('a')
            R = val(r.call('w_inv', [a, q]))
            E = pc(1)
            for _ in range(q - 2): E = pmul(E, A)
            r.zero(psub(R, rem_of(E, q)), 'inverse modulo %d' % q)
            r.events()
        tasks.append(('inverse mod %d' % q, t, 60))
    return [Unit('m', g.src(), tasks)]
