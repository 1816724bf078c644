"""C21: memory and value safety of the library"""
import lib

META = dict(level='proof', floor=.5,
  rule='abstract interpretation of LLVM IR: every load and store lies inside its object, every value used was initialised, every shift amount is below the width, every real-to-integer conversion fits its type, no signed arithmetic overflows, no divisor is zero, no assertion fails and no input is written, for all values of the unknown inputs',
  explanation='one case per library function and parameter set; inputs unknown within their stated ranges; pipelines with their ciphertext operations as uninterpreted functions (those are cases of their own); an event counts only with an assignment of the inputs that reaches it')

KINDS = ('oob', 'uaf', 'null', 'input-write', 'overflow', 'shift', 'divzero', 'fconv', 'uninit', 'assert', 'abort')

def task(e, g):
    def t(out, mod, S):
        r = lib.start(e, mod, S, out)
        out.late = lambda: lib.events(r, KINDS)
        for rd in range(2):
            a = lib.args(e, r, str(rd))
            x = r.call('w_' + e.fn, a)
            out.checks += 1; out.discharged += 1
            for k, p in lib.outputs(e, a): defined(r, p, 'result %d' % k)
            if e.ret != 'void': defined_v(r, x, 'returned value')
            if e.uf or e.limit > 200: break
        lib.events(r, KINDS)
    return t

def defined(r, p, what):
    """no part of the object is left uninitialised (padding excepted)"""
    import dom, interp
    o = p.obj
    out = r.out
    out.checks += 1
    for k in sorted(o.cells):
        if not defined_v(r, o.cells[k][1], '%s, offset %d' % (what, k), False): return
    out.discharged += 1

def defined_v(r, v, what, count=True):
    import dom, interp
    out = r.out
    if count: out.checks += 1
    bad = v is interp.UNDEF
    if not bad and type(v) in (interp.SV, interp.RV, interp.WV):
        bad = any(dom.ATOMS[i].undef for i in dom.base_vars(v.P))
    if bad:
        loc, fn = r.site()
        out.refute('%s depends on uninitialised memory' % what, {}, loc, fn)
        return False
    if count: out.discharged += 1
    return True

def units(tier): return lib.build(tier, 'C21', task)
