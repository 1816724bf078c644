"""C19: results do not depend on how parallel loops are scheduled"""
import lib

META = dict(level='proof', floor=.5,
  rule='every parallel region is executed abstractly one iteration at a time: the memory an iteration writes (outside objects it created itself) must be disjoint from what the other iterations between the same barriers read or write; no iteration draws randomness or asks for its thread; the results of one-iteration-per-thread execution in both orders equal those of a single thread',
  explanation='one case per library function and parameter set, all parallel regions it reaches included; every access of every iteration is recorded with its object and offset')

def task(e, g):
    def t(out, mod, S):
        r = lib.start(e, mod, S, out)
        it = r.it
        def go(mode):
            it.gobj = {}; it.nrand = 0; it.ompmode = mode
            a = lib.args(e, r, '0')
            it.nrand = 0 if e.script else 1000
            return a, r.call('w_' + e.fn, a)
        a, x = go('iter')
        out.checks += 1
        regs = {k: dict(v) for k, v in it.parallel_regions.items()}
        out.stats['regions'] = sorted({'%s (%d iterations, %d accesses, %s)' % (k[0], v['iterations'], v['accesses'], v['mode']) for k, v in regs.items()})
        for (loc, fn), v in regs.items():
            for c in v['conflicts']:
                out.refute('parallel region at %s: %s conflict on object %s at %s between iterations %s and %s (%s, %s)' % (loc, c[0], c[1], c[2], c[3], c[4], c[5], c[6]), {}, c[5] if c[5] != '?' else loc, mod.dem.get(fn, fn))
                return
        out.discharged += 1
        r.events(('par-rand', 'thread-id'))
        if out.status == 'refuted' or not regs: return
        for v in regs.values():
            if v['mode'] == 'serial': out.undecided('a parallel region with single, master, task or thread-number constructs is not analysed')
        for mode in ('serial', 'reverse'):
            b, y = go(mode)
            for (k, p), (_, q) in zip(lib.outputs(e, a), lib.outputs(e, b)):
                if not lib.same_contents(r, p, q, 'result %d of iterations in order and %s' % (k, mode)): return
            if e.ret != 'void' and not lib.same_ret(r, x, y, 'returned value of iterations in order and %s' % mode): return
    return t

def units(tier): return lib.build(tier, 'C19', task)
