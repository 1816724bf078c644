"""C23: bootstrapping pipelines"""
from check import Unit
from gen import W
import ob, interp, compose
from ob import Run

META = dict(level='proof', floor=.3,
  rule='content flow along the pipelines of proposal.cpp with the stages replaced by what is established on their own bodies (modulus raising, CoeffToSlot, EvalMod, SlotToCoeff, rescaling; included here): scale, period, range, modulus, key and order of halves at every call, and the decoded ciphertext must hold exactly the original message at the original scale under a larger modulus, with the q*I part and the CoeffToSlot error cancelled in EvalRound',
  explanation='every instantiation main reaches; contents are exact linear forms in the message, the integer part of the raised ciphertext (|I| <= K, K at least six standard deviations) and named errors')

def units(tier):
    g = W()
    g.text('#include "../src/experiment/section4/proposal.cpp"\n')
    us = [Unit('pipe', g.src(), [('pipelines of proposal.cpp, part %d of %d' % (k + 1, PARTS), (lambda out, mod, S, k=k: pipe(out, mod, S, k)), 640) for k in range(PARTS)], nosum=True)]
    import p_C07, p_C09, p_C12, p_C15, p_C17
    def sel(us, rx):
        import re
        out = []
        for u in us:
            u.tasks = [t for t in u.tasks if re.search(rx, t[0])]
            if u.tasks: out.append(u)
        return out
    us += sel(p_C07.units(tier), 'N=2 width|N=4 width') + sel(p_C12.units(tier), r'N=4 width (64|192)')
    us += sel(p_C09.units(tier), r'resize|raising') + p_C15.units(tier) + p_C17.units(tier)
    return us

PARTS = 4
def pipe(out, mod, S, k):
    r = Run(mod, None, out, timelimit=600, budget=400_000_000)
    c = compose.Compose(r, part=(k, PARTS))
    r.it.sums = c
    r.call('main', [])
    out.stats['report'] = ['decoded at %s (modulus 2^%d, scale 2^%g%s)' % (l, w, s, ', '.join([''] + f)) for l, ok, f, w, s in c.sinks]
    if out.status == 'refuted': return
    out.stats['report'] = [d for d, m in c.mine if m] + out.stats['report']
    if (not c.mine or any(m for d, m in c.mine)) and not any('raised' in ' '.join(f) for l, ok, f, w, s in c.sinks): out.undecided('no bootstrapped message is decoded')
    r.events(('oob', 'uaf', 'null', 'overflow', 'shift', 'divzero', 'uninit', 'assert', 'abort'))
