#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Compiles drivers against the current sources of /repo to LLVM IR, analyses the library
functions they reach (abstract interpretation, see DESIGN.md) and decides the obligations of
one property.  Exit 0: no obligation refuted.  Exit 1: VIOLATION.  Exit 2: analysis broken."""
import os, sys, time, json, re, argparse, importlib, concurrent.futures
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import gc
gc.disable()
import ob, sums, ir
VERIF = os.path.dirname(HERE)

class Unit:
    """one translation unit; tasks: (name, fn(out, mod, S), time limit)"""
    def __init__(self, tag, src, tasks, optional=False, nosum=False, mustbuild=None, allow=None):
        self.allow = allow; self.mustbuild = mustbuild; self.nosum = nosum; self.tag = tag; self.src = src; self.tasks = tasks; self.optional = optional
        self.mod = None; self.err = None

class Accepted:
    """summaries whose bodies have been discharged in this run"""
    def __init__(self, h, exclude=(), impure=()):
        self.h = h; self.exclude = exclude; self.impure = impure
    def __call__(self, it, name, dem):
        h = self.h.get(name)
        if h is not None and self.exclude and any(e in dem for e in self.exclude):
            return None
        return h
    def without(self, *ex):
        return Accepted(self.h, tuple(self.exclude) + ex, self.impure)

REF = re.compile(r'@("(?:[^"])*"|[-\w.$]+)')
def reachable(mod, roots):
    seen = set(); st = [r for r in roots if r in mod.funcs]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        f = mod.funcs[n]
        for l in mod.text[f.lines[0]:f.lines[1]]:
            for m in REF.finditer(l):
                g = m.group(1)
                if g in mod.funcs and g not in seen: st.append(g)
    return seen

def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                m = re.match(r'finding: property=(\S+) func="([^"]*)" what="([^"]*)"\s*(.*)', l)
                if m: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-v', action='store_true'); ap.add_argument('-k', default=None); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    P = importlib.import_module('p_' + pid)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    units = P.units(tier)
    # ---- phase 0: compile
    def comp(u):
        try:
            u.ll = ob.compile_ll(u.src, '%s_%s' % (pid, u.tag))
        except ob.BuildError as e:
            u.err = str(e)
    if a.k:
        for u in units: u.tasks = [t for t in u.tasks if re.search(a.k, t[0])]
        units = [u for u in units if u.tasks]
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(comp, units))
    bad = [u for u in units if u.err]
    for u in bad:
        print('unit %s does not compile:\n%s' % (u.tag, u.err[-1500:]))
    for u in units:
        if not u.err:
            try:
                u.mod = ir.Module(u.ll)
            except Exception as e:
                u.err = 'the intermediate representation was not understood: %r' % (e,)
                bad.append(u); print('unit %s: %s' % (u.tag, u.err))
            u.ll = None
    t1 = time.time()
    # ---- phase 1: summaries
    stasks = []; owner = {}
    for u in units:
        if u.mod is None: continue
        u.cand = []
        if u.nosum: continue
        reach = sorted(reachable(u.mod, [n for n in u.mod.funcs if n.startswith('w_')]))
        pats = None
        if u.allow is not None:        # only these summaries, and those used to establish them
            pats = set(u.allow)
            while True:
                new = {x for n in reach for rx, f in sums.SPECS if rx.match(u.mod.dem.get(n, n)) and any(q in u.mod.dem.get(n, n) for q in pats) for x in f.subs} - pats
                if not new: break
                pats |= new
        for n in reach:
            dem = u.mod.dem.get(n, n)
            if pats is not None and not any(q in dem for q in pats): continue
            if any(rx.match(dem) and f(rx.match(dem)) is not None for rx, f in sums.SPECS):
                u.cand.append((n, dem))
                if dem not in owner:
                    owner[dem] = (u, n)
    skip = getattr(P, 'NOSUM', ())
    for dem, (u, n) in owner.items():
        if any(x in dem for x in skip): continue
        lim = 60 if tier == "quick" else 240
        def fn(out, u=u, n=n, lim=lim):
            o = sums.verify_summary(u.mod, n, limit=lim)
            if o is None:
                out.undecided('no specification'); return
            out.status, out.notes, out.viol, out.checks, out.discharged = o.status, o.notes, o.viol, o.checks, o.discharged
            out.stats.update(o.stats)
            out.subs = sorted(u.mod.dem.get(x, x) for x in o.subs)
        stasks.append((dem, fn, lim + 30))
    budget = 720 if tier == 'quick' else 5400
    ob.DEADLINE[0] = t0 + budget * .45
    sres = ob.run_tasks(stasks, a.j) if stasks else []
    ob.DEADLINE[0] = t0 + budget
    ok = {o.name for o in sres if o.status == 'proved'}
    impure = {o.name for o in sres if o.stats.get('impure')}
    subs = {o.name: getattr(o, 'subs', []) for o in sres}
    # a summary stands only if the summaries used in its body stand
    while True:
        drop = {d for d in ok if any(s not in ok for s in subs.get(d, []))}
        if not drop: break
        ok -= drop
    for u in units:
        if u.mod is None: continue
        h = {}
        for n, dem in u.cand:
            if dem in ok:
                for rx, f in sums.SPECS:
                    m = rx.match(dem)
                    if m:
                        hv = f(m)
                        if hv: h[n] = hv[0]
                        break
        u.S = Accepted(h, (), {n for n, dem in u.cand if dem in impure})
    t2 = time.time()
    # ---- phase 2: obligations
    tasks = []
    for u in units:
        if u.mod is None: continue
        for (name, fn, limit) in u.tasks:
            tasks.append(('%s' % name, (lambda out, u=u, fn=fn: fn(out, u.mod, u.S)), limit))
    order = sorted(range(len(tasks)), key=lambda k: -tasks[k][2])
    tasks = [tasks[k] for k in order]
    res = ob.run_tasks(tasks, a.j) if tasks else []
    res.sort(key=lambda o: o.name)
    # a public template whose use does not type-check is itself a violation (the compiler is the decider)
    for u in list(bad):
        m = re.search(r'([^\s:]+/include/[^\s:]+:\d+):\d+: error: (.*)', u.err) if u.mustbuild else None
        if m:
            o = ob.Outcome('%s can be instantiated' % u.mustbuild); o.checks = 1
            o.refute('does not compile when used: %s' % m.group(2), {}, m.group(1), u.mustbuild)
            res.append(o); bad.remove(u)
    t3 = time.time()
    # ---- report
    kf = known(pid)
    viols = []; kfs = []
    counts = {'proved': 0, 'undecided': 0, 'refuted': 0}
    for o in res:
        counts[o.status] += 1
        if a.v or o.status == 'undecided' and os.environ.get('VERIF_SHOW'):
            print('%-9s %-60s %6.2fs %s' % (o.status, o.name[:60], o.stats.get('wall', 0), ' | '.join(o.notes)[:400]))
        if o.status == 'refuted':
            v = o.viol
            k = next((k for k in kf if k[0] in (v['func'] or '') and re.search(k[1], '%s: %s' % (o.name, v['what']))), None)
            (kfs if k else viols).append((o, k))
    seen = set()
    for o, k in kfs:
        if k not in seen:
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k[0], k[2]))
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    rdir = os.path.join(VERIF, 'replay')
    for o, _ in viols[:12]:
        v = o.viol
        rp = os.path.join(rdir, '%s_%s.json' % (pid, re.sub(r'[^\w.-]+', '_', o.name)[:80]))
        json.dump({'property': pid, 'obligation': o.name, 'rule': P.META['rule'], 'function': v['func'], 'location': v['loc'], 'violation': v['what'],
                   'assignment': v['witness'], 'notes': o.notes, 'rerun': 'python3 %s/sa/check.py %s -k %s -v' % (VERIF, pid, json.dumps('^' + re.escape(o.name) + '$'))}, open(rp, 'w'), indent=1, default=str)
        print('%s: %s' % (v['loc'], v['func']))
        print('  obligation: %s' % o.name)
        print('  %s' % v['what'])
        if v['witness']:
            print('  for: %s' % ', '.join('%s=%s' % kv for kv in list(v['witness'].items())[:10]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    nob = sum(o.checks for o in res); ndis = sum(o.discharged for o in res)
    sob = sum(o.checks for o in sres if o.name in ok); sdis = sum(o.discharged for o in sres if o.name in ok)
    funcs = set(); steps = 0; sumuses = 0; calls = 0
    for o in list(res) + list(sres):
        funcs |= set(o.stats.get('funcs', ())); steps += o.stats.get('steps', 0); sumuses += o.stats.get('sumuses', 0)
    libfuncs = sorted(f for f in funcs if not f.startswith('w_'))
    und = [{'obligation': o.name, 'why': ' | '.join(o.notes)[:200]} for o in res if o.status == 'undecided']
    cov = {'explanation': P.META['explanation'], 'rule': P.META['rule'],
           'units_compiled': len(units) - len(bad), 'functions_analysed': len(libfuncs), 'instructions_interpreted': steps,
           'drivers_not_compiled': [u.tag for u in bad], 'cases': len(res), 'cases_decided': counts['proved'] + counts['refuted'], 'obligations': nob + sob, 'discharged': ndis + sdis,
           'obligations_direct': nob, 'obligations_summaries': sob, 'summaries_verified': len(ok), 'summaries_not_established': sorted(o.name for o in sres if o.name not in ok)[:20],
           'summary_uses': sumuses, 'undecided': und[:40], 'known_findings': len(seen),
           'checker_cmd': 'python3 sa/check.py %s --tier %s' % (pid, tier),
           'trusted_base': ['clang-18 front end and mem2reg', 'the abstract interpreter in /verif/sa', 'floating point is analysed over the reals with a tolerance'],
           'samples': [o.name for o in res if o.status == 'proved'][:12], 'functions_sample': libfuncs[:60]}
    regs = sorted({x for o in res for x in o.stats.get('regions', ())})
    if regs: cov['parallel_regions'] = regs[:60]
    rep = [x for o in res for x in o.stats.get('report', ())]
    if rep: cov['results_analysed'] = rep[:60]
    level = P.META['level']
    evd = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
           'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.k:
        json.dump(evd, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d cases (%d proved, %d undecided, %d refuted), %d/%d obligations discharged, %d functions, %d instructions, %d/%d summaries; compile %.1fs summaries %.1fs cases %.1fs' % (
        pid, tier, len(res), counts['proved'], counts['undecided'], counts['refuted'], ndis + sdis, nob + sob, len(libfuncs), steps, len(ok), len(sres), t1 - t0, t2 - t1, t3 - t2))
    if os.environ.get('VERIF_SHOW'):
        for o in sres:
            if o.status != 'proved': print('summary', o.name, o.status, o.notes[:2], o.viol, o.stats.get('wall'))
        slow = sorted(list(res) + list(sres), key=lambda o: -o.stats.get('wall', 0))[:8]
        print('slowest:', ', '.join('%s %.1fs' % (o.name[:50], o.stats.get('wall', 0)) for o in slow))
    if viols:
        return 1
    if not a.k:
        if not any(u.mod is not None for u in units):
            print('ANALYSIS-BROKEN: no driver compiles'); return 2
        if any(not u.optional for u in bad):
            print('INCONCLUSIVE: %d of %d drivers do not compile; their cases were not analysed' % (len(bad), len(units)))
        if counts['undecided']:
            print('INCONCLUSIVE: %d of %d cases undecided (listed in the evidence file); the property held on every decided one' % (counts['undecided'], len(res)))
    return 0

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
