#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import engine, registry

def mode_of(u): return 'proof' if 'proof' in u or 'lean' in u else 'bounded'

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    P = registry.PROPS[prop]
    units = [registry.UNITS[n] | {'name': n} for n in P['units'] if not only or n == only]
    budget = 840
    def left(): return budget - (time.time() - t0)
    tmo = 420 if tier == 'quick' else 800
    results, verdicts = {}, {}
    ex = cf.ThreadPoolExecutor(16)
    futs = {}
    for u in units:
        m = mode_of(u)
        futs[ex.submit(engine.cbmc_unit, u, m, tier, min(tmo, left()))] = (u, m)
        if tier == 'thorough' and m == 'proof' and 'bounded' in u:
            futs[ex.submit(engine.cbmc_unit, u, 'bounded', tier, min(tmo, left()))] = (u, 'cross')
    for f in cf.as_completed(futs):
        u, m = futs[f]
        results[(u['name'], m)] = f.result()
    # second stage: bounded stand-in for what did not go through
    futs = {}
    for u in units:
        m = mode_of(u)
        r = results[(u['name'], m)]
        if m == 'proof' and r.status != 'proved' and 'bounded' in u and (u['name'], 'cross') not in results:
            futs[ex.submit(engine.cbmc_unit, u, 'bounded', 'quick', max(60, min(300, left() - 60)))] = u
    for f in cf.as_completed(futs):
        results[(futs[f]['name'], 'bounded')] = f.result()
    viol = []      # (unit, text, replay content, concrete?)
    fallback, undecided = [], []
    for u in units:
        n = u['name']
        m = mode_of(u)
        r = results[(n, m)]
        b = results.get((n, 'bounded')) if m == 'proof' else r
        b = b or results.get((n, 'cross'))
        bad = [x for x in (r, b) if x and x.status in ('failed', 'vacuous')]
        if m == 'proof' and bad == [r] and b and b.status == 'proved':
            # a loop was rewritten into one of another structure: the
            # invariants were made for the old one and say nothing; the
            # contract itself is decided by the bounded stand-in
            rs = engine.reshaped(u)
            if rs:
                fallback.append((n, 'loops of %s have been restructured, their invariants do not fit any more' % ', '.join(rs)))
                continue
        if not bad:
            if r.status == 'error':
                if b and b is not r and b.status == 'proved':
                    fallback.append((n, r.note.strip()))
                else:
                    undecided.append((n, r.note.strip() + (' / bounded: ' + b.note.strip() if b and b is not r else '')))
            elif b and b is not r and b.status == 'error':
                undecided.append((n + ' (bounded cross-check)', b.note.strip()))
            continue
        rep = ['property %s, unit %s (contract of %s)' % (prop, n, ', '.join(u['functions'])), '']
        concrete = False
        for x in bad:
            rep.append('%s run: %s' % (x.mode, x.status))
            rep.append('command: ' + x.cmd)
            for pid, line, txt in x.failed:
                rep.append('FAILED OBLIGATION [%s] line %s: %s' % (pid, line, txt))
            rep.append(x.note)
        if b and b.status == 'failed' and b.trace is not None:
            st, out = engine.native(u, b.trace, n)
            rep.append('')
            rep.append('replay of the counterexample on the real code (gcc, sanitizers): ' + st)
            rep.append('nondeterministic choices, in order: ' + ' '.join(map(str, b.trace)))
            rep.append(out[-3000:])
            concrete = st == 'violated'
        names = '; '.join('%s: %s' % (n, f[2]) for x in bad for f in x.failed[:2]) or n + ': contract cannot be exercised'
        rep.append('')
        for x in bad:
            rep.append('--- verifier output (%s) ---' % x.mode)
            rep.append(x.output[-60000:])
        viol.append((n, names, '\n'.join(rep), concrete))
    # scenario replays on the real program / functions: they never decide on
    # their own, they look for a concrete input once an obligation failed or
    # could not be decided
    scen_out = []
    need = [n for n, _, _, c in viol if not c] + [n for n, _ in undecided] + [n for n, _ in fallback]
    if need and P.get('scenarios') and not only:
        for s in P['scenarios']:
            d = tempfile.mkdtemp(prefix='vfs.')
            try:
                rc, out, _ = engine.run([x.replace('@', HERE) for x in s], max(30, min(240, left())), gb=1 << 20, cwd=d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            scen_out.append((' '.join(s), rc, out))
    scen_bad = [x for x in scen_out if x[1] == 1 and 'SCENARIO-VIOLATION' in x[2]]
    obl = sum(r.obligations for (n, m), r in results.items())
    dis = sum(r.discharged for (n, m), r in results.items())
    lines, code = [], 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if viol or scen_bad:
        code = 1
        path = os.path.join(rdir, '%s.txt' % prop)
        with open(path, 'w') as f:
            for n, names, rep, c in viol: f.write(rep + '\n\n')
            for s, rc, out in scen_out: f.write('scenario %s: exit %s\n%s\n' % (s, rc, out[-8000:]))
            for n, t in undecided: f.write('undecided %s: %s\n' % (n, t))
        concrete = any(c for _, _, _, c in viol) or scen_bad
        for n, names, rep, c in viol: print('failed obligation in %s' % names)
        for s, rc, out in scen_bad: print('concrete failure: ' + out.strip().splitlines()[-1][:300])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if concrete else ' no-failing-input-found'))
    for n, t in fallback: print('note: %s decided by its bounded stand-in only (%s)' % (n, t[:200]))
    for n, t in undecided: print('note: %s undecided (%s)' % (n, t[:300]))
    for l in open(os.path.join(HERE, 'known_findings.txt')) if os.path.exists(os.path.join(HERE, 'known_findings.txt')) else []:
        if l.startswith('KNOWN-FINDING: property=%s ' % prop): print(l.strip())
    proved = [u for u in units if mode_of(u) == 'proof' and results[(u['name'], 'proof')].status == 'proved']
    bounded = [u for u in units if results.get((u['name'], 'bounded')) and results[(u['name'], 'bounded')].status == 'proved']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if any(mode_of(u) == 'proof' for u in units) else 'model_checking',
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': '; '.join(sorted({r.cmd for r in results.values() if r.cmd}))[:4000],
            'trusted_base': registry.TRUSTED + P.get('trusted', []),
            'functions_under_contract': sorted({f for u in proved for f in u['functions']}),
            'bounded_stand_ins': [{'unit': u['name'], 'functions': u['functions'], 'bound': u.get('bounded', {}).get('bound', '')} for u in bounded],
            'back_end': 'CBMC 6.11 symbolic execution, SAT (MiniSat) unless the unit says otherwise',
            'units': [{'unit': n, 'mode': m, 'status': r.status, 'obligations': r.obligations, 'discharged': r.discharged,
                       'reachability_covers_hit': r.reach, 'solver_s': round(r.secs, 2), 'note': r.note.strip()[:300]}
                      for (n, m), r in sorted(results.items())],
            'solver_time_s': round(sum(r.secs for r in results.values()), 2),
            'assumptions': sorted({a for u in units for a in u.get('assumes', [])}),
            'fallback_to_bounded': [n for n, _ in fallback], 'undecided': [n for n, _ in undecided],
            'extraction': 'copies of /repo sources made on every run; only loop cuts are inserted and detached callees renamed (lib/annot.py); nothing is dropped',
        },
    }
    if registry.PROPS[prop].get('explanation'): ev['coverage']['explanation'] = P['explanation']
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d units, %d/%d obligations discharged, %.0f s' % (prop, 'VIOLATED' if code else 'held', len(units), dis, obl, time.time() - t0))
    for (n, m), r in sorted(results.items()):
        if os.environ.get('VF_VERBOSE'): print('  ', n, m, r.status, r.obligations, r.discharged, '%.1fs' % r.secs, r.note.strip()[:300], [f[2] for f in r.failed])
    return code

sys.exit(main())
