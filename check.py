#!/opt/venv/bin/python
"""check.py <property> [--replay FILE] [--runs N] - decide one property by seeded simulation.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the check could not decide.
VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO (default /repo), VERIF_WORKERS.
"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != os.environ.get('VERIF_HASHSEED', '0'):
    os.environ['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import collections
import json
from sim import boot, world, build, families, checks, runner, stubs
now = boot.real_perf_counter

QUICK = {'wall': 240.0, 'min_s': 60.0}
THOROUGH = {'wall': 3000.0, 'min_s': 240.0}


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED', '1'))
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or max(2, min(8, os.cpu_count() or 2))
    t0 = now()
    world.preload(8)
    if '--replay' in args:
        return replay(prop, args[args.index('--replay') + 1])
    total = checks.RUNS.get(prop, checks.DEFAULT_RUNS) * (1 if tier == 'quick' else 20)
    if '--runs' in args:
        total = int(args[args.index('--runs') + 1])
    lim = QUICK if tier == 'quick' else THOROUGH
    known = runner.load_known()
    mine = [k for k in known['findings'] if k['property'] == prop]
    tags = {k['tag'] for k in mine}
    # -- listed findings: reproduce each from its recorded plan
    for k in mine:
        r = runner.single(json.load(open(os.path.join(ROOT, k['plan']))), prop)
        hit = [v for v in r.get('violations', []) if v.get('finding') == k['tag']]
        if hit:
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
        elif 'error' in r:
            print(r['error'], file=sys.stderr)
            return 2
    # -- exploration
    jobs = runner.plan_jobs(prop, base, total)
    st = collections.Counter()
    counts, faults, probes, fams = (collections.Counter() for _ in range(4))
    shapes, digests, nontrivial = set(), set(), set()
    suppressed = collections.Counter()
    samples, found, errors, spins = [], [], [], []
    deadline = t0 + lim['wall']
    for n, r in runner.pool(jobs, prop, workers, stop=lambda: bool(found) or now() > deadline or len(errors) > 5):
        job = jobs[n]
        if 'error' in r:
            errors.append((job, r['error']))
            continue
        st['runs'] += 1
        fams[job['fam']] += 1
        if r.get('spin'):
            spins.append(job)
            if prop in runner.SPIN:
                found.append((n, job, [{'property': prop, 'what': 'the run does not come to an end (the code under test '
                                                                  'spins without letting simulated time pass)'}], 'spin'))
            continue
        st['sim_s'] += r['sim_s']
        st['events'] += r['events']
        st['exchanges'] += r['exchanges']
        st['limit'] += int(r['limit'])
        counts.update(r['counts'])
        faults.update(r['faults'])
        probes.update(r['probes'])
        shapes.add(r['shape'])
        digests.add(r['digest'])
        if sum(r['counts'].values()):
            nontrivial.add(r['digest'])
        if len(samples) < 4 and sum(r['counts'].values()) and r['faults']:
            samples.append({'family': job['fam'], 'seed': job['seed'], 'messages': r['exchanges'], 'judged': r['counts'],
                            'faults': r['faults'], 'simulated_s': r['sim_s'], 'digest': r['digest'][:16]})
        real = [v for v in r['violations'] if v.get('finding') not in tags or v.get('finding') is None]
        for v in r['violations']:
            if v not in real:
                suppressed[v['finding']] += 1
        if real:
            found.append((n, job, real, r['digest']))
    explored = now() - t0
    if not samples and st['runs']:
        samples.append({'note': 'no run with faults was judged', 'counts': dict(counts)})
    code = 0
    replay_path = None
    if found:
        found.sort(key=lambda f: f[0])
        n, job, vs, dg = found[0]
        plan = families.make(job['fam'], job['seed'])
        want = 'spin' if dg == 'spin' else runner.kind(vs[0])
        before = runner.size(plan)
        best, tried = plan, 0
        if want != 'spin':
            best, tried = runner.minimise(plan, prop, want, lim['min_s'], workers)
        r = runner.single(best, prop)
        v = vs[0]
        if want != 'spin':
            hits = [x for x in r.get('violations', []) if runner.kind(x) == want]
            if not hits:            # cannot happen for a deterministic run
                best, r = plan, runner.single(plan, prop)
                hits = [x for x in r.get('violations', []) if runner.kind(x) == want]
            v = hits[0] if hits else None
        if v is None:
            print(f'{prop}: seed {job} violated the property once and not again: {vs}', file=sys.stderr)
            code = 2
        else:
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            replay_path = os.path.join(ROOT, 'replays', f'{prop}-{job["fam"]}-{job["seed"]}.json')
            with open(replay_path, 'w') as f:
                json.dump({'property': prop, 'violation': v, 'family': job['fam'], 'seed': job['seed'],
                           'digest': r.get('digest', 'spin'), 'size': [before, runner.size(best)], 'plan': best}, f, indent=1)
            print(f'{prop}: {v["what"]}')
            print(f'{prop}: seed {job["seed"]} of family {job["fam"]}, {before} -> {runner.size(best)} plan steps '
                  f'after {tried} shrinking runs')
            print(f'VIOLATION property={prop} replay={replay_path}')
            code = 1
    elif errors:
        for j, e in errors[:3]:
            print(f'{prop}: run {j} failed in the harness:\n{e}', file=sys.stderr)
        code = 2
    elif len(spins) > st['runs'] // 2:
        print(f'{prop}: {len(spins)} of {st["runs"]} runs did not end', file=sys.stderr)
        code = 2
    elif st['runs'] and not nontrivial:
        print(f'{prop}: nothing was judged in {st["runs"]} runs', file=sys.stderr)
        code = 2
    wall = now() - t0
    ev = {'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration', 'wall_s': round(wall, 2),
          'violations': len(found),
          'coverage': {
              'evaluations': st['runs'], 'distinct_nontrivial': len(nontrivial),
              'rule': checks.RULE + ' Families: ' + '; '.join(f'{f}: {families.ABOUT[f]}' for f in checks.CHECKS[prop][1])
                      + '. A run counts as non-trivial when the oracle judged at least one obligation of this property in it, '
                        'and as distinct by the SHA-256 of its full history.',
              'samples': samples,
              'planned_runs': len(jobs), 'runs_per_family': dict(fams),
              'seeds_per_hour': round(st['runs'] / max(explored, 1e-6) * 3600),
              'simulated_seconds': round(st['sim_s'], 1), 'history_events': st['events'], 'messages': st['exchanges'],
              'distinct_histories': len(digests),
              'distinct_interleavings': len(shapes),
              'interleaving_measure': 'hash of the order of (kind, process, message type, phase) of all recorded steps of a run',
              'obligations_judged': dict(counts), 'faults_injected': dict(faults), 'probes': dict(probes),
              'runs_stopped_by_step_limit': st['limit'], 'runs_that_did_not_end': len(spins),
              'known_findings_seen': dict(suppressed),
              'components': stubs.COMPONENTS},
          'assumptions': stubs.ASSUMPTIONS}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print(f'{prop}: held in {st["runs"]} runs ({len(nontrivial)} judged, {len(shapes)} interleavings, '
              f'{st["sim_s"]:.0f} simulated s, {sum(faults.values())} faults) in {wall:.1f} s')
    return code


def replay(prop, path):
    d = json.load(open(path))
    plan = d.get('plan', d)
    r = runner.single(plan, prop)
    if 'error' in r:
        print(r['error'], file=sys.stderr)
        return 2
    if r.get('spin'):
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    for v in r['violations']:
        print(f'{prop}: {v["what"]}')
    if 'digest' in d:
        print('replay: the recorded history is ' + ('reproduced exactly' if r['digest'] == d['digest'] else 'DIFFERENT'))
    if r['violations']:
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop}: no violation')
    return 0


sys.exit(main())
