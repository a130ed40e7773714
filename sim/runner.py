"""Runs seeds in forked children, collects verdicts, minimises and writes replay files."""
import collections
import copy
import hashlib
import json
import os
import pickle
import selectors
import signal
import sys
import traceback

from . import boot, world, build, index, families, checks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
now = boot.real_perf_counter
RUN_LIMIT = int(os.environ.get('VERIF_RUN_LIMIT', '90'))     # real seconds one simulated run may take
# checks for which a run that never ends (the code under test spins) is itself a violation
SPIN = {'C08', 'C20', 'C24', 'C25'}


def seed_of(base, prop, fam, i):
    h = hashlib.blake2b(f'{base}/{prop}/{fam}/{i}'.encode(), digest_size=6).digest()
    return int.from_bytes(h, 'big')


def shape(w):
    """The order in which things happened, without times: what 'one interleaving' means here."""
    h = hashlib.blake2b(digest_size=8)
    for e in w.hist:
        h.update(f"{e['k']}|{e.get('node') or e.get('src')}|{e.get('type')}|{e.get('phase')};".encode())
    return h.hexdigest()


def judge(plan, prop, full=False):
    """One run, in this process."""
    w = build.run(plan)
    run = index.Run(w)
    for f in checks.CHECKS[prop][0]:
        f(run)
    viol = [v for v in run.out if v['property'] == prop and not run.borderline]
    if w.step_limit_hit and prop in SPIN:
        viol.insert(0, {'property': prop, 'what': 'the run does not come to an end: more than '
                                                  f'{plan.get("max_steps", 600000)} steps before t={boot.clock.mono:.3f}'})
    r = {'violations': viol[:5], 'digest': w.digest(), 'shape': shape(w), 'counts': dict(run.counts),
         'faults': dict(w.faults), 'probes': dict(w.probes), 'limit': w.step_limit_hit, 'sim_s': boot.clock.mono,
         'events': len(w.hist), 'exchanges': len(w.exchanges),
         'trouble': [e for e in w.hist if e['k'] in ('boot_error', 'loop_error')][:2]}
    return r


def child(job, prop, wfd):
    def late(*a):
        os.write(wfd, pickle.dumps({'spin': True}))
        os._exit(0)
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(RUN_LIMIT)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        plan = job if 'fam' not in job or 'ops' in job else families.make(job['fam'], job['seed'])
        r = judge(plan, prop)
    except BaseException:
        r = {'error': traceback.format_exc()[-3000:]}
    data = pickle.dumps(r)
    signal.alarm(0)
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def pool(jobs, prop, workers, stop=None):
    """Yield (job number, result) as children finish; jobs is an iterable of plans or {fam, seed}."""
    it = enumerate(jobs)
    sel = selectors.DefaultSelector()
    live = {}
    exhausted = False
    try:
        while True:
            while not exhausted and len(live) < workers:
                if stop is not None and stop():
                    exhausted = True
                    break
                nxt = next(it, None)
                if nxt is None:
                    exhausted = True
                    break
                rfd, wfd = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rfd)
                    child(nxt[1], prop, wfd)
                os.close(wfd)
                live[rfd] = [nxt[0], pid, b'', now()]
                sel.register(rfd, selectors.EVENT_READ)
            if not live:
                return
            for key, _ in sel.select(5.0):
                fd = key.fd
                c = os.read(fd, 1 << 16)
                if c:
                    live[fd][2] += c
                    continue
                sel.unregister(fd)
                os.close(fd)
                n, pid, data, t0 = live.pop(fd)
                os.waitpid(pid, 0)
                yield n, (pickle.loads(data) if data else {'error': 'the child died without a result'})
            for fd in list(live):
                if now() - live[fd][3] > RUN_LIMIT + 30:          # even the alarm did not get through
                    n, pid, data, t0 = live.pop(fd)
                    sel.unregister(fd)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    yield n, {'spin': True}
    finally:
        for fd, (n, pid, data, t0) in live.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def single(plan, prop):
    for _, r in pool([plan], prop, 1):
        return r


# ------------------------------------------------------------------------ minimising
def kind(v):
    """The violation class: its text without names, numbers and quoted parts."""
    import re
    t = re.sub(r"'[^']*'|\"[^\"]*\"|\[[^\]]*\]|\([^)]*\)", '', v['what'])
    t = re.sub(r'\b(ev|trig|ven|rid|spec|rr)\w*\d\w*|\bven[A-C]\b|[-\d.]+', '', t)
    return (v['property'], v.get('finding'), ' '.join(t.split())[:40])


def same(r, prop, want):
    if r.get('spin'):
        return want == 'spin'
    return any(kind(v) == want for v in r.get('violations', []))


LISTS = [('ops',), ('rules',), ('triggers',), ('raws',), ('svtn', 'over'), ('vtn', 'slow'), ('svtn', 'slow'), ('slow',), ('vtn', 'prefill'),
         ('vtn', 'ext')]


def get_list(plan, path):
    for p in path:
        if not isinstance(plan, dict) or p not in plan:
            return None
        plan = plan[p]
    return plan if isinstance(plan, list) else None


def set_list(plan, path, val):
    for p in path[:-1]:
        plan = plan[p]
    plan[path[-1]] = val


def required(op):
    return op.get('op') == 'start' and op.get('node') == 'vtn' and op.get('t') == 0.0


def variants(plan):
    """Simplifications of one step each, big ones first."""
    for size_div in (1, 2, 4, 8, 16, 1000000):
        for path in LISTS:
            l = get_list(plan, path)
            if not l:
                continue
            n = len(l)
            step = max(1, n // size_div) if size_div < 1000000 else 1
            if size_div > 1 and step == max(1, n // (size_div // 2 if size_div < 1000000 else 16)) and size_div < 1000000:
                continue
            for a in range(0, n, step):
                keep = [x for i, x in enumerate(l) if not a <= i < a + step or (path == ('ops',) and required(x))]
                if len(keep) == n:
                    continue
                q = copy.deepcopy(plan)
                set_list(q, path, keep)
                yield q
    for n in list(plan.get('vens', {})):
        if len(plan['vens']) > 1:
            q = copy.deepcopy(plan)
            del q['vens'][n]
            q['ops'] = [o for o in q['ops'] if o.get('node') != n and o.get('a') != n]
            yield q
    for path, val in ((('skew',), {}), (('lat',), {'lo': 0.002, 'hi': 0.004, 'tail': 0}), (('tz',), 'UTC'), (('zones',), None),
                      (('epoch',), boot.DEFAULT_EPOCH)):
        if path[0] in plan and plan[path[0]] != val:
            q = copy.deepcopy(plan)
            q[path[0]] = val
            yield q
    for n, cfg in plan.get('vens', {}).items():
        for k in list(cfg.get('beh', {})):
            q = copy.deepcopy(plan)
            del q['vens'][n]['beh'][k]
            yield q
        for i in range(len(cfg.get('reports') or [])):
            q = copy.deepcopy(plan)
            q['vens'][n]['reports'].pop(i)
            yield q
        for i, d in enumerate(cfg.get('reports') or []):
            for j in range(len(d.get('beh') or [])):
                q = copy.deepcopy(plan)
                q['vens'][n]['reports'][i]['beh'].pop(j)
                yield q
    for side in ('svtn', 'vtn'):
        for n, cfg in ((plan.get(side) or {}).get('vens') or {}).items():
            for k in ('regrep', 'upd', 'polls'):
                for i in range(len(cfg[k]) if isinstance(cfg.get(k), list) else 0):
                    q = copy.deepcopy(plan)
                    q[side]['vens'][n][k].pop(i)
                    yield q
            for k in list(cfg.get('accept') or {}) if isinstance(cfg.get('accept'), dict) else ():
                q = copy.deepcopy(plan)
                del q[side]['vens'][n]['accept'][k]
                yield q


def minimise(plan, prop, want, seconds, workers):
    """Greedy shrinking, candidates tried in parallel, the first success in order is taken."""
    t0 = now()
    tried = 0
    # cut the tail of the run
    progress = True
    best = plan
    while progress and now() - t0 < seconds:
        progress = False
        gen = variants(best)
        batch = []
        while now() - t0 < seconds:
            batch = [q for _, q in zip(range(workers), gen)]
            if not batch:
                break
            res = {}
            for n, r in pool(batch, prop, workers):
                res[n] = r
            tried += len(batch)
            hit = [n for n in sorted(res) if same(res[n], prop, want)]
            if hit:
                best = batch[hit[0]]
                progress = True
                break
    return best, tried


def size(plan):
    return sum(len(get_list(plan, p) or []) for p in LISTS)


# ------------------------------------------------------------------------------ checks
def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def plan_jobs(prop, base, total):
    """The fixed list of (family, seed) of one check, families interleaved by weight."""
    fams = checks.CHECKS[prop][1]
    s = sum(fams.values())
    per = {f: max(1, round(total * wt / s)) for f, wt in fams.items()}
    jobs = []
    for f, n in per.items():
        jobs += [((i + 0.5) / n, f, i) for i in range(n)]
    jobs.sort()
    return [{'fam': f, 'seed': seed_of(base, prop, f, i)} for _, f, i in jobs]
