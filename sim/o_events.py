"""Oracles over the VTN's side of events: C01, C02, C03, C04, C07."""
from .index import INF
from . import o_sec

EPS = 0.002


class Inst:
    """One event the application gave to one VTN process for one VEN."""
    def __init__(self, rec):
        self.s, self.t, self.spec = rec['s'], rec['t'], rec['spec']
        self.ven, self.uid, self.eid = rec['ven'], rec['uid'], rec['eid']
        self.again = rec['again']
        # add_event has no parameter for the modification number or priority
        self.raw = bool(self.spec.get('raw'))
        self.mod0 = self.spec.get('mod', 0) if self.raw else 0
        self.total = sum(i[0] for i in self.spec['ivs'])
        self.cancels = []           # (s, certain)
        self.poss = []              # possible removals: (s_lo, s_hi, how, exchange id)
        self.defi = []              # definite removals: (s_hi, how, exchange id)

    def n(self, s_lo, s_hi):
        """Bounds on the number of cancellations seen by something in [s_lo, s_hi]."""
        return (sum(1 for s, c in self.cancels if c and s < s_lo), sum(1 for s, c in self.cancels if s < s_hi))

    def definitely_gone(self, s):
        return any(hi < s for hi, _, _ in self.defi)

    def possibly_gone(self, s, but=None):
        return any(lo < s for lo, hi, how, x in self.poss if x != but)


def status_at(run, inst, wall):
    st = run.epoch + inst.spec['start']
    if wall >= st + inst.total and inst.total > 0:
        return 'completed'
    if wall >= st:
        return 'active'
    if inst.spec.get('ramp') is not None and wall >= st - inst.spec['ramp']:
        return 'near'
    return 'far'


ORDER = ['far', 'near', 'active', 'completed']


def statuses(run, inst, t1, t2):
    lo, hi = run.wall_range('vtn', t1, t2)
    a, b = ORDER.index(status_at(run, inst, lo - EPS)), ORDER.index(status_at(run, inst, hi + EPS))
    out = set(ORDER[a:b + 1])
    if inst.spec.get('ramp') is None:
        out.discard('near')
    return out


class Model:
    """Everything known about one (VTN process, VEN)."""
    def __init__(self, run, inc, ven):
        self.run, self.inc, self.ven = run, inc, ven
        self.ven_id = run.ven_id[ven]
        self.insts = [Inst(e) for e in run.k['ev_add'] if e['node'] == inc and e['ven'] == ven and not e.get('err')]
        self.by_eid = {i.eid: i for i in self.insts}
        self.end_s = run.end_s.get(inc, INF)
        reqs = run.to_vtn(inc, None, self.ven_id)
        # requests the VTN answered by refusing the sender are no distribution attempts
        def refused(x):
            return x['rtype'] == 'oadrRequestReregistration' or x['status'] in (400, 403) \
                or (x['rtype'] and run.rep(x).code not in (None, 200))
        self.asks = [x for x in reqs if x['type'] in ('oadrPoll', 'oadrRequestEvent') and not refused(x)]
        self.refused = [x for x in reqs if x['type'] in ('oadrPoll', 'oadrRequestEvent') and refused(x)]
        self.answers = [x for x in reqs if x['type'] == 'oadrCreatedEvent' and x['rtype'] != 'oadrRequestReregistration'
                        and x['status'] not in (400, 403) and run.rep(x).code != 463 and not self.lookup_failed(x)
                        and (not run.vcfg.get('tls') or o_sec.legit(run, x))]
        self.solve()

    def lookup_failed(self, x):
        lo, hi = self.win(x)
        return x['status'] == 500 and any(e['node'] == self.inc and e['h'] == 'ven_lookup' and e['phase'] == 'fail'
                                          and e['ven'] == self.ven and lo < e['s'] < hi for e in self.run.k['vtn_h'])

    # window of a request at the VTN
    @staticmethod
    def win(x):
        return x['s_dlv'], (x['s_rep'] if x['s_rep'] is not None else INF)

    @staticmethod
    def twin(x):
        return x['t_dlv'], (x['t_rep'] if x['t_rep'] is not None else INF)

    def listed(self, x):
        """Events in a successful distribution, else None."""
        if x['status'] != 200:
            return None
        if x['rtype'] == 'oadrDistributeEvent':
            return self.run.rep(x).events
        return []

    def failed(self, x):
        return x['status'] != 200

    def solve(self):
        run = self.run
        cancels = [e for e in run.k['ev_cancel'] if e['node'] == self.inc and e['ven'] == self.ven]
        for i in self.insts:
            cand = [e['s'] for e in cancels if e['eid'] == i.eid and e['s'] > i.s]
            i.cancels = [(s, True) for s in cand]
        # possible removals first (superset), then which cancels are certain, then definite removals
        for i in self.insts:
            for x in self.asks:
                lo, hi = self.win(x)
                if hi < i.s:
                    continue
                ev = self.listed(x)
                if ev is not None:
                    if any(e.id == i.eid and e.status == 'completed' for e in ev):
                        i.poss.append((lo, hi, 'completed', x['id']))
                        i.defi.append((hi, 'completed', x['id']))
                else:
                    t1, t2 = self.twin(x)
                    if 'completed' in statuses(run, i, t1, min(t2, run.horizon)):
                        i.poss.append((lo, hi, 'completed', x['id']))
            for x in self.answers:
                lo, hi = self.win(x)
                for r in run.req(x).responses or []:
                    if r.id == i.eid and any(s < hi for s, _ in i.cancels) and hi > i.s:
                        nlo, nhi = i.n(lo, hi)
                        if any(r.mod == i.mod0 + k for k in range(1, nhi + 1)):
                            i.poss.append((lo, hi, 'confirmed', x['id']))
            i.cancels = [(s, not i.possibly_gone(s)) for s, _ in i.cancels]
            for x in self.answers:
                if x['status'] != 200 or run.rep(x).code != 200:
                    continue
                lo, hi = self.win(x)
                for r in run.req(x).responses or []:
                    if r.id != i.eid or i.s > lo:
                        continue
                    nlo, nhi = i.n(lo, hi)
                    if nlo == nhi and nlo > 0 and r.mod == i.mod0 + nlo:
                        i.defi.append((hi, 'confirmed', x['id']))

    def maybe_completed(self, i, s):
        return any(lo < s for lo, hi, how, x in i.poss if how == 'completed')

    def surely_completed(self, i, s):
        return any(hi < s for hi, how, x in i.defi if how == 'completed') \
            and not any(how == 'confirmed' for lo, hi, how, x in i.poss)


def models(run):
    if not hasattr(run, '_models'):
        run._models = [Model(run, inc, ven) for inc in run.vtn_incs for ven in run.ven_id] if run.real_vtn else []
        if run.real_vtn and run.vcfg.get('polling') == 'external':
            run._models = []
    return run._models


# --------------------------------------------------------------------------- C02
def want_targets(run, i):
    t = i.spec.get('targets')
    if not t:
        return [('venID', run.ven_id[i.ven])]
    names = {'ven_id': 'venID', 'group_id': 'groupID', 'resource_id': 'resourceID', 'party_id': 'partyID', 'group_name': 'groupName'}
    return [(names[k], str(v)) for d in t for k, v in d.items()]


def content_errors(run, i, ev):
    sp = i.spec
    err = []

    def cmp(what, got, want):
        if got != want:
            err.append(f'{what}: {got!r} instead of {want!r}')
    start = round(run.epoch + sp['start'], 6)
    ivs, t = [], sp['start']
    for d, v in sp['ivs']:
        ivs.append((round(run.epoch + t, 6), d, float(v)))
        t += d
    sigs = sp['sigs'] if i.raw else sp['sigs'][:1]
    cmp('signals', [(s.name, s.type) for s in ev.signals], [tuple(s) for s in sigs])
    for s in ev.signals:
        cmp('intervals', [(a, b, c) for a, b, c in s.intervals], ivs)
    cmp('start', ev.start, start)
    cmp('duration', ev.duration, i.total)
    cmp('ramp-up', ev.ramp, sp.get('ramp'))
    cmp('notification', ev.notify, sp.get('notify'))
    cmp('recovery', ev.recovery, sp.get('recovery'))
    cmp('market context', ev.market, sp.get('market', 'http://market.context'))
    cmp('priority', int(ev.priority or 0), sp.get('prio', 0) if i.raw else 0)
    cmp('response required', ev.rr, sp['rr'])
    cmp('targets', sorted(ev.targets), sorted(want_targets(run, i)))
    if i.raw and sp.get('comment'):
        cmp('comment', ev.comment, sp['comment'])
    return err


def c02(run):
    for m in models(run):
        for x in m.asks:
            evs = m.listed(x)
            if evs is None:
                continue
            if x['type'] == 'oadrPoll' and x['rtype'] != 'oadrDistributeEvent':
                continue
            run.judged('distributions')
            lo, hi = m.win(x)
            ids = [e.id for e in evs]
            for d in {e for e in ids if ids.count(e) > 1}:
                run.bad('C02', f'event {d} appears {ids.count(d)} times in one distribution', ex=x['id'])
            for i in m.insts:
                must = i.s < lo and not i.possibly_gone(hi, but=x['id']) and not i.definitely_gone(lo)
                if must and i.eid not in ids:
                    run.bad('C02', f'outstanding event {i.eid} of {m.ven} is missing from a distribution '
                                   f'({x["type"]} answered with {x["rtype"]})', ex=x['id'])
            for e in evs:
                i = m.by_eid.get(e.id)
                if i is None or i.s > hi:
                    run.bad('C02', f'a distribution to {m.ven} contains event {e.id}, which is not an event of that VEN',
                            ex=x['id'])
                    continue
                if i.definitely_gone(lo):
                    how = [h for s, h, _ in i.defi if s < lo][0]
                    run.bad('C02', f'event {e.id} of {m.ven} is distributed after it was {how}', ex=x['id'])
                for er in content_errors(run, i, e):
                    run.bad('C02', f'event {e.id} was distributed with changed content: {er}', ex=x['id'])
            # order
            if any(lo < s < hi for i in m.insts for s, _ in i.cancels):
                continue
            if any(y is not x and y['s_dlv'] < hi and (y['s_rep'] or INF) > lo for y in m.asks):
                continue
            run.judged('ordered', len(evs) > 1)

            def keyof(e):
                p = int(e.priority or 0) or 10 ** 9
                return (0, p, e.start) if e.status == 'active' else (1, 0, e.start)
            ks = [keyof(e) for e in evs]
            if ks != sorted(ks):
                run.bad('C02', 'events are not in order (active first by priority and start, others by start): '
                               + ', '.join(f'{e.id}[{e.status} prio {e.priority} start {e.start - run.epoch:.0f}]'
                                           for e in evs), ex=x['id'])


# --------------------------------------------------------------------------- C03
def c03(run):
    for m in models(run):
        for x in m.asks:
            evs = m.listed(x) or []
            lo, hi = m.win(x)
            t1, t2 = m.twin(x)
            for e in evs:
                i = m.by_eid.get(e.id)
                if i is None or i.s > hi:
                    continue
                run.judged('statuses')
                nlo, nhi = i.n(lo, hi)
                if not i.mod0 + nlo <= e.mod <= i.mod0 + nhi:
                    run.bad('C03', f'event {e.id} has modification number {e.mod} after {nlo}..{nhi} cancellations '
                                   f'(it started at {i.mod0})', ex=x['id'])
                elif e.mod > i.mod0:
                    run.judged('cancelled_statuses')
                    if e.status != 'cancelled':
                        run.bad('C03', f'cancelled event {e.id} is distributed with status {e.status}', ex=x['id'])
                else:
                    ok = statuses(run, i, t1, t2)
                    run.judged('status_' + e.status)
                    if e.status not in ok:
                        run.bad('C03', f'event {e.id} has status {e.status}; on the VTN clock it is {sorted(ok)}', ex=x['id'])
                for s, how, xx in i.defi:
                    if s < lo:
                        run.bad('C03', f'event {e.id} is distributed again after it was {how}', ex=x['id'])
                        break


# --------------------------------------------------------------------------- C01
def changes(m):
    out = []
    for i in m.insts:
        out.append((i.s, i, 'added', i.mod0, True))
        n = 0
        for s, certain in i.cancels:
            n += 1
            out.append((s, i, 'cancelled', i.mod0 + sum(1 for ss, c in i.cancels if c and ss <= s), certain))
    return sorted(out, key=lambda c: c[0])


def c01(run):
    for m in models(run):
        polls = [x for x in m.asks if x['type'] == 'oadrPoll']
        chs = changes(m)

        def overlap(x, y):
            a, b = m.win(x)
            c, d = m.win(y)
            return x is not y and a < d and c < b

        def carries(x, i, mod):
            return any(e.id == i.eid and e.mod >= mod for e in (m.listed(x) or []))
        for s, i, what, mod, certain in chs:
            if not certain:
                continue
            # a poll that was already being answered when the change was made
            before = [p for p in polls if p['s_dlv'] < s and m.win(p)[1] > s]
            if any(p['s_rep'] is None for p in before):
                continue
            if any(carries(p, i, mod) for p in before):
                run.judged('carried_overlapping')
                continue
            for p in [p for p in polls if p['s_dlv'] > s]:
                lo, hi = m.win(p)
                if p['s_rep'] is None or i.possibly_gone(hi, but=p['id']):
                    break
                if m.failed(p):
                    continue
                run.judged('changes_delivered')
                if carries(p, i, mod):
                    break
                others = [q for q in polls if overlap(p, q)]
                if any(q['s_rep'] is None or carries(q, i, mod) for q in others):
                    break
                if any(m.failed(q) for q in others):
                    continue
                run.bad('C01', f'event {i.eid} of {m.ven} was {what} but the next poll was answered with '
                               f'{p["rtype"] or p["status"]} that does not carry it', ex=p['id'])
                break
        for p in polls:
            if p['status'] != 200 or p['rtype'] != 'oadrDistributeEvent':
                continue
            lo, hi = m.win(p)
            run.judged('distributions_justified')
            due = False
            for s, i, what, mod, certain in chs:
                if s > hi:
                    continue
                used = [q for q in polls if q['s_dlv'] > s and q['status'] == 200 and q['s_rep'] < lo]
                used = [q for q in used if not any(
                    m.failed(f) and (f['s_rep'] is None or f['s_rep'] > q['s_dlv']) and f['s_dlv'] < hi for f in polls)]
                if not used:
                    due = True
                    break
            if not due:
                run.bad('C01', f'a poll of {m.ven} without any undelivered change is answered with oadrDistributeEvent',
                        ex=p['id'])
        for p in polls:
            if p['status'] == 200 and p['rtype'] not in ('oadrDistributeEvent', 'oadrResponse', 'oadrRequestReregistration'):
                run.bad('C01', f'a poll is answered with {p["rtype"]}', ex=p['id'])


# --------------------------------------------------------------------------- C04
def classify(m, x, r):
    """(for the acknowledgement, for the callback): yes / no / maybe."""
    lo, hi = m.win(x)
    i = m.by_eid.get(r.id)
    if i is None or i.s > hi:
        return 'no', 'no', i
    nlo, nhi = i.n(lo, hi)
    match_def = nlo == nhi and r.mod == i.mod0 + nlo
    match_may = i.mod0 + nlo <= r.mod <= i.mod0 + nhi
    comp_may = m.maybe_completed(i, hi)
    conf_may = any(l < hi and how == 'confirmed' and xx != x['id'] for l, h, how, xx in i.poss)
    if i.s < lo and not comp_may and not conf_may and match_def:
        return 'yes', 'yes', i
    if m.surely_completed(i, lo):
        return 'yes', 'maybe', i
    gone = any(s < lo and how == 'confirmed' for s, how, _ in i.defi)
    if gone and not comp_may:
        return 'no', 'no', i
    if not match_may and not comp_may:
        return 'no', 'no', i
    return 'maybe', 'maybe', i


def classes(m, x, rs):
    """The responses of one message; one that follows a response confirming the cancellation of the same event may come too late."""
    hi, out, seen = m.win(x)[1], [], set()
    for r in rs:
        a, c, i = classify(m, x, r)
        if r.id in seen and i is not None and any(s < hi for s, _ in i.cancels):
            a, c = ('no' if a == 'no' else 'maybe'), ('no' if c == 'no' else 'maybe')
        seen.add(r.id)
        out.append((a, c, i))
    return out


def c04(run):
    for m in models(run):
        cbs = [e for e in run.k['cb'] if e['node'] == m.inc]
        for i in m.insts:
            mine = [e for e in cbs if e['uid'] == i.uid]
            kind = i.spec.get('cb')
            if len(mine) > 1:
                run.bad('C04', f'the callback of event {i.eid} of {m.ven} was called {len(mine)} times', at=mine[1]['s'])
            cand = []
            for x in m.answers:
                lo, hi = m.win(x)
                rs = run.req(x).responses or []
                if not any(r.id == i.eid for r in rs):
                    continue
                cl = classes(m, x, rs)
                for n, r in enumerate(rs):
                    if r.id != i.eid:
                        continue
                    a, c, _ = cl[n]
                    if c == 'no':
                        continue
                    # is this response certainly reached?
                    pc = cl[:n]
                    reach = all(q[0] == 'yes' for q in pc) and not any(q[2] is not None and q[2].spec.get('cbraise')
                                                                       for q in pc)
                    if any(q[0] == 'no' for q in pc):
                        continue
                    cand.append((x, r, c, reach))
            for e in mine:
                if kind != 'future' and (e['a_ven'] != m.ven_id or e['a_eid'] != i.eid):
                    run.bad('C04', f'the callback of event {i.eid} of {m.ven_id} was called for event {e["a_eid"]} of '
                                   f'{e["a_ven"]}', at=e['s'])
                ok = [c for c in cand if m.win(c[0])[0] < e['s'] and (e['s'] < m.win(c[0])[1] or (
                          kind == 'future' and e['t'] <= m.twin(c[0])[1] + 1e-4))
                      and c[1].opt == e['opt']]
                if not ok:
                    run.bad('C04', f'the callback of event {i.eid} of {m.ven} was called with {e["opt"]!r} although no valid '
                                   'response with that opt was being handled', at=e['s'])
            if not cand or kind is None:
                continue
            x, r, c, reach = cand[0]
            lo, hi = m.win(x)
            if c == 'yes' and reach and x['s_rep'] is not None:
                if any(y['s_dlv'] < hi for y, *_ in cand[1:] if y is not x):
                    continue
                run.judged('first_responses')
                if not mine:
                    run.bad('C04', f'the first valid response ({r.opt}) of {m.ven} to event {i.eid} did not fire its '
                                   'callback', ex=x['id'])
                else:
                    e = mine[0]
                    if e['opt'] != r.opt or not (lo < e['s'] and e['t'] <= x['t_rep'] + 0.001):
                        run.bad('C04', f'the callback of event {i.eid} of {m.ven} got {e["opt"]!r}, its first response '
                                       f'was {r.opt!r}', ex=x['id'])
        # acknowledgements
        for x in m.answers:
            if x['s_rep'] is None:
                continue
            rs = run.req(x).responses or []
            cl = classes(m, x, rs)
            raising = any(c[2] is not None and c[2].spec.get('cbraise') for c in cl)
            got = run.rep(x).code if x['status'] == 200 else x['status']
            if raising or x['status'] == 200 and x['rtype'] != 'oadrResponse':
                if x['status'] == 200 and x['rtype'] != 'oadrResponse':
                    run.bad('C04', f'an oadrCreatedEvent is answered with {x["rtype"]}', ex=x['id'])
                continue
            if all(c[0] == 'yes' for c in cl):
                run.judged('acks_200')
                if got != 200:
                    run.bad('C04', f'responses {[(r.id, r.mod, r.opt) for r in rs]} of {m.ven} to events it has are '
                                   f'answered with code {got}', ex=x['id'])
            elif any(c[0] == 'no' for c in cl):
                run.judged('acks_452')
                if got != 452:
                    b = [r for r, c in zip(rs, cl) if c[0] == 'no'][0]
                    run.bad('C04', f'a response of {m.ven} to event {b.id} modification {b.mod}, which the VTN does not have '
                                   f'for it, is answered with code {got}', ex=x['id'])


# --------------------------------------------------------------------------- C07
def match(calls, wins):
    """Maximum matching of calls to windows; returns window index per call."""
    of = {}

    def tryit(w, seen):
        for c, call in enumerate(calls):
            if c in seen or not wins[w](call):
                continue
            seen.add(c)
            if c not in of or tryit(of[c], seen):
                of[c] = w
                return True
        return False
    done = {w for w in range(len(wins)) if tryit(w, set())}
    return done, of


def c07(run):
    for m in models(run):
        calls_all = [e for e in run.k['dcb'] if e['node'] == m.inc]
        for i in m.insts:
            if not i.spec.get('dcb'):
                continue
            starts = [e for e in calls_all if e['uid'] == i.uid and e['phase'] == 'start']
            ends = [e for e in calls_all if e['uid'] == i.uid and e['phase'] == 'end']
            # k-th start belongs with its own end: calls of one callback may overlap, so only count them
            req, opt = [], []
            for x in m.asks:
                lo, hi = m.win(x)
                evs = m.listed(x)
                if evs is None:
                    opt.append((lo, hi, x))
                elif any(e.id == i.eid for e in evs):
                    req.append((lo, hi, x))
            run.judged('deliveries', len(req))
            wins = [(lambda e, a=lo, b=hi: a < e['s'] < b) for lo, hi, x in req]
            done, of = match(starts, wins)
            for w, (lo, hi, x) in enumerate(req):
                if w not in done:
                    run.bad('C07', f'event {i.eid} was distributed to {m.ven} without a call of its delivery callback',
                            ex=x['id'])
                elif i.spec['dcb'] == 'coro' and not any(lo < e['s'] < hi for e in ends):
                    run.bad('C07', f'event {i.eid} was distributed to {m.ven} before its delivery callback had finished',
                            ex=x['id'])
            left = [c for n, c in enumerate(starts) if n not in of]
            if left:
                # they must belong to attempts that failed (or never got to their reply)
                wins2 = wins + [(lambda e, a=lo, b=hi: a < e['s'] < b) for lo, hi, x in opt]
                done2, of2 = match(starts, wins2)
                lost = [c for n, c in enumerate(starts) if n not in of2]
                if lost:
                    run.bad('C07', f'the delivery callback of event {i.eid} of {m.ven} was called {len(starts)} times for '
                                   f'{len(req)} deliveries', at=lost[0]['s'])
