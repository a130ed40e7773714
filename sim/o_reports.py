"""Oracles over reports: C13-C16."""
from collections import defaultdict
from .index import INF
from .o_ven import sessions, WORKER_TYPES

TOL = 0.06
WORKING = ('oadrUpdateReport', 'oadrCanceledReport', 'oadrCreatedReport')


def reach(run):
    """Longest time a connection takes to be made."""
    return 0.1 + 2 * run.w.lat_hi + (8 if run.w.lat_tail else 0)


def near(a, b, tol=2e-6):
    return a is not None and b is not None and abs(a - b) <= tol


# ------------------------------------------------------------------------- VEN side
class Sub:
    """One report request a VEN received."""
    def __init__(self, q, x, s, rd, up):
        self.rrid, self.spec, self.g, self.b = q.id, q.specifier, q.granularity, q.back
        self.asked = list(q.r_ids)
        self.x, self.s_on, self.t_on = x, s, max(x['t_rdlv'], up)
        self.s_off = self.t_off = INF       # replaced by a new registration, or confirmation of the cancellation sent
        self.cancels = []                   # [(s, t, request id, exchange, follow)]
        self.confirms = []
        self.late_s = 0
        ds = {d['rid']: d for d in rd if d['spec'] == self.spec}
        self.known = bool(ds)
        self.mode = next(iter(ds.values()))['mode'] if ds else None
        self.rids = [r for r in self.asked if r in ds and (self.g == 0 or ds[r]['min'] <= self.g <= ds[r]['max'])]
        self.oneshot = self.g == 0 or self.b == 0
        self.at = q.at if self.oneshot else None        # a single report asked for a moment to come
        self.every = max(self.g, self.b) if self.mode == 'full' else self.g
        self.ds = ds


class Rep:
    """The report side of one VEN session."""
    def __init__(self, run, s):
        self.run, self.s = run, s
        self.rd = s.cfg.get('reports') or []
        self.subs = []
        self.orders = []                    # messages that ask for reports: (s, t, exchange, message, request id)
        self.unknown_cancels = []
        self.cancel_seen = []
        # sampling and sending begin when the VEN has started
        self.up = s.started['t'] if s.started else INF
        cur = {}
        sent = sorted([x for x in s.x if x['s_sent'] is not None], key=lambda x: x['s_start'])
        self.updates = [x for x in sent if x['type'] == 'oadrUpdateReport']
        self.canceled = [x for x in sent if x['type'] == 'oadrCanceledReport']
        self.created = [x for x in sent if x['type'] == 'oadrCreatedReport']
        got = sorted([x for x in s.x if run.got(x) is not None], key=lambda x: x['s_rdlv'])
        acts = [(x['s_rdlv'], 'got', x) for x in got] + [(x['s_start'], 'confirm', x) for x in self.canceled]
        acts.sort(key=lambda a: a[0])
        for sq, what, x in acts:
            if what == 'confirm':
                rid = run.req(x).resp_request_id
                for sub in self.subs:
                    if any(c[2] == rid for c in sub.cancels):
                        sub.confirms.append(x)
                        if sub.s_off == INF:
                            sub.s_off, sub.t_off = sq, x['t_start']
                            sub.off_why = 'cancel'
                            if cur.get(sub.rrid) is sub:
                                del cur[sub.rrid]
                        break
                continue
            m = run.got(x)
            if m.type == 'oadrRegisteredReport' and x['type'] == 'oadrRegisterReport':
                for sub in cur.values():
                    if sub.s_off == INF:
                        sub.s_off, sub.t_off, sub.off_why = sq, x['t_rdlv'], 'replaced'
                cur = {}
                self.orders.append((sq, x['t_rdlv'], x, m, m.resp_request_id))
            elif m.type == 'oadrCreateReport' and x['type'] == 'oadrPoll':
                self.orders.append((sq, x['t_rdlv'], x, m, m.request_id))
            if (m.type == 'oadrRegisteredReport' and x['type'] == 'oadrRegisterReport') or \
                    (m.type == 'oadrCreateReport' and x['type'] == 'oadrPoll'):
                for q in m.requests:
                    sub = Sub(q, x, sq, self.rd, self.up)
                    old = cur.get(q.id)
                    sub.dup = old is not None and (old.x is x or bool(old.cancels))
                    if sub.dup:
                        old.dup = True
                    elif old is not None:
                        old.s_off, old.t_off, old.off_why = sq, x['t_rdlv'], 'replaced'
                    self.subs.append(sub)
                    cur[q.id] = sub
            c = None
            if m.type == 'oadrCancelReport' and x['type'] == 'oadrPoll':
                c = (sq, x['t_rdlv'], m.request_id, x, m.follow == 'true')
            elif m.type == 'oadrUpdatedReport' and x['type'] == 'oadrUpdateReport' and m.cancel:
                c = (sq, x['t_rdlv'], m.cancel_request_id, x, None)
            if c and s.end_s > sq:
                self.cancel_seen.append(c)
                sub = cur.get(m.cancel[0])
                if sub is None:
                    self.unknown_cancels.append(c)
                else:
                    sub.cancels.append(c)
        self._sources()

    def _sources(self):
        """Source calls, put together with their ends and the subscription they were made for."""
        self.calls = []
        open_ = defaultdict(list)
        for e in self.s.h:
            if e['k'] != 'src':
                continue
            if e['phase'] == 'start':
                c = {'spec': e['spec'], 'rid': e['rid'], 's': e['s'], 't': e['t'], 'now': e['now'], 'args': e['args'],
                     'n': e['n'], 's_end': INF, 't_end': INF, 'vals': None, 'fail': False}
                self.calls.append(c)
                open_[(e['spec'], e['rid'], e['n'])].append(c)
            else:
                c = open_[(e['spec'], e['rid'], e['n'])].pop(0)
                c['s_end'], c['t_end'], c['fail'] = e['s'], e['t'], e['phase'] == 'fail'
                c['vals'] = [(round(e['now'], 6) if t is None else t, v) for t, v in e['values']]
        self.by_value = {}
        ended = defaultdict(list)
        for c in self.calls:
            ended[(c['spec'], c['t_end'])].append(c)
        for c in self.calls:
            # earliest call of a run this one may continue
            c['root'] = min([d['root'] for d in ended[(c['spec'], c['t'])] if d['s'] < c['s'] and d['s_end'] < c['s']] + [c['s']])
            for k, (t, v) in enumerate(c['vals'] or []):
                self.by_value[(c['spec'], c['rid'], v)] = (t, c, k)

    def shared(self, sub):
        """Another subscription to the same report exists at some time together with this one."""
        for o in self.subs:
            if o is sub or o.spec != sub.spec:
                continue
            if o.s_on < sub.s_off and sub.s_on < o.s_off:
                return True
            # a run of the earlier one goes on
            if o.s_off <= sub.s_on and any(c['spec'] == o.spec and c['s'] < sub.s_on < c['s_end'] for c in self.calls):
                return True
        return sub.dup

    def lead_in(self, sub):
        """Longest time one-shot requests ahead of it in the same message may take."""
        t = 0.0
        for o in self.subs:
            if o.x is sub.x and o.oneshot:
                for r in o.rids:
                    t += max([b.get('delay', 0) for b in sub_beh(o, r)] + [0])
        return t

    def run_time(self, sub):
        return sum(max([b.get('delay', 0) for b in sub_beh(sub, r)] + [0]) for r in sub.rids)


def sub_beh(sub, rid):
    return sub.ds.get(rid, {}).get('beh', [])


def reps(run):
    if not hasattr(run, '_reps'):
        run._reps = [Rep(run, s) for s in sessions(run) if s.cfg.get('reports')]
    return run._reps


def may_fail(sub):
    return any(b.get('raise') for r in sub.rids for b in sub_beh(sub, r))


def listy(sub):
    return any(sub.ds[r].get('lists') or any(b.get('empty') for b in sub_beh(sub, r)) for r in sub.rids)


def chains(rep, sub):
    """Source calls of a report grouped into sampling runs (used only where one subscription is active)."""
    out, last = [], None
    for c in rep.calls:
        if c['spec'] != sub.spec or not (sub.s_on < c['s']):
            continue
        if c['s'] > sub.s_off and not out:
            break
        k = sub.rids.index(c['rid']) if c['rid'] in sub.rids else None
        if k is None:
            continue
        if k == 0:
            if c['s'] > sub.s_off:
                break
            out.append([c])
        else:
            # continues a run whose previous call has just ended
            for ch in reversed(out):
                if len(ch) == k and ch[-1]['rid'] == sub.rids[k - 1] and ch[-1]['t_end'] == c['t'] and ch[-1]['s_end'] < c['s']:
                    ch.append(c)
                    break
    return out


def c14_15_16(run):
    for rep in reps(run):
        s = rep.s
        label = s.label
        end_s, end_t = s.end_s, s.end_t
        run.judged('report_sessions')

        def bad(prop, what, **kw):
            run.bad(prop, f'{label}: {what}', **kw)
        # ---- C14/C15/C16: nothing is sampled that no subscription asks for
        for c in rep.calls:
            ok = False
            stale = None
            for sub in rep.subs:
                if sub.spec == c['spec'] and c['rid'] in sub.rids and sub.s_on < c['s']:
                    if c['s'] < sub.s_off:
                        ok = True
                        break
                    stale = sub
            if ok:
                continue
            if stale is not None:
                # a sampling run that was in progress goes on to its end
                prev = [d for d in rep.calls if d['spec'] == c['spec'] and d['s'] < c['s'] and d['t_end'] == c['t']
                        and d['s_end'] < c['s'] and d['s_end'] > stale.s_off]
                if prev or (stale.off_why == 'replaced' and any(d['spec'] == c['spec'] and d['t_end'] == c['t'] and d['s_end'] < c['s'] and d['s'] < stale.s_off for d in rep.calls)):
                    c['tail'] = True
                    continue
                if stale.off_why == 'cancel' and len(stale.cancels) > 1:
                    continue
                if stale.off_why == 'cancel':
                    bad('C16', f"data point {c['rid']} of report {stale.rrid} is sampled at t={c['t']:.3f} although its "
                               f"cancellation was confirmed at t={stale.t_off:.3f}")
                    bad('C14', f"data point {c['rid']} of the cancelled report {stale.rrid} is sampled at t={c['t']:.3f}")
                else:
                    bad('C14', f"data point {c['rid']} of {c['spec']} is sampled at t={c['t']:.3f} for a subscription the "
                               f"VTN replaced at t={stale.t_off:.3f}")
                continue
            bad('C14', f"data point {c['rid']} of {c['spec']} is sampled at t={c['t']:.3f} although no accepted request asks for it")
            bad('C15', f"data point {c['rid']} of {c['spec']} is sampled at t={c['t']:.3f} although no valid request asks for it")
        run.judged('source_calls', len(rep.calls))

        # ---- C15: every message that asks for reports is confirmed
        delay = {}
        for n, (sq, t, x, m, rid) in enumerate(rep.orders):
            ids = [q.id for q in m.requests]
            conf = [y for y in rep.created if run.req(y).resp_request_id == rid and y['s_start'] > sq]
            lead = sum(rep.run_time(o) for o in rep.subs if o.x is x and o.oneshot)
            if sq > end_s:
                continue
            if ids:
                run.judged('report_orders')
                limit = t + lead + 0.1 + run.paused(label, t, t + lead + 100) * 1.01
                if len(conf) > 1:
                    bad('C15', f'the request {rid} for reports {ids} is confirmed {len(conf)} times')
                elif not conf and limit + reach(run) < end_t and not run.w.lat_tail and run.quiet(t, limit + 1) and not run.paused(label, t - 1, limit + 1):
                    bad('C15', f'the request {rid} for reports {ids} of t={t:.3f} is not confirmed with oadrCreatedReport')
                for y in conf:
                    p = run.req(y).pending
                    need = [o.rrid for o in rep.subs if o.x is x and o.rids]
                    if not set(need) <= set(p) <= set(ids):
                        bad('C15', f'oadrCreatedReport for request {rid} lists {p}, requested were {ids}, valid {need}')
        for y in rep.created:
            if not any(run.req(y).resp_request_id == o[4] and o[0] < y['s_start'] for o in rep.orders):
                bad('C15', f"an oadrCreatedReport at t={y['t_start']:.3f} answers no request for reports")

        # ---- C16: confirmations
        per_req = defaultdict(int)
        for y in rep.canceled:
            per_req[run.req(y).resp_request_id] += 1
        for sub in rep.subs:
            for k, (sq, t, rid, x, follow) in enumerate(sub.cancels):
                if sq > end_s:
                    continue
                run.judged('report_cancels')
                n = per_req.get(rid, 0)
                lim = t + 1.1 + 2.2 * rep.run_time(sub) + 0.1
                overlap = len(sub.cancels) > 1
                if n > 1:
                    bad('C16', f'the cancellation {rid} of report {sub.rrid} is confirmed {n} times')
                elif n == 0 and not overlap and sub.rids and not sub.oneshot and sub.s_off == INF and lim < end_t - reach(run) \
                        and not run.w.lat_tail and run.quiet(t, lim + 1) and not run.paused(label, t - 1, lim + 1) and not sub.dup:
                    bad('C16', f'the cancellation {rid} of report {sub.rrid} received at t={t:.3f} is not confirmed')
        for (sq, t, rid, x, follow) in rep.unknown_cancels:
            if per_req.get(rid):
                bad('C16', f'the cancellation {rid} of an unknown report is confirmed')

        for sub in rep.subs:
            _timing(run, rep, sub, bad)
        _content(run, rep, bad)


def _timing(run, rep, sub, bad):
    s = rep.s
    label = s.label
    if not sub.rids or rep.shared(sub) or sub.s_on > s.end_s or s.started is None:
        return
    stop_t = min(s.end_t, sub.t_off)
    if sub.cancels:
        stop_t = min(stop_t, min(c[1] for c in sub.cancels))
    chs = [c for c in chains(rep, sub) if c[0]['t'] < stop_t - 1e-9]
    lead = rep.lead_in(sub)
    if run.jumped(s.name, sub.t_on - 1, stop_t):
        return
    if sub.oneshot and sub.at is not None:
        due = sub.at - (run.wall(s.name, sub.t_on) - sub.t_on)
        if due > sub.t_on + 2 and not run.paused(label, sub.t_on - 1, due + 2):
            run.judged('scheduled_reports')
            if chs and chs[0][0]['t'] < due - TOL:
                bad('C14', f"report {sub.rrid} is asked for t={due:.3f}, but sampled at t={chs[0][0]['t']:.3f}")
            elif due + 1.2 < stop_t and len(chs) != 1 or chs and chs[0][0]['t'] > due + 1.2:
                bad('C14', f'report {sub.rrid}, asked for t={due:.3f}, was sampled ' +
                    (f"at t={chs[0][0]['t']:.3f}" if len(chs) == 1 else f'{len(chs)} times'))
        _complete(run, rep, sub, chs, bad, stop_t)
        return
    if sub.oneshot:
        if not run.paused(label, sub.t_on - 1, sub.t_on + lead + 1) and sub.t_on + lead + 0.1 < stop_t and len(chs) != 1:
            if len(chs) == 0 or not sub.cancels:
                bad('C14', f'the one-shot report {sub.rrid} requested at t={sub.t_on:.3f} was sampled {len(chs)} times')
        _complete(run, rep, sub, chs, bad, stop_t)
        return
    g = sub.every
    run.judged('timed_subscriptions')

    def fail(what):
        bad('C14', what)
        if rep.cancel_seen and rep.cancel_seen[0][1] < stop_t:
            bad('C16', what + ' (after another report was cancelled)')
    prev = None
    phase = None
    for ch in chs + [None]:
        t = ch[0]['t'] if ch else None
        if prev is None:
            lo, hi = sub.t_on, sub.t_on + lead + g
        else:
            p_end = ch_end(prev)
            if p_end == INF:
                break
            if phase is None:
                lo, hi = prev[0]['t'], max(p_end, prev[0]['t']) + g
            # ticks at which the previous run is still in progress are skipped
            k = 1
            if phase is not None:
                while phase + k * g < prev[0]['t'] + TOL:
                    k += 1
                while phase + k * g < p_end - 0.005:
                    k += 1
                lo = hi = phase + k * g
                if abs(phase + k * g - p_end) < 0.01:
                    hi = lo + g
        if t is None:
            if hi + TOL < stop_t and not run.paused(label, lo - g - 1, hi + 1):
                fail(f'report {sub.rrid} ({sub.spec}, every {g} s) is not sampled at t={hi:.3f}; last sample: '
                     f"{'none' if prev is None else format(prev[0]['t'], '.3f')}")
            break
        if not run.paused(label, lo - g - 1, t + 1):
            if t < lo - TOL and not (prev is None):
                fail(f'report {sub.rrid} ({sub.spec}, every {g} s) is sampled at t={t:.3f}, too early after t={prev[0]["t"]:.3f}')
                return
            if t > hi + TOL:
                fail(f'report {sub.rrid} ({sub.spec}, every {g} s) is sampled at t={t:.3f}, due at t={hi:.3f}')
                return
            if phase is not None and abs((t - phase) / g - round((t - phase) / g)) * g > TOL:
                fail(f'report {sub.rrid} ({sub.spec}, every {g} s) is sampled at t={t:.3f}, off the grid from t={phase:.3f}')
                return
            if phase is None:
                phase = t
        else:
            phase = None        # this run may have been late: its moment says nothing about the grid
        prev = ch
        run.judged('sampling_runs')
    _complete(run, rep, sub, chs, bad, stop_t)


def ch_end(ch):
    return ch[-1]['t_end']


def _complete(run, rep, sub, chs, bad, stop_t):
    """Every data point once per run, with the arguments of its mode."""
    s = rep.s
    for ch in chs:
        if ch[-1]['t_end'] == INF or ch[-1]['fail']:
            continue
        if len(ch) < len(sub.rids):
            if ch_end(ch) < stop_t - 0.01:
                bad('C14', f"the sampling run of report {sub.rrid} at t={ch[0]['t']:.3f} sampled {[c['rid'] for c in ch]} "
                           f"of {sub.rids}")
            continue
        for c in ch:
            if (c['args'] is not None) != (sub.mode == 'full'):
                bad('C14', f"source of {c['rid']} was called in the wrong mode")
            elif c['args']:
                a = c['args']
                span = max(sub.g, sub.b)
                if not near(a['to'] - a['from'], span, 1e-5) or not near(a['to'], ch[0]['now'], 1e-5) \
                        or not near(a['step'], sub.g):
                    bad('C14', f"the query for {c['rid']} of report {sub.rrid} covers {a['to'] - a['from']:.3f} s up to "
                               f"{a['to'] - ch[0]['now']:.3f} in steps of {a['step']}, not {span} s up to now in steps of {sub.g}")


def _content(run, rep, bad):
    s = rep.s
    label = s.label
    seen = set()
    by_rr = defaultdict(list)
    last = {}
    for u in rep.updates:
        m = run.req(u)
        for r in m.reports or []:
            run.judged('report_messages')
            subs = [o for o in rep.subs if o.rrid == r.request_id and o.s_on < u['s_start']]
            if not subs:
                bad('C14', f'a report was sent for {r.request_id}, which was never requested')
                bad('C15', f'a report was sent for {r.request_id}, which was never requested')
                continue
            sub = subs[-1]
            by_rr[id(sub)].append((u, r))
            if r.specifier not in [o.spec for o in subs]:
                bad('C14', f'the report {r.request_id} was sent with specifier {r.specifier}')
            for (t, rid, v) in r.intervals:
                if not any(rid in o.rids for o in subs):
                    bad('C14', f'the report {r.request_id} contains data point {rid}, which was not requested')
                    bad('C13', f'the report {r.request_id} contains data point {rid}, which was not requested')
                    continue
                p = rep.by_value.get((r.specifier, rid, v))
                if p is None:
                    bad('C13', f'the report {r.request_id} carries {v} for {rid}, which its source never produced')
                    bad('C14', f'the report {r.request_id} carries {v} for {rid}, which its source never produced')
                    continue
                if not near(p[0], t):
                    bad('C13', f'the value {v} of {rid} in report {r.request_id} has time {t}, produced with {p[0]}')
                key = (r.specifier, rid, v)
                if key in seen:
                    bad('C13', f'the value {v} of {rid} was sent twice')
                    bad('C14', f'the value {v} of {rid} was sent twice')
                seen.add(key)
                pos = (p[1]['s_end'], p[2])
                if not any(o.cancels or o.dup for o in subs):
                    if last.get((r.request_id, rid), (-1, 0)) > pos:
                        bad('C13', f'values of {rid} in report {r.request_id} are sent out of order')
                    last[(r.request_id, rid)] = pos
                for o in subs:
                    if o.s_off < INF and o.off_why == 'cancel' and o is sub and p[1]['root'] > o.s_off \
                            and len(o.cancels) == 1:
                        bad('C16', f'report {r.request_id} carries data sampled after its cancellation was confirmed')
    # ---- what is sent is what the runs produced, as soon as complete
    for sub in rep.subs:
        if not sub.rids or rep.shared(sub) or sub.s_on > s.end_s or len([o for o in rep.subs if o.rrid == sub.rrid]) > 1:
            continue
        if any(run.jumped(s.name, 0, run.horizon) for _ in (1,)):
            continue
        stop_s = min(s.end_s, sub.s_off, min([c[0] for c in sub.cancels] + [INF]))
        chs = [c for c in chains(rep, sub) if c[-1]['s_end'] < stop_s and len(c) == len(sub.rids)]
        allch = [c for c in chains(rep, sub) if c[0]['s'] < stop_s]
        failing = any(c['fail'] for ch in allch for c in ch)
        if failing and (sub.mode != 'full'):
            continue
        chs = [c for c in chs if not any(k['fail'] for k in c)]
        chs.sort(key=lambda c: c[-1]['s_end'])
        acc, want = [], []
        for ch in chs:
            vals = [(t, c['rid'], v) for c in ch for t, v in c['vals']]
            acc += vals
            if sub.mode == 'incremental' and not sub.oneshot and sub.b > sub.g:
                if len(acc) >= len(sub.rids) * int(sub.b / sub.g):
                    want.append((acc, ch[-1]))
                    acc = []
            else:
                want.append((acc, ch[-1]))
                acc = []
        have = [(u, r) for u, r in by_rr[id(sub)]]
        h = 0
        for k, (vals, c) in enumerate(want):
            fits = h < len(have) and _same(have[h][1].intervals, vals)
            if not fits:
                # the attempt to send it may have met a fault, the worker may be busy with earlier reports, or the session over
                gate = _gate(run, rep, c['s_end'], c['t_end'], upto=have[h][0] if h < len(have) else None)
                if run.w.lat_tail or not run.quiet(c['t_end'] - 16, gate + 16) or run.paused(label, c['t_end'] - 30, gate + 1):
                    continue
                if h < len(have):
                    u, r = have[h]
                    got = r.intervals
                    bad('C14', f"report {sub.rrid} sent at t={u['t_start']:.3f} contains {len(got)} values, {len(vals)} samples "
                               f"belong to its interval: sent {got[:3]}, sampled {vals[:3]}")
                elif gate + reach(run) < s.end_t:
                    bad('C14', f"report {sub.rrid}, complete at t={c['t_end']:.3f}, was not sent")
                    bad('C13', f"report {sub.rrid}, complete at t={c['t_end']:.3f}, was not sent")
                break
            u, r = have[h]
            h += 1
            run.judged('reports_compared')
            gate = _gate(run, rep, c['s_end'], c['t_end'], upto=u)
            if u['t_start'] > gate + 0.1 and not run.w.lat_tail and run.quiet(c['t_end'] - 16, u['t_start']) \
                    and not run.paused(label, c['t_end'] - 30, u['t_start'] + 1):
                bad('C14', f"report {sub.rrid}, complete at t={c['t_end']:.3f}, was sent only at t={u['t_start']:.3f}")
        else:
            if h < len(have) and stop_s == s.end_s and sub.s_off == INF and not sub.cancels and not [c for c in allch if c not in chs]:
                bad('C14', f'{len(have) - h} more reports were sent for {sub.rrid} than were complete: {have[h][1].intervals[:3]}')


def _same(got, vals):
    return len(got) == len(vals) and all(near(a[0], b[0]) and a[1] == b[1] and a[2] == b[2] for a, b in zip(got, vals))


def _gate(run, rep, s_done, t_done, upto=None):
    """When the sender is free at the latest for a report that was complete then."""
    t = max(t_done, rep.up)
    for u in rep.updates + rep.canceled:
        if u is upto or (upto is not None and u['s_start'] > upto['s_start']):
            continue
        end = u['t_rdlv'] if u['t_rdlv'] is not None else u['t_start'] + 15.5
        m = run.got(u)
        if m is not None and m.type == 'oadrUpdatedReport' and m.cancel:
            end += 1.2 + 2.2 * max([rep.run_time(o) for o in rep.subs] + [0])
        if upto is None and u['s_start'] > s_done:
            t = max(t, end)
        elif u['t_start'] <= t + 0.1 or u['s_start'] < (upto['s_start'] if upto else s_done):
            t = max(t, end)
    return t


# ------------------------------------------------------------------------- VTN side
def _vtn_registrations(run):
    """(exchange, request, reply, offers, accepts) for each oadrRegisterReport a VTN answered."""
    if hasattr(run, '_vreg'):
        return run._vreg
    out = []
    if run.real_vtn:
        xs = [x for x in run.to_vtn(types=('oadrRegisterReport',))]
        for x in xs:
            name = run.name_of.get(run.req(x).ven_id)
            if name is None or x['s_rep'] is None:
                continue
            lo, hi = x['s_dlv'], x['s_rep']
            over = [y for y in xs if y is not x and run.req(y).ven_id == run.req(x).ven_id
                    and y['s_dlv'] < hi and (y['s_rep'] or INF) > lo]
            offers = [e for e in run.k['vtn_h'] if e['node'] == x['dstinc'] and e['h'] == 'offer' and e['phase'] == 'start'
                      and e['ven'] == name and lo < e['s'] < hi]
            acc = [e for e in run.k['vtn_accept'] if e['node'] == x['dstinc'] and e['ven'] == name and lo < e['s'] < hi]
            out.append((x, name, run.req(x), run.rep(x), offers, acc, bool(over)))
    run._vreg = out
    return out


def c15_vtn(run):
    if not run.real_vtn:
        return
    ids = {}
    mode_full = run.vcfg.get('report_mode') == 'full'
    for x, name, m, rep, offers, acc, over in _vtn_registrations(run):
        cfg = run.ven_cfg(name).get('reports') or []
        # what the VEN offered is what its application added
        if x['src'] == name:
            want = sorted((d['spec'], d['rid'], d['resource'], d['min'], d['max']) + _meas(run, d) for d in cfg)
            got = sorted((r.specifier, d.r_id, d.resource, d.min, d.max, d.item, d.unit, d.scale) for r in m.reports
                         for d in r.descriptions) if all(d.r_id for r in m.reports for d in r.descriptions) else None
            want2 = [tuple(str(y) for y in w) for w in want]
            got2 = [tuple(str(y) for y in g) for g in (got or [])]
            if sorted(want2) != sorted(got2):
                diff = [g for g in got2 if g not in want2][:2], [w for w in want2 if w not in got2][:2]
                run.bad('C15', f'{name} registers its reports differently from what was added: {diff}')
        if rep.type != 'oadrRegisteredReport' or x['status'] != 200 or over:
            continue
        run.judged('registrations_of_reports')
        # only telemetry reports are put to the application
        told = [r for r in m.reports if r.name in ('METADATA_TELEMETRY_USAGE', 'METADATA_TELEMETRY_STATUS')]
        desc = [(r, d) for r in told for d in r.descriptions]
        want = sorted(str((d.resource, float(d.min), float(d.max)) + ((d.item, d.unit, d.scale) if d.item else ('Status', None, None)))
                      for r, d in desc)
        got = sorted(str((e['resource'], e['min'], e['max'], e['measurement'], e['unit'], e['scale'])) for e in offers)
        if want != got:
            run.bad('C15', f'{name} registered {want[:4]} but the application was offered {got[:4]}')
            continue
        rules = {e['resource']: e for e in acc}
        expect = {}
        for r in told:
            rs = [(d.r_id, rules[d.resource]) for d in r.descriptions if d.resource in rules]
            if rs:
                expect.setdefault(r.specifier, []).append(rs)
        reqs = defaultdict(list)
        for q in rep.requests:
            reqs[q.specifier].append(q)
            if q.id in ids:
                run.bad('C15', f'the report request id {q.id} is used twice')
            ids[q.id] = x
        for spec in set(expect) | set(reqs):
            if len(expect.get(spec, [])) != 1 or len(reqs.get(spec, [])) != 1:
                run.bad('C15', f'{name}: report {spec} was accepted {len(expect.get(spec, []))} times and requested '
                               f'{len(reqs.get(spec, []))} times')
                continue
            rs, q = expect[spec][0], reqs[spec][0]
            run.judged('report_requests')
            if sorted(q.r_ids) != sorted(a for a, b in rs):
                run.bad('C15', f'{name}: of report {spec} the application accepted {sorted(a for a, b in rs)} but '
                               f'{sorted(q.r_ids)} were requested')
            samp = min(b['samp'] for a, b in rs)
            if q.granularity != samp:
                run.bad('C15', f'{name}: report {spec} is requested with sampling interval {q.granularity}, the application '
                               f"returned {sorted(b['samp'] for a, b in rs)}")
            backs = {b['back'] for a, b in rs}
            if len(backs) == 1:
                back = backs.pop()
                back = samp if back is None else back
                if q.back != back:
                    run.bad('C15', f'{name}: report {spec} is requested with reporting interval {q.back}, not {back}')


def _meas(run, d):
    if d.get('name') == 'TELEMETRY_STATUS':
        return (None, None, None)
    m = run.measure(d['measurement'], d)
    return m['description'], m['unit'], m['scale']


def c13(run):
    if not run.real_vtn:
        return
    # where each (request id, data point) of a VTN incarnation leads
    dest = {}
    res = {}
    for n, v in run.plan.get('vens', {}).items():
        for d in v.get('reports') or []:
            res[(n, d['resource'])] = (d['spec'], d['rid'])
    for x, name, m, rep, offers, acc, over in _vtn_registrations(run):
        if rep.type != 'oadrRegisteredReport':
            continue
        for q in rep.requests:
            for rid in q.r_ids:
                tags = [a['tag'] for a in acc if res.get((name, a['resource'])) == (q.specifier, rid)]
                dest[(x['dstinc'], q.id, rid)] = (name, q.specifier, tags)
    hand = [e for e in run.k['vtn_h'] if e['h'] == 'values' and e['phase'] == 'start']
    used = set()
    known = set()
    for x in run.to_vtn(types=('oadrUpdateReport',)):
        m = run.req(x)
        lo, hi = x['s_dlv'], x['s_rep'] or INF
        ok = x['status'] == 200 and run.rep(x).type == 'oadrUpdatedReport'
        last_s = lo
        for r in m.reports or []:
            groups = {}
            for t, rid, v in r.intervals:
                groups.setdefault(rid, []).append((t, v))
            for rid, vals in groups.items():
                d = dest.get((x['dstinc'], r.request_id, rid))
                if d is None:
                    continue
                cand = [e for e in hand if e['node'] == x['dstinc'] and lo < e['s'] < hi and e['s'] not in used and e['tag'] in d[2]
                        and len(e['values']) == len(vals) and all(near(a[0], b[0]) and a[1] == b[1] for a, b in zip(e['values'], vals))]
                if cand:
                    used.add(cand[0]['s'])
                    run.judged('deliveries_matched')
                elif ok:
                    run.bad('C13', f"{len(vals)} values of {rid} of {d[0]}'s report {r.request_id} arrived at t={x['t_dlv']:.3f} "
                                   f'but were not handed to the callback of that data point unchanged')
    for e in hand:
        if e['s'] not in used:
            run.bad('C13', f"the callback for {e['resource']} of {e['ven']} was given {e['values'][:3]}, which no message for it carried "
                           f"(or not as often)")
    run.judged('deliveries', len(hand))
