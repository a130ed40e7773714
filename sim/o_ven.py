"""Oracles over the VEN: C05, C06, C08, C09, C10, C11, C12."""
from .index import INF

KNOWN_SIGNALS = {'BID_ENERGY', 'BID_LOAD', 'BID_PRICE', 'CHARGE_STATE', 'DEMAND_CHARGE', 'ELECTRICITY_PRICE',
                 'ENERGY_PRICE', 'LOAD_CONTROL', 'LOAD_DISPATCH', 'SIMPLE'}
REG_TYPES = ('oadrQueryRegistration', 'oadrCreatePartyRegistration')
WORKER_TYPES = ('oadrUpdateReport', 'oadrCreatedReport', 'oadrCanceledReport')


class Session:
    """One VEN process."""
    def __init__(self, run, label):
        self.run, self.label = run, label
        self.name = label.split('#')[0]
        self.cfg = run.plan['vens'][self.name]
        self.x = run.by_src[label]
        h = [e for e in run.hist if e.get('node') == label]
        self.h = h
        self.crash_s = run.end_s.get(label, INF)
        self.crash_t = run.end_t.get(label, INF)
        self.started = next((e for e in h if e['k'] == 'ven_started'), None)
        self.stops = [e for e in h if e['k'] == 'ven_stop']
        self.cancels = [e for e in h if e['k'] == 'ven_cancel_reg']
        self.accepts = []           # [(exchange, message)] accepted registrations in order
        self.refusals = []          # answered create_party_registration without an acceptance
        for x in self.x:
            if x['type'] == 'oadrCreatePartyRegistration':
                m = run.got(x)
                if m is None:
                    continue
                if m.type == 'oadrCreatedPartyRegistration' and m.code == 200 and m.registration_id:
                    self.accepts.append((x, m))
                elif m.type == 'oadrCreatedPartyRegistration' and m.code == 200:
                    self.refusals.append((x, m))
        # the moment the session is told to end (stop(), cancellation either way, refused re-registration)
        ends = [(e['s'], e['t'], 'stop') for e in self.stops if e['phase'] == 'start'][:1]
        for x in self.x:
            # a cancellation that was refused or went unanswered leaves the session as it was
            m = run.got(x) if x['type'] == 'oadrCancelPartyRegistration' else None
            if m and m.type == 'oadrCanceledPartyRegistration' and m.code == 200:
                ends.append((x['s_rdlv'], x['t_rdlv'], 'cancel'))
        reg = None
        for x in self.x:
            m = run.got(x)
            if m is None:
                continue
            if m.type == 'oadrCreatedPartyRegistration' and x['type'] == 'oadrCreatePartyRegistration' and m.code == 200:
                if m.registration_id:
                    reg = m.registration_id
                elif self.accepts:
                    ends.append((x['s_rdlv'], x['t_rdlv'], 'refused'))
            if x['type'] == 'oadrPoll' and m.type == 'oadrCancelPartyRegistration' and m.registration_id == reg:
                ends.append((x['s_rdlv'], x['t_rdlv'], 'vtn_cancel'))
        if self.crash_s < INF:
            ends.append((self.crash_s, self.crash_t, 'crash'))
        ends.append((run.hist[-1]['s'], run.horizon, 'horizon'))
        self.ends = sorted(ends)
        self.end_s, self.end_t, self.end_why = self.ends[0]

    def freq(self):
        if not self.accepts:
            return None
        f = self.accepts[0][1].poll_freq
        return min(f if f else 10, 86400)

    def cur_id(self, s):
        cur = self.cfg.get('preset_id')
        for x, m in self.accepts:
            if x['s_rdlv'] < s and m.ven_id:
                cur = m.ven_id
        return cur

    def cleanup_ticks(self):
        """When the periodic event clean-up may run (None: cannot be told)."""
        if self.started is None:
            return []
        return self.started['t'], self.cfg.get('cleanup') or 300


def sessions(run):
    if not hasattr(run, '_sessions'):
        # where a stalled VEN finds a reply and its 10 s read timeout due at the same instant, what it did
        # with the reply cannot be told: such sessions are not judged
        run._sessions = [Session(run, l) for l in run.ven_incs
                         if not any(x['t_rdlv'] is not None and x['t_rdlv'] - x['t_sent'] > 9.98
                                    for x in run.by_src[l])]
    return run._sessions


# ------------------------------------------------------------------ event handling
def over_at(run, ev, host, t):
    return ev.duration and run.wall(host, t) >= ev.start + ev.duration


def analyse(run, s):
    """Replay the distributions a VEN received against a reference model.
    Returns [(exchange, message, [(event, opt, fresh)], complete?, s_done, t_done)]."""
    if hasattr(s, 'dist'):
        return s.dist
    out = []
    known = {}
    ds = []
    for x in s.x:
        if x['type'] not in ('oadrPoll', 'oadrRequestEvent'):
            continue
        m = run.got(x)
        if m is not None and m.type == 'oadrDistributeEvent' and m.events and not (m.vtn_id or '').islower():
            ds.append((x, m))
    starts = [e for e in s.h if e['k'] == 'ven_ev' and e['phase'] == 'start']
    ends = {e['n']: e for e in s.h if e['k'] == 'ven_ev' and e['phase'] == 'end'}
    # processing is cut short by a crash, by stop() (which cancels the job), or by the end of the run
    cut_s, cut_t = min([(s.crash_s, s.crash_t), (run.hist[-1]['s'], run.horizon)]
                       + [(e['s'], e['t']) for e in s.stops if e['phase'] == 'start'])
    used = set()
    tick0 = s.cleanup_ticks()

    def may_forget(k, t):
        if not tick0:
            return False
        over = k['end'] is not None and run.wall_range(s.name, k['t'], t)[1] >= k['end'] - 1
        if not (k['status'] == 'cancelled' or over):
            return False
        if run.jumped(s.name, 0, t) or run.paused(s.label, 0, t):
            return True
        t0, p = tick0
        lo = k['t']
        if k['status'] != 'cancelled':
            lo = max(lo, k['end'] - (run.wall(s.name, t) - t) - 1.5)
        n = max(1, int((lo - 1.5 - t0) / p))
        while t0 + n * p < lo - 1.5:
            n += 1
        return t0 + n * p <= t + 1.5

    for d, (x, m) in enumerate(ds):
        if x['s_rdlv'] > cut_s:
            break
        nxt_s = ds[d + 1][0]['s_rdlv'] if d + 1 < len(ds) else INF
        has_next = nxt_s < cut_s
        calls = [e for e in starts if x['s_rdlv'] < e['s'] < nxt_s]
        if not calls and x['type'] == 'oadrPoll' and any(
                why in ('cancel', 'vtn_cancel') and es <= x['s_rdlv'] for es, _, why in s.ends):
            continue    # the registration ended while the reply was under way: it may be ignored
        run.judged('distributions_received')
        n = 0
        t_done, s_done = x['t_rdlv'], x['s_rdlv']
        res = []
        complete = True
        for ev in m.events:
            k = known.get(ev.id)
            if k is None:
                allowed = {'on_event'}
            elif k['mod'] != ev.mod:
                allowed = {'on_update_event'}
            else:
                allowed = {None}
            if k is not None and may_forget(k, t_done):    # (handlers of events before it take time)
                allowed |= {'on_event'}
                if s.cfg.get('no_handlers'):
                    allowed |= {None}
            call = calls[n] if n < len(calls) else None
            placeholder = {c for c in allowed if c and (s.cfg.get('no_handlers') or
                                                        (c == 'on_update_event' and s.cfg.get('no_update')))}
            if call is not None and call['view']['eid'] == ev.id and call['view']['mod'] == ev.mod and n not in used:
                n += 1
                if call['call'] not in allowed - placeholder:
                    want = {c for c in allowed - placeholder if c}
                    run.bad('C05', f'{call["call"]} was called for event {ev.id} modification {ev.mod}; expected '
                                   f'{" or ".join(sorted(want)) if want else "no call: this version was handled before"}',
                            ex=x['id'])
                v = call['view']
                want = {'eid': ev.id, 'mod': ev.mod, 'status': ev.status, 'start': ev.start, 'dur': ev.duration,
                        'sigs': [(g.name, [tuple(i) for i in g.intervals]) for g in ev.signals]}
                diff = [f for f in want if v[f] != want[f]]
                run.judged('handler_calls')
                if diff:
                    run.bad('C05', f'the handler got event {ev.id} with {diff[0]} = {v[diff[0]]!r}; the message says '
                                   f'{want[diff[0]]!r}', ex=x['id'])
                end = ends.get(call['n'])
                if end is None:
                    complete = False
                    t_done, s_done = INF, INF
                    break
                t_done, s_done = max(t_done, end['t']), max(s_done, end['s'])
                r = end['result'] if end['mode'] == 'ok' else None
                opt = r if r in ('optIn', 'optOut') else 'optOut'
                res.append((ev, opt, True))
                known[ev.id] = {'mod': ev.mod, 'opt': opt, 'status': ev.status, 't': x['t_rdlv'],
                                'end': ev.start + ev.duration if ev.duration else None}
                continue
            if None in allowed:
                run.judged('repeats')
                res.append((ev, k['opt'], False))
                continue
            if placeholder:
                opt = 'optOut'
                if 'on_update_event' in placeholder and k is not None:
                    opt = None if len(allowed) > 1 else k['opt']       # None: cannot be told
                res.append((ev, opt, True))
                known[ev.id] = {'mod': ev.mod, 'opt': opt, 'status': ev.status, 't': x['t_rdlv'],
                                'end': ev.start + ev.duration if ev.duration else None}
                continue
            # expected a call that did not come
            room = run.paused(s.label, t_done, cut_t) == 0 and t_done < min(cut_t, run.horizon) - 0.01
            if has_next or (call is not None) or room:
                run.bad('C05', f'{"/".join(sorted(c for c in allowed if c))} was not called for event {ev.id} '
                               f'modification {ev.mod}' + (f' (the next call was for {call["view"]["eid"]} modification '
                                                           f'{call["view"]["mod"]})' if call else ''), ex=x['id'])
            complete = False
            s_done, t_done = INF, INF
            break
        else:
            for extra in calls[n:]:
                run.bad('C05', f'{extra["call"]} was called for event {extra["view"]["eid"]} modification '
                               f'{extra["view"]["mod"]} although the message gives no reason for it', ex=x['id'])
        out.append((x, m, res, complete, s_done, t_done, nxt_s))
        if not complete:
            break
    # calls before any distribution
    if ds:
        first = ds[0][0]['s_rdlv']
    else:
        first = INF
    for e in starts:
        if e['s'] < first:
            run.bad('C05', f'{e["call"]} was called before any distribution arrived', at=e['s'])
            break
    s.dist = out
    return out


def c05(run):
    for s in sessions(run):
        analyse(run, s)


def c06(run):
    for s in sessions(run):
        msgs = [x for x in s.x if x['type'] == 'oadrCreatedEvent']
        taken = set()
        for (x, m, res, complete, s_done, t_done, nxt_s) in analyse(run, s):
            if not complete:
                for y in msgs:
                    if x['s_rdlv'] < y['s_sent'] < nxt_s:
                        taken.add(y['id'])
                        run.bad('C06', 'event responses were sent before all handlers of the distribution had finished',
                                ex=y['id'])
                continue
            mine = [y for y in msgs if x['s_rdlv'] < y['s_sent'] < nxt_s]
            for y in mine:
                taken.add(y['id'])
            t_sent = mine[0]['t_sent'] if mine else t_done
            t2 = max(t_done, t_sent)
            must, may = [], []
            for ev, opt, fresh in res:
                if ev.rr != 'always':
                    continue
                a = run.wall_range(s.name, x['t_rdlv'], t2)
                end = ev.start + ev.duration
                if not ev.duration or a[1] + 0.001 < end:
                    must.append((ev, opt, fresh))
                elif a[0] < end:
                    may.append((ev, opt, fresh))
            run.judged('answer_sets')
            if not mine:
                dead = min(s.end_t if s.end_why != 'vtn_cancel' else INF, run.horizon)
                if must and run.quiet(t_done - 0.1, t_done + 1.0) and t_done + 1.0 < dead and nxt_s > 0:
                    run.bad('C06', f'no oadrCreatedEvent was sent for event(s) {[e.id for e, _, _ in must]}', ex=x['id'])
                continue
            if len(mine) > 1:
                run.bad('C06', f'{len(mine)} oadrCreatedEvent messages were sent for one distribution', ex=x['id'])
            y = mine[0]
            rs = run.req(y).responses or []
            ids = [r.id for r in rs]
            for e in {i for i in ids if ids.count(i) > 1}:
                run.bad('C06', f'event {e} is answered {ids.count(e)} times in one message', ex=y['id'])
            for ev, opt, fresh in must:
                if ev.id not in ids:
                    run.bad('C06', f'event {ev.id}, which requires a response, is not answered', ex=y['id'])
            allowed = {ev.id: (ev, opt, fresh) for ev, opt, fresh in must + may}
            for r in rs:
                if r.id not in allowed:
                    run.bad('C06', f'event {r.id} is answered although it needs no response (not requested, over, or not in '
                                   'the message)', ex=y['id'])
                    continue
                ev, opt, fresh = allowed[r.id]
                run.judged('answers')
                if r.mod != ev.mod:
                    run.bad('C06', f'the response to event {ev.id} modification {ev.mod} names modification {r.mod}', ex=y['id'])
                if opt is not None and r.opt != opt:
                    run.bad('C06' if fresh else 'C05',
                            f'event {ev.id} modification {ev.mod} is answered {r.opt!r}; '
                            + ('the handler decided ' if fresh else 'the same version was answered before with ') + f'{opt!r}',
                            ex=y['id'])
                if r.request_id != m.request_id:
                    run.bad('C06', f'the response to event {ev.id} names request {r.request_id!r}; the distribution had '
                                   f'{m.request_id!r}', ex=y['id'])
                want = 200 if all(g.name in KNOWN_SIGNALS for g in ev.signals) else 460
                if r.code != want:
                    run.bad('C06', f'event {ev.id} with signals {[g.name for g in ev.signals]} is answered with code {r.code}',
                            ex=y['id'])
        for y in msgs:
            if y['id'] not in taken:
                run.bad('C06', 'an oadrCreatedEvent was sent that answers no distribution', ex=y['id'])


# ------------------------------------------------------------------------- polling
def poll_attempts(run, s):
    """(when the poll was begun, exchange): a new connection counts from when it was asked for."""
    return [(x['t_start'], x) for x in s.x if x['type'] == 'oadrPoll']


def c08(run):
    for s in sessions(run):
        f = s.freq()
        if f is None or s.started is None:
            continue
        att = poll_attempts(run, s)
        # spacing
        sched = [a for a in att if a[1]['s_sent'] > s.started['s']]
        prev_t = s.started['t']
        for k, (t, x) in enumerate(sched):
            gap = t - prev_t
            if gap < f - 1.2 and not run.jumped(s.name, prev_t - f - 2, t + 1) \
                    and not run.paused(s.label, prev_t - f - 2, t + 1):
                run.bad('C08', f'{s.name} polled {gap:.2f} s after its previous poll (interval {f} s)', ex=x['id'])
            prev_t = t
        run.judged('poll_gaps', len(sched))
        # overlap
        allp = [x for t, x in att]
        hs = [e for e in s.h if e['k'] == 'ven_ev']
        other = [x for x in s.x if x['type'] in ('oadrCreatedEvent', 'oadrCreatePartyRegistration', 'oadrRegisterReport',
                                                 'oadrRequestEvent', 'oadrPoll')]
        for x in allp:
            for z in other:
                if z['s_sent'] < x['s_sent'] and z['s_rdlv'] is not None and z['s_rdlv'] > x['s_sent']:
                    run.bad('C08', f'{s.name} polled while its {z["type"]} was still unanswered', ex=x['id'])
            op = {e['n'] for e in hs if e['s'] < x['s_sent'] and e['phase'] == 'start'} \
                - {e['n'] for e in hs if e['s'] < x['s_sent'] and e['phase'] == 'end'}
            if op:
                run.bad('C08', f'{s.name} polled while the handling of its previous poll was in progress', ex=x['id'])
        # liveness
        acts = []       # (begin, end) of the work a poll causes
        last = None
        for x in s.x:
            if x['type'] != 'oadrUpdateReport':
                e = x['t_rdlv'] if x['t_rdlv'] is not None else x['t_sent'] + 10.6
                acts.append((x['t_sent'], max(x['t_sent'], e)))
        reports = bool(s.cfg.get('reports'))
        for e in s.h:
            if e['k'] == 'ven_ev':
                acts.append((e['t'], e['t']))
            elif e['k'] == 'src' and reports:
                prev = [x for x in s.x if x['s_sent'] < e['s'] and x['type'] not in ('oadrUpdateReport', 'oadrCreatedReport',
                                                                                  'oadrCanceledReport')]
                if prev:
                    m = run.got(prev[-1])
                    if m is not None and m.type in ('oadrCreateReport', 'oadrCancelReport', 'oadrRegisteredReport'):
                        acts.append((e['t'], e['t']))
        marks = [t for t, x in att]
        for e in s.h:
            if e['k'] != 'connect':
                continue
            nx = next((x for x in s.x if x['s_sent'] > e['s']), None)
            if nx is not None and nx['type'] == 'oadrUpdateReport' and nx['t_sent'] - e['t'] < 6:
                continue
            acts.append((e['t'], e['t'] + 5.6))
            marks.append(e['t'])
        marks = sorted(m for m in marks if m > s.started['t'] and m <= s.end_t)
        points = [s.started['t']] + marks
        for k, a in enumerate(points):
            b = points[k + 1] if k + 1 < len(points) else s.end_t
            # open handlers keep the VEN busy until they end
            last_end = max([min(e, b) for st, e in acts if a - 1e-6 <= st <= b] + [a]
                           + [min(e, b) for st, e in acts if st < a <= e])
            op = {e['n']: e for e in hs if e['phase'] == 'start' and e['t'] <= b}
            for e in hs:
                if e['phase'] == 'end' and e['t'] <= b:
                    op.pop(e['n'], None)
            if op and b == s.end_t:
                continue
            extra = run.paused(s.label, a - 1, b)
            if extra:
                extra += f + 11
            for tt, ss, d in run._skews[s.name]:
                if tt >= 0 and a - f <= tt <= b:
                    extra += abs(d) + f
            if b - last_end > f + 2.0 + extra:
                run.bad('C08', f'{s.name} did not poll for {b - last_end:.1f} s (interval {f} s) after t={last_end:.1f}',
                        at=last_end)
                break


# -------------------------------------------------------------------- registration
def c09(run):
    for s in sessions(run):
        for x in s.x:
            if x['type'] in REG_TYPES:
                continue
            acc = [a for a in s.accepts if a[0]['s_rdlv'] < x['s_sent']]
            if not acc:
                run.bad('C09', f'{s.name} sent {x["type"]} before its registration was accepted', ex=x['id'])
                break
            run.judged('gated')
            want = s.cur_id(x['s_start'])
            got = run.req(x).ven_id
            # a message may have been made just before a new id arrived: only its own exchange counts
            prevs = {m.ven_id for a, m in s.accepts if m.ven_id}
            if got != want and not (got in prevs and len(prevs) > 1 and x['type'] in WORKER_TYPES
                                    and x['t_sent'] - max(a[0]['t_rdlv'] for a in acc) < 6
                                    + run.paused(s.label, x['t_start'], x['t_sent'])):
                run.bad('C09', f'{s.name} sent {x["type"]} with VEN id {got!r}; the VTN assigned {want!r}', ex=x['id'])
        # a VEN whose registration at start was not accepted stops
        created = [x for x in s.x if x['type'] == 'oadrCreatePartyRegistration']
        if created and not s.accepts:
            for x in s.x:
                if x['s_sent'] > created[0]['s_sent']:
                    run.bad('C09', f'{s.name} was not accepted but still sent {x["type"]}', ex=x['id'])
                    break
            run.judged('not_accepted')
            if any(e['k'] == 'ven_started' for e in s.h):
                run.bad('C09', f'{s.name} started although its registration was not accepted')
        elif s.accepts and created:
            run.judged('accepted')
    if run.real_vtn:
        for x in run.to_vtn(None, ('oadrCreatePartyRegistration',)):
            ref = [e for e in run.k['vtn_refuse'] if e['node'] == x['dstinc'] and x['s_dlv'] < e['s'] < (x['s_rep'] or INF)
                   and e['ven'] == run.req(x).ven_name]
            over = [y for y in run.to_vtn(x['dstinc'], ('oadrCreatePartyRegistration',)) if y is not x
                    and run.req(y).ven_name == run.req(x).ven_name and y['s_dlv'] < (x['s_rep'] or INF)
                    and (y['s_rep'] or INF) > x['s_dlv']]
            if over or x['s_rep'] is None or x['status'] != 200:
                continue
            m = run.rep(x)
            if m.type != 'oadrCreatedPartyRegistration':
                continue
            acc = [e for e in run.k['vtn_reg'] if e['node'] == x['dstinc'] and x['s_dlv'] < e['s'] < x['s_rep']
                   and e['ven'] == run.req(x).ven_name]
            if ref:
                run.judged('refusals')
                if m.registration_id:
                    run.bad('C09', f'a refused registration is answered with registration id {m.registration_id}', ex=x['id'])
                if m.ven_id and m.ven_id != run.req(x).ven_id:
                    run.bad('C09', f'a refused registration is answered with VEN id {m.ven_id}', ex=x['id'])
            elif acc:
                run.judged('acceptances')
                if m.registration_id != acc[0]['reg'] or m.ven_id != acc[0]['ven_id']:
                    run.bad('C09', f'the application assigned {acc[0]["ven_id"]}/{acc[0]["reg"]}; the reply says '
                                   f'{m.ven_id}/{m.registration_id}', ex=x['id'])


def offered(run, x):
    return sorted((r.specifier, tuple(sorted(d.r_id for d in r.descriptions))) for r in run.req(x).reports)


def own_reports(cfg):
    by = {}
    for r in cfg.get('reports', []):
        by.setdefault(r['spec'], []).append(r['rid'])
    return sorted((k, tuple(sorted(v))) for k, v in by.items())


def c10_ven(run):
    for s in sessions(run):
        polls = [x for x in s.x if x['type'] == 'oadrPoll']
        steps = ('oadrResponse', 'oadrCreatePartyRegistration', 'oadrRegisterReport', 'oadrRequestEvent')
        full = ['oadrResponse', 'oadrCreatePartyRegistration'] \
            + (['oadrRegisterReport'] if s.cfg.get('reports') else []) + ['oadrRequestEvent']
        for n, x in enumerate(polls):
            m = run.got(x)
            if m is None or m.type != 'oadrRequestReregistration':
                continue
            nxt = polls[n + 1] if n + 1 < len(polls) else None
            till = nxt['s_sent'] if nxt else INF
            ex = [y for y in s.x if x['s_rdlv'] < y['s_sent'] < till and y['type'] in steps]
            if not s.cfg.get('reports'):
                ex = [y for y in ex if y['type'] != 'oadrRegisterReport']
            seq = [y['type'] for y in ex]
            t_last = max([y['t_rdlv'] or y['t_sent'] + 10.6 for y in ex] + [x['t_rdlv']])
            cut = s.end_why != 'refused' and s.end_t < t_last + 2.0 and s.end_s < till
            run.judged('reregistrations')
            # order: a subsequence of the full procedure
            it = iter(full)
            if not all(t in it for t in seq):
                run.bad('C10', f'{s.name} was told to re-register and sent {seq}; the procedure is {full}', ex=x['id'])
                continue
            for y in ex:
                if y['type'] == 'oadrCreatePartyRegistration' and run.req(y).ven_id != s.cur_id(y['s_sent']):
                    run.bad('C10', f'{s.name} re-registered under VEN id {run.req(y).ven_id!r}', ex=y['id'])
                if y['type'] == 'oadrRegisterReport' and offered(run, y) != own_reports(s.cfg):
                    run.bad('C10', f'{s.name} offered {offered(run, y)} again; its reports are {own_reports(s.cfg)}', ex=y['id'])
            if cut or not run.quiet(x['t_rdlv'], t_last + 0.5):
                continue
            answers = [run.got(y) for y in ex if y['type'] == 'oadrCreatePartyRegistration']
            if any(a is None or a.type != 'oadrCreatedPartyRegistration' for a in answers):
                continue
            if any(a.code != 200 for a in answers):
                continue
            refused = any(not a.registration_id for a in answers)
            if x['t_rdlv'] + 2.0 > run.horizon:
                continue
            want = full[:2] if refused else full
            # slow report sources can stretch the procedure
            if not refused and nxt is None and run.horizon - t_last < 60:
                continue
            run.judged('reregistrations_complete')
            if seq != want:
                run.bad('C10', f'{s.name} was told to re-register and only sent {seq}; the procedure is {want}', ex=x['id'])
        # the start of the session
        if polls:
            p = polls[0]
            before = [y['type'] for y in s.x if y['s_sent'] < p['s_sent']]
            if run.quiet(0 if not s.x else s.x[0]['t_sent'], p['t_sent']):
                run.judged('starts')
                want = ['oadrCreatePartyRegistration'] + (['oadrRegisterReport'] if s.cfg.get('reports') else []) \
                    + ['oadrRequestEvent']
                it = iter(before)
                if not all(t in it for t in want):
                    run.bad('C10', f'{s.name} started with {before} before its first poll; expected {want} in that order',
                            ex=p['id'])


def known_spans(run, name):
    """[(s, registered?)] of a VEN at the real VTN's application."""
    ven_id = run.ven_id[name]
    reg = 'prereg' if run.vcfg['vens'][name].get('prereg') else None
    out = [(-1, reg)]
    if run.vcfg['vens'][name].get('prereg'):
        reg = run.vcfg['vens'][name]['prereg']
    for e in run.hist:
        if e['k'] == 'vtn_reg' and e['ven'] == name:
            reg = e['reg']
        elif e['k'] == 'vtn_forget' and e['ven'] == name:
            reg = None
        elif e['k'] == 'vtn_h' and e['h'] == 'cancel_reg' and e['ven'] == name and e['phase'] == 'end' \
                and e.get('reg') == reg and not run.vcfg['vens'][name].get('keep_reg'):
            reg = None
        else:
            continue
        out.append((e['s'], reg))
    return out


def known_during(spans, a, b):
    """yes / no / maybe over [a, b]."""
    st = None
    seen = set()
    for s, r in spans:
        if s <= a:
            st = r
        elif s < b:
            seen.add(r is not None)
    seen.add(st is not None)
    return 'maybe' if len(seen) == 2 else ('yes' if True in seen else 'no')


def c10_vtn(run):
    if not run.real_vtn or run.vcfg.get('lookup') not in ('ven_lookup', 'both') or run.vcfg.get('tls'):
        return
    spans = {n: known_spans(run, n) for n in run.ven_id}
    lookups_fail = any(r['h'] == 'ven_lookup' and r.get('raise') for r in run.vcfg.get('slow', []))
    xs = run.to_vtn()
    for x in xs:
        if x['type'] in REG_TYPES or x['type'] in ('', 'oadrResponse') or x['s_rep'] is None:
            continue
        m = run.req(x)
        if not m.ven_id or not run.schema_ok(x['body']) or x['status'] in (400,):
            continue
        if m.vtn_id and m.vtn_id != run.vcfg.get('vtn_id', 'MyVTN'):
            continue
        name = run.name_of.get(m.ven_id)
        st = known_during(spans[name], x['s_dlv'], x['s_rep']) if name else 'no'
        if st == 'no':
            run.judged('unknown_requests')
            if x['rtype'] != 'oadrRequestReregistration' and not (lookups_fail and x['status'] == 500):
                run.bad('C10', f'{x["type"]} of {m.ven_id}, which is not registered, is answered with '
                               f'{x["rtype"] or x["status"]}', ex=x['id'])
            over = [y for y in xs if y is not x and run.req(y).ven_id == m.ven_id and y['s_dlv'] < x['s_rep']
                    and (y['s_rep'] or INF) > x['s_dlv']]
            if name and not over:
                for e in run.hist:
                    if x['s_dlv'] < e['s'] < x['s_rep'] and (
                            e['k'] == 'vtn_h' and e['ven'] == name and e['phase'] == 'start' and e['h'] != 'register'):
                        run.bad('C10', f'the {e["h"]} handler ran for {m.ven_id}, which is not registered', ex=x['id'])
        elif st == 'yes' and x['rtype'] == 'oadrRequestReregistration' and not (
                x['type'] == 'oadrPoll' and any(e['ven'] == name and e['item']['kind'] == 'rereg' and x['s_dlv'] < e['s'] < x['s_rep']
                                                for e in run.k['poll_item'])):
            run.bad('C10', f'{x["type"]} of {m.ven_id}, which is registered, is answered with oadrRequestReregistration',
                    ex=x['id'])
        elif st == 'yes':
            run.judged('known_requests')


def c10(run):
    c10_ven(run)
    c10_vtn(run)


# ------------------------------------------------------------------ end of a session
def in_progress_chain(run, s, x, after_s):
    """Was x sent by a job that was already running at after_s (a connection being opened, or the procedure that an
    earlier reply had set going)?"""
    if x['s_start'] <= after_s:
        return True
    prev = [y for y in s.x if y['s_sent'] < x['s_sent']]
    p = [y for y in prev if y['type'] == 'oadrPoll' and y['s_rdlv'] is not None and y['s_rdlv'] < after_s]
    if x['type'] == 'oadrPoll' or not p:
        return False
    m = run.got(p[-1])
    if m is None or m.type != 'oadrRequestReregistration':
        return False
    t = p[-1]['t_rdlv']
    for y in s.x:
        if y['s_sent'] > p[-1]['s_rdlv'] and y['s_sent'] < x['s_sent']:
            t = max(t, y['t_rdlv'] if y['t_rdlv'] is not None else y['t_sent'] + 10.6)
    return x['t_sent'] - t < 6.0


def silence(run, s, prop, after_s, why):
    """No new polls, handler calls or report data after the session's end, apart from finishing what was running."""
    run.judged('ended_sessions')
    for x in s.x:
        if x['s_sent'] > after_s and x['type'] in ('oadrPoll', 'oadrRequestEvent', 'oadrRegisterReport',
                                                   'oadrCreatePartyRegistration'):
            if in_progress_chain(run, s, x, after_s):
                continue
            run.bad(prop, f'{s.name} sent {x["type"]} after {why}', ex=x['id'])
            return
    inproc = any(d[0]['s_rdlv'] < after_s <= d[4] for d in analyse(run, s))
    rereg = any(x['type'] == 'oadrRequestEvent' and (x['s_rdlv'] or INF) > after_s for x in s.x)
    for e in s.h:
        if e['s'] <= after_s:
            continue
        if e['k'] == 'ven_ev' and e['phase'] == 'start' and not inproc and not rereg:
            run.bad(prop, f'a handler of {s.name} was called after {why}', at=e['s'])
            return
        if e['k'] == 'src' and e['phase'] == 'start':
            # a sampling run that was in progress may finish its data points
            op = [h for h in s.h if h['k'] == 'src' and h['phase'] == 'start' and h['s'] <= after_s]
            done = {(h['spec'], h['rid'], h['n']) for h in s.h if h['k'] == 'src' and h['phase'] != 'start' and h['s'] <= after_s}
            running = any((h['spec'], h['rid'], h['n']) not in done for h in op)
            if not running:
                run.bad(prop, f'a report of {s.name} was sampled after {why}', at=e['s'])
                return
    upd = [x for x in s.x if x['s_sent'] > after_s and x['type'] in ('oadrUpdateReport', 'oadrCreatedEvent')]
    for x in upd:
        if x['type'] == 'oadrUpdateReport' and x['s_start'] > after_s and s.started is not None \
                and s.started['s'] < after_s and not rereg:
            run.bad(prop, f'{s.name} sent report data after {why}', ex=x['id'])
            return
        if x['type'] == 'oadrCreatedEvent' and x['s_start'] > after_s and not inproc and not rereg:
            run.bad(prop, f'{s.name} sent event responses after {why}', ex=x['id'])
            return


def c11(run):
    for s in sessions(run):
        reg = None
        for x in s.x:
            m = run.got(x)
            if x['type'] == 'oadrCreatePartyRegistration' and m is not None \
                    and m.type == 'oadrCreatedPartyRegistration' and m.code == 200:
                reg = m.registration_id
            if x['type'] == 'oadrCancelPartyRegistration':
                if m is not None and m.type == 'oadrCanceledPartyRegistration' and m.code == 200:
                    if s.started is None or x['s_sent'] < s.started['s']:
                        break                       # run() was still setting up
                    silence(run, s, 'C11', x['s_rdlv'] + 0.5, 'its registration was cancelled')
                    break
                elif s.started is not None:
                    keeps_polling(run, s, x['s_rdlv'] or x['s_sent'], x['t_rdlv'] or x['t_sent'] + 10.6,
                                  'a cancellation that was not confirmed')
            if any(y['type'] == 'oadrCancelPartyRegistration' and y['s_rdlv'] is not None and y['s_rdlv'] < (x['s_rdlv'] or 0)
                   and run.got(y) is not None and run.got(y).code == 200 for y in s.x):
                continue                            # cancelled meanwhile: the reply is ignored
            if x['type'] == 'oadrPoll' and m is not None and m.type == 'oadrCancelPartyRegistration' and reg:
                nxt = [y for y in s.x if y['s_sent'] > x['s_rdlv']]
                conf = [y for y in nxt if y['type'] == 'oadrCanceledPartyRegistration']
                own = m.registration_id == reg
                if run.quiet(x['t_rdlv'] - 0.1, x['t_rdlv'] + 1.0) and x['t_rdlv'] + 1.0 < min(s.crash_t, run.horizon) \
                        and s.end_why != 'stop':
                    run.judged('vtn_cancellations')
                    if not conf or conf[0]['t_sent'] > x['t_rdlv'] + 1.0:
                        run.bad('C11', f'{s.name} did not answer the cancellation of its registration', ex=x['id'])
                    else:
                        c = run.req(conf[0])
                        want = 200 if own else 452
                        if c.code != want:
                            run.bad('C11', f'a cancellation naming {"the own" if own else "another"} registration id is '
                                           f'answered with code {c.code}', ex=conf[0]['id'])
                        if c.resp_request_id != m.request_id:
                            run.bad('C11', 'the confirmation names another request', ex=conf[0]['id'])
                if own:
                    silence(run, s, 'C11', x['s_rdlv'] + 0.5, 'the VTN cancelled its registration')
                    break
                elif s.started is not None:
                    keeps_polling(run, s, x['s_rdlv'], x['t_rdlv'], 'a cancellation that names another registration id')


def keeps_polling(run, s, after_s, after_t, why):
    f = s.freq()
    other = [e for e in s.cancels if e['phase'] == 'start']
    lim = after_t + 2 * f + 4
    if lim > min(s.crash_t, run.horizon) or any(e['phase'] == 'start' for e in s.stops if e['t'] < lim):
        return
    if not run.quiet(after_t + 0.1, lim) or any(w in ('vtn_cancel', 'refused') and t < lim for _, t, w in s.ends):
        return
    # another cancellation may have been confirmed meanwhile
    for x in s.x:
        m = run.got(x)
        if x['type'] == 'oadrCancelPartyRegistration' and m is not None and m.code == 200 and (x['t_rdlv'] or 0) < lim:
            return
    run.judged('kept_polling')
    # slow handlers keep the VEN busy
    if any(e['k'] == 'ven_ev' and after_t - 1 <= e['t'] <= lim for e in s.h):
        return
    if not any(x['type'] == 'oadrPoll' and x['s_sent'] > after_s for x in s.x):
        run.bad('C11', f'{s.name} stopped polling after {why}', at=after_s)


def c12(run):
    for s in sessions(run):
        done = [e for e in s.stops if e['phase'] == 'end']
        if not done or s.started is None or s.started['s'] > [e for e in s.stops if e['phase'] == 'start'][0]['s']:
            continue
        after = done[0]['s']
        run.judged('stops')
        busy = [e for e in s.h if e['s'] < after and e['k'] in ('ven_ev', 'src') and e['phase'] == 'start']
        run.judged('stops_while_busy', int(bool(busy) and len(busy) > len(
            [e for e in s.h if e['s'] < after and e['k'] in ('ven_ev', 'src') and e['phase'] != 'start'])))
        for x in s.x:
            if x['s_sent'] > after:
                run.bad('C12', f'{s.name} sent {x["type"]} after stop() had returned', ex=x['id'])
                break
        for e in s.h:
            if e['s'] > after and e['k'] in ('ven_ev', 'src') and e['phase'] == 'start':
                run.bad('C12', f'{e["call"] if e["k"] == "ven_ev" else "a report callback"} of {s.name} was started after '
                               'stop() had returned', at=e['s'])
                break
            if e['s'] > after and e['k'] == 'connect':
                run.bad('C12', f'{s.name} opened a connection after stop() had returned', at=e['s'])
                break
