"""Oracles over what the application does with the client itself: C28 (opt schedules), C29 (hooks)."""
from collections import Counter, defaultdict
from . import wire
from .index import INF


# ------------------------------------------------------------------- C28
def c28(run):
    for label in run.ven_incs:
        opts(run, label)


def usable(run, x):
    m = run.got(x)
    return m.opt_id if m is not None and m.type in ('oadrCreatedOpt', 'oadrCanceledOpt') and m.opt_id else None


def opts(run, label):
    bad = run.bad
    calls = {}
    for e in run.k['ven_opt']:
        if e['node'] == label:
            if e['phase'] == 'start':
                calls[e['n']] = {'s1': e['s'], 't1': e['t'], 's2': INF, 't2': INF, 'e': e, 'res': None, 'end': None}
            else:
                c = calls[e['n']]
                c['s2'], c['t2'], c['end'], c['res'] = e['s'], e['t'], e, e.get('res')
    stops = [e['s'] for e in run.k['ven_stop'] if e['node'] == label and e['phase'] == 'start']
    gone = min(stops + [run.end_s.get(label, INF)])
    used = set()
    sent = [(x, run.req(x)) for x in run.of_ven(label) if x['type'] in ('oadrCreateOpt', 'oadrCancelOpt')]
    rids = Counter()
    vid = {v for v in run.ven_id.values()}
    by_opt = {}
    for n, c in sorted(calls.items()):
        e = c['e']
        if e['call'] == 'create_opt':
            a = e['a']
            if a.get('bad'):
                run.judged('opts rejected')
                if c['end'] is not None and not str(c['end'].get('err', '')).startswith('ValueError'):
                    bad('C28', f"create_opt with an invalid {a['bad']} was not refused: {c['end'].get('err') or c['res']}", t=c['t2'])
                continue
            want = expected(run, a)
            mine = [x for x, m in sent if x['type'] == 'oadrCreateOpt' and c['s1'] < x['s_sent'] < c['s2'] and key(m.opt) == want_key(a, run)]
        else:
            mine = [x for x, m in sent if x['type'] == 'oadrCancelOpt' and c['s1'] < x['s_sent'] < c['s2'] and m.opt.id == e['oid']]
            # an overlapping cancellation of the same opt may have sent them
            others = [d for k, d in calls.items() if k != n and d['e']['call'] == 'cancel_opt' and d['e']['oid'] == e['oid']
                      and d['s1'] < c['s2'] and d['s2'] > c['s1']]
            if e['oid'] == 'nosuchopt' or by_opt.get(e['oid'], {}).get('gone_s', INF) < c['s1']:
                run.judged('unknown opts cancelled')
                if mine and not others:
                    bad('C28', f"cancel_opt sent a message for '{e['oid']}', which is not known (any more)", t=c['t1'])
                elif c['end'] is not None and ('err' in c['end'] or c['res'] is not False):
                    bad('C28', f"cancel_opt of '{e['oid']}', which is not known (any more), gave {c['end'].get('err') or c['res']}", t=c['t2'])
                used |= {x['id'] for x in mine} if others else set()
                continue
            if others:
                run.judged('overlapping cancellations')
                used |= {x['id'] for x in mine}
                if len(mine) > len(others) + 1:
                    bad('C28', f"{len(others) + 1} cancellations of '{e['oid']}' sent {len(mine)} messages", t=c['t1'])
                if c['end'] is not None and 'err' in c['end'] and gone > c['s2']:
                    bad('C28', f"cancel_opt failed with {c['end']['err']}", t=c['t2'])
                if c['end'] is not None and c['res'] is True:
                    if not any(usable(run, x) for x in mine):
                        bad('C28', f"cancel_opt of '{e['oid']}' reported success without an acknowledgement", t=c['t2'])
                    by_opt.setdefault(e['oid'], {})['gone_s'] = min(c['s2'], by_opt.get(e['oid'], {}).get('gone_s', INF))
                continue
        what = f"{e['call']} ({e.get('oid') or e['key']})"
        used |= {x['id'] for x in mine}
        if len(mine) > 1:
            bad('C28', f"{what} sent {len(mine)} messages", t=c['t1'])
            continue
        if c['end'] is None:
            continue
        if 'err' in c['end']:
            if gone > c['s2']:
                bad('C28', f"{what} failed with {c['end']['err']}", t=c['t2'])
            continue
        if not mine:
            if c['res'] is not False:
                bad('C28', f"{what} gave {c['res']} although no message was sent", t=c['t2'])
            elif gone > c['s2'] and run.quiet(c['t1'] - 0.1, c['t2'] + 0.1):
                bad('C28', f"{what} sent no message with what was given", t=c['t1'])
            continue
        x = mine[0]
        m = run.req(x)
        run.judged('opts sent')
        ack = usable(run, x)
        if ack and c['res'] is False and (x['t_rdlv'] - x['t_sent'] > 9.5 or run.paused(label, x['t_sent'] - 1, x['t_rdlv'] + 1)):
            ack = None              # it came too late, or a VEN that stood still found the time-out first
        if e['call'] == 'create_opt':
            for f, v in want.items():
                if m.opt.get(f) != v:
                    bad('C28', f"{what} was given {f} {v}, the message carries {m.opt.get(f)}", t=c['t1'], ex=x['id'])
            if a.get('opt_id') and m.opt.id != a['opt_id']:
                bad('C28', f"{what} was given the opt id {a['opt_id']}, the message carries {m.opt.id}", t=c['t1'], ex=x['id'])
            if a.get('request_id') and m.request_id != a['request_id']:
                bad('C28', f"{what} was given the request id {a['request_id']}, the message carries {m.request_id}", t=c['t1'], ex=x['id'])
            if not m.opt.id or sum(1 for y, k in sent if y['type'] == 'oadrCreateOpt' and k.opt.id == m.opt.id) > 1:
                bad('C28', f"{what} carries the opt id '{m.opt.id}', which is not its own", t=c['t1'], ex=x['id'])
            if (c['res'] or None) != ack:
                bad('C28', f"{what} gave {c['res']}, the VTN {'acknowledged ' + ack if ack else 'did not acknowledge it'}", t=c['t2'], ex=x['id'])
        else:
            if c['res'] is not bool(ack):
                bad('C28', f"{what} gave {c['res']}, the VTN {'acknowledged it' if ack else 'did not acknowledge it'}", t=c['t2'], ex=x['id'])
            if ack:
                by_opt.setdefault(e['oid'], {})['gone_s'] = min(c['s2'], by_opt.get(e['oid'], {}).get('gone_s', INF))
        if m.ven_id not in vid and m.ven_id != run.ven_cfg(label.split('#')[0]).get('preset_id'):
            bad('C28', f"{what} names the VEN '{m.ven_id}'", t=c['t1'], ex=x['id'])
        if not m.request_id:
            bad('C28', f"{what} was sent without a request id", t=c['t1'], ex=x['id'])
        rids[m.request_id] += 1
        if rids[m.request_id] > 1:
            bad('C28', f"{what} uses a request id again", t=c['t1'], ex=x['id'])
    for x, m in sent:
        if x['id'] not in used and x.get('fate') != 'dup':
            bad('C28', f"a {x['type']} was sent that no call of the application asked for: {m.opt}", t=x['t_sent'], ex=x['id'])


def want_key(a, run):
    return a['event'] if a.get('event') else ('avail', round(a['avail'][0][0] + run.epoch, 6))


def key(o):
    return o.event if o.event else ('avail', o.avail[0][0]) if o.avail else None


def expected(run, a):
    w = {'type': a['type'], 'reason': a['reason'], 'market': a.get('mc'), 'device': a.get('mrid'),
         'targets': sorted((TAG[k], v) for t in a['targets'] for k, v in t.items())}
    if a.get('event'):
        w['event'], w['mod'], w['avail'] = a['event'], a['mod'] or 0, []
    else:
        w['event'], w['mod'], w['avail'] = None, None, [(round(s + run.epoch, 6), d) for s, d in a['avail']]
    return w


TAG = {'ven_id': 'venID', 'group_id': 'groupID', 'group_name': 'groupName', 'resource_id': 'resourceID', 'party_id': 'partyID'}


# ------------------------------------------------------------------- C29
def c29(run):
    for label in run.ven_incs:
        ven_hooks(run, label)
    if run.real_vtn:
        for label in run.vtn_incs:
            vtn_hooks(run, label)


def text(b):
    if isinstance(b, str):
        return b
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return None


def called(run, label):
    out = defaultdict(lambda: defaultdict(list))        # (hook, index) -> text -> [(s, t)]
    for e in run.k['hook']:
        if e['node'] == label:
            out[(e['h'], e['i'])][e['what']].append((e['s'], e['t']))
    return out


def ven_hooks(run, label):
    cfg = run.ven_cfg(label.split('#')[0]).get('hooks') or []
    if not cfg:
        return
    got = called(run, label)
    xs = sorted(run.of_ven(label), key=lambda x: x['s_sent'])
    stops = [e['t'] for e in run.k['ven_stop'] if e['node'] == label]
    end = min(stops + [run.end_t.get(label, INF), run.horizon])
    clean = not run.noise and not stops
    for i, h in enumerate(cfg):
        calls = got[(h['h'], i)]
        if h['h'] == 'before_send_xml':
            seen = Counter()
            for x in xs:
                t = text(x['body'])
                seen[t] += 1
                run.judged('messages sent past a hook')
                if sum(1 for s, _ in calls[t] if s < x['s_sent']) < seen[t] and x.get('fate') != 'dup' and x['src'] != 'ghost':
                    run.bad('C29', f"before_send_xml was not called with the {x['type']} that was sent", t=x['t_sent'], ex=x['id'])
            if clean:
                for t, s in calls.items():
                    # a message may have been on its way to a connection when the run ended, or have got none
                    late = sum(1 for _, u in s if u > run.horizon - 12)
                    if len(s) - late > seen[t] + (1 if not seen[t] else 0):
                        run.bad('C29', f"before_send_xml was called {len(s)} times with a message that was sent {seen[t]} times")
            continue
        lo, hi = Counter(), Counter()
        for x in xs:
            if x['s_rdlv'] is None:
                continue
            t = text(x['rdlv_body'] or b'')
            if t is None:
                continue
            m = run.got(x)
            if h['h'] == 'before_schema_validation' and (x['rdlv_status'] != 200 or not t):
                continue
            if h['h'] in ('before_parse_xml', 'after_parse_xml') and m is None:
                continue
            k = m.type if h['h'] == 'after_parse_xml' else t
            hi[k] += 1
            if x['rfate'] == 'ok' and x['t_rdlv'] + 0.8 < end and x['t_rdlv'] - x['t_sent'] < 9.5 \
                    and not run.paused(label, x['t_sent'] - 1, x['t_rdlv'] + 1) and run.quiet(x['t_sent'], x['t_rdlv']):
                lo[k] += 1
        for k in set(lo) | set(calls):
            run.judged('replies received past a hook')
            n = len(calls[k])
            if n < lo[k]:
                run.bad('C29', f"{h['h']} was called {n} times for '{k[:60]}...', which arrived {lo[k]} times")
            if n > hi[k]:
                run.bad('C29', f"{h['h']} was called {n} times for '{k[:60]}...', which arrived {hi[k]} times")


def vtn_hooks(run, label):
    cfg = run.vcfg.get('hooks') or []
    if not cfg:
        return
    got = called(run, label)
    xs = [x for x in run.X if x['dstinc'] == label and x['s_dlv'] is not None]
    end = min(run.end_t.get(label, INF), run.horizon)
    for i, h in enumerate(cfg):
        calls = got[(h['h'], i)]
        lo, hi = Counter(), Counter()
        for x in xs:
            ok = x['s_rep'] is not None and x['t_rep'] + 0.5 < end and not run.paused(label, x['t_dlv'] - 1, x['t_rep'] + 1)
            if h['h'] == 'before_parse':
                k = text(x['body'])
            elif h['h'] == 'before_respond':
                k = text(x['rbody'] or b'')
                if x['s_rep'] is None:
                    continue
            else:
                rep = run.rep(x)
                if x['s_rep'] is not None and (x['status'] != 200 or rep.type is None or rep.type == 'oadrRequestReregistration' or rep.code not in (None, 200)):
                    ok = False
                k = x['type'] if h['h'] == 'before_handle' else rep.type
                if k is None:
                    continue
            hi[k] += 1
            lo[k] += bool(ok)
        for k in set(lo):
            run.judged('messages handled past a hook')
            if len(calls[k]) < lo[k]:
                run.bad('C29', f"{h['h']} of the VTN was called {len(calls[k])} times for '{k[:60]}...', which came {lo[k]} times")
            if h['h'] == 'before_parse' and len(calls[k]) > hi[k]:
                run.bad('C29', f"{h['h']} of the VTN was called {len(calls[k])} times for '{k[:60]}...', which came {hi[k]} times")
