"""Oracles over message exchange as a whole: C20-C25."""
import re
from collections import Counter

from .index import INF
from . import wire, o_sec

SERVED = {'EiEvent': {'oadrRequestEvent': ('oadrResponse', 'oadrDistributeEvent'), 'oadrCreatedEvent': ('oadrResponse',)},
          'EiReport': {'oadrRegisterReport': ('oadrRegisteredReport',), 'oadrUpdateReport': ('oadrUpdatedReport',),
                       'oadrCreatedReport': ('oadrResponse',), 'oadrRegisteredReport': ('oadrResponse',)},
          'EiRegisterParty': {'oadrQueryRegistration': ('oadrCreatedPartyRegistration',),
                              'oadrCreatePartyRegistration': ('oadrCreatedPartyRegistration',),
                              'oadrCancelPartyRegistration': ('oadrCanceledPartyRegistration', 'oadrResponse')},
          'OadrPoll': {'oadrPoll': ('oadrResponse', 'oadrDistributeEvent')}}
PREFIX = '/OpenADR2/Simple/2.0b/'
REGISTRATION = ('oadrCreatePartyRegistration', 'oadrQueryRegistration')


def header(x, name):
    for line in x['head'].split(b'\r\n')[1:]:
        if b':' in line:
            k, v = line.split(b':', 1)
            if k.strip().lower() == name.encode():
                return v.strip().decode('latin1')
    return None


def failures(run, inc):
    """(sequence number, VEN or None) of every failing application callback."""
    out = []
    spec = {e['uid']: e for e in run.k['ev_add']}
    for e in run.k['vtn_h'] + run.k['dcb']:
        if e['node'] == inc and e['phase'] == 'fail':
            if e.get('h') == 'offer' and run.vcfg.get('report_mode') == 'full':
                out.append((e['s'], None))      # this handler does not learn which VEN it is
            else:
                out.append((e['s'], e.get('ven') or (spec[e['uid']]['ven'] if 'uid' in e else None)))
    for e in run.k['cb']:
        if e['node'] == inc and spec[e['uid']]['spec'].get('cbraise'):
            out.append((e['s'], spec[e['uid']]['ven']))
    return out


def busy_time(run, ven):
    """An upper bound for the time the VTN application may spend on one request of this VEN."""
    d = 0.0
    for s in run.vcfg.get('slow', []):
        if s.get('ven') in (None, ven):
            d += s.get('delay', 0) * s.get('count', 1)
    for e in run.k['ev_add']:
        if e['ven'] == ven:
            d += e['spec'].get('cbdelay', 0) + e['spec'].get('dcbdelay', 0)
    return d


def c20(run):
    if not run.real_vtn:
        return
    for inc in run.vtn_incs:
        fails = failures(run, inc)
        for x in sorted((x for x in run.X if x['s_dlv'] is not None and x['dstinc'] == inc), key=lambda x: x['s_dlv']):
            if x['status'] is None:
                unanswered(run, inc, x)
            else:
                run.judged('replies')
                why = wrong(run, inc, x, fails)
                if why:
                    run.bad('C20', f"{x['line'].split(' HTTP')[0]} with {x['type'] or 'a body of another kind'}: {why}", ex=x['id'],
                            t=x['t_dlv'])


def unanswered(run, inc, x):
    m = run.req(x)
    ven = run.name_of.get(m.ven_id) or m.ven_name
    end = min(run.end_t.get(inc, INF), run.horizon, x.get('t_gone', INF))
    limit = busy_time(run, ven) + 0.5
    if end - x['t_dlv'] - run.paused(inc, x['t_dlv'], end) <= limit:
        return
    run.bad('C20', f"{x['type'] or 'a request'} that reached the VTN was never answered", ex=x['id'], t=x['t_dlv'])


def wrong(run, inc, x, fails):
    st = x['status']
    method, path = x['line'].split(' ')[:2]
    known = path.startswith(PREFIX) and path[len(PREFIX):] in SERVED
    if not known:
        return None if st in (404, 405) or (method not in ('GET', 'POST', 'PUT', 'DELETE') and st in (400, 501)) or '?' in path or '%' in path or '..' in path else f'unknown path answered with {st}'
    if method != 'POST':
        return None if st in (400, 405, 501) else f'{method} answered with {st}'
    serve = SERVED[path[len(PREFIX):]]
    big = len(x['body']) > 1024 ** 2
    if st == 413 and big:
        return None
    if header(x, 'content-encoding') in ('gzip', 'deflate'):
        return None if st in (400, 415) else f'an undecodable body was answered with {st}'
    if not (header(x, 'content-type') or '').lower().startswith('application/xml'):
        return None if st == 400 else f"content type {header(x, 'content-type')} answered with {st}"
    err = wire.schema_error(x['body'])
    if err is not None:
        return None if st == 400 else f'an invalid body ({err[:80]}) was answered with {st}'
    if st == 400 and (b'<!DOCTYPE' in x['body'] or re.search(rb'P\d{8,}|T24:00', x['body'])):
        return None                     # Python cannot represent that
    m = run.req(x)
    if m.error:
        return None if st in (200, 400) else f'answered with {st} (and the oracle cannot read it: {m.error})'
    if st == 500 and 't_gone' in x:
        return None
    ven = run.name_of.get(m.ven_id)
    if st == 500:
        if any(x['s_dlv'] < s < x['s_rep'] and v in (None, ven, m.ven_name) for s, v in fails):
            run.judged('application failures answered')
            return None
        return 'answered with 500 although no application handler failed'
    if st == 403 and run.vcfg.get('tls'):
        return None
    if st != 200:
        return f'a valid message was answered with {st}'
    if m.type == 'oadrResponse':
        return None if not x['rbody'] else 'oadrResponse was answered with a message'
    rep = run.rep(x)
    if rep.type is None:
        return f'the reply is not a message: {x["rbody"][:60]!r}'
    if rep.type == 'oadrRequestReregistration':
        if run.vcfg.get('lookup') in ('ven_lookup', 'both') and m.type not in REGISTRATION:
            return None
        return None if m.type == 'oadrPoll' and run.vcfg.get('polling') == 'external' else 'answered with oadrRequestReregistration'
    if run.vcfg.get('lookup') in ('ven_lookup', 'both') and m.type not in REGISTRATION and m.ven_id and ven is None \
            and m.vtn_id in (None, '', 'MyVTN'):
        return f"the unknown VEN '{m.ven_id}' was not asked to register again but got {rep.type}"
    if run.vcfg.get('tls') and rep.code == 463:
        return None
    if m.vtn_id and m.vtn_id != run.vcfg.get('vtn_id', 'MyVTN'):
        return None if rep.code == 452 else f"a message for VTN '{m.vtn_id}' was answered with {rep.type} {rep.code}"
    if m.type not in serve:
        return None if rep.type == 'oadrResponse' and rep.code == 459 else \
            f'a message this endpoint does not serve was answered with {rep.type} {rep.code}'
    if not m.ven_id and m.type not in REGISTRATION and rep.code != 200:
        return None
    if m.type == 'oadrPoll' and run.vcfg.get('polling') == 'external':
        return None
    if rep.type not in serve[m.type]:
        return f'answered with {rep.type}'
    if m.type == 'oadrCreatedEvent' and rep.code == 452:
        return None if m.responses else 'refused with 452 although it names no event'
    return None if rep.code == 200 else f'answered with code {rep.code} ({rep.desc})'


# ------------------------------------------------------------------- C22
def c22(run):
    for x in run.X:
        if x['src'] in run.plan.get('vens', {}):
            run.judged('VEN messages')
            err = wire.schema_error(x['body'])
            if err:
                run.bad('C22', f"the VEN's {x['type'] or 'message'} is not valid: {err}", ex=x['id'], t=x['t_sent'])
        if run.real_vtn and x['status'] == 200 and x['rbody']:
            run.judged('VTN messages')
            err = wire.schema_error(x['rbody'])
            if err:
                run.bad('C22', f"the VTN's {x['rtype'] or 'message'} in reply to {x['type']} is not valid: {err}", ex=x['id'],
                        t=x['t_rep'])


# ------------------------------------------------------------------- C23
def c23(run):
    plan = run.plan
    seen = {}
    if run.real_vtn:
        vtn_id = run.vcfg.get('vtn_id', 'MyVTN')
        for x in run.X:
            if x['status'] != 200 or not x['rbody']:
                continue
            m, r = run.req(x), run.rep(x)
            if r.type is None or m.type is None:
                continue
            run.judged('VTN replies')
            what = f"{r.type} in reply to {m.type} of '{m.ven_id}'"
            if r.vtn_id is not None and r.vtn_id != vtn_id:
                run.bad('C23', f"{what} carries the VTN id '{r.vtn_id}'", ex=x['id'], t=x['t_rep'])
            if r.type == 'oadrDistributeEvent' or r.type in ('oadrCreateReport', 'oadrCancelReport', 'oadrCancelPartyRegistration'):
                key = (x['dstinc'], r.request_id)
                if not r.request_id or key in seen:
                    run.bad('C23', f"{what} carries the request id '{r.request_id}', which is not new", ex=x['id'], t=x['t_rep'])
                seen[key] = x
            if r.type == 'oadrRequestReregistration':
                if (r.ven_id or '') != (m.ven_id or ''):
                    run.bad('C23', f"{what} names VEN '{r.ven_id}'", ex=x['id'], t=x['t_rep'])
                continue
            if r.code != 200:
                continue
            if m.type not in REGISTRATION and r.ven_id is not None and r.ven_id != (m.ven_id or ''):
                run.bad('C23', f"{what} names VEN '{r.ven_id}'", ex=x['id'], t=x['t_rep'])
            if r.resp_request_id is not None and r.resp_request_id != (m.request_id or ''):
                run.bad('C23', f"{what} answers request '{r.resp_request_id}', the request was '{m.request_id}'", ex=x['id'], t=x['t_rep'])
    # requests of VENs
    ids = {}
    for x in run.X:
        if x['src'] not in plan.get('vens', {}):
            continue
        m = run.req(x)
        if m.type is None or not m.request_id:
            continue
        run.judged('VEN requests')
        y = ids.setdefault((x['srcinc'], m.request_id), x)
        if y is not x and {y['type'], x['type']} != {'oadrQueryRegistration', 'oadrCreatePartyRegistration'} and y['body'] != x['body']:
            run.bad('C23', f"{x['type']} reuses the request id of an earlier {y['type']}", ex=x['id'], t=x['t_sent'])
    for label in run.ven_incs:
        follow_ups(run, label)


def follow_ups(run, label):
    """What a VEN sends in answer to a message names that message."""
    xs = sorted(run.of_ven(label), key=lambda x: x['s_sent'])
    got = sorted(((x['s_rdlv'], x, wire.parse(x['rdlv_body'])) for x in xs if x['s_rdlv'] is not None and x['rdlv_body']),
                 key=lambda g: g[0])

    def ids_before(s, type_, f):
        return [f(g) for k, x, g in got if k < s and g.type == type_]
    name = label.split('#')[0]
    for x in xs:
        m = run.req(x)
        if m.type == 'oadrCreatedEvent':
            ok = ids_before(x['s_sent'], 'oadrDistributeEvent', lambda g: g.request_id)
            calls = [o.get('request_id') for o in run.plan['ops'] if o.get('op') == 'ven_call']
            for resp in m.responses:
                run.judged('follow-ups')
                if resp.request_id not in ok and resp.request_id not in calls:
                    run.bad('C23', f"{name} answers event '{resp.id}' of message '{resp.request_id}', which it never received",
                            ex=x['id'], t=x['t_sent'])
                else:
                    dist = [g for k, y, g in got if k < x['s_sent'] and g.type == 'oadrDistributeEvent'
                            and g.request_id == resp.request_id]
                    if dist and not any(e.id == resp.id and e.mod == resp.mod for g in dist for e in g.events):
                        run.bad('C23', f"{name} answers event '{resp.id}' naming message '{resp.request_id}', which did not contain it",
                                ex=x['id'], t=x['t_sent'])
        elif m.type in ('oadrCreatedReport', 'oadrCanceledReport', 'oadrCanceledPartyRegistration'):
            cause = {'oadrCreatedReport': ('oadrRegisteredReport', 'oadrCreateReport'),
                     'oadrCanceledReport': ('oadrCancelReport', 'oadrUpdatedReport'),
                     'oadrCanceledPartyRegistration': ('oadrCancelPartyRegistration',)}[m.type]
            ok = ids_before(x['s_sent'], cause[0], lambda g: g.request_id or g.resp_request_id)
            for t in cause[1:]:
                ok += ids_before(x['s_sent'], t, lambda g: g.cancel_request_id or g.request_id)
            run.judged('follow-ups')
            if m.resp_request_id not in ok:
                run.bad('C23', f"{name}'s {m.type} names message '{m.resp_request_id}', which it never received", ex=x['id'],
                        t=x['t_sent'])


# ------------------------------------------------------------------- C26
def c26(run):
    events_arrive(run)
    offers_arrive(run)
    identities_arrive(run)


def close(a, b):
    return a == b and type(a) in (int, float) and type(b) in (int, float)


MEASURE_KEYS = ('name', 'description', 'unit', 'scale')


def want_event(run, e):
    """What the handler must be given for this event of the VTN application."""
    sp = e['spec']
    raw = bool(sp.get('raw'))
    sigs = sp['sigs'] if raw else sp['sigs'][:1]
    t, ivs = sp['start'], []
    for d, v in sp['ivs']:
        ivs.append((round(run.epoch + t, 6), d, float(v)))
        t += d
    targets = sp.get('targets') or [{'ven_id': run.vcfg['vens'][e['ven']]['ven_id']}]
    by = {}
    for x in targets:
        for k, v in x.items():
            by.setdefault(k, []).append(v)
    w = {'start': round(run.epoch + sp['start'], 6), 'dur': sum(d for d, _ in sp['ivs']), 'sigs': [(s[0], ivs) for s in sigs],
         'types': [s[1] for s in sigs], 'prio': sp.get('prio', 0) if raw else 0, 'market': sp.get('market', 'http://market.context'),
         'rr': sp['rr'], 'targets': sorted((k, v) for x in targets for k, v in x.items()), 'by_type': by, 'ramp': sp.get('ramp'),
         'notify': sp.get('notify'), 'recovery': sp.get('recovery')}
    if raw:
        w.update(comment=sp.get('comment'), test=sp.get('test', False), ids=[f'sig{n}x' for n in range(len(sigs))],
                 meas=[run.measure(m) for m in sp.get('meas') or [None] * len(sigs)])
        if sp.get('current') is not None:
            w['current'] = [float(sp['current'])] * len(sigs)
    return w


def seen_event(view):
    m = dict(view['more'])
    m['targets'] = sorted((k, v) for x in m['targets'] for k, v in x.items())
    m['test'] = bool(m['test'])
    m['prio'] = m['prio'] or 0
    m['meas'] = [None if x is None else {k: x.get(k) for k in (*MEASURE_KEYS, 'power_attributes', 'pulse_factor')} for x in m['meas']]
    return {**m, 'start': view['start'], 'dur': view['dur'], 'sigs': [(a, list(b)) for a, b in view['sigs']]}


def events_arrive(run):
    if not run.real_vtn:
        return
    for c in run.k['ven_ev']:
        if c['phase'] != 'start':
            continue
        name = c['node'].split('#')[0]
        v = c['view']
        cands = [e for e in run.k['ev_add'] if e['ven'] == name and e['spec']['eid'] == v['eid'] and e['s'] < c['s']]
        cands += [{'ven': name, 'spec': dict(sp, raw=True)} for k in ('poll_item', 'request_item') for e in run.k[k] if e['ven'] == name
                  and e['s'] < c['s'] for sp in (e['item'].get('events', []) if k == 'poll_item' else e['events']) if sp['eid'] == v['eid']]
        run.judged('events received')
        if not cands:
            run.bad('C26', f"the handler of {name} was given event {v['eid']!r}, which the VTN application never added", t=c['t'])
            continue
        got = seen_event(v)
        best = None
        for e in cands:
            want = want_event(run, e)
            err = [f'{k}: {got[k]!r} instead of {want[k]!r}' for k in want if got[k] != want[k] or not same_types(got[k], want[k])]
            if best is None or len(err) < len(best):
                best = err
        if best:
            run.bad('C26', f"event {v['eid']!r} reached the handler of {name} with {'; '.join(best)[:300]}", t=c['t'])


def same_types(a, b):
    if isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return all(same_types(x, y) for x, y in zip(a, b))
    return True


def offers_arrive(run):
    """Every data point offered to the VTN application is one the VEN application defined."""
    if not run.real_vtn:
        return
    byid = {v['ven_id']: n for n, v in run.vcfg['vens'].items()}
    for c in run.k['vtn_h']:
        if c['h'] != 'offer' or c['phase'] != 'start' or c['ven'] not in run.plan.get('vens', {}) or run.plan.get('raws'):
            continue
        run.judged('report offers received')
        name = byid.get(c['ven_id'])
        want = []
        for r in run.plan['vens'].get(name, {}).get('reports', []):
            m = run.measure(r.get('measurement'), r) if r.get('name') != 'TELEMETRY_STATUS' else \
                {'description': 'Status', 'unit': None, 'scale': None}
            w = {'resource': r['resource'], 'measurement': m['description'], 'unit': m['unit'], 'scale': m['scale'],
                 'min': r['min'], 'max': r['max']}
            if c.get('full'):
                pa = m.get('power_attributes')
                if pa and isinstance(r.get('measurement'), str):        # a measurement by name takes the attributes given next to it
                    pa = {'hertz': r.get('power_hertz', 50), 'voltage': r.get('power_voltage', 230), 'ac': r.get('power_ac', True)}
                w.update(name='METADATA_' + r.get('name', 'TELEMETRY_USAGE'), spec=r['spec'], rid=r['rid'], rtype=r.get('report_type', 'reading'),
                         reading=r.get('reading_type', 'Direct Read'), market=r.get('market_context'),
                         on_change=r.get('on_change', False), pulse=m.get('pulse_factor'), power=pa)
                first = next(x for x in run.plan['vens'][name]['reports'] if x['spec'] == r['spec'] and x.get('name') == r.get('name'))
                w['duration'] = first.get('duration', 3600)
            want.append(w)
        got = {k: c[k] for k in ('resource', 'measurement', 'unit', 'scale', 'min', 'max')}
        if c.get('full'):
            got.update(c['full'])
        if not any(got == w and all(same_types(got[k], w[k]) for k in w) for w in want):
            near = [w for w in want if w['resource'] == got['resource']] or want
            run.bad('C26', f"the VTN application was offered {got}, {name} defined {near[:1]}", t=c['t'])


def identities_arrive(run):
    """Names and ids that the VTN's registration handlers get are the ones VENs have."""
    if not run.real_vtn or run.plan.get('raws') or run.plan.get('family') in ('B', 'S'):
        return
    ids = {v['ven_id'] for v in run.vcfg['vens'].values()} | {c.get('preset_id') for c in run.plan.get('vens', {}).values()} | {None, ''}
    for c in run.k['vtn_h']:
        if c['phase'] == 'start' and c['h'] in ('register', 'cancel_reg'):
            run.judged('identities received')
            if c['ven_id'] not in ids:
                run.bad('C26', f"the {c['h']} handler was given the VEN id {c['ven_id']!r}", t=c['t'])
            if c['h'] == 'register' and c['ven'] not in run.vcfg['vens']:
                run.bad('C26', f"the registration handler was given the VEN name {c['ven']!r}", t=c['t'])
            if c['h'] == 'cancel_reg' and not any(e['reg'] == c['reg'] for e in run.k['vtn_reg']) \
                    and not str(c['reg']).startswith('reg'):
                run.bad('C26', f"the cancellation handler was given the registration id {c['reg']!r}", t=c['t'])
    for c in run.k['cb']:
        if c.get('a_eid') is None:
            continue
        e = next(e for e in run.k['ev_add'] if e['uid'] == c['uid'])
        run.judged('identities received')
        if (c['a_ven'], c['a_eid']) != (run.vcfg['vens'][e['ven']]['ven_id'], e['spec']['eid']) or c['opt'] not in ('optIn', 'optOut'):
            run.bad('C26', f"the callback of event {e['spec']['eid']!r} was given {(c['a_ven'], c['a_eid'], c['opt'])}", t=c['t'])


# --------------------------------------------------------------------------- C21
def c21(run):
    if not run.real_vtn or run.vcfg.get('polling') != 'external':
        return
    for inc in run.vtn_incs:
        xs = sorted((x for x in run.X if x['s_dlv'] is not None and x['dstinc'] == inc and wire.schema_error(x['body']) is None),
                    key=lambda x: x['s_dlv'])
        h = [e for e in run.k['vtn_h'] if e['node'] == inc]
        polled(run, inc, xs, h, 'oadrPoll', 'on_poll', 'poll_item')
        polled(run, inc, xs, h, 'oadrRequestEvent', 'on_request_event', 'request_item')
        responses_passed(run, inc, xs, h)


def outcome(run, inc, call, h):
    """('open'|'fail'|'end', end event, item record)"""
    end = next((e for e in h if e['s'] > call['s'] and e['phase'] != 'start' and e['h'] == call['h'] and e['ven'] == call['ven']
                and e['n'] == call['n']), None)
    if end is None:
        return 'open', None
    return end['phase'], end


def polled(run, inc, xs, h, mtype, handler, itemkind):
    polls = [(x, run.req(x)) for x in xs if x['type'] == mtype]
    polls = [(x, m) for x, m in polls if not m.error and m.ven_id and m.vtn_id in (None, '', run.vcfg.get('vtn_id', 'MyVTN'))]
    polls.sort(key=lambda p: p[0]['status'] is None or 't_gone' in p[0])    # those that must be matched first
    calls = [e for e in h if e['h'] == handler and e['phase'] == 'start']
    items = [e for e in run.k[itemkind] if e['node'] == inc]
    cancels = [e for e in run.k['poll_cancel_reg'] if e['node'] == inc]
    res = {}
    for c in calls:
        how, end = outcome(run, inc, c, h)
        it = None
        if how == 'end':
            # recorded in the same step as the end of the handler
            it = next((e for e in items if e['s'] > end['s'] and e['ven'] == c['ven'] and e['s'] - end['s'] <= 3), None)
            if it is not None and itemkind == 'poll_item' and it['item']['kind'] == 'cancel_reg':
                k = next((e for e in cancels if end['s'] < e['s'] < it['s']), None)
                it = dict(it, reg=k and k['reg'])
        res[c['s']] = (how, end, it)

    def in_window(x, m, c):
        how, end, it = res[c['s']]
        if c['ven_id'] != m.ven_id or not x['s_dlv'] < c['s'] < (x['s_rep'] or INF):
            return False
        return end is None or end['s'] < (x['s_rep'] or INF)

    def fits(x, m, c):
        if not in_window(x, m, c):
            return False
        how, end, it = res[c['s']]
        if x['status'] is None:
            return True
        if how == 'fail':
            return x['status'] == 500
        return how == 'end' and not reply_errors(run, x, m, c, it, itemkind)
    wins = [lambda c, x=x, m=m: fits(x, m, c) for x, m in polls]
    done, of = o_match(calls, wins)
    for w, (x, m) in enumerate(polls):
        if w in done:
            run.judged(handler + ' replies')
            continue
        if x['status'] is None or 't_gone' in x:
            continue
        rep = run.rep(x)
        if run.vcfg.get('lookup') and rep.type == 'oadrRequestReregistration' and not any(in_window(x, m, c) for c in calls):
            continue                            # not registered: the handler is not reached
        if any(e['phase'] == 'fail' and e['h'] == 'ven_lookup' and x['s_dlv'] < e['s'] < x['s_rep'] for e in h) and x['status'] == 500:
            continue
        cs = [c for c in calls if in_window(x, m, c)]
        if not cs:
            run.bad('C21', f"{handler} was not called for this {mtype} of {m.ven_id}, which was answered with {rep.type or x['status']}",
                    ex=x['id'], t=x['t_dlv'])
            continue
        c = next((c for i, c in enumerate(calls) if c in cs and i not in of), cs[-1])
        how, end, it = res[c['s']]
        if how == 'fail':
            run.bad('C21', f'{handler} failed, but the {mtype} of {m.ven_id} was answered with {x["status"]} {rep.type}', ex=x['id'], t=x['t_dlv'])
        else:
            what = it and (it['item']['kind'] if itemkind == 'poll_item' else [e['eid'] for e in it['events']])
            run.bad('C21', f"{handler} returned {what or 'nothing'} for {m.ven_id}; the reply to its {mtype} differs: "
                           f"{(reply_errors(run, x, m, c, it, itemkind) or ['another request got it'])[0]}"[:300], ex=x['id'], t=x['t_dlv'])
    for i, c in enumerate(calls):
        if i in of:
            continue
        if any(in_window(x, m, c) and (x['status'] is None or 't_gone' in x or w not in done) for w, (x, m) in enumerate(polls)):
            continue
        run.bad('C21', f'{handler} was called for {c["ven_id"]} without an {mtype} of that VEN, or more than once for one', t=c['t'])


def o_match(calls, wins):
    from .o_events import match
    return match(calls, wins)


def reply_errors(run, x, m, call, it, itemkind):
    if x['status'] != 200:
        return [f"HTTP status {x['status']}"]
    rep = run.rep(x)
    if itemkind == 'request_item':
        if it is None:
            return [] if rep.type == 'oadrResponse' and rep.code == 200 else [f'{rep.type} {rep.code} instead of an empty response']
        return event_list_errors(run, call['ven'], it['events'], rep, False)
    item = it['item'] if it else {'kind': 'none'}
    k = item['kind']
    if k in ('none', 'response'):
        return [] if rep.type == 'oadrResponse' and rep.code == 200 else [f'{rep.type} {rep.code} instead of an empty response']
    if 'events' in item:
        if not item['events'] and rep.type == 'oadrResponse' and rep.code == 200:
            return []
        return event_list_errors(run, call['ven'], item['events'], rep, True, it['statuses'])
    want = {'rereg': ('oadrRequestReregistration', {}),
            'cancel_reg': ('oadrCancelPartyRegistration', {'registration_id': it.get('reg')}),
            'cancel_report': ('oadrCancelReport', {'cancel': [item.get('rrid')], 'follow': str(item.get('follow', False)).lower()}),
            'create_report': ('oadrCreateReport', {})}[k]
    if rep.type != want[0]:
        return [f'{rep.type} {rep.code} instead of {want[0]}']
    err = [f'{f} {rep.get(f)!r} instead of {v!r}' for f, v in want[1].items() if v is not None and rep.get(f) != v]
    if rep.ven_id != m.ven_id:
        err.append(f'ven id {rep.ven_id!r} instead of {m.ven_id!r}')
    if k == 'create_report':
        got = [(q.id, q.specifier, q.granularity, q.back, sorted(q.r_ids)) for q in rep.requests]
        exp = [(q['id'], q['specifier'], q['granularity'], q['back'], sorted(q['r_ids'])) for q in item['requests']]
        if got != exp:
            err.append(f'report requests {got} instead of {exp}')
    return err


def event_list_errors(run, ven, specs, rep, ordered, statuses=()):
    from .o_events import content_errors
    if rep.type != 'oadrDistributeEvent':
        return [f'{rep.type} {rep.code} instead of oadrDistributeEvent']
    got = [(e.id, e.mod) for e in rep.events]
    exp = [(s['eid'], s.get('mod', 0)) for s in specs]
    if got != exp if ordered else sorted(got) != sorted(exp):
        return [f'events {got} instead of {exp}']
    err = []
    by = {e.id: e for e in rep.events}
    for s in specs:
        e = by[s['eid']]
        i = wire.Msg(spec=s, ven=ven, raw=True, total=sum(d for d, _ in s['ivs']))
        err += content_errors(run, i, e)
    if ordered:
        err += [f'status of {e.id}: {e.status} instead of {st}' for e, st in zip(rep.events, statuses) if e.status != st]
    return err


def responses_passed(run, inc, xs, h):
    """on_created_event is called once for each response of each oadrCreatedEvent."""
    wins, info = [], []
    res = {}
    calls = [e for e in h if e['h'] == 'on_created_event' and e['phase'] == 'start']
    for c in calls:
        res[c['s']] = outcome(run, inc, c, h)
    for x in sorted(xs, key=lambda x: x['status'] != 200 or 't_gone' in x):     # those that must be matched first
        if x['type'] != 'oadrCreatedEvent':
            continue
        m = run.req(x)
        if m.error or not m.ven_id or m.vtn_id not in (None, '', run.vcfg.get('vtn_id', 'MyVTN')):
            continue
        rep = run.rep(x) if x['status'] == 200 else None
        if rep is not None and rep.type == 'oadrRequestReregistration':
            continue                            # not registered
        hi = x['s_rep'] or INF
        for k, r in enumerate(m.responses):
            wins.append(lambda c, x=x, m=m, r=r, hi=hi: c['ven_id'] == m.ven_id and c['eid'] == r.id and c['opt'] == r.opt
                        and x['s_dlv'] < c['s'] < hi and (res[c['s']][1] is None or res[c['s']][1]['s'] < hi))
            info.append((x, m, r))
    done, of = o_match(calls, wins)
    for w, (x, m, r) in enumerate(info):
        if w in done:
            run.judged('responses passed to the application')
            if x['status'] == 200 and rep_code(run, x) != 200:
                run.bad('C21', f'the oadrCreatedEvent of {m.ven_id} was passed to the application but answered with {rep_code(run, x)}', ex=x['id'])
        elif x['status'] == 200 and 't_gone' not in x and rep_code(run, x) == 200:
            run.bad('C21', f'on_created_event was not called for the response {r.opt} of {m.ven_id} to event {r.id}', ex=x['id'], t=x['t_dlv'])
    for i, c in enumerate(calls):
        if i not in of:
            run.bad('C21', f"on_created_event was called with ({c['ven_id']}, {c['eid']}, {c['opt']}) without such a response, or once too often",
                    t=c['t'])


def rep_code(run, x):
    return run.rep(x).code


# --------------------------------------------------------------------------- C24
RELATED = ('C01', 'C02', 'C03', 'C04', 'C07', 'C10', 'C13', 'C21')


def c24(run):
    from . import o_events, o_ven, o_reports
    bad = run.plan.get('disturbed')
    if run.real_vtn and bad:
        clean = {}
        for x in run.X:
            if x['s_dlv'] is None or not x['dstinc'].startswith('vtn#'):
                continue
            ven = undisturbed(run, x, bad)
            if ven is None:
                continue
            clean[x['id']] = ven
            inc = x['dstinc']
            run.judged('requests of undisturbed VENs')
            end = x['t_rep'] if x['status'] is not None else min(run.end_t.get(inc, INF), run.horizon)
            took = end - x['t_dlv'] - run.paused(inc, x['t_dlv'], end)
            if took > 0.05 and x.get('t_gone', INF) > x['t_dlv'] + 0.05:
                run.bad('C24', f"{x['type']} of {ven} " + (f'was answered after {took:.2f} s' if x['status'] is not None else 'was not answered')
                        + f", although only {', '.join(bad)} had trouble", ex=x['id'], t=x['t_dlv'])
            elif x['status'] is not None and x['status'] != 200:
                run.bad('C24', f"{x['type']} of {ven} was answered with {x['status']}, although only {', '.join(bad)} had trouble",
                        ex=x['id'], t=x['t_dlv'])
        keep = run.out
        run.out = []
        for f in (o_events.c01, o_events.c02, o_events.c03, o_events.c04, o_events.c07, o_ven.c10, o_reports.c13, c21):
            f(run)
        found, run.out = run.out, keep
        for v in found:
            if v['property'] in RELATED and v.get('ex') in clean:
                run.out.append(dict(v, property='C24', what=f"{clean[v['ex']]} is affected by the trouble of {', '.join(bad)}: {v['what']}"))
    elif run.plan.get('fam') in ('RV', 'R'):
        # inside a VEN: its reports do not disturb its polling or each other
        keep = run.out
        run.out = []
        o_ven.c08(run)
        o_reports.c14_15_16(run)
        found, run.out = run.out, keep
        for v in found:
            if v['property'] in ('C08', 'C14'):
                run.out.append(dict(v, property='C24', what=f"with reports running: {v['what']}"))


def undisturbed(run, x, bad):
    """The VEN this request is from, if there is no trouble on it."""
    if x['src'] in bad or x['src'] == 'rawA' or x['src'] == 'ghost':
        return None
    m = run.req(x)
    if m.error:
        return None
    ven = run.name_of.get(m.ven_id) or m.ven_name or (x['src'] if x['src'] in run.vcfg['vens'] else None)
    return ven if ven in run.vcfg['vens'] and ven not in bad else None


# --------------------------------------------------------------------------- C25
def c25(run):
    from . import o_events, o_ven
    tf = run.plan.get('quiet_from')
    if tf is None or not run.real_vtn or not run.vtn_incs:
        return
    last_vtn = run.vtn_incs[-1]
    if run.end_t.get(last_vtn, INF) < INF:
        return
    jumps = sum(abs(d) for h in run._skews for t, s, d in run._skews[h] if t >= 0)
    f = run.freq
    settle = 22 + 3 * f + jumps
    if run.vtn_incs:
        tf = max(tf, run.start_t[last_vtn])
    for s in o_ven.sessions(run):
        if s.end_why != 'horizon' or s.label != [l for l in run.ven_incs if l.split('#')[0] == s.name][-1]:
            continue
        if s.started is None:
            continue            # it gave up while it started
        f = s.freq() or f
        t0 = max(tf, s.started['t'])
        settle = 22 + 3 * f + jumps
        if run.horizon - t0 < settle + 2 * f + 2:
            continue
        run.judged('VENs after the faults')
        polls = [x for x in s.x if x['type'] == 'oadrPoll' and t0 + settle <= x['t_sent'] < run.horizon - 6]
        if not polls:
            run.bad('C25', f'{s.name} does not poll any more after the faults stopped at t={t0:.1f}')
            continue
        for x in polls:
            forgot = any(e['ven'] == s.name and x['t_sent'] - settle < e['t'] for e in run.k['vtn_forget'])
            failing = any(e['phase'] == 'fail' and e['ven'] == s.name and x['t_dlv'] and x['t_dlv'] <= e['t'] <= (x['t_rep'] or INF)
                          for e in run.k['vtn_h']) or any(e['phase'] == 'fail' and x['t_dlv'] and x['t_dlv'] <= e['t'] <= (x['t_rep'] or INF)
                                                          for e in run.k['dcb'])
            m = run.got(x)
            if failing:
                continue
            if m is None:
                run.bad('C25', f'a poll of {s.name} is not answered ({x["status"]}), long after the faults stopped', ex=x['id'], t=x['t_sent'])
            elif m.type == 'oadrRequestReregistration' and not forgot:
                run.bad('C25', f'{s.name} is still asked to register again, long after the faults stopped', ex=x['id'], t=x['t_sent'])
            elif m.type not in ('oadrResponse', 'oadrDistributeEvent', 'oadrRequestReregistration', 'oadrCreateReport', 'oadrCancelReport') \
                    or m.code not in (None, 200):
                run.bad('C25', f'a poll of {s.name} is answered with {m.type} {m.code}, long after the faults stopped', ex=x['id'])
        for m in o_events.models(run):
            if m.inc == last_vtn and m.ven == s.name:
                in_step(run, s, m, t0, settle)
        flowing(run, s, t0 + settle)


def flowing(run, s, t1):
    """Data of the reports that the VTN asked for keeps coming."""
    from . import o_reports
    for rep in o_reports.reps(run):
        if rep.s is not s:
            continue
        for sub in rep.subs:
            if sub.s_off < INF or sub.cancels or sub.oneshot or not sub.rids or rep.shared(sub) or o_reports.may_fail(sub) \
                    or o_reports.listy(sub) or rep.run_time(sub) > sub.g / 2:
                continue
            every = max(sub.g, sub.b)
            end = run.horizon - 6
            ok = sorted(u['t_rdlv'] for u in rep.updates if u['status'] == 200 and u['t_rdlv'] is not None
                        and any(r.request_id == sub.rrid for r in run.req(u).reports or []))
            t, limit = max(t1, sub.t_on + rep.lead_in(sub)), every + sub.g + 25 + 2 * rep.run_time(sub)
            if end - t < limit:
                continue
            run.judged('reports after the faults')
            for nxt in [u for u in ok if t < u < end] + [end]:
                if nxt - t > limit:
                    run.bad('C25', f'no data of report {sub.rrid} ({sub.spec}, every {every} s) of {s.name} reached the VTN between t={t:.1f} '
                                   f'and t={nxt:.1f}; the faults stopped at t={run.plan["quiet_from"]:.1f}')
                    break
                t = nxt


def in_step(run, s, m, t0, settle):
    if s.cfg.get('no_handlers'):
        return
    calls = [e for e in s.h if e['k'] == 'ven_ev' and e['phase'] == 'start']
    for i in m.insts:
        if m.by_eid[i.eid] is not i:
            continue
        changed = max([i.t] + [e['t'] for e in run.k['ev_cancel'] if e['node'] == m.inc and e['ven'] == i.ven and e['eid'] == i.eid and e['s'] > i.s])
        if max(changed, t0) > run.horizon - settle - 1 or i.total == 0:
            continue
        _, hi = run.wall_range('vtn', 0, run.horizon)
        if hi >= run.epoch + i.spec['start'] + i.total - 2 or run.wall_range(s.name, 0, run.horizon)[1] >= run.epoch + i.spec['start'] + i.total - 2:
            continue            # it may be over
        nc = len(i.cancels)
        if nc and s.cfg.get('no_update'):
            continue            # its application does not want to hear about updates
        mine = [c for c in calls if c['view']['eid'] == i.eid]
        if not mine and any(how == 'confirmed' and lo < s.started['s'] for lo, hi, how, x in i.poss):
            continue            # confirmed by an earlier process of this VEN, so not outstanding any more
        # a request made in the VEN's name whose reply the VEN never sees (the copy of a poll, somebody else's) may take the news
        news = [x for x in run.to_vtn(m.inc, None, m.ven_id) if x['type'] in ('oadrPoll', 'oadrRequestEvent')
                and x['rtype'] == 'oadrDistributeEvent' and x['t_rep'] >= changed]
        if any(x['src'] != s.name for x in news) and not any(x['src'] == s.name and x['t_rdlv'] is not None for x in news):
            continue
        run.judged('outstanding events after the faults')
        want = {i.mod0 + nc} if nc < 2 else {i.mod0 + k for k in range(1, nc + 1)}
        if not mine or mine[-1]['view']['mod'] not in want:
            run.bad('C25', f"the event handler of {s.name} " + (f"last got modification {mine[-1]['view']['mod']} of" if mine else 'never got')
                    + f" event {i.eid}; the VTN has modification {sorted(want)[-1]} since t={changed:.1f}, the faults stopped at t={t0:.1f}")
            continue
        if i.spec.get('cb') and i.spec['rr'] == 'always':
            run.judged('decisions after the faults')
            if not any(e['uid'] == i.uid and e['node'] == m.inc for e in run.k['cb']):
                run.bad('C25', f"the VTN application never learned the decision of {s.name} on event {i.eid}, which its handler got at "
                               f"t={mine[-1]['t']:.1f}; the faults stopped at t={t0:.1f}")
