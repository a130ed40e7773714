"""Oracles over security: C17, C18 (VTN side) and C19 (VEN side)."""
from .index import INF
from . import wire, o_ven, o_reports

REGISTRATION = ('oadrCreatePartyRegistration', 'oadrQueryRegistration')
# an application callback and the requests that may cause it
CAUSE = {'offer': ('oadrRegisterReport',), 'values': ('oadrUpdateReport',), 'on_poll': ('oadrPoll',),
         'on_created_event': ('oadrCreatedEvent',), 'on_request_event': ('oadrRequestEvent',),
         'cancel_reg': ('oadrCancelPartyRegistration',)}


def cert_name(pem):
    from . import apps
    for n in ('ven1', 'ven2', 'ven3', 'vtn', 'othervtn', 'mallory', 'stranger'):
        if pem == apps.pem(n):
            return n
    return None if pem is None else '?'


def signer(run, x):
    """Which certificate validly signed exactly these bytes (None: nobody)."""
    if not hasattr(run, '_signers'):
        t = dict(run.w.genuine)
        for y in run.X:
            v = run.plan.get('vens', {}).get(y['src'])
            if v and v.get('cert') and not v.get('disable_signature'):
                t[y['body']] = v['cert']
        run._signers = t
    return run._signers.get(run.w.derived.get(x['body'], x['body']))


def expected(run, ven_id, lo=-1, hi=-1):
    """The certificates the application expects of a VEN while lo..hi."""
    n = run.name_of.get(ven_id)
    if not n:
        return {None}
    out = [run.vcfg['vens'].get(n, {}).get('cert')]
    for e in run.k['newcert']:
        if e['ven'] == n and e['s'] < hi:
            out = [e['cert']] if e['s'] < lo else out + [e['cert']]
    return set(out)


def legit(run, x, surely=False):
    """Connection certificate and signature both belong to the VEN named in the message."""
    m = run.req(x)
    es = expected(run, m.ven_id, x['s_dlv'], x['s_rep'] if x['s_rep'] is not None else INF)

    def ok(e):
        if not m.ven_id or e is None or cert_name(x['tls']) != e:
            return False
        return not run.vcfg.get('verify', True) or signer(run, x) == e
    return all(map(ok, es)) if surely else any(map(ok, es))


def refused(run, x):
    if x['status'] != 200 or x['rtype'] == 'oadrRequestReregistration':
        return True
    return x['rtype'] in ('oadrResponse', 'oadrDistributeEvent', 'oadrCreatedPartyRegistration') and \
        run.rep(x).code not in (None, 200)


def blocked(run, x):
    """Refused by the VTN's identity, signature or replay protection."""
    return x['status'] == 403 or (x['status'] == 200 and run.rep(x).code == 463)


def arrivals(run, inc):
    return [x for x in run.to_vtn(inc) if x['type'] and run.schema_ok(x['body'])]


def c17(run):
    if not run.real_vtn or not run.vcfg.get('tls'):
        return
    for inc in run.vtn_incs:
        xs = arrivals(run, inc)
        ok = []
        for x in xs:
            if x['type'] in REGISTRATION or x['type'] == 'oadrResponse':
                continue
            if legit(run, x):
                ok.append(x)
                continue
            if x['status'] is None:
                continue
            run.judged('unauthorised messages')
            if not refused(run, x):
                m = run.req(x)
                run.bad('C17', f"{x['type']} naming '{m.ven_id}' over a connection with certificate {cert_name(x['tls'])}, signed by "
                               f"{signer(run, x)}, was answered with {x['rtype']} as if it were authorised", ex=x['id'], t=x['t_dlv'])
        uid_ven = {e['uid']: e['ven'] for e in run.k['ev_add'] if e['node'] == inc}
        starts = [(e['s'], e['t'], e['h'], e['ven'], CAUSE[e['h']]) for e in run.k['vtn_h'] if e['node'] == inc
                  and e['phase'] == 'start' and e['h'] in CAUSE]
        starts += [(e['s'], e['t'], 'response callback', uid_ven.get(e['uid']), ('oadrCreatedEvent',)) for e in run.k['cb']
                   if e['node'] == inc]
        starts += [(e['s'], e['t'], 'delivery callback', uid_ven.get(e['uid']), ('oadrPoll', 'oadrRequestEvent')) for e in run.k['dcb']
                   if e['node'] == inc and e['phase'] == 'start']
        for s, t, h, ven, types in starts:
            run.judged('callbacks attributed')
            if not any(x['type'] in types and (run.name_of.get(run.req(x).ven_id) == ven or (ven is None)) and x['s_dlv'] < s
                       and (x['s_rep'] is None or x['s_rep'] > s or x['t_rep'] + 0.01 > t) for x in ok):
                run.bad('C17', f"{h} for {ven} ran without an authorised message of that VEN being handled", t=t)


def age(run, x):
    """Bounds on the age of the message while the VTN handled it."""
    rp = wire.replay_protect(x['body'])
    if rp is None:
        return None
    t2 = x['t_rep'] if x['t_rep'] is not None else x['t_dlv'] + 30
    lo, _ = run.wall_range('vtn', x['t_dlv'], x['t_dlv'])
    _, hi = run.wall_range('vtn', x['t_dlv'], t2)
    return lo - rp[0], hi - rp[0]


def c18(run):
    if not run.real_vtn or not run.vcfg.get('tls') or not run.vcfg.get('verify', True):
        return
    for inc in run.vtn_incs:
        seen = {}
        for x in arrivals(run, inc):
            m = run.req(x)
            # registration messages are authenticated (and protected) when they name a VEN
            if x['type'] == 'oadrResponse' or x['type'] in REGISTRATION:
                continue
            if not legit(run, x, True):
                continue
            a = age(run, x)
            if a is None:
                continue
            key = run.w.derived.get(x['body'], x['body'])
            passed = x['status'] is not None and not blocked(run, x) and x['rtype'] != 'oadrRequestReregistration' \
                and x['status'] != 400
            seen.setdefault(key, []).append((x, m, a, passed))
        for group in seen.values():
            if all(y[0]['status'] is None for y in group):
                continue
            ok = [y for y in group if y[3]]
            for n, (x, m, a, passed) in enumerate(group):
                if x['status'] is None:
                    continue
                run.judged('replays' if n else 'first arrivals')
                if passed and a[0] >= 5.1:
                    run.bad('C18', f"a message signed {a[0]:.1f} s ago was not refused: {x['type']} from {m.ven_id}", ex=x['id'],
                            t=x['t_dlv'])
                if passed and x is not ok[0][0] and not run.stepped_back('vtn', ok[0][0]['t_dlv'], x['t_rep']):
                    run.bad('C18', f"the same signed {x['type']} of {m.ven_id} was accepted twice", ex=x['id'], t=x['t_dlv'])
                others = [y for y in group if y[0] is not x and y[0]['s_dlv'] < x['s_rep']]
                if blocked(run, x) and a[1] <= 4.9 and all(y[0]['status'] is not None and not y[3] for y in others):
                    # other copies may have been handled at the same time; one of them all is accepted
                    run.bad('C18', f"a fresh and new {x['type']} of {m.ven_id} was refused ({run.rep(x).desc})", ex=x['id'], t=x['t_dlv'])


def c19(run):
    """The VEN must behave as if replies that are not authentic had never arrived."""
    if run.real_vtn or not any(v.get('vtn_fp') for v in run.plan['vens'].values()):
        return
    run.authentic({'id': -1})
    if run.borderline:
        run.judged('skipped: a reply aged right at the limit')
        return
    n0 = len(run.out)
    for f in (o_ven.c05, o_ven.c06, o_ven.c08, o_ven.c09, o_ven.c10, o_ven.c11, o_reports.c14_15_16):
        f(run)
    for v in run.out[n0:]:
        v['what'] = f"[{v['property']}] {v['what']}"
        v['property'] = 'C19'
    run.judged('forged, stale or replayed replies', sum(1 for i, ok in run._auth.items() if not ok))
