"""S / SV: TLS, signatures, replays and forgeries."""
from .families import (rnd, chance, base, event, behaviours, net_faults, node_faults, near_tick, fam_v, fam_g, fam_rv, NAMES)

VCERT = {'venA': 'ven1', 'venB': 'ven2', 'venC': 'ven3'}


def small_reports(r, n):
    return [{'spec': f'spec{n}', 'rid': 'rid1', 'resource': f'res{n}', 'mode': 'incremental', 'name': 'TELEMETRY_USAGE',
             'measurement': 'voltage', 'min': 1, 'max': 60, 'base': 1000 * (1 + 'ABC'.find(n[-1])), 'step': 0.25}]


def fam_s(r, seed):
    """Real VENs and a real VTN over TLS with signatures; attackers with certificates of their own."""
    p = base(r, seed, 'S')
    freq = r.choice([3, 5, 5, 10])
    names = NAMES[:r.choice([1, 2, 2])]
    horizon = p['horizon'] = round(5 + freq * r.randint(6, 14), 3)
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': [], 'tls': True, 'sign': chance(r, 0.8),
                      'verify': chance(r, 0.85), 'lookup': r.choice(['ven_lookup', 'ven_lookup', 'fingerprint_lookup', 'both']),
                      'async_lookup': chance(r, 0.5)}
    if chance(r, 0.2):
        vtn['polling'] = 'external'
    p['vens'] = {}
    p['raws'] = ['rawA', 'rawB']
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    pool = [f'ev{i}x' for i in range(1, 4)]
    uid = 0
    for n in NAMES:
        vtn['vens'][n] = {'ven_id': n + 'id', 'cert': VCERT[n]}
        if chance(r, 0.7):
            vtn['vens'][n]['accept'] = {f'res{n}': {'s': r.choice([1, 2, 5])}}
    if chance(r, 0.3):
        del vtn['vens']['venC']['cert']              # known by name, no fingerprint delivered
    if chance(r, 0.8):
        vtn['vens']['venC']['prereg'] = 'regPreC'    # a raw client acts as venC
    for n in names:
        v = p['vens'][n] = {'tls': True, 'cert': VCERT[n], 'beh': behaviours(r, pool)}
        if vtn['sign'] and chance(r, 0.5):
            v['vtn_fp'] = 'vtn'
        if chance(r, 0.1):
            v['disable_signature'] = True
        if chance(r, 0.06):
            v['cert'] = r.choice(['mallory', 'ven3', 'ven1'])
        if chance(r, 0.6):
            v['reports'] = small_reports(r, n)
        p['ops'].append({'t': rnd(r, 0.5, 3), 'op': 'start', 'node': n})
    for n in names + ['venC']:
        for e in r.sample(pool, r.randint(1, 3)):
            uid += 1
            t = rnd(r, 0.5, horizon * 0.7)
            if vtn.get('polling'):
                continue
            p['ops'].append({'t': t, 'op': 'add_event', 'node': 'vtn', 'ven': n, 'ev': event(r, f'u{uid}', e, t, freq)})
            if chance(r, 0.5):
                p['ops'].append({'t': rnd(r, t + 0.01, horizon * 0.9), 'op': 'cancel_event', 'node': 'vtn', 'ven': n, 'eid': e})
        if vtn.get('polling'):
            for _ in range(r.randint(0, 4)):
                uid += 1
                t = rnd(r, 0.5, horizon * 0.8)
                ev = event(r, f'u{uid}', f'px{uid}x', t, freq, callbacks=False)
                ev['uid'] = f'u{uid}'
                p['ops'].append({'t': t, 'op': 'poll_item', 'node': 'vtn', 'ven': n,
                                 'item': {'kind': r.choice(['event_obj', 'event_dict']), 'events': [ev]}})
    if chance(r, 0.4):      # the application replaces or revokes a certificate
        for n in r.sample(names + ['venC'], r.choice([1, 1, 2])):
            p['ops'].append({'t': rnd(r, 1, horizon * 0.8), 'op': 'newcert', 'node': 'vtn', 'ven': n,
                             'cert': r.choice([c for c in ('ven1', 'ven2', 'ven3', 'mallory', None) if c != VCERT[n]])})
    # attackers and a hand-driven VEN
    t = 2.0
    for _ in range(r.randint(6, 22)):
        t += r.choice([0.0, 0.01, 0.2, 1.0, 3.0]) * r.uniform(0.5, 2)
        if t > horizon - 2:
            t = rnd(r, 2, horizon - 2)
        victim = r.choice(names)
        p['ops'].append(dict(attack(r, p, victim, pool), t=round(t, 6), op='raw', node=r.choice(p['raws'])))
    if chance(r, 0.3):
        t = rnd(r, 3, horizon - 3)
        for k in range(r.randint(5, 40)):
            p['ops'].append({'t': round(t + k * 0.01, 6), 'op': 'raw', 'node': r.choice(p['raws']), 'what': 'poll',
                             'a': {'ven_id': 'venCid'}, 'tls': 'ven3', 'sign': 'ven3'})
    if chance(r, 0.5):
        p['rules'] += net_faults(r, r.randint(1, 4), ['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrUpdateReport',
                                                      'oadrRequestEvent'], horizon, names + p['raws'])
    if chance(r, 0.5):      # the same bytes again, right away or later, on another connection
        for _ in range(r.randint(1, 3)):
            p['rules'].append({'dir': 'req', 'src': r.choice(names), 'type': r.choice(['oadrPoll', 'oadrCreatedEvent', 'oadrUpdateReport']),
                               'nth': r.randint(1, 8), 'count': r.choice([1, 1, 3]), 'do': 'dup', 'by': r.choice([0.0, 0.01, 0.5, 2, 4.5, 6, 9])})
    if chance(r, 0.25):
        p['ops'] += node_faults(r, names, horizon, freq)
    if chance(r, 0.2) and vtn['async_lookup']:
        vtn['slow'].append({'h': 'ven_lookup', 'ven': r.choice(names), 'nth': r.randint(2, 8), 'count': 2,
                            'delay': rnd(r, 0.1, 7), 'raise': False})
    p['ops'].sort(key=lambda o: o['t'])
    return p


def forged(r, ven_id, pool):
    """A message worth sending in another VEN's name."""
    u = r.random()
    if u < 0.25:
        return 'poll', {'ven_id': ven_id}
    if u < 0.4:
        return 'request_event', {'ven_id': ven_id}
    if u < 0.65:
        return 'created_event', {'ven_id': ven_id, 'responses': [[r.choice(pool), r.choice([0, 0, 1, 1, 3]),
                                                                 r.choice(['optIn', 'optOut'])]]}
    if u < 0.75:
        return 'cancel_reg', {'ven_id': ven_id, 'reg': '@'}
    if u < 0.85:
        return 'update_report', {'ven_id': ven_id if chance(r, 0.7) else None, 'rrid': '@'}
    return 'register_report', {'ven_id': ven_id, 'reports': [{'spec': 'specM', 'name': 'TELEMETRY_STATUS', 'points': [
        {'rid': 'ridM', 'resource': r.choice(['resvenA', 'resvenB', 'resvenC']), 'min': 1, 'max': 60}]}]}


def attack(r, p, victim, pool):
    vid, vc = victim + 'id', VCERT[victim]
    other = r.choice([c for c in ('ven1', 'ven2', 'ven3', 'mallory') if c != vc])
    u = r.random()
    what, a = forged(r, vid, pool)
    o = {'what': what, 'a': a}
    if u < 0.12:                                     # own certificate, own signature, other's id
        o.update(tls=other, sign=other)
    elif u < 0.22:                                   # the victim's connection, somebody else's signature
        o.update(tls=vc, sign=other)
    elif u < 0.28:
        o.update(tls=vc)                             # unsigned
    elif u < 0.34:
        o.update(tls=other)
    elif u < 0.42:                                   # claims the victim's certificate, other key
        o.update(tls=r.choice([vc, vc, other]), sign=vc, signkey=other)
    elif u < 0.5:                                    # genuine but signed long ago (or just about)
        o.update(tls=vc, sign=vc, sigage=-r.choice([5.5, 6, 10, 60, 4.0, 4.5, 3600]))
    elif u < 0.72:                                   # something the victim sent
        o = {'what': 'captured', 'src': victim, 'type': r.choice(['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent',
                                                                 'oadrUpdateReport', 'oadrRegisterReport']),
             'k': r.choice([-1, -1, -1, -2, -3, 0, 1]), 'tls': r.choice([vc, vc, vc, other])}
        w = r.random()
        if w < 0.45:
            o['how'] = 'same'
        elif w < 0.65:
            o['how'] = 'extra_rp'
        elif w < 0.85:
            o['how'] = 'wrap'
            ew, ea = forged(r, vid, pool)
            o['evil'] = {'what': ew, 'a': ea}
        else:
            o['how'] = 'tamper'
            o['subst'] = r.choice([[['optIn', 'optOut']], [['>optOut<', '>optIn<']], [['ev1x', 'ev2x']], [['venAid', 'venBid']],
                                   [['venBid', 'venAid']], [['<ei:modificationNumber>0', '<ei:modificationNumber>1']]])
    elif u < 0.78:                                   # no venID at all, or an unknown one
        if chance(r, 0.5):
            o = {'what': r.choice(['update_report', 'register_report']), 'tls': r.choice([vc, other]), 'sign': other,
                 'a': dict(ven_id=vid, rrid='@', reports=a.get('reports') or [])}
            o['a']['subst'] = [[f'<ei:venID>{vid}</ei:venID>', '']]
        else:
            w2, a2 = forged(r, 'ghostid', pool)
            o = {'what': w2, 'a': a2, 'tls': other, 'sign': other}
    elif u < 0.84:
        o.update(tls=r.choice(['stranger', '']), sign=vc)
    else:                                            # a legitimate VEN by hand
        what, a = forged(r, 'venCid', pool)
        o = {'what': what, 'a': a, 'tls': 'ven3', 'sign': 'ven3'}
    return o


# ----------------------------------------------------------- SV: a VEN that knows the VTN's fingerprint
def bad_sig(r, item, freq):
    u = r.random()
    if u < 0.18:
        return {'how': 'unsigned'}
    if u < 0.34:
        return {'how': 'othercert', 'cert': r.choice(['othervtn', 'ven2', 'mallory'])}
    if u < 0.5:
        return {'how': 'swapcert', 'key': r.choice(['othervtn', 'ven2'])}
    if u < 0.62:
        return {'how': 'tamper', 'sub': r.choice([['<ei:modificationNumber>0', '<ei:modificationNumber>7'],
                                                  ['ev1x', 'ev9x'], ['reg1x', 'reg9x'], ['venAid', 'venZid']])}
    if u < 0.74:
        return {'how': 'wrap', 'signed_item': {'kind': 'response'}}
    if u < 0.84:
        return {'age': r.choice([5.5, 8, 60, 86400, 4.0])}
    if u < 0.9:
        return {'how': 'ok'}
    return {'how': 'replay', 'type': r.choice(['oadrResponse', 'oadrDistributeEvent', 'oadrRequestReregistration',
                                               'oadrCreatedPartyRegistration', 'oadrCancelPartyRegistration', 'oadrCreateReport',
                                               'oadrRegisteredReport'])}


def fam_sv(r, seed):
    fam = r.choice([fam_v, fam_v, fam_g, fam_g, fam_rv])
    p = fam(r, seed)
    p['base_fam'], p['fam'] = p['fam'], 'SV'
    sv = p['svtn']
    sv['sign'] = 'vtn'
    tls = chance(r, 0.7)
    if tls:
        sv['tls'] = True
    for n, v in p['vens'].items():
        v['cert'] = 'ven1'
        v['vtn_fp'] = 'vtn'
        if tls:
            v['tls'] = True
    freq = sv['freq']
    share = r.choice([0.1, 0.3, 0.6])

    def spoil(item):
        if chance(r, share):
            item['sig'] = bad_sig(r, item, freq)
    for o in p['ops']:
        if o['op'] == 'push':
            spoil(o['item'])
    for n, s in sv['vens'].items():
        for key in ('reg', 'sync', 'regrep', 'cancelreg'):
            for item in s.get(key, []):
                spoil(item)
    for o in sv.get('over', []):
        if o['do']['kind'] not in ('hang', 'http', 'empty'):
            spoil(o['do'])
    for _ in range(r.choice([0, 1, 2])):     # otherwise ordinary replies
        sv.setdefault('over', []).append({'type': r.choice(['oadrPoll', 'oadrPoll', 'oadrCreatePartyRegistration', 'oadrQueryRegistration',
                                                            'oadrUpdateReport', 'oadrRequestEvent', 'oadrCancelPartyRegistration']),
                                          'nth': r.randint(1, 6), 'count': r.choice([1, 1, 2]),
                                          'do': {'kind': 'as_usual', 'sig': bad_sig(r, {}, freq)}})
    # events pushed twice close together, so that replays find something fresh
    return p
