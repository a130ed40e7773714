"""W: the application calls the client's own coroutines (opt schedules) and registers hooks at both sides."""
from .families import rnd, chance, fam_v, fam_e

TARGETS = [{'ven_id': 'venAid'}, {'group_id': 'grp1'}, {'group_name': 'north & south'}, {'resource_id': 'res<1>'}, {'party_id': 'p1'},
           {'resource_id': 'res2'}, {'ven_id': 'venXid'}]
REASONS = ['economic', 'emergency', 'mustRun', 'notParticipating', 'outageRunStatus', 'overrideStatus', 'participating', 'x-schedule']
HOOKS = ['before_send_xml', 'after_receive_xml', 'before_schema_validation', 'before_parse_xml', 'after_parse_xml']
VTN_HOOKS = ['before_parse', 'before_handle', 'after_handle', 'before_respond']


def hooks(r, names, modes):
    out = []
    for h in names:
        for _ in range(r.choice([0, 1, 1, 2])):
            out.append({'h': h, 'mode': r.choice(modes), 'delay': r.choice([0, 0, 0.001, 0.02])})
    return out


def opt_args(r, k):
    a = {'type': r.choice(['optIn', 'optOut']), 'reason': r.choice(REASONS), 'obj': chance(r, 0.3),
         'targets': r.sample(TARGETS, r.choice([0, 1, 1, 1, 2, 3]))}
    if chance(r, 0.5):
        a['event'], a['mod'] = f'oe{k}x', r.choice([None, 0, 1, 7])
    else:
        t = k * 1000.0
        a['avail'] = []
        for _ in range(r.choice([1, 1, 2, 3])):
            a['avail'].append([t, r.choice([1, 59, 60, 3600, 86400, 90061, 604800])])
            t += r.choice([10, 3600.5, 86400.25])
    if chance(r, 0.3):
        a['mc'] = r.choice(['http://market.example/a', 'http://m.example/?a=1&b=2'])
    if chance(r, 0.3):
        a['mrid'] = r.choice(['Thermostat', 'Pool_Pump', 'x-own'])
    if chance(r, 0.3):
        a['opt_id'] = f'opt{k}y'
    if chance(r, 0.3):
        a['request_id'] = f'orq{k}y'
    if chance(r, 0.1):
        a['bad'] = r.choice(['type', 'reason', 'both', 'neither'])
    return a


def fam_w(r, seed):
    if chance(r, 0.25):
        p = fam_e(r, seed)
        p['fam'] = 'W'
        p['vtn']['hooks'] = hooks(r, VTN_HOOKS, ['ok', 'ok', 'raise'])
        for v in p['vens'].values():
            v['hooks'] = hooks(r, HOOKS, ['sync', 'async', 'raise', 'araise'])
        return p
    p = fam_v(r, seed)
    p['fam'] = 'W'
    v = p['vens']['venA']
    if chance(r, 0.7):
        v['hooks'] = hooks(r, HOOKS, ['sync', 'async', 'raise', 'araise'])
    horizon = min(p['horizon'], 300)
    n = r.randint(1, 6)
    t = 2.5
    for k in range(1, n + 1):
        t = min(t + rnd(r, 0.05, horizon / n), horizon - 1)
        a = opt_args(r, k)
        p['ops'].append({'t': round(t, 3), 'op': 'ven_call', 'node': 'venA', 'call': 'create_opt', 'k': k, 'a': a})
        u = t
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            u = round(min(u + r.choice([0.001, 0.01, 1, 5, 11, 20]) * r.random() + r.choice([0, 0, 0.05]), horizon - 0.5), 3)
            p['ops'].append({'t': u, 'op': 'ven_call', 'node': 'venA', 'call': 'cancel_opt', 'k': r.choice([k, k, k, k, 0])})
    over = p['svtn']['over']
    usual = {'oadrCreateOpt': {'kind': 'created_opt'}, 'oadrCancelOpt': {'kind': 'canceled_opt'}}
    for ty in usual:
        nth = 1
        while nth < 14:
            c = r.choice([1, 1, 2])
            do = r.choice([usual[ty]] * 8 + [dict(usual[ty], delay=rnd(r, 0.1, 9)), dict(usual[ty], delay=rnd(r, 9, 14)), {'kind': 'response', 'code': 452},
                                              {'kind': 'response'}, {'kind': 'http', 'status': r.choice([404, 500])}, {'kind': 'hang'}, {'kind': 'empty'},
                                              {'kind': 'http', 'status': 200, 'body': r.choice(['garbage', '<a/>'])}])
            over.append({'type': ty, 'nth': nth, 'count': c, 'do': do})
            nth += c
        over.append({'type': ty, 'nth': nth, 'count': 1000, 'do': usual[ty]})
    p['ops'].sort(key=lambda o: o['t'])
    return p
