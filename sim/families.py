"""Seeded generators of simulation plans (workload + faults).  A plan is plain JSON."""
import random

NAMES = ['venA', 'venB', 'venC']
ZONES = [['Europe/Amsterdam'], ['UTC', 'America/New_York'], ['naive', 330], [-210, 'naive', 'Asia/Kolkata'], [845], ['naive'],
         ['Europe/Amsterdam', 'UTC', -720]]
EPOCHS = [1729990770.0, 1709640000.0, 1709640000.0, 1709251170.0, 1711846770.0, 1735689570.0, 1709640007.25]
TZS = ['UTC', 'UTC', 'UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kolkata']
MARKETS = ['http://market.context', 'http://m.example/a?b=1&c=2', "urn:x:it's", 'http://m/<x>']
COMMENTS = [None, None, 'plain', 'a & b < c > "d" \'e\'', 'ünïcödé ✓', ']]>']
SIG = [['LOAD_CONTROL', 'x-loadControlCapacity'], ['ELECTRICITY_PRICE', 'price'], ['SIMPLE', 'level'],
       ['CHARGE_STATE', 'setpoint'], ['LOAD_DISPATCH', 'setpoint']]


def rnd(r, a, b, q=0.001):
    return round(round(r.uniform(a, b) / q) * q, 6)


def chance(r, p):
    return r.random() < p


def near_tick(r, freq, t0, t1, offset):
    """A time close to one of the polls (which happen at offset + k * freq)."""
    k = r.randint(max(1, int((t0 - offset) / freq)), max(1, int((t1 - offset) / freq)))
    t = offset + k * freq
    mode = r.random()
    if mode < 0.45:
        t += rnd(r, 0.0, 0.08)
    elif mode < 0.6:
        t -= rnd(r, 0.0, 0.05)
    else:
        t += rnd(r, 0, freq)
    return round(min(max(t, t0), t1), 6)


def event(r, uid, eid, t, freq, callbacks=True):
    """One event as the VTN application gives it, made at time t."""
    n = r.choice([1, 1, 1, 2, 2, 3])
    life = r.random()
    q = r.choice([1, 1, 0.5, 0.001])
    if life < 0.2:
        start = t + rnd(r, -40, -1, q)                  # active or already over
    elif life < 0.65:
        start = t + rnd(r, 0, 3 * freq, q)              # soon
    elif life < 0.75:
        start = t + freq * r.randint(0, 3)
    else:
        start = t + rnd(r, 4 * freq, 12 * freq + 30, q)
    start = max(1, round(start, 6))
    durs = [r.choice([1, 2, 5, 10, 15, 30, 60, 3600, 90000]) for _ in range(n)]
    if chance(r, 0.5):
        durs = [r.choice([3, 5, 8, 10, 20]) for _ in range(n)]
    sg = r.choice(SIG)
    vals = [float(r.randint(0, 3)) if sg[0] == 'SIMPLE' else r.choice([0.0, 1.0, 2.5, -3.25, 1000000.0, 0.001, 17.125])
            for _ in range(n)]
    ev = {'uid': uid, 'eid': eid, 'start': start, 'ivs': [[d, v] for d, v in zip(durs, vals)],
          'sigs': [sg], 'rr': 'always' if chance(r, 0.8) else 'never'}
    if chance(r, 0.4):
        ev['ramp'] = r.choice([1, 5, 10, 30, 60, 600])
    if chance(r, 0.2):
        ev['notify'] = r.choice([10, 60, 3600])
    if chance(r, 0.2):
        ev['recovery'] = r.choice([10, 60, 90])
    if chance(r, 0.15):
        ev['market'] = r.choice(MARKETS)
    if chance(r, 0.4):
        ev['raw'] = r.choice(['obj', 'dict'])
        ev['prio'] = r.choice([0, 0, 1, 1, 2, 3, 5])
        ev['mod'] = r.choice([0, 0, 0, 1, 3, 10])
        c = r.choice(COMMENTS)
        if c:
            ev['comment'] = c
        if sg[0] != 'SIMPLE' and chance(r, 0.3):
            ev['sigs'] = [sg, r.choice([s for s in SIG if s[0] != 'SIMPLE'])]
    elif chance(r, 0.3):
        ev['ivdict'] = True
    if chance(r, 0.15):
        ev['targets'] = r.choice([[{'resource_id': 'resX'}], [{'group_id': 'grp1'}, {'group_id': 'grp2'}],
                                  [{'party_id': 'p&q'}]])
        if chance(r, 0.6):
            ev['tform'] = r.choice(['one', 'one_obj', 'objs', 'by_type'])
    if ev.get('raw') and not any(k in ev for k in ('ramp', 'notify', 'recovery')) and chance(r, 0.4):
        ev['noap'] = r.choice(['obj', ev['raw']])
    if callbacks:
        ev['cb'] = r.choice(['func', 'coro', 'coro', 'future', None])
        if ev['cb'] == 'coro' and chance(r, 0.3):
            ev['cbdelay'] = rnd(r, 0.01, 3)
        if ev['cb'] in ('func', 'coro') and chance(r, 0.06):
            ev['cbraise'] = True
        if ev['cb'] is None:
            del ev['cb']
        if chance(r, 0.45):
            ev['dcb'] = r.choice(['func', 'coro', 'coro'])
            if ev['dcb'] == 'coro':
                if chance(r, 0.6):
                    ev['dcbdelay'] = rnd(r, 0.005, 2)
                if chance(r, 0.25):
                    ev['dcbraise'] = [r.randint(1, 3)]
    return ev


def behaviours(r, eids):
    """How a VEN application answers events."""
    out = {}
    for e in eids:
        if chance(r, 0.6):
            seq = []
            for _ in range(r.randint(1, 3)):
                b = {'opt': r.choice(['optIn', 'optOut'])}
                m = r.random()
                if m < 0.1:
                    b['mode'] = 'raise'
                elif m < 0.16:
                    b['mode'] = 'invalid'
                    b['bad'] = r.choice(['maybe', 'OPTIN', True, 0])
                elif m < 0.2:
                    b['mode'] = 'none'
                if chance(r, 0.2):
                    b['delay'] = rnd(r, 0.01, 4)
                seq.append(b)
            out[e] = seq
    return out


FAULT_TYPES = ['oadrPoll', 'oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrCreatedEvent', 'oadrRequestEvent']


def net_faults(r, n, types, horizon, srcs, reps=True, tmax=None):
    """Rules on single messages and trouble with nodes or links."""
    rules = []
    for _ in range(n):
        d = r.choice(['req', 'rep']) if reps else 'req'
        do = r.choice(['drop', 'delay', 'reset', 'dup', 'delay'] if d == 'req' else ['drop', 'delay', 'reset', 'trunc', 'delay'])
        rule = {'dir': d, 'src': r.choice(srcs), 'type': r.choice(types), 'nth': r.randint(1, 8), 'do': do}
        if do in ('delay', 'dup'):
            rule['by'] = rnd(r, 0.05, 14) if chance(r, 0.7) else rnd(r, 0.05, 60)
        if do == 'reset':
            rule['frac'] = round(r.random(), 2)
        if chance(r, 0.2):
            rule['count'] = r.randint(2, 3)
        rules.append(rule)
    return rules


def node_faults(r, vens, horizon, freq, vtn=True, crash=True):
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        t = rnd(r, 5, horizon * 0.8)
        k = r.random()
        tgt = r.choice(vens + (['vtn'] if vtn else []))
        if k < 0.3 and crash:
            ops.append({'t': t, 'op': 'crash', 'node': tgt, 'silent': chance(r, 0.3), 'restart': rnd(r, 0.2, 25)})
        elif k < 0.5:
            ops.append({'t': t, 'op': 'partition', 'a': r.choice(vens), 'b': 'vtn', 'for': rnd(r, 1, 40)})
        elif k < 0.65:
            ops.append({'t': t, 'op': 'pause', 'node': tgt, 'for': rnd(r, 0.5, 2.5 * freq)})
        elif k < 0.8:
            ops.append({'t': t, 'op': 'kill_conns', 'node': tgt})
        else:
            # a backward jump of a VEN's clock stalls its scheduler for that long: keep it short
            ops.append({'t': t, 'op': 'skew', 'node': tgt, 'delta': rnd(r, -5, 45) if tgt != 'vtn' else rnd(r, -30, 60)})
    return ops


def base(r, seed, fam):
    p = {'fam': fam, 'seed': seed, 'ops': [], 'rules': [], 'triggers': []}
    if chance(r, 0.3):
        p['epoch'] = r.choice(EPOCHS)
    if chance(r, 0.3):
        p['tz'] = r.choice(TZS)
    if p.get('epoch') in (1729990770.0, 1711846770.0) and chance(r, 0.5):       # shortly before the clocks change
        p['tz'] = 'Europe/Amsterdam'
    if chance(r, 0.25):
        p['zones'] = r.choice(ZONES)
    if chance(r, 0.3):
        p['lat'] = {'lo': 0.001, 'hi': r.choice([0.005, 0.2, 1.0]), 'tail': r.choice([0, 0, 0.02])}
    return p


# --------------------------------------------------------------- E: events end to end
def fam_e(r, seed, faults=None):
    p = base(r, seed, 'E')
    freq = r.choice([2, 5, 5, 10, 10, 20, 7.5])
    nv = r.choice([1, 1, 2, 2, 3])
    names = NAMES[:nv]
    polls = r.randint(8, 22)
    horizon = p['horizon'] = round(5 + freq * polls + 4, 3)
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': []}
    p['vens'] = {}
    pool = [f'ev{i}x' for i in range(1, 6)]
    if chance(r, 0.5):
        vtn['lookup'] = 'ven_lookup'
        vtn['async_lookup'] = chance(r, 0.5)
    off = {}
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    uid = 0
    for n in names:
        vtn['vens'][n] = {'ven_id': n + 'id'}
        v = p['vens'][n] = {'beh': behaviours(r, pool)}
        if chance(r, 0.3):
            v['sync_handlers'] = True
        if chance(r, 0.1):
            v['no_update'] = True
        if chance(r, 0.3):
            v['cleanup'] = r.choice([5, 20, 60])
        t0 = rnd(r, 0.5, 3)
        off[n] = t0 + 0.15
        p['ops'].append({'t': t0, 'op': 'start', 'node': n})
        eids = r.sample(pool, r.randint(1, len(pool)))
        adds = []
        for e in eids:
            uid += 1
            t = near_tick(r, freq, 0.5, horizon * 0.7, off[n]) if chance(r, 0.85) else rnd(r, 0.1, 1.5)
            adds.append((t, e))
            p['ops'].append({'t': t, 'op': 'add_event', 'node': 'vtn', 'ven': n, 'ev': event(r, f'u{uid}', e, t, freq)})
        for t, e in adds:
            if chance(r, 0.5):
                for _ in range(r.choice([1, 1, 1, 2])):
                    lo = t + 0.01
                    p['ops'].append({'t': near_tick(r, freq, lo, max(lo + 0.1, horizon * 0.9), off[n]), 'op': 'cancel_event',
                                     'node': 'vtn', 'ven': n, 'eid': e})
        # changes that are made while a poll (or an event response) is on its way or being answered
        if chance(r, 0.5):
            for _ in range(r.randint(1, 2)):
                at = r.choice(['req_sent', 'req_dlv', 'rep_sent', 'rep_dlv', 'req_dlv'])
                tr = {'at': at, 'src': n, 'type': r.choice(['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent']),
                      'nth': r.randint(1, 6), 'after': r.choice([0.0, 0.0, 0.001, 0.002, 0.01, 0.1, 0.5])}
                if chance(r, 0.5) and adds:
                    tr['op'] = {'op': 'cancel_event', 'node': 'vtn', 'ven': n, 'eid': r.choice(adds)[1]}
                else:
                    uid += 1
                    ts = max(2, horizon / 3)
                    tr['op'] = {'op': 'add_event', 'node': 'vtn', 'ven': n,
                                'ev': event(r, f'u{uid}', f'trig{uid}x', ts, freq)}
                p['triggers'].append(tr)
        if chance(r, 0.1):
            p.setdefault('skew', {})[n] = rnd(r, -30, 30)
    if chance(r, 0.15):
        p.setdefault('skew', {})['vtn'] = rnd(r, -20, 20)
    if vtn.get('async_lookup') and chance(r, 0.3):
        vtn['slow'].append({'h': 'ven_lookup', 'ven': r.choice(names), 'nth': r.randint(2, 8), 'count': 2,
                            'delay': rnd(r, 0.1, 12), 'raise': chance(r, 0.2)})
    f = faults if faults is not None else chance(r, 0.6)
    if f:
        if chance(r, 0.7):
            p['rules'] += net_faults(r, r.randint(1, 4), FAULT_TYPES, horizon, names)
        if chance(r, 0.5):
            p['ops'] += node_faults(r, names, horizon, freq)
    p['ops'].sort(key=lambda o: o['t'])
    return p


# ------------------------------------------- P: hand-made VEN requests against the real VTN
def fam_p(r, seed):
    p = base(r, seed, 'P')
    freq = 10
    horizon = p['horizon'] = r.choice([30, 60, 120])
    nv = r.choice([1, 2, 2])
    names = NAMES[:nv]
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': []}
    p['raws'] = ['rawA', 'rawB']
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    pool = [f'ev{i}x' for i in range(1, 5)]
    if chance(r, 0.4):
        vtn['lookup'] = 'ven_lookup'
        vtn['async_lookup'] = chance(r, 0.5)
    uid = 0
    for n in names:
        vtn['vens'][n] = {'ven_id': n + 'id', 'prereg': 'regPre' + n}
        mods = {}
        for e in r.sample(pool, r.randint(1, len(pool))):
            uid += 1
            t = rnd(r, 0.2, horizon * 0.6)
            ev = event(r, f'u{uid}', e, t, r.choice([2, 5]))
            mods[e] = ev.get('mod', 0) if ev.get('raw') else 0
            if ev.get('cbdelay'):
                ev['cbdelay'] = rnd(r, 0.05, 6)
            p['ops'].append({'t': t, 'op': 'add_event', 'node': 'vtn', 'ven': n, 'ev': ev})
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                p['ops'].append({'t': rnd(r, t, horizon * 0.95), 'op': 'cancel_event', 'node': 'vtn', 'ven': n, 'eid': e})
        ident = n + 'id'
        k = r.randint(10, 35)
        t = 1.0
        for _ in range(k):
            t += r.choice([0.0, 0.0005, 0.003, 0.02, 0.3, 1.0, 3.0]) * r.uniform(0.5, 2)
            if t > horizon - 1:
                t = rnd(r, 1, horizon - 1)
            what = r.random()
            node = r.choice(p['raws'])
            if what < 0.45:
                op = {'what': 'poll', 'a': {'ven_id': ident}}
            elif what < 0.6:
                op = {'what': 'request_event', 'a': {'ven_id': ident}}
            else:
                resp = []
                for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3]) if chance(r, 0.3) else 1):
                    e = r.choice(pool)
                    m = mods.get(e, 0) + r.choice([0, 0, 0, 0, 1, 1, 2, -1, 5])
                    resp.append([e, max(0, m), r.choice(['optIn', 'optOut'])])
                if not resp:
                    resp = [['nope', 0, 'optIn']]
                op = {'what': 'created_event', 'a': {'ven_id': ident, 'responses': resp}}
            p['ops'].append({'t': round(t, 6), 'op': 'raw', 'node': node, **op})
    if chance(r, 0.3):
        p['ops'].append({'t': rnd(r, 2, horizon - 2), 'op': 'skew', 'node': 'vtn', 'delta': rnd(r, -20, 40)})
    if chance(r, 0.3):
        p['ops'].append({'t': rnd(r, 2, horizon - 2), 'op': 'pause', 'node': 'vtn', 'for': rnd(r, 0.2, 10)})
    if chance(r, 0.2):
        p['ops'].append({'t': rnd(r, 2, horizon - 2), 'op': 'crash', 'node': 'vtn', 'restart': rnd(r, 0.1, 3)})
    if chance(r, 0.3):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent'], horizon, p['raws'])
    p['ops'].sort(key=lambda o: o['t'])
    return p


# --------------------------------------------------- V: a real VEN against a scripted VTN
def sv_event(r, eid, t, freq, mod=0, status=None):
    n = r.choice([1, 1, 2, 3])
    start = round(t + r.choice([rnd(r, -60, 0), rnd(r, 0, 4 * freq), rnd(r, 0, 20 * freq), 0.0]), 3)
    sgs = [r.choice(SIG)]
    if chance(r, 0.12):
        sgs = [['x-custom', 'level']]
    elif chance(r, 0.15):
        sgs = [r.choice([s for s in SIG if s[0] != 'SIMPLE']), ['x-custom', 'level']]
    elif chance(r, 0.1):
        sgs = [['x-custom', 'level'], r.choice([s for s in SIG if s[0] != 'SIMPLE'])]
    simple = any(s[0] == 'SIMPLE' for s in sgs)
    ev = {'id': eid, 'mod': mod, 'status': status or r.choice(['far', 'near', 'active', 'active', 'completed']),
          'start': start, 'intervals': [[r.choice([1, 5, 10, 30, 60, 3600]), float(r.randint(0, 3)) if simple else
                                         r.choice([0.0, 1.5, -2.25, 100.0])] for _ in range(n)],
          'signals': sgs, 'rr': 'always' if chance(r, 0.8) else 'never', 'priority': r.choice([0, 1, 2])}
    if chance(r, 0.2):
        ev['ramp'] = 10
    if chance(r, 0.15):
        ev['intervals'] = [[0, ev['intervals'][0][1]]]      # open-ended
        ev['status'] = status or r.choice(['active', 'active', 'far', 'near'])
    return ev


def fam_v(r, seed, faults=None):
    p = base(r, seed, 'V')
    freq = r.choice([2, 5, 10, 10, 30])
    polls = r.randint(8, 20)
    if chance(r, 0.06):
        freq, polls = r.choice([300, 3600, 43200, 86400, 90000, 259200]), r.randint(2, 4)
    horizon = p['horizon'] = round(5 + freq * polls + 4, 3)
    pool = [f'ev{i}x' for i in range(1, 6)]
    p['svtn'] = {'freq': freq, 'vens': {'venA': {'ven_id': 'venAid'}}, 'over': []}
    sv = p['svtn']['vens']['venA']
    v = {'beh': behaviours(r, pool)}
    p['vens'] = {'venA': v}
    if chance(r, 0.3):
        v['sync_handlers'] = True
    if chance(r, 0.12):
        v['no_update'] = True
    if chance(r, 0.06):
        v['no_handlers'] = True
    if chance(r, 0.5) and freq <= 300:
        v['cleanup'] = r.choice([3, 10, 30, 60])
    if chance(r, 0.2):
        v['preset_id'] = r.choice(['venAid', 'presetid'])
    p['ops'] += [{'t': 0.0, 'op': 'start', 'node': 'vtn'}, {'t': 1.0, 'op': 'start', 'node': 'venA'}]
    cur = {}

    def dist(t):
        evs = []
        for e in r.sample(pool, r.randint(1, 4)):
            if e not in cur or chance(r, 0.12):
                if e in cur and chance(r, 0.5):
                    m = cur[e]['mod'] + r.choice([1, 1, 2])
                else:
                    m = cur[e]['mod'] if e in cur else r.choice([0, 0, 0, 1])
                cur[e] = sv_event(r, e, t, freq, m)
            elif chance(r, 0.4):
                cur[e] = dict(cur[e], mod=cur[e]['mod'] + r.choice([1, 1, 1, 2]),
                              status=r.choice([cur[e]['status'], 'cancelled', 'active']))
                if chance(r, 0.3):
                    cur[e]['rr'] = r.choice(['always', 'never'])
            evs.append(dict(cur[e]))
        item = {'kind': 'distribute', 'events': evs}
        return item
    if chance(r, 0.6):
        sv['sync'] = [dist(1.0)]
        if chance(r, 0.2):
            sv['sync'] = [dict(sv['sync'][0], delay=rnd(r, 0.5, 12))]
    t = 1.5
    while t < horizon - 2:
        k = r.random()
        if k < 0.72:
            item = dist(t)
            if chance(r, 0.15):
                item['delay'] = rnd(r, 0.5, 14)
        elif k < 0.76:
            item = {'kind': 'response', 'code': r.choice([200, 452, 500])}
        elif k < 0.79:
            item = {'kind': 'http', 'status': r.choice([400, 403, 500, 503, 404]), 'body': 'oops'}
        elif k < 0.82:
            item = {'kind': 'http', 'status': 200, 'body': r.choice(['', 'garbage', '<a/>', '<a', '\x00\xff'])}
        elif k < 0.84:
            item = {'kind': 'empty'}
        elif k < 0.88:
            item = {'kind': 'hang'}
        elif k < 0.92:
            item = {'kind': 'rereg'}
        elif k < 0.94:
            item = {'kind': 'register_report'}
        elif k < 0.96:
            item = {'kind': 'cancel_reg', 'reg': 'otherreg'}
        else:
            item = {'kind': 'query_info'}
        p['ops'].append({'t': round(t, 3), 'op': 'push', 'node': 'vtn', 'ven': 'venA', 'item': item})
        t += freq * r.choice([0.3, 1, 1, 1, 2, 3])
    if chance(r, 0.25):
        p['ops'].append({'t': rnd(r, 3, horizon), 'op': 'ven_stop', 'node': 'venA'})
    for _ in range(r.choice([0, 0, 1, 2])):
        p['svtn']['over'].append({'type': r.choice(['oadrCreatedEvent', 'oadrCreatedEvent', 'oadrPoll', 'oadrRequestEvent']),
                                  'nth': r.randint(1, 6), 'count': r.choice([1, 1, 2]),
                                  'do': r.choice([{'kind': 'hang'}, {'kind': 'http', 'status': 500},
                                                  {'kind': 'as_usual', 'delay': rnd(r, 0.5, 14)},
                                                  {'kind': 'response', 'code': 452}])})
    if faults if faults is not None else chance(r, 0.5):
        if chance(r, 0.6):
            p['rules'] += net_faults(r, r.randint(1, 3), FAULT_TYPES, horizon, ['venA'])
        if chance(r, 0.4):
            p['ops'] += node_faults(r, ['venA'], horizon, freq, vtn=False)
    if freq <= 30 and chance(r, 0.15):      # a VTN that is out of order for many polls
        if chance(r, 0.6):
            p['svtn']['over'].append({'type': 'oadrPoll', 'nth': r.randint(1, 5), 'count': r.randint(4, 14),
                                      'do': r.choice([{'kind': 'http', 'status': 500}, {'kind': 'http', 'status': 503}, {'kind': 'empty'},
                                                      {'kind': 'http', 'status': 200, 'body': 'garbage'}])})
        else:
            p['ops'].append({'t': rnd(r, 3, horizon * 0.5), 'op': 'partition', 'a': 'venA', 'b': 'vtn', 'for': rnd(r, 4 * freq, 14 * freq)})
    p['ops'].sort(key=lambda o: o['t'])
    return p


def fam_stop(r, seed):
    """V with a stop() placed while something is going on."""
    p = fam_v(r, seed)
    p['fam'] = 'VS'
    p['ops'] = [o for o in p['ops'] if o['op'] != 'ven_stop']
    p['vens']['venA']['reports'] = [report(r, 1, 'venA', 'incremental')] if chance(r, 0.5) and p['svtn']['freq'] <= 30 else []
    if p['vens']['venA']['reports']:
        rep = p['vens']['venA']['reports'][0]
        rep['min'], rep['max'] = 1, 60
        p['svtn']['vens']['venA']['regrep'] = [{'kind': 'registered_report', 'requests': [
            {'id': 'rr1x', 'specifier': rep['spec'], 'granularity': r.choice([1, 2, 5]), 'back': r.choice([5, 10]),
             'r_ids': [rep['rid']]}]}]
        if chance(r, 0.5):
            rep['beh'] = [{'nth': 1, 'count': 99, 'delay': rnd(r, 0.1, 3)}]
    stop = {'op': 'ven_stop', 'node': 'venA'}
    if chance(r, 0.3):
        p['ops'].append(dict(stop, t=rnd(r, 3, p['horizon'] * 0.8)))
    else:
        p['triggers'].append({'at': r.choice(['req_sent', 'req_dlv', 'rep_sent', 'rep_dlv']), 'src': 'venA',
                              'type': r.choice(['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrUpdateReport',
                                                'oadrCreatedReport', 'oadrCreatePartyRegistration', 'oadrRegisterReport']),
                              'nth': r.randint(1, 5), 'after': r.choice([0, 0.001, 0.01, 0.3, 1.0]), 'op': stop})
        p['ops'].append(dict(stop, t=p['horizon'] * 0.8))
    for l in p['vens']['venA'].get('beh', {}).values():
        for b in l:
            if chance(r, 0.4):
                b['delay'] = rnd(r, 0.1, 6)
    p['ops'].sort(key=lambda o: o['t'])
    return p


# ------------------------------------------------------------- G: registration lifecycle
def report(r, k, ven, mode=None, spec=None):
    mode = mode or r.choice(['incremental', 'incremental', 'full'])
    d = {'spec': spec or f'spec{k}{ven}', 'rid': f'rid{k}{ven}', 'resource': f'res{k}{ven}', 'mode': mode,
         'measurement': r.choice(['voltage', 'energyReal', 'powerReal', 'REAL_POWER']), 'min': 1, 'max': 60, 'base': 1000 * k}
    if chance(r, 0.3):
        d['sync'] = True
    if chance(r, 0.3):
        d.update(more_of_report(r))
    return d


def more_of_report(r):
    """Optional arguments of add_report."""
    d = {}
    if chance(r, 0.4):
        d['duration'] = r.choice([60, 7200, 86400, 90061, 1, 1231200])
    if chance(r, 0.4):
        d['dtstart'] = r.choice([-86400, 0, -0.25, 3600])
    if chance(r, 0.4):
        d['reading_type'] = r.choice(['Net', 'Estimated', 'x-reading', 'Peak'])
    if chance(r, 0.4):
        d['report_type'] = r.choice(['usage', 'demand', 'x-type', 'avgUsage'])
    if chance(r, 0.4):
        d['market_context'] = r.choice(['http://market', 'urn:m:1', 'http://m/?a=1&b=2'])
    if chance(r, 0.5):
        d.update(power_ac=r.choice([True, False]), power_hertz=r.choice([60, 50, 16]), power_voltage=r.choice([110, 400, 230]))
    if chance(r, 0.3):
        d['on_change'] = True
    return d


def fam_g(r, seed):
    """Scripted VTN: every way a registration can go."""
    p = base(r, seed, 'G')
    freq = r.choice([2, 5, 10])
    horizon = p['horizon'] = round(freq * r.randint(8, 16) + 8, 3)
    names = NAMES[:r.choice([1, 1, 2])]
    p['svtn'] = {'freq': freq, 'vens': {}, 'over': []}
    p['vens'] = {}
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    for n in names:
        sv = p['svtn']['vens'][n] = {'ven_id': n + 'id'}
        v = p['vens'][n] = {}
        if chance(r, 0.4):
            v['preset_id'] = r.choice([n + 'id', 'preset' + n])
        if chance(r, 0.3):
            v['retry'] = rnd(r, 3, 15)
        p['ops'].append({'t': rnd(r, 0.5, 4), 'op': 'start', 'node': n})
        if chance(r, 0.4):
            reps = v['reports'] = [report(r, k, n, 'incremental') for k in range(1, r.choice([1, 1, 2, 3]) + 1)]
            sv['regrep'] = [{'kind': 'registered_report', 'requests': [
                {'id': f'rr{k}{n}' + rep['spec'], 'specifier': rep['spec'], 'granularity': r.choice([1, 2, 5]),
                 'back': r.choice([1, 5, 10]), 'r_ids': [rep['rid']]} for rep in reps]} for k in range(1, 5)]
            if chance(r, 0.5):      # reports queue up behind a slow answer
                for k in sorted(r.sample(range(1, 13), r.choice([1, 1, 3]))):
                    p['svtn']['over'].append({'type': 'oadrUpdateReport', 'nth': k, 'count': r.choice([1, 2]),
                                              'do': {'kind': 'as_usual', 'delay': rnd(r, 0.5, 9)}})
                if chance(r, 0.6):
                    p['ops'].append({'t': rnd(r, 5, horizon * 0.75), 'op': 'push', 'node': 'vtn', 'ven': n,
                                     'item': {'kind': 'cancel_reg'}})
        acc = {'kind': 'accept'}
        bad = [{'kind': 'refuse'}, {'kind': 'refuse', 'ven_id': n + 'id'}, {'kind': 'response', 'code': 452},
               {'kind': 'accept', 'code': 452}, {'kind': 'http', 'status': 500}, {'kind': 'http', 'status': 403},
               {'kind': 'hang'}, {'kind': 'empty'}, {'kind': 'http', 'status': 200, 'body': 'garbage'}]
        seq = []
        for k in range(6):
            u = r.random()
            if u < (0.65 if k == 0 else 0.8):
                seq.append(dict(acc, **({'ven_id': n + 'id' + str(r.randint(1, 2))} if chance(r, 0.15) else {})))
            else:
                seq.append(dict(r.choice(bad)))
            if chance(r, 0.1):
                seq[-1]['delay'] = rnd(r, 0.5, 12)
        sv['reg'] = seq
        if chance(r, 0.2):
            p['svtn']['over'].append({'type': 'oadrQueryRegistration', 'nth': 1, 'count': 2,
                                      'do': r.choice([{'kind': 'hang'}, {'kind': 'http', 'status': 500}, {'kind': 'empty'},
                                                         {'kind': 'accept'}, {'kind': 'accept'}, {'kind': 'refuse'}])})
        sv['cancelreg'] = [r.choice([{'kind': 'canceled_reg', 'code': 200}, {'kind': 'canceled_reg', 'code': 452},
                                     {'kind': 'response', 'code': 500}, {'kind': 'http', 'status': 500}, {'kind': 'hang'},
                                     {'kind': 'empty'}, {'kind': 'canceled_reg', 'code': 200, 'delay': rnd(r, 0.5, 12)}])
                           for _ in range(3)]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            item = r.choice([{'kind': 'rereg'}, {'kind': 'rereg'}, {'kind': 'cancel_reg'}, {'kind': 'cancel_reg', 'reg': 'otherreg'},
                             {'kind': 'response'}])
            p['ops'].append({'t': rnd(r, 3, horizon * 0.75), 'op': 'push', 'node': 'vtn', 'ven': n, 'item': dict(item)})
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            p['ops'].append({'t': rnd(r, 3, horizon * 0.75), 'op': 'ven_cancel_reg', 'node': n})
        if chance(r, 0.3):
            p['triggers'].append({'at': r.choice(['req_sent', 'req_dlv', 'rep_sent', 'rep_dlv']), 'src': n,
                                  'type': r.choice(['oadrPoll', 'oadrCreatePartyRegistration', 'oadrUpdateReport']),
                                  'nth': r.randint(1, 4), 'after': r.choice([0, 0.001, 0.02]),
                                  'op': {'op': 'ven_cancel_reg', 'node': n}})
        if chance(r, 0.3):
            ev = sv_event(r, 'ev1x', 10, freq)
            sv['sync'] = [{'kind': 'distribute', 'events': [ev]}]
        if v.get('reports') and chance(r, 0.35):        # another VEN id while reports are sent
            seq[0] = dict(acc)
            for k in range(1, 6):
                if seq[k]['kind'] == 'accept' and 'code' not in seq[k]:
                    seq[k]['ven_id'] = f'{n}id{k}'
            if not any(o.get('item', {}).get('kind') == 'rereg' for o in p['ops'] if o.get('ven') == n):
                p['ops'].append({'t': rnd(r, 5, horizon * 0.6), 'op': 'push', 'node': 'vtn', 'ven': n, 'item': {'kind': 'rereg'}})
    if chance(r, 0.4):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrQueryRegistration', 'oadrCreatePartyRegistration', 'oadrPoll',
                                                      'oadrCancelPartyRegistration', 'oadrResponse', 'oadrRegisterReport',
                                                      'oadrCanceledPartyRegistration'], horizon, names)
    if chance(r, 0.25):
        p['ops'] += node_faults(r, names, horizon, freq, vtn=False)
    p['ops'].sort(key=lambda o: o['t'])
    return p


def fam_gv(r, seed):
    """Real VTN and VENs: registration, refusal, forgetting, restart."""
    p = fam_e(r, seed, faults=chance(r, 0.4))
    p['fam'] = 'GV'
    vtn = p['vtn']
    vtn['lookup'] = 'ven_lookup'
    names = list(p['vens'])
    horizon = p['horizon']
    for n in names:
        if chance(r, 0.25):
            vtn['vens'][n]['refuse'] = sorted(r.sample(range(1, 5), r.randint(1, 2)))
        if chance(r, 0.3):
            p['vens'][n]['retry'] = rnd(r, 3, 12)
        if chance(r, 0.2):
            vtn['vens'][n]['keep_reg'] = True
        if chance(r, 0.3):
            p['vens'][n]['preset_id'] = r.choice([n + 'id', 'strangeid'])
        for _ in range(r.choice([0, 1, 1, 2])):
            if chance(r, 0.6):
                p['ops'].append({'t': rnd(r, 3, horizon * 0.8), 'op': 'forget', 'node': 'vtn', 'ven': n})
            else:
                p['triggers'].append({'at': r.choice(['req_sent', 'req_dlv', 'rep_sent']), 'src': n,
                                      'type': r.choice(['oadrPoll', 'oadrCreatePartyRegistration', 'oadrRequestEvent',
                                                        'oadrCreatedEvent']), 'nth': r.randint(1, 5), 'after': 0.0,
                                      'op': {'op': 'forget', 'node': 'vtn', 'ven': n}})
        if chance(r, 0.25):
            p['ops'].append({'t': rnd(r, 5, horizon * 0.8), 'op': 'ven_cancel_reg', 'node': n})
    if chance(r, 0.4):
        p['ops'].append({'t': rnd(r, 5, horizon * 0.8), 'op': 'crash', 'node': 'vtn', 'restart': rnd(r, 0.2, 8)})
    if chance(r, 0.5):
        p['raws'] = ['rawA']
        for _ in range(r.randint(1, 6)):
            ident = r.choice([vtn['vens'][n]['ven_id'] for n in names] + ['ghostid'])
            what = r.choice(['poll', 'request_event', 'created_event', 'update_report', 'cancel_reg'])
            a = {'ven_id': ident}
            if what == 'created_event':
                a['responses'] = [['ev1x', 0, 'optIn']]
            if what == 'update_report':
                a.update(rrid='rrx', spec='specx', ivs=[[1709640000.0, 'ridx', 1.0]])
            if what == 'cancel_reg':
                a.update(reg='regwrong')
                if ident != 'ghostid':
                    continue
            p['ops'].append({'t': rnd(r, 0.3, horizon - 2), 'op': 'raw', 'node': 'rawA', 'what': what, 'a': a})
    p['ops'].sort(key=lambda o: o['t'])
    return p


# --------------------------------------------------------------------- R / RV: reports
SCALES = {'s': [1, 1, 2, 2, 5, 5, 7, 10, 15, 20, 25, 30], 'm': [45, 60, 60, 90, 120, 300], 'h': [600, 900, 1800, 2700, 3600, 5400]}
MEAS = ['voltage', 'current', 'customThing', 'energyReal', 'REAL_POWER', 'voltage']


def report_set(r, n, gs, nspec=None, lists=True, odd=False):
    """What one VEN offers: several reports with several data points."""
    out = []
    for k in range(1, (nspec or r.choice([1, 2, 2, 3])) + 1):
        mode = r.choice(['incremental', 'incremental', 'incremental', 'full'])
        spec = f'spec{k}{n}' if chance(r, 0.8) else f'spec{k}'
        name = 'TELEMETRY_STATUS' if chance(r, 0.15) else 'TELEMETRY_USAGE'
        if odd and chance(r, 0.12):
            name = r.choice(['HISTORY_USAGE', 'HISTORY_GREENBUTTON', 'x-other'])
        for j in range(1, r.choice([1, 1, 2, 2, 3]) + 1):
            rid = f'rid{j}' if chance(r, 0.5) else f'rid{j}{spec}'
            lo = r.choice([1, 1, 1, min(gs), r.choice(gs)])
            d = {'spec': spec, 'rid': rid, 'resource': f'res{j}s{k}{n}', 'mode': mode, 'name': name,
                 'measurement': None if name == 'TELEMETRY_STATUS' else r.choice(MEAS), 'min': lo,
                 'max': max(lo, r.choice([3600, 7200, max(gs), r.choice(gs)])),
                 'base': 1000000 * (1 + 'ABC'.find(n[-1])) + 100000 * k + 10000 * j, 'step': r.choice([0.25, 0.25, 1, 1e-6, -3.5])}
            if d['measurement'] == 'customThing':
                d['unit'] = r.choice(['pies', 'm3/h'])
            if d['measurement'] and chance(r, 0.3):
                d['scale'] = r.choice(['k', 'M', 'm'])
            if chance(r, 0.3):
                d['sync'] = True
            elif chance(r, 0.3):
                d['beh'] = [{'nth': r.randint(1, 4), 'count': r.choice([1, 1, 2, 99]),
                             'delay': rnd(r, 0.05, r.choice([0.5, 2.5 * min(gs)]))}]
            if chance(r, 0.15):
                d.setdefault('beh', []).append({'nth': r.randint(1, 4), 'count': r.choice([1, 1, 2, 99]), 'raise': True})
            if chance(r, 0.08):
                d.setdefault('beh', []).append({'nth': r.randint(1, 3), 'count': 1, 'empty': True})
            if mode == 'incremental' and lists and chance(r, 0.12):
                d['lists'] = r.choice([1, 2, 3])
            if d['step'] == 1 and chance(r, 0.5):
                d['ints'] = True
            if chance(r, 0.15):
                # what sensors may give, each at most once
                d['odd'] = {str(r.randint(1, 12)): v for v in r.sample(['nan', 'inf', '-inf', 'zero', 'true', '1e-7', '1e300'], 3)}
            out.append(d)
    return out


def scale_of(r):
    sc = r.choice(['s', 's', 's', 's', 'm', 'h'])
    gs = SCALES[sc]
    if sc == 's':
        return sc, gs, r.choice([5, 10, 10, 20]), rnd(r, 40, 160)
    if sc == 'm':
        return sc, gs, r.choice([30, 60, 120]), rnd(r, 700, 2000)
    return sc, gs, r.choice([600, 1800]), rnd(r, 9000, 20000)


def fam_rv(r, seed):
    """A scripted VTN asks a real VEN for reports, in every way."""
    p = base(r, seed, 'RV')
    sc, gs, freq, horizon = scale_of(r)
    p['horizon'] = horizon
    n = 'venA'
    sv = {'ven_id': 'venAid'}
    p['svtn'] = {'freq': freq, 'vens': {n: sv}, 'over': []}
    reps = report_set(r, n, gs)
    v = {'reports': reps, 'no_handlers': True}
    p['vens'] = {n: v}
    p['ops'] += [{'t': 0.0, 'op': 'start', 'node': 'vtn'}, {'t': rnd(r, 0.5, 1.5), 'op': 'start', 'node': n}]
    specs = sorted({d['spec'] for d in reps})
    by = {s: [d for d in reps if d['spec'] == s] for s in specs}
    cnt = [0]
    made = []

    def request(spec=None):
        cnt[0] += 1
        s = spec or r.choice(specs)
        rids = r.sample([d['rid'] for d in by[s]], r.randint(1, len(by[s])))
        g = r.choice(gs)
        u = r.random()
        if u < 0.1:
            g = 0
        elif u < 0.16:
            g = r.choice([7200, 86400])
        back = r.choice([g, g, 2 * g, 2 * g, 3 * g, 5 * g, 10 * g, 0, max(1, g // 2), int(1.5 * g), 3 * g - 1, int(2.6 * g), 2 * g + 1])
        q = {'id': f'rr{cnt[0]}x', 'specifier': s, 'granularity': g, 'back': back, 'r_ids': rids}
        if chance(r, 0.12):
            q['granularity'], q['back'] = r.choice([(0, 0), (0, 0), (g, 0), (0, back)])
            q['at'] = rnd(r, 1, horizon)
        if chance(r, 0.07):
            q['specifier'] = 'specNope'
        if chance(r, 0.12):
            q['r_ids'] = r.sample(rids + [r.choice(['ridNope', 'rid3'])], len(rids) + 1) if chance(r, 0.7) else ['ridNope']
            q['r_ids'] = list(dict.fromkeys(q['r_ids']))
        made.append(q)
        return q

    def requests(all_specs=False):
        if all_specs:
            return [request(s) for s in specs if chance(r, 0.85)]
        ss = r.sample(specs, r.randint(1, len(specs)))
        return [request(s) for s in ss]
    # one answer per registration; the last one is repeated when the VEN registers again
    sv['regrep'] = [{'kind': 'registered_report', 'requests': requests(True)} for _ in range(r.choice([1, 3, 3]))]
    if chance(r, 0.25):
        sv['regrep'] = [{'kind': 'registered_report', 'requests': []}]
        made.clear()
    t = 2.0
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        t += rnd(r, 0.2, horizon / 4)
        if t > horizon * 0.8:
            break
        u = r.random()
        if u < 0.45:
            item = {'kind': 'create_report', 'requests': requests()}
        elif u < 0.9 and made:
            q = r.choice(made)
            item = {'kind': 'cancel_report', 'rrid': q['id'] if chance(r, 0.9) else 'rrNope', 'follow': chance(r, 0.3)}
            if chance(r, 0.3):
                p['ops'].append({'t': round(t + 0.1, 3), 'op': 'push', 'node': 'vtn', 'ven': n, 'item': item})
                item = {'kind': 'create_report', 'requests': [dict(q)]}
        else:
            item = {'kind': 'rereg'}
        p['ops'].append({'t': round(t + 0.2, 3), 'op': 'push', 'node': 'vtn', 'ven': n, 'item': item})
    if chance(r, 0.4) and made:
        sv['upd'] = [{'nth': k, 'cancel': {'rrid': r.choice(made)['id'] if chance(r, 0.9) else 'rrNope', 'follow': chance(r, 0.3)}}
                     for k in sorted(r.sample(range(1, 9), r.choice([1, 1, 2, 3])))]
    for _ in range(r.choice([0, 0, 1, 2])):
        p['svtn']['over'].append({'type': r.choice(['oadrUpdateReport', 'oadrUpdateReport', 'oadrCreatedReport', 'oadrPoll',
                                                    'oadrCanceledReport', 'oadrRegisterReport']), 'nth': r.randint(1, 6),
                                  'count': r.choice([1, 1, 2]),
                                  'do': r.choice([{'kind': 'hang'}, {'kind': 'http', 'status': 500}, {'kind': 'empty'},
                                                  {'kind': 'as_usual', 'delay': rnd(r, 0.5, 14)},
                                                  {'kind': 'response', 'code': 452}])})
    if chance(r, 0.35):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrUpdateReport', 'oadrUpdateReport', 'oadrCreatedReport', 'oadrPoll',
                                                      'oadrRegisterReport', 'oadrCanceledReport'], horizon, [n])
    if chance(r, 0.25):
        p['ops'] += node_faults(r, [n], horizon, freq, vtn=False)
    p['ops'].sort(key=lambda o: o['t'])
    return p


def fam_r(r, seed):
    """Reports between real VENs and a real VTN."""
    p = base(r, seed, 'R')
    sc, gs, freq, horizon = scale_of(r)
    p['horizon'] = horizon
    names = NAMES[:r.choice([1, 2, 2, 3])]
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': []}
    p['vens'] = {}
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    if chance(r, 0.3):
        vtn['report_mode'] = 'full'
        vtn['nones'] = chance(r, 0.4)
    if chance(r, 0.4):
        vtn['lookup'] = 'ven_lookup'
        vtn['async_lookup'] = chance(r, 0.5)
    if chance(r, 0.2):
        vtn['polling'] = 'external'
    for n in names:
        reps = report_set(r, n, gs, odd=True)
        acc = {}
        for s in sorted({d['spec'] for d in reps}):
            ds = [d for d in reps if d['spec'] == s]
            ok = [g for g in gs if all(d['min'] <= g <= d['max'] for d in ds)] or [r.choice(gs)]
            g = r.choice(ok) if chance(r, 0.93) else r.choice(gs)
            back = r.choice([None, None, g, 2 * g, 3 * g, 5 * g])
            mixed = chance(r, 0.15)
            for d in ds:
                if chance(r, 0.8):
                    acc[d['resource']] = {'s': r.choice(ok) if mixed else g, 'r': None if mixed else back}
                    if chance(r, 0.4):
                        acc[d['resource']]['sync'] = True
        vtn['vens'][n] = {'ven_id': n + 'id', 'accept': acc, 'resources': [d['resource'] for d in reps]}
        p['vens'][n] = {'reports': reps}
        p['ops'].append({'t': rnd(r, 0.5, 3), 'op': 'start', 'node': n})
        if vtn.get('polling'):
            t = 3.0
            made = []
            for _ in range(r.choice([1, 2, 3])):
                t += rnd(r, 0.5, horizon / 4)
                if chance(r, 0.5) or not made:
                    d = r.choice(reps)
                    q = {'id': f'xr{len(made)}{n}', 'specifier': d['spec'], 'granularity': r.choice(gs), 'r_ids': [d['rid']]}
                    q['back'] = r.choice([1, 2, 3]) * q['granularity']
                    if chance(r, 0.25):
                        q['granularity'], q['back'], q['at'] = 0, 0, rnd(r, t, horizon)
                    made.append(q)
                    item = {'kind': 'create_report', 'requests': [q]}
                else:
                    item = {'kind': 'cancel_report', 'rrid': r.choice(made)['id'], 'follow': chance(r, 0.3)}
                p['ops'].append({'t': round(t, 3), 'op': 'poll_item', 'node': 'vtn', 'ven': n, 'item': item})
    if chance(r, 0.3):
        for _ in range(r.randint(1, 2)):
            vtn['slow'].append({'h': r.choice(['values', 'values', 'offer']), 'ven': r.choice(names), 'nth': r.randint(1, 6),
                                'count': r.choice([1, 1, 3]), 'delay': rnd(r, 0.1, 9), 'raise': chance(r, 0.25)})
    if chance(r, 0.3):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrUpdateReport', 'oadrUpdateReport', 'oadrCreatedReport',
                                                      'oadrRegisterReport', 'oadrPoll'], horizon, names)
    if chance(r, 0.2):
        p['ops'] += node_faults(r, names, horizon, freq)
    if vtn.get('lookup') and chance(r, 0.3):
        p['ops'].append({'t': rnd(r, 3, horizon * 0.8), 'op': 'forget', 'node': 'vtn', 'ven': r.choice(names)})
    p['ops'].sort(key=lambda o: o['t'])
    return p


FAMILIES = {'E': fam_e, 'P': fam_p, 'V': fam_v, 'VS': fam_stop, 'G': fam_g, 'GV': fam_gv, 'R': fam_r,
            'RV': fam_rv}


def _more():
    from . import fam_sec, fam_misc, fam_app
    FAMILIES.update(S=fam_sec.fam_s, SV=fam_sec.fam_sv, B=fam_misc.fam_b, T=fam_misc.fam_t, X=fam_misc.fam_x, Y=fam_misc.fam_y, Z=fam_misc.fam_z, W=fam_app.fam_w)


def make(fam, seed):
    if 'S' not in FAMILIES:
        _more()
    r = random.Random(f'{fam}/{seed}')
    return FAMILIES[fam](r, seed)

ABOUT = {
    'W': 'as V and E; the application makes and cancels opt schedules and has hooks on both sides',
    'Z': 'as E, GV and R, with faults until a certain moment and none afterwards',
    'Y': 'as E, R, X and GV, with every kind of trouble on some VENs and none on the others',
    'X': 'real VTN whose application answers the polls; real VENs and raw clients poll and respond concurrently',
    'T': 'as E, R, GV and P, with odd identifiers, texts, numbers and durations',
    'B': 'real VTN, real VENs, and clients that send odd, broken, misdirected and malformed requests',
    'S': 'real VTN and real VENs over TLS with signatures, attackers that forge, alter, replay and impersonate',
    'SV': 'as V, G and RV, with a scripted VTN that signs its replies; some are unsigned, forged, altered, stale or replayed',
    'E': 'real VTN and 1-3 real VENs; events added and cancelled around polls',
    'P': 'real VTN polled and answered by raw clients, concurrently and with duplicates',
    'V': 'one real VEN against a scripted VTN that sends any sequence of distributions, errors and garbage',
    'VS': 'as V, with stop() called at an arbitrary instant',
    'G': 'registration life cycle of real VENs against a scripted VTN (refusals, re-registration, cancellation)',
    'R': 'reports between 1-3 real VENs and a real VTN',
    'RV': 'reports of a real VEN, requested and cancelled in every way by a scripted VTN',
    'GV': 'registration life cycle of real VENs and a real VTN that forgets VENs, restarts and cancels registrations',
}
