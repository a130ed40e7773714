"""B (odd requests), X (application poll handler), T (odd texts and values), D (perturbed twin), Z (convergence)."""
import copy

from .families import (ZONES, report, SIG, rnd, chance, base, event, behaviours, net_faults, node_faults, near_tick, fam_e, fam_p, fam_g, fam_gv,
                       fam_r, fam_rv, fam_v, report_set, scale_of, NAMES)

ENDPOINTS = ['OadrPoll', 'EiEvent', 'EiReport', 'EiRegisterParty', 'EiEvent', 'EiReport', 'EiOpt']
JUNK = ['', ' ', 'hello', '{"a": 1}', '<', '<a/>', '<a><b></a>', '<?xml version="1.0"?>', '\x00\x01\x02', '\xff\xfe<\x00a\x00',
        '<oadrPayload/>', '<oadr:oadrPayload xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07"/>',
        '<oadr:oadrPayload xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07"><oadr:oadrSignedObject/></oadr:oadrPayload>',
        '<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', '&', '<a>&nope;</a>', '<a b=c/>', '<?pi?>', '<!-- -->', ']]>',
        '<a xmlns="urn:x"/>', 'a=1&b=2']
CTYPES = ['application/xml', 'application/xml; charset=utf-8', 'APPLICATION/XML', 'Application/xml;charset=x', 'text/xml',
          'text/plain', 'application/json', '', None, 'xml', 'application/x-www-form-urlencoded', 'application/soap+xml']
TEXTS = ['', '0', '1', '-1', '007', '1.5', '1.2.3', '.', '-', 'true', 'P', 'PT', 'PT5S', '-PT5S', 'P1Y2M3DT4H5M6S', '3W', 'P1W', 'PT1.5S',
         '2024-02-30T00:00:00Z', '2024-01-01T00:00:00Z', '2024-01-01T00:00:00', '2024-01-01T24:00:00Z', '-2024-01-01T00:00:00Z',
         '2024-01-01T00:00:00.123456789Z', '9999-12-31T23:59:59Z', '2024-01-01T00:00:00+01:00', 'NaN', 'INF', '1e5', '+5', '99999999999',
         '1e400', 'optIn', 'optOut', 'x-custom', 'METADATA_TELEMETRY_USAGE', 'METADATA_x-foo', 'METADATA_HISTORY_USAGE',
         'TELEMETRY_USAGE', 'x' * 300, 'a & b', 'ünïcödé ✓', ' padded ', 'P9999999999D', 'P99999999999999999999Y', 'venAid',
         'MyVTN', 'OtherVTN', '200', '452', 'x-res', 'Direct Read', '0.0.0.0']
ODD_IDS = ['ghostid', '', ' ', 'venAid ', 'VENAID', "ven'Aid", 'venAid;x', '123', '007', 'x' * 500, 'vén', '../venAid']


def odd_request(r, p, pool, horizon):
    """One thing a client may send to a VTN."""
    names = list(p['vtn']['vens'])
    ident = r.choice(names) + 'id'
    u = r.random()
    if u < 0.12:
        o = {'what': 'bytes', 'data': r.choice(JUNK), 'path': r.choice(ENDPOINTS)}
        if chance(r, 0.05):
            o['data'] = '<a>' + 'x' * r.choice([1000000, 1100000, 3000000]) + '</a>'
        return o
    good = message(r, p, ident, pool)
    if u < 0.2:
        return dict(good, ctype=r.choice(CTYPES))
    if u < 0.3:
        return dict(good, path=r.choice(ENDPOINTS))
    if u < 0.36:
        good['a']['ven_id'] = r.choice(ODD_IDS)
        return good
    if u < 0.42:
        return {'what': 'distribute', 'a': {'vtn_id': r.choice(['MyVTN', 'OtherVTN', 'myvtn', '', '5'])}, 'path': r.choice(ENDPOINTS)}
    if u < 0.47:
        return dict(good, enc=r.choice(['utf-16', 'utf-16be', 'latin1', 'bom', 'doctype', 'entity', 'pi', 'nodecl', 'big']))
    if u < 0.5:
        return dict(good, headers=r.choice([{'Content-Encoding': 'gzip'}, {'Content-Encoding': 'deflate'}, {'Accept': 'x/y'},
                                            {'Connection': 'close'}, {'Accept-Encoding': 'gzip'}, {'X-Odd': 'é'}]))
    if u < 0.54:
        return dict(good, cut=r.choice([0.0, 0.3, 0.6, 0.95, 0.999]), keep=rnd(r, 0.01, 20))
    if u < 0.57:
        return dict(good, method=r.choice(['GET', 'PUT', 'DELETE', 'OPTIONS', 'FOO']))
    if u < 0.6:
        return dict(good, path=r.choice(['', 'Nope', 'OadrPoll/', 'oadrpoll', '../OadrPoll', 'OadrPoll?x=1', 'EiEvent%20']))
    if u < 0.92:
        good['mut'] = [mutation(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if chance(r, 0.1):
            good['path'] = r.choice(ENDPOINTS)
        return good
    return good


def mutation(r):
    u = r.random()
    k = r.randint(0, 60)
    if u < 0.3:
        return ['del', k]
    if u < 0.38:
        return ['dup', k]
    if u < 0.75:
        return ['text', k, r.choice(TEXTS)]
    if u < 0.82:
        return ['swap', k]
    if u < 0.88:
        return ['comment', k]
    if u < 0.94:
        return ['empty', k]
    return ['attr', k, r.choice(['x', 'schemaVersion']), r.choice(TEXTS[:6])]


def message(r, p, ident, pool):
    u = r.random()
    name = ident[:-2]
    if u < 0.2:
        return {'what': 'poll', 'a': {'ven_id': ident}}
    if u < 0.32:
        return {'what': 'request_event', 'a': {'ven_id': ident}}
    if u < 0.5:
        return {'what': 'created_event', 'a': {'ven_id': ident, 'responses': [
            [r.choice(pool + ['nope']), r.choice([0, 0, 1, 7]), r.choice(['optIn', 'optOut'])] for _ in range(r.choice([0, 1, 1, 2]))]}}
    if u < 0.56:
        return {'what': 'query', 'a': {'ven_id': ident}, 'path': 'EiRegisterParty'}
    if u < 0.64:
        return {'what': 'create_reg', 'a': {'ven_name': r.choice([name, name, 'nobody', '', '12']), 'ven_id': r.choice([ident, None])}}
    if u < 0.68:
        return {'what': 'cancel_reg', 'a': {'ven_id': ident, 'reg': r.choice(['@', 'regX'])}}
    if u < 0.78:
        return {'what': 'register_report', 'path': 'EiReport', 'a': {'ven_id': ident, 'reports': [
            {'spec': r.choice(['specO', '12', '']), 'name': r.choice(['TELEMETRY_STATUS', 'TELEMETRY_STATUS', 'HISTORY_USAGE', 'x-odd']),
             'points': [{'rid': f'rid{k}', 'resource': r.choice(['resO', '7']), 'min': r.choice([1, 60]), 'max': 60}
                        for k in range(r.choice([1, 1, 2]))]} for _ in range(r.choice([0, 1, 1, 2]))]}}
    if u < 0.86:
        return {'what': 'update_report', 'path': 'EiReport', 'a': {'ven_id': ident, 'rrid': r.choice(['rrO', '@', '12', '']), 'spec': 'specO',
                                                'ivs': [[1709640000.0 + k, r.choice(['rid1', '7']), 1.5] for k in range(r.choice([0, 1, 2]))]}}
    if u < 0.9:
        return {'what': 'created_report', 'path': 'EiReport', 'a': {'ven_id': ident, 'pending': r.choice([[], ['rrO'], ['12', '13']])}}
    if u < 0.93:
        return {'what': 'response', 'a': {'ven_id': ident}, 'path': r.choice(ENDPOINTS)}
    if u < 0.96:
        return {'what': 'rereg', 'a': {'ven_id': ident}, 'path': r.choice(ENDPOINTS)}
    return {'what': r.choice(['create_opt', 'cancel_opt']), 'a': {'ven_id': ident}, 'path': r.choice(['EiOpt', 'EiOpt', 'EiOpt', 'OadrPoll'])}


def fam_b(r, seed):
    """Odd, broken and misdirected requests next to ordinary VENs."""
    p = base(r, seed, 'B')
    freq = r.choice([3, 5, 10])
    horizon = p['horizon'] = r.choice([30, 60, 90])
    names = NAMES[:r.choice([1, 2])]
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': []}
    if chance(r, 0.6):
        vtn['lookup'] = r.choice(['ven_lookup', 'ven_lookup', 'fingerprint_lookup', 'both'])
        vtn['async_lookup'] = chance(r, 0.5)
    if chance(r, 0.15):
        vtn['polling'] = 'external'
        vtn['sync_poll'] = chance(r, 0.5)
    if chance(r, 0.3):
        vtn['report_mode'] = 'full'
    p['vens'] = {}
    p['raws'] = ['rawA', 'rawB']
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    pool = [f'ev{i}x' for i in range(1, 4)]
    uid = 0
    for n in names + ['venC']:
        vtn['vens'][n] = {'ven_id': n + 'id', 'accept': {f'res{n}': {'s': 2}, 'resO': {'s': 1}}, 'resources': [f'res{n}', 'resO']}
        if n == 'venC' or chance(r, 0.3):
            vtn['vens'][n]['prereg'] = 'regPre' + n
        if n != 'venC' and chance(r, 0.8):
            p['vens'][n] = {'beh': behaviours(r, pool)}
            if chance(r, 0.5):
                p['vens'][n]['reports'] = [{'spec': 'spec' + n, 'rid': 'rid1', 'resource': 'res' + n, 'mode': 'incremental',
                                            'name': r.choice(['TELEMETRY_USAGE', 'TELEMETRY_STATUS']),
                                            'measurement': 'voltage', 'min': 1, 'max': 60, 'base': 1000, 'step': 0.25}]
            p['ops'].append({'t': rnd(r, 0.5, 3), 'op': 'start', 'node': n})
        for e in r.sample(pool, r.randint(0, 3)):
            uid += 1
            t = rnd(r, 0.5, horizon * 0.7)
            p['ops'].append({'t': t, 'op': 'add_event', 'node': 'vtn', 'ven': n, 'ev': event(r, f'u{uid}', e, t, freq)})
    t = 1.0
    for _ in range(r.randint(10, 40)):
        t += r.choice([0.0, 0.0, 0.002, 0.05, 0.5, 2.0]) * r.uniform(0.5, 2)
        if t > horizon - 4:
            t = rnd(r, 1, horizon - 4)
        p['ops'].append({**odd_request(r, p, pool, horizon), 't': round(t, 6), 'op': 'raw', 'node': r.choice(p['raws'])})
    for n in list(vtn['vens']):                         # still there at the end?
        p['ops'].append({'t': horizon - 3, 'op': 'raw', 'node': 'rawB', 'what': 'request_event', 'a': {'ven_id': n + 'id'}})
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        vtn['slow'].append({'h': r.choice(['register', 'offer', 'values', 'cancel_reg', 'ven_lookup', 'on_poll', 'on_created_event',
                                           'on_request_event']), 'ven': r.choice(list(vtn['vens'])), 'nth': r.randint(1, 4),
                            'count': r.choice([1, 1, 3]), 'delay': r.choice([0, 0, 0.01, 1, 5]), 'raise': chance(r, 0.6)})
    if chance(r, 0.3):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent', 'oadrUpdateReport'], horizon,
                                 list(p['vens'] or ['rawA']) + p['raws'])
    if chance(r, 0.2):
        p['ops'].append({'t': rnd(r, 2, horizon - 6), 'op': 'pause', 'node': 'vtn', 'for': rnd(r, 0.2, 8)})
    if chance(r, 0.15):
        p['ops'].append({'t': rnd(r, 2, horizon - 6), 'op': 'kill_conns', 'node': 'vtn'})
    if chance(r, 0.1):
        p['ops'].append({'t': rnd(r, 2, horizon - 10), 'op': 'crash', 'node': 'vtn', 'restart': rnd(r, 0.1, 3)})
    p['ops'].sort(key=lambda o: o['t'])
    return p


# ------------------------------------------------------------------- T: odd texts and values
ODD_TEXT = ['007', '12', '1.50', 'true', 'false', '1e5', '-5', '0', '0x10', 'None', 'null', 'NaN', 'a & b', '<id>', '"q"', "it's",
            'ünï ✓', 'two  spaces', 'x' * 200, '{{ 7*7 }}', '{% raw %}', '&amp;', ']]>', 'PT5S', '2024-01-01T00:00:00Z', '١٢', 'optIn',
            '200', '+5', '1_000', '.5', '5.', '-0', '00', 'P1D', 'a/b?c=d#e', '日本', '%41', 'a;b,c', '1' * 30, 'True', '<!--', '\\n', '${x}']
DURATIONS = [604800, 1231200, 2592001, 86340, 3660, 32140800, 7200, 60, 3601]
MULTI_LINE = ['first line\nsecond line', 'a\n\n  b\tc', '> x\n < y']
ODD_VALUES = [0.1 + 0.2, 1e-7, 123456789.123456789, 1e22, -1e-300, 3.4e38, -0.5, 1e16, 1e15 + 0.5, 5e-324, 2 / 3, 1e100, -123.0, 1e5]
MEASURES = ['VOLTAGE', 'CURRENT', 'REAL_POWER', 'ACTIVE_ENERGY', 'REACTIVE_POWER', 'FREQUENCY', 'TEMPERATURE', 'PULSE_COUNT', 'CURRENCY_PER_KWH']


def replace(x, d):
    if isinstance(x, str):
        return d.get(x, x)
    if isinstance(x, list):
        return [replace(y, d) for y in x]
    if isinstance(x, dict):
        return {d.get(k, k): replace(v, d) for k, v in x.items()}
    return x


def collect(x, keys, out):
    if isinstance(x, list):
        for y in x:
            collect(y, keys, out)
    elif isinstance(x, dict):
        for k, v in x.items():
            if k in keys and isinstance(v, str):
                out.setdefault(v)
            collect(v, keys, out)
    return out


def fam_t(r, seed):
    """The workloads of E, R, GV and P with odd identifiers, texts and values."""
    u = r.random()
    p = (fam_e if u < 0.4 else fam_r if u < 0.75 else fam_gv if u < 0.9 else fam_p)(r, seed)
    p['family'] = 'T'
    if chance(r, 0.4):
        p['zones'] = r.choice(ZONES)
    words = ODD_TEXT[:]
    r.shuffle(words)
    d = {}
    share = r.choice([0.3, 0.6, 1])
    for s in collect(p, ('eid', 'ven_id', 'resource', 'spec', 'rid', 'group_id', 'resource_id', 'party_id'), {}):
        if s not in p['vtn']['vens'] and chance(r, share):
            w = words.pop() if words and chance(r, 0.7) else r.choice(ODD_TEXT) + '-' + s
            d[s] = w
    p = replace(p, d)
    v = p['vtn']
    for n, cfg in p.get('vens', {}).items():
        if chance(r, 0.5) and words:
            cfg['name'] = v['vens'][n]['name'] = words.pop()
        for rep in cfg.get('reports', []):
            if not rep.get('ints') and chance(r, 0.5):
                b = rep['base'] = r.choice([1e-7, 123456789.123456789, 1e22, -1e-300, 3.4e38, -0.5, 1e16, 2 / 3, 1e100, 1e5]) * r.uniform(1, 2)
                rep['step'] = b / 1024          # all values differ
            if rep.get('measurement') and chance(r, 0.6):
                rep.pop('unit', None)
                m = rep['measurement'] = r.choice([
                    {'enum': 'VOLTAGE'}, {'enum': 'REAL_POWER'}, {'enum': 'VOLTAGE'}, 'temperature', 'CURRENCY_PER_KWH', {'enum': 'CURRENCY_PER_KW'},
                    'PULSE_COUNT', {'name': 'energyReal', 'description': 'RealEnergy', 'unit': 'Wh', 'scale': r.choice(['k', 'none', 'M'])},
                    {'plain': True, 'name': 'energyReal', 'description': 'RealEnergy', 'unit': 'Wh', 'scale': r.choice(['k', 'none', 'M'])},
                    {'plain': True, 'name': 'customUnit', 'description': r.choice(ODD_TEXT), 'unit': r.choice(ODD_TEXT), 'scale': 'none'}])
                if m == 'temperature':
                    rep['unit'] = r.choice(['celsius', 'fahrenheit'])
                elif m == 'CURRENCY_PER_KWH' or m == {'enum': 'CURRENCY_PER_KW'}:
                    rep['unit'] = r.choice(['EUR', 'USD', 'ZWL'])
    if chance(r, 0.5):
        v['regfmt'] = r.choice(['{}', '00{}', '{}.5', 'a & {}', '{}e5', '<{}>'])
    for o in p['ops']:
        e = o.get('ev')
        if not e:
            continue
        if e['sigs'][0][0] != 'SIMPLE' and chance(r, 0.5):
            e['ivs'] = [[t, r.choice(ODD_VALUES)] for t, _ in e['ivs']]
        if e.get('raw'):
            if chance(r, 0.4):
                e['comment'] = r.choice(ODD_TEXT + MULTI_LINE * 4)
            if chance(r, 0.3):
                e['prio'] = r.choice([4, 12, 99])
            if chance(r, 0.3):
                e['test'] = r.choice([True, True, False])
            if chance(r, 0.4):
                e['meas'] = [r.choice(MEASURES + [None] * 4) for _ in e['sigs']]
            if chance(r, 0.3):
                e['current'] = 0.0 if e['sigs'][0][0] == 'SIMPLE' else r.choice(ODD_VALUES)
        if chance(r, 0.3) and e['ivs'][-1][0]:
            e['ivs'][-1][0] = r.choice(DURATIONS)
        if chance(r, 0.2):
            e['notify'] = r.choice([1, 86400, 90061, 31536000, 59] + DURATIONS)
        if chance(r, 0.2):
            e['recovery'] = r.choice([1, 86400, 90061, 59] + DURATIONS)
        if 'notify' in e or 'recovery' in e:
            e.pop('noap', None)
        if chance(r, 0.3):
            e['targets'] = r.choice([[{'group_name': r.choice(ODD_TEXT)}], [{'party_id': r.choice(ODD_TEXT)}, {'group_id': r.choice(ODD_TEXT)}],
                                     [{'resource_id': w} for w in r.sample(ODD_TEXT, 3)],
                                     [{'group_name': 'g'}, {'group_name': r.choice(ODD_TEXT)}, {'ven_id': v['vens'][o['ven']]['ven_id']}]])
    return p


# ------------------------------------------------------------- X: the application answers the polls itself
def x_event(r, eid, t, freq, mod=0):
    e = event(r, 'x', eid, t, freq, callbacks=False)
    e.pop('raw', None)
    e.pop('ivdict', None)
    e.setdefault('prio', r.choice([0, 0, 1, 3]))
    e['mod'] = mod
    e['status'] = r.choice(['far', 'near', 'active', 'active', 'completed', 'cancelled'])
    if e['sigs'][0][0] != 'SIMPLE' and chance(r, 0.3):
        e['sigs'] = [e['sigs'][0], r.choice([s for s in SIG if s[0] != 'SIMPLE'])]
    return e


def x_item(r, n, t, freq, pool, mods, made, reps):
    k = r.choice(['none', 'event_obj', 'event_obj', 'event_dict', 'list_obj', 'list_obj', 'list_dict', 'list_mixed', 'tuple_events',
                  'tuple_dicts', 'rereg', 'cancel_reg', 'create_report', 'create_report', 'cancel_report', 'response', 'list_obj'])
    it = {'kind': k}
    if k in ('event_obj', 'event_dict', 'list_obj', 'list_dict', 'list_mixed', 'tuple_events', 'tuple_dicts'):
        c = 1 if k.startswith('event') else r.choice([1, 2, 2, 3])
        if k == 'list_obj' and chance(r, 0.1):
            c = 0
        it['events'] = []
        for e in r.sample(pool, c):
            mods[e] = mods.get(e, -1) + r.choice([0, 1, 1, 1, 3])
            it['events'].append(x_event(r, e, t, freq, max(0, mods[e])))
    elif k == 'rereg':
        it['shared'] = chance(r, 0.6)
    elif k == 'cancel_reg':
        it['wrong'] = chance(r, 0.7)
    elif k == 'create_report':
        it['requests'] = []
        for _ in range(r.choice([1, 1, 2])):
            d = r.choice(reps) if reps else {'spec': 'specX', 'rid': 'ridX'}
            g = r.choice([1, 2, 5])
            q = {'id': f'xr{len(made)}{n}', 'specifier': d['spec'], 'granularity': g, 'r_ids': [d['rid']], 'back': g * r.choice([1, 2, 3])}
            made.append(q)
            it['requests'].append(q)
    elif k == 'cancel_report':
        it['rrid'] = r.choice(made)['id'] if made and chance(r, 0.8) else 'nope'
        it['follow'] = chance(r, 0.4)
    return it


def fam_x(r, seed):
    """The VTN application answers polls itself; real VENs and raw clients poll concurrently."""
    p = base(r, seed, 'X')
    freq = r.choice([2, 3, 5])
    horizon = p['horizon'] = r.choice([30, 60, 90])
    names = NAMES[:r.choice([1, 2, 3])]
    vtn = p['vtn'] = {'freq': freq, 'vens': {}, 'slow': [], 'polling': 'external', 'sync_poll': chance(r, 0.4),
                      'sync_created': chance(r, 0.4), 'sync_request': chance(r, 0.4)}
    if chance(r, 0.3):
        vtn['lookup'] = 'ven_lookup'
        vtn['async_lookup'] = chance(r, 0.5)
    p['vens'] = {}
    p['raws'] = ['rawA', 'rawB']
    p['ops'].append({'t': 0.0, 'op': 'start', 'node': 'vtn'})
    pool = [f'ev{i}x' for i in range(1, 6)]
    for k, n in enumerate(names):
        real = chance(r, 0.6)
        reps = []
        vtn['vens'][n] = {'ven_id': n + 'id', 'accept': {}}
        if real:
            p['vens'][n] = {'beh': behaviours(r, pool)}
            if chance(r, 0.6):
                reps = p['vens'][n]['reports'] = [report(r, 1, n), report(r, 2, n)][:r.choice([1, 2])]
                vtn['vens'][n]['resources'] = [d['resource'] for d in reps]
                if chance(r, 0.4):
                    vtn['vens'][n]['accept'] = {d['resource']: {'s': r.choice([1, 2, 5])} for d in reps}
            p['ops'].append({'t': rnd(r, 0.5, 3), 'op': 'start', 'node': n})
        else:
            vtn['vens'][n]['prereg'] = 'regPre' + n
        t, mods, made, last = 2.0, {}, [], None
        for i in range(r.randint(2, 14)):
            t += r.choice([0.0, 0.01, 0.5, freq, 2 * freq]) * r.uniform(0.5, 1.5)
            if t > horizon - 3:
                break
            if last is not None and chance(r, 0.25):
                it = last
            else:
                it = x_item(r, n, t, freq, pool, mods, made, reps)
                if it['kind'] == 'cancel_reg' and real and not it['wrong'] and chance(r, 0.5):
                    it['wrong'] = True
                if chance(r, 0.4):
                    it['share'] = f's{i}'
            last = it if it.get('share') else None
            p['ops'].append({'t': round(t, 3), 'op': 'poll_item', 'node': 'vtn', 'ven': n, 'item': it})
        if chance(r, 0.5):
            vtn['vens'][n]['request_events'] = [x_event(r, e, 5, freq, r.randint(0, 3)) for e in r.sample(pool, r.randint(1, 3))]
            vtn['vens'][n]['request_form'] = r.choice(['list_obj', 'list_obj', 'list_dict', 'one_obj', 'one_dict'])
        t = 1.0
        for _ in range(r.randint(0, 6) if real and chance(r, 0.6) else r.randint(4, 25)):
            t += r.choice([0.0, 0.0005, 0.003, 0.02, 0.3, 1.0, 3.0]) * r.uniform(0.5, 2)
            if t > horizon - 1:
                t = rnd(r, 1, horizon - 1)
            u = r.random()
            if u < 0.6 and not (real and u < 0.3):
                op = {'what': 'poll', 'a': {'ven_id': n + 'id'}}
            elif u < 0.7:
                op = {'what': 'request_event', 'a': {'ven_id': n + 'id'}}
            else:
                resp = [[r.choice(pool), r.randint(0, 3), r.choice(['optIn', 'optOut'])] for _ in range(r.choice([1, 1, 2, 4]))]
                op = {'what': 'created_event', 'a': {'ven_id': n + 'id', 'responses': resp}}
            p['ops'].append({'t': round(t, 6), 'op': 'raw', 'node': r.choice(p['raws']), **op})
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        vtn['slow'].append({'h': r.choice(['on_poll', 'on_poll', 'on_created_event', 'on_request_event', 'register']), 'ven': r.choice(names),
                            'nth': r.randint(1, 5), 'count': r.choice([1, 1, 3]), 'delay': r.choice([0, 0.01, 0.3, 2, 6]), 'raise': chance(r, 0.35)})
    if chance(r, 0.4):
        p['rules'] += net_faults(r, r.randint(1, 3), ['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent', 'oadrCreatedReport'], horizon,
                                 names + p['raws'])
    if chance(r, 0.25):
        p['ops'] += node_faults(r, sorted(p['vens']) or ['rawA'], horizon, freq)
    p['ops'].sort(key=lambda o: o['t'])
    return p


# ------------------------------------------------------------- Y: some VENs cause trouble, others must not notice
def fam_y(r, seed):
    u = r.random()
    for _ in range(20):
        p = (fam_e if u < 0.35 else fam_r if u < 0.6 else fam_x if u < 0.85 else fam_gv)(r, seed)
        if len(p['vtn']['vens']) > 1:
            break
    p['family'] = 'Y'
    horizon = p['horizon']
    vtn = p['vtn']
    freq = vtn['freq']
    names = list(vtn['vens'])
    bad = p['disturbed'] = sorted(r.sample(names, r.randint(1, max(1, len(names) - 1))))
    pool = [f'ev{i}x' for i in range(1, 4)]
    vtn['slow'] = [s for s in vtn.get('slow', []) if s.get('ven') in bad]
    p['rules'] = [x for x in p['rules'] if x.get('src') in bad]
    node = ('crash', 'pause', 'partition', 'kill_conns', 'skew')
    p['ops'] = [o for o in p['ops'] if o['op'] not in node or (o.get('a') or o.get('node')) in bad]
    p['triggers'] = [t for t in p['triggers'] if t['op'].get('node') != 'vtn' or t['op'].get('ven') in vtn['vens']]
    p.setdefault('raws', [])
    p['raws'] = sorted(set(p['raws']) | {'rawA', 'rawB'})
    ids = {v['ven_id']: n for n, v in vtn['vens'].items()}
    for o in p['ops']:
        if o['op'] == 'raw':
            o['node'] = 'rawA' if ids.get(o.get('a', {}).get('ven_id')) in bad else 'rawB'
    # a VEN without any trouble whose requests come from a client of their own
    q = 'venQ'
    vtn['vens'][q] = {'ven_id': 'venQid', 'prereg': 'regPrevenQ', 'accept': {}}
    n, t = 0, 1.0
    ext = vtn.get('polling') == 'external'
    for e in r.sample(pool, r.randint(1, 3)):
        n += 1
        at = rnd(r, 0.3, horizon * 0.7)
        p['ops'].append({'t': at, 'op': 'add_event', 'node': 'vtn', 'ven': q, 'ev': event(r, f'uq{n}', e, at, freq)} if not ext else
                        {'t': at, 'op': 'poll_item', 'node': 'vtn', 'ven': q, 'item': {'kind': 'list_obj', 'events': [x_event(r, e, at, freq)]}})
    step = max(1.0, horizon / 60)
    while t < horizon - 1:
        t += step * r.choice([0.01, 0.3, 1.0, 3.0]) * r.uniform(0.5, 2)
        if t > horizon - 1:
            break
        w = r.random()
        op = {'what': 'poll', 'a': {'ven_id': 'venQid'}} if w < 0.6 else {'what': 'request_event', 'a': {'ven_id': 'venQid'}} if w < 0.8 else \
            {'what': 'created_event', 'a': {'ven_id': 'venQid', 'responses': [[r.choice(pool), r.choice([0, 0, 1, 3]), 'optIn']]}}
        p['ops'].append({'t': round(t, 6), 'op': 'raw', 'node': 'rawB', **op})
    # trouble
    evs = [o for o in p['ops'] + [t['op'] for t in p['triggers']] if o['op'] == 'add_event']
    for o in evs:
        e = o['ev']
        if o['ven'] not in bad:
            for k in ('cbdelay', 'cbraise', 'dcbdelay', 'dcbraise'):
                e.pop(k, None)
        elif chance(r, 0.6):
            k = r.choice(['cb', 'dcb', 'both'])
            if k in ('cb', 'both'):
                e['cb'] = r.choice(['coro', 'coro', 'func'])
                e.pop('cbdelay', None)
                if e['cb'] == 'coro' and chance(r, 0.8):
                    e['cbdelay'] = r.choice([0.5, 5, 30, 1e6])
                if chance(r, 0.4):
                    e['cbraise'] = True
            if k in ('dcb', 'both'):
                e['dcb'] = r.choice(['coro', 'coro', 'func'])
                e.pop('dcbdelay', None)
                e.pop('dcbraise', None)
                if e['dcb'] == 'coro' and chance(r, 0.8):
                    e['dcbdelay'] = r.choice([0.5, 5, 30, 1e6])
                if chance(r, 0.4):
                    e['dcbraise'] = sorted(r.sample(range(1, 6), 2))
    for _ in range(r.randint(1, 5)):
        vtn['slow'].append({'h': r.choice(['register', 'offer', 'values', 'cancel_reg', 'ven_lookup', 'on_poll', 'on_poll', 'on_created_event',
                                           'on_request_event']), 'ven': r.choice(bad), 'nth': r.randint(1, 6), 'count': r.choice([1, 2, 99]),
                            'delay': r.choice([0, 0.2, 3, 20, 1e6]), 'raise': chance(r, 0.35)})
    p2 = dict(p, vtn=dict(vtn, vens={b: vtn['vens'][b] for b in bad}))
    t = 1.0
    for _ in range(r.choice([0, 5, 10, 30])):
        t += step * r.choice([0.0, 0.0, 0.01, 0.5, 2.0]) * r.uniform(0.5, 2)
        if t > horizon - 3:
            t = rnd(r, 1, horizon - 3)
        o = odd_request(r, p2, pool, horizon) if chance(r, 0.6) else {'what': r.choice(['poll', 'request_event']),
                                                                      'a': {'ven_id': vtn['vens'][r.choice(bad)]['ven_id']}}
        p['ops'].append({**o, 't': round(t, 6), 'op': 'raw', 'node': 'rawA'})
    p['rules'] += net_faults(r, r.randint(0, 4), ['oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent', 'oadrUpdateReport', 'oadrRegisterReport'],
                             horizon, bad + ['rawA'])
    real = [b for b in bad if b in p.get('vens', {})]
    if real and chance(r, 0.5):
        p['ops'] += [o for o in node_faults(r, real, horizon, freq, vtn=False)]
    p['ops'].sort(key=lambda o: o['t'])
    return p


# ------------------------------------------------------------- Z: trouble, then quiet
def fam_z(r, seed):
    u = r.random()
    p = fam_e(r, seed, faults=True) if u < 0.45 else fam_gv(r, seed) if u < 0.75 else fam_r(r, seed)
    p['family'] = 'Z'
    vtn, freq = p['vtn'], p['vtn']['freq']
    tf = p['quiet_from'] = p['horizon']
    if not p['rules']:
        p['rules'] += net_faults(r, r.randint(1, 4), ['oadrPoll', 'oadrPoll', 'oadrCreatedEvent', 'oadrRequestEvent', 'oadrUpdateReport',
                                                      'oadrCreatePartyRegistration', 'oadrRegisterReport'], tf, list(p['vens']))
    jumps = 0
    for o in p['ops']:
        room = max(0.1, round(tf - o['t'] - 0.1, 3))
        for k in ('for', 'restart'):
            if k in o:
                o[k] = min(o[k], room)
        if o['op'] == 'skew':
            jumps += abs(o['delta'])
    for x in p['rules'] + p['triggers']:
        x['tmax'] = tf
        if x.get('by'):
            x['by'] = min(x['by'], 20)
    for s in vtn.get('slow', []):
        s['until'] = tf
        s['delay'] = min(s.get('delay', 0), 20)
    p['horizon'] = end = round(tf + 50 + 10 * freq + 2 * jumps, 3)
    k = 0
    for n in p['vens']:
        for seq in p['vens'][n].get('beh', {}).values() if isinstance(p['vens'][n].get('beh'), dict) else []:
            for b in seq:
                if b.get('delay'):
                    b['delay'] = min(b['delay'], 0.5)
        if vtn.get('polling') == 'external':
            continue
        for _ in range(r.choice([0, 0, 1, 2])):         # changes after the faults
            k += 1
            t = rnd(r, tf, end - 5)
            p['ops'].append({'t': t, 'op': 'add_event', 'node': 'vtn', 'ven': n, 'ev': event(r, f'uz{k}', f'late{k}x', t, freq)})
        mine = [o for o in p['ops'] if o['op'] == 'add_event' and o['ven'] == n]
        if mine and chance(r, 0.3):
            o = r.choice(mine)
            p['ops'].append({'t': rnd(r, max(tf, o['t'] + 0.1), end - 3), 'op': 'cancel_event', 'node': 'vtn', 'ven': n, 'eid': o['ev']['eid']})
    for o in p['ops'] + [t['op'] for t in p['triggers']]:
        e = o.get('ev')
        if e:
            for f in ('cbdelay', 'dcbdelay'):
                if f in e:
                    e[f] = min(e[f], 0.3)
            if chance(r, 0.5):
                # still outstanding at the end
                e['start'] = round(max(e['start'], tf - 60), 3)
                e['ivs'][-1][0] = r.choice([3600, 7200, 90000])
    p['ops'].sort(key=lambda o: o['t'])
    return p
