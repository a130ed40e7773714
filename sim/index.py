"""The recorded history of one run, indexed for the oracles."""
from collections import defaultdict
from . import boot, wire

INF = float('inf')


STANDARD = {'temperature': ('temperature', 'temperature', 'celsius'), 'voltage': ('voltage', 'Voltage', 'V'), 'VOLTAGE': ('voltage', 'Voltage', 'V'), 'current': ('current', 'Current', 'A'),
            'CURRENT': ('current', 'Current', 'A'), 'REAL_POWER': ('powerReal', 'RealPower', 'W'),
            'ACTIVE_ENERGY': ('energyReal', 'RealEnergy', 'Wh'), 'REACTIVE_POWER': ('powerReactive', 'ReactivePower', 'VAR'),
            'FREQUENCY': ('frequency', 'Frequency', 'Hz'), 'TEMPERATURE': ('temperature', 'temperature', 'celsius'),
            'PULSE_COUNT': ('pulseCount', 'pulse count', 'count'), 'CURRENCY_PER_KWH': ('currencyPerKWh', 'currencyPerKWh', 'AFN'),
            'CURRENCY_PER_KW': ('currencyPerKW', 'currencyPerKW', 'AFN')}
ALLOWED = {'temperature': ('celsius', 'fahrenheit'), 'currencyPerKWh': ('AFN', 'EUR', 'USD', 'ZWL'),
           'currencyPerKW': ('AFN', 'EUR', 'USD', 'ZWL')}


class Run:
    def measure(self, m, rep=None):
        """What a measurement given by an application looks like to the other side (written down here, not read from openleadr)."""
        if m is None:
            return None
        if isinstance(m, dict) and 'enum' in m:
            m = m['enum']
        if isinstance(m, dict):
            out = {k: m.get(k) for k in ('name', 'description', 'unit')}
            out['scale'] = m.get('scale') or 'none'
        elif m in STANDARD:
            out = dict(zip(('name', 'description', 'unit'), STANDARD[m]), scale='none')
        else:
            out = {'name': 'customUnit', 'description': m, 'unit': (rep or {}).get('unit') or None, 'scale': 'none'}
        out['power_attributes'] = {'hertz': 50, 'voltage': 230, 'ac': True} if out['name'].startswith('power') and m in STANDARD else None
        out['pulse_factor'] = 1000 if out['name'] == 'pulseCount' else None
        if out['pulse_factor']:
            out['scale'] = None             # sent instead of a scale
        if rep:
            if rep.get('scale', 'none') != 'none' and not out['pulse_factor']:
                out['scale'] = rep['scale']
            if rep.get('unit') and rep['unit'] in ALLOWED.get(out['name'], ()):
                out['unit'] = rep['unit']
        return out

    def __init__(self, w):
        self.w = w
        self.plan = w.plan
        self.hist = w.hist
        self.X = w.exchanges
        self.horizon = w.plan['horizon']
        self.epoch = boot.clock.epoch
        self.k = defaultdict(list)
        for e in self.hist:
            self.k[e['k']].append(e)
        self.out = []
        self.counts = defaultdict(int)          # what the oracles actually judged
        self._index()

    # ------------------------------------------------------------------ verdicts
    def bad(self, prop, what, **kw):
        self.out.append({'property': prop, 'what': what, **{k: v for k, v in kw.items()}})

    def judged(self, what, n=1):
        self.counts[what] += n

    # ------------------------------------------------------------------ indexing
    def _index(self):
        plan = self.plan
        self.real_vtn = 'vtn' in plan
        cfg = plan.get('vtn') or plan.get('svtn')
        self.vcfg = cfg
        self.freq = cfg['freq']
        self.ven_id = {n: v['ven_id'] for n, v in cfg['vens'].items()}
        self.name_of = {v: n for n, v in self.ven_id.items()}
        self.vtn_incs = [e['node'] for e in self.hist if e['k'] == 'start' and e['node'].startswith('vtn#')]
        self.ven_incs = [e['node'] for e in self.hist if e['k'] == 'start'
                         and e['node'].split('#')[0] in plan.get('vens', {})]
        self.by_src = defaultdict(list)
        for x in self.X:
            self.by_src[x['srcinc']].append(x)
        # node life
        self.start_t, self.end_t, self.end_s = {}, {}, {}
        for e in self.hist:
            if e['k'] == 'start':
                self.start_t[e['node']] = e['t']
            elif e['k'] in ('crash', 'exit'):
                self.end_t[e['node']] = e['t']
                self.end_s[e['node']] = e['s']
        # skew history
        self._skews = defaultdict(list)
        for h, s in plan.get('skew', {}).items():
            self._skews[h].append((-1.0, -1, s))
        for e in self.k['clock_jump']:
            self._skews[e['host']].append((e['t'], e['s'], e['delta']))
        # pauses
        self.pauses = defaultdict(list)         # label -> [(t1, t2)]
        opened = {}
        for e in self.hist:
            if e['k'] == 'pause':
                opened[e['node']] = e['t']
            elif e['k'] == 'resume' and e['node'] in opened:
                self.pauses[e['node']].append((opened.pop(e['node']), e['t']))
        for n, t in opened.items():
            self.pauses[n].append((t, INF))
        # anything that can disturb a message exchange: (t1, t2)
        self.noise = []
        for e in self.hist:
            kd = e['k']
            if kd in ('fault', 'clock_jump', 'conn_blackholed', 'tls_fail', 'kill_conns'):
                self.noise.append((e['t'], e['t']))
            elif kd == 'partition':
                self.noise.append((e['t'], e['t'] + e['dur'] + 1.0))
            elif kd == 'crash':
                host = e['node'].split('#')[0]
                up = [x['t'] for x in self.hist if x['s'] > e['s'] and x['k'] == 'start'
                      and x['node'].split('#')[0] == host]
                self.noise.append((e['t'], (min(up) + 1.0) if up else INF))
            elif kd in ('exit',):
                self.noise.append((e['t'], e['t'] + 1.0))
        for n, l in self.pauses.items():
            self.noise += l
        # a request whose reply never came can keep the client busy for its whole timeout
        for x in self.X:
            if x['t_rdlv'] is None and x['src'] != 'ghost':
                self.noise.append((x['t_sent'], x['t_sent'] + 15.0))

    def is_ven(self, name):
        return name in self.plan.get('vens', {})

    def wall(self, host, t):
        """Clock reading of a host at true time t (after every jump up to t)."""
        return self.epoch + t + sum(d for (tt, s, d) in self._skews[host] if tt <= t)

    def wall_range(self, host, t1, t2):
        """Smallest and largest clock reading in [t1, t2]."""
        pts = [self.wall(host, t1), self.wall(host, t2)]
        base = self.epoch
        for (tt, s, d) in self._skews[host]:
            if t1 <= tt <= t2:
                before = base + tt + sum(dd for (a, b, dd) in self._skews[host] if a < tt or (a == tt and b < s))
                pts += [before, before + d]
        return min(pts), max(pts)

    def jumped(self, host, t1, t2):
        return any(t1 <= tt <= t2 for (tt, s, d) in self._skews[host] if tt >= 0)

    def stepped_back(self, host, t1, t2):
        return any(t1 <= tt <= t2 and d < 0 for (tt, s, d) in self._skews[host])

    def paused(self, label, t1, t2):
        return sum(max(0.0, min(b, t2) - max(a, t1)) for a, b in self.pauses.get(label, []))

    def quiet(self, t1, t2, pad=0.5):
        return not any(a <= t2 + pad and b >= t1 - pad for a, b in self.noise)

    def alive(self, label, t):
        return self.start_t.get(label, INF) <= t < self.end_t.get(label, INF)

    # ------------------------------------------------------------- message access
    def req(self, x):
        return wire.parse(x['body'])

    def rep(self, x):
        """Parsed reply as the server sent it."""
        return wire.parse(x['rbody']) if x['rbody'] else wire.Msg(type=None)

    def got(self, x):
        """Parsed reply as the client received it (None: nothing usable arrived)."""
        if x['s_rdlv'] is None or x['rdlv_status'] != 200 or not x['rdlv_body']:
            return None
        m = wire.parse(x['rdlv_body'])
        if m.type is None or not self.schema_ok(x['rdlv_body']):
            return None
        if self.ven_cfg(x['src']).get('vtn_fp') and not self.authentic(x):
            return None
        return m

    _auth = None
    borderline = False                  # a signed reply arrived aged right at the limit: no verdict on this run

    def authentic(self, x):
        """Was this reply, on arrival, signed by the VTN over exactly this content, fresh, and new to this VEN process?"""
        if self._auth is None:
            self._auth = {}
            used = {}
            table = getattr(self.w, 'script_auth', None)
            for y in sorted((y for y in self.X if y['s_rdlv'] is not None and y['src'] in self.plan.get('vens', {})),
                            key=lambda y: y['s_rdlv']):
                b = y['rdlv_body']
                ok = y['rdlv_status'] == 200 and bool(b)
                if ok:
                    if table is not None:
                        ok = table.get(b, False)
                    else:
                        ok = bool(self.vcfg.get('sign')) and b == y['rbody'] and wire.parse(b).signed
                if ok:
                    rp = wire.replay_protect(b)
                    lo, hi = self.wall_range(y['src'], y['t_rdlv'], y['t_rdlv'])
                    if lo - rp[0] >= 5.1:
                        ok = False
                    elif hi - rp[0] > 4.9:
                        self.borderline = True
                if ok:
                    first = used.setdefault((y['srcinc'], b), y['t_rdlv'])
                    ok = first is y['t_rdlv']
                    if not ok and self.stepped_back(y['src'], first, y['t_rdlv']):
                        self.borderline = True          # a clock stepped back opens the window again
                self._auth[y['id']] = ok
        return self._auth.get(x['id'], False)

    _schema = {}

    def schema_ok(self, body):
        if body not in self._schema:
            self._schema[body] = wire.schema_error(body) is None
        return self._schema[body]

    def ven_cfg(self, name):
        return self.plan.get('vens', {}).get(name, {})

    def to_vtn(self, inc=None, types=None, ven_id=None):
        """Requests delivered to the (real) VTN, in order of arrival."""
        out = []
        for x in self.X:
            if x['s_dlv'] is None or (inc and x['dstinc'] != inc):
                continue
            if types and x['type'] not in types:
                continue
            if ven_id is not None and self.req(x).ven_id != ven_id:
                continue
            out.append(x)
        return sorted(out, key=lambda x: x['s_dlv'])

    def of_ven(self, label, types=None):
        return [x for x in self.by_src[label] if types is None or x['type'] in types]
