"""The applications around the real openleadr client and server, driven by the plan,
plus scripted peers and raw HTTP clients (stubs, no openleadr code)."""
from .boot import clock, NODE
import asyncio
import copy
import os
import ssl
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from . import boot, wire
from . import net as simnet

HERE = os.path.dirname(os.path.abspath(__file__))
PREFIX = '/OpenADR2/Simple/2.0b'
PORT = 8080
SERVICE = {'oadrPoll': 'OadrPoll', 'oadrRequestEvent': 'EiEvent', 'oadrCreatedEvent': 'EiEvent',
           'oadrQueryRegistration': 'EiRegisterParty', 'oadrCreatePartyRegistration': 'EiRegisterParty',
           'oadrCancelPartyRegistration': 'EiRegisterParty', 'oadrCanceledPartyRegistration': 'EiRegisterParty',
           'oadrResponse': 'EiRegisterParty'}


def service_of(mtype):
    return SERVICE.get(mtype, 'EiReport')


def cert(n):
    return os.path.join(HERE, 'certs', n + '.crt')


def key(n):
    return os.path.join(HERE, 'certs', n + '.key')


def pem(n, what='crt'):
    with open(os.path.join(HERE, 'certs', f'{n}.{what}'), 'rb') as f:
        return f.read()


_fp = {}


def fp(n):
    if n not in _fp:
        _fp[n] = wire.fingerprint(pem(n))
    return _fp[n]


def utc(t):
    return datetime.fromtimestamp(t, timezone.utc)


def moment(t, naive=False):
    """The same moment the way this application writes it: in UTC, in another zone or, where that is allowed, without a zone."""
    z = clock.zones[int(t * 7) % len(clock.zones)] if clock.zones else 'UTC'
    if z == 'naive':
        return boot.real_datetime.fromtimestamp(t) if naive else utc(t).astimezone()
    if isinstance(z, int):
        return datetime.fromtimestamp(t, timezone(timedelta(minutes=z)))
    return datetime.fromtimestamp(t, ZoneInfo(z))


def td(s):
    return None if s is None else timedelta(seconds=s)


def seconds(v):
    return v.total_seconds() if hasattr(v, 'total_seconds') else v


class HookError(Exception):
    """A hook of the VTN that fails, in a task of its own."""


class AppError(Exception):
    pass


async def maybe_sleep(d):
    if d:
        await asyncio.sleep(d)


def unix(dt):
    return round(dt.timestamp(), 6) if hasattr(dt, 'timestamp') else dt


# ------------------------------------------------------------------------ VTN
def status_of(ev):
    return ev['event_descriptor']['event_status'] if isinstance(ev, dict) else ev.event_descriptor.event_status


class VtnApp:
    """Application around a real OpenADRServer.  inc.host.state is its database."""

    def __init__(self, inc):
        self.inc = inc
        self.w = inc.world
        self.cfg = self.w.plan['vtn']
        self.db = inc.host.state
        self.db.setdefault('regs', {})       # ven_id -> registration id
        self.db.setdefault('regno', 0)
        self.db.setdefault('certs', {})      # ven name -> certificate, where it was replaced
        self.db.setdefault('events', [])     # [(ven, spec)] not cancelled
        self.calls = {}
        self.by_id = {v['ven_id']: n for n, v in self.cfg['vens'].items()}
        if len(inc.host.incs) == 1:
            self.db['regs'].update({v['ven_id']: v['prereg'] for v in self.cfg['vens'].values() if v.get('prereg')})
        self.server = None
        self.queues = self.db.setdefault('queues', {})      # external polling
        self.shared = {}

    def rec(self, kind, **kw):
        return self.w.rec(kind, node=self.inc.label, **kw)

    def behave(self, h, ven):
        """(delay, raise?) for this handler call, from the plan."""
        n = self.calls[(h, ven)] = self.calls.get((h, ven), 0) + 1
        for r in self.cfg.get('slow', []):
            if r['h'] == h and r.get('ven') in (None, ven) and clock.mono <= r.get('until', 1e18) and r['nth'] <= n < r['nth'] + r.get('count', 1):
                if r.get('delay'):
                    self.w.fault('slow_handler')
                if r.get('raise'):
                    self.w.fault('failing_handler')
                return r.get('delay', 0), r.get('raise', False), n
        return 0, False, n

    async def act(self, h, ven, **kw):
        delay, fail, n = self.behave(h, ven)
        self.rec('vtn_h', h=h, ven=ven, n=n, phase='start', **kw)
        await maybe_sleep(delay)
        self.rec('vtn_h', h=h, ven=ven, n=n, phase='fail' if fail else 'end', **kw)
        if fail:
            raise AppError(h)

    # ------------------------------------------------------------- handlers
    def lookup_info(self, ven_id):
        name = self.by_id.get(ven_id)
        if name is None:
            return None
        reg = self.db['regs'].get(ven_id)
        if reg is None and not self.cfg.get('tls'):
            return None
        return {'ven_id': ven_id, 'ven_name': name, 'registration_id': reg,
                'fingerprint': fp(self.cert_of(name)) if self.cert_of(name) else None}

    def cert_of(self, name):
        return self.db['certs'].get(name, self.cfg['vens'].get(name, {}).get('cert'))

    def hook(self, i, h):
        async def note(*args):
            if h['delay']:
                await asyncio.sleep(h['delay'])
            what = args[0]
            if isinstance(what, bytes):
                what = what.decode('utf-8', 'replace')
            self.rec('hook', h=h['h'], i=i, what=what or '')
            if h['mode'] == 'raise':
                raise HookError()
        return note

    def make_lookup(self):
        if self.cfg.get('async_lookup'):
            async def ven_lookup(ven_id):
                d, fail, n = self.behave('ven_lookup', self.by_id.get(ven_id))
                await maybe_sleep(d)
                if fail:
                    self.rec('vtn_h', h='ven_lookup', ven=self.by_id.get(ven_id), n=n, phase='fail')
                    raise AppError('ven_lookup')
                return self.lookup_info(ven_id)
        else:
            def ven_lookup(ven_id):
                return self.lookup_info(ven_id)
        return ven_lookup

    def fingerprint_lookup(self, ven_id):
        name = self.by_id.get(ven_id)
        c = self.cert_of(name)
        return fp(c) if c else None

    async def on_create_party_registration(self, payload):
        name = payload.get('ven_name')
        name = next((n for n, v in self.cfg['vens'].items() if v.get('name', n) == name), name)
        v = self.cfg['vens'].get(name)
        await self.act('register', name, ven_id=payload.get('ven_id'), fingerprint=payload.get('fingerprint'))
        n = self.calls[('register', name)]
        if v is None or n in v.get('refuse', []):
            self.rec('vtn_refuse', ven=name)
            return False
        self.db['regno'] += 1
        reg = self.cfg.get('regfmt', 'reg{}x').format(self.db['regno'])
        self.db['regs'][v['ven_id']] = reg
        self.rec('vtn_reg', ven=name, ven_id=v['ven_id'], reg=reg)
        return v['ven_id'], reg

    async def on_cancel_party_registration(self, payload):
        ven_id = payload.get('ven_id')
        name = self.by_id.get(ven_id)
        await self.act('cancel_reg', name, ven_id=ven_id, reg=payload.get('registration_id'))
        if self.cfg['vens'].get(name, {}).get('keep_reg'):
            return None
        if self.db['regs'].get(ven_id) == payload.get('registration_id'):
            self.db['regs'].pop(ven_id, None)
        return 'oadrCanceledPartyRegistration', {'registration_id': payload.get('registration_id'), 'ven_id': ven_id}

    # ---- reports
    def accept_rule(self, name, resource):
        return self.cfg['vens'].get(name, {}).get('accept', {}).get(resource if isinstance(resource, str) else None)

    def value_callback(self, name, resource, rule, tag):
        async def slow_cb(values):
            await self.act('values', name, resource=resource, tag=tag, values=[(unix(t), wire.num(v)) for t, v in values],
                           pairs=len(values))

        def cb(values):
            d, fail, n = self.behave('values', name)
            self.rec('vtn_h', h='values', ven=name, n=n, phase='start', resource=resource, tag=tag,
                     values=[(unix(t), wire.num(v)) for t, v in values], pairs=len(values))
            self.rec('vtn_h', h='values', ven=name, n=n, phase='fail' if fail else 'end', resource=resource, tag=tag)
            if fail:
                raise AppError('values')
        return cb if rule.get('sync') else slow_cb

    def _accept(self, ven_id, resource, full_r_id=None):
        name = self.by_id.get(ven_id)
        rule = self.accept_rule(name, resource)
        if rule is None:
            return None
        tag = f"{self.inc.label}/{len(self.w.hist)}"
        self.rec('vtn_accept', ven=name, resource=resource, tag=tag, samp=rule['s'], back=rule.get('r'))
        out = (self.value_callback(name, resource, rule, tag), td(rule['s']))
        if rule.get('r') is not None:
            out += (td(rule['r']),)
        return out

    async def on_register_report(self, ven_id, resource_id, measurement, unit, scale, min_sampling_interval,
                                 max_sampling_interval):
        await self.act('offer', self.by_id.get(ven_id), ven_id=ven_id, resource=resource_id, measurement=measurement,
                       unit=unit, scale=scale, min=seconds(min_sampling_interval), max=seconds(max_sampling_interval))
        return self._accept(ven_id, resource_id)

    async def on_register_report_full(self, report):
        out = []
        # the full handler gets no ven id; resources are globally unique in the workloads
        for rd in report.get('report_descriptions') or []:
            resource = (rd.get('report_data_source') or {}).get('resource_id')
            ven_id = next((v['ven_id'] for n, v in self.cfg['vens'].items() if resource in v.get('resources', [])), None) \
                if isinstance(resource, str) else None
            m = rd.get('measurement') or {}
            await self.act('offer', self.by_id.get(ven_id), ven_id=ven_id, resource=resource,
                           measurement=m.get('description', 'Status'), unit=m.get('unit'), scale=m.get('scale'),
                           min=seconds((rd.get('sampling_rate') or {}).get('min_period')),
                           max=seconds((rd.get('sampling_rate') or {}).get('max_period')),
                           full={'name': report.get('report_name'), 'spec': report.get('report_specifier_id'),
                                 'duration': seconds(report.get('duration')),
                                 'rid': rd.get('r_id'), 'rtype': rd.get('report_type'), 'reading': rd.get('reading_type'),
                                 'market': rd.get('market_context'), 'power': m.get('power_attributes'),
                                 'pulse': m.get('pulse_factor'), 'on_change': (rd.get('sampling_rate') or {}).get('on_change')})
            r = self._accept(ven_id, resource)
            if r is not None and rd.get('r_id') is not None:
                out.append((rd['r_id'],) + r)
            elif self.cfg.get('nones'):
                out.append(None)
        return out

    # ---- external polling
    async def on_poll_async(self, ven_id):
        await self.act('on_poll', self.by_id.get(ven_id), ven_id=ven_id)
        return self.next_poll_item(ven_id)

    def on_poll_sync(self, ven_id):
        d, fail, n = self.behave('on_poll', self.by_id.get(ven_id))
        self.rec('vtn_h', h='on_poll', ven=self.by_id.get(ven_id), n=n, phase='start', ven_id=ven_id)
        self.rec('vtn_h', h='on_poll', ven=self.by_id.get(ven_id), n=n, phase='fail' if fail else 'end', ven_id=ven_id)
        if fail:
            raise AppError('on_poll')
        return self.next_poll_item(ven_id)

    def next_poll_item(self, ven_id):
        name = self.by_id.get(ven_id)
        q = self.queues.setdefault(name, [])
        item = q.pop(0) if q else {'kind': 'none'}
        if item.get('share'):           # the application keeps the object and returns it again
            key = (name, item['share'])
            if key not in self.shared:
                self.shared[key] = self.build_item(name, item)
            out = self.shared[key]
        else:
            out = self.build_item(name, item)
        evs = out[1].get('events', []) if isinstance(out, tuple) else out if isinstance(out, list) else [out]
        self.rec('poll_item', ven=name, item=item, statuses=[status_of(e) for e in evs] if 'events' in item else None)
        return out

    def build_item(self, name, item):
        k = item['kind']
        o = self.inc.pkg.objects
        if k == 'none':
            return None
        if k == 'event_obj':
            return self.event_obj(name, item['events'][0])
        if k == 'event_dict':
            return self.event_dict(name, item['events'][0])
        if k == 'list_obj':
            return [self.event_obj(name, e) for e in item['events']]
        if k == 'list_dict':
            return [self.event_dict(name, e) for e in item['events']]
        if k == 'tuple_events':
            return 'oadrDistributeEvent', {'events': [self.event_obj(name, e) for e in item['events']]}
        if k == 'tuple_dicts':
            return 'oadrDistributeEvent', {'events': [self.event_dict(name, e) for e in item['events']]}
        if k == 'list_mixed':
            return [(self.event_obj if n % 2 else self.event_dict)(name, e) for n, e in enumerate(item['events'])]
        if k == 'response':
            return 'oadrResponse', {}
        if k == 'rereg':
            if item.get('shared'):
                return self.shared.setdefault('rereg', ('oadrRequestReregistration', {}))
            return 'oadrRequestReregistration', {}
        if k == 'cancel_reg':
            reg = self.db['regs'].get(self.cfg['vens'][name]['ven_id'])
            if item.get('wrong'):
                reg = 'regWrongx'
            self.rec('poll_cancel_reg', ven=name, reg=reg)
            return 'oadrCancelPartyRegistration', {'registration_id': reg,
                                                   'ven_id': self.cfg['vens'][name]['ven_id']}
        if k == 'cancel_report':
            return 'oadrCancelReport', {'report_request_id': item['rrid'], 'report_to_follow': item.get('follow', False)}
        if k == 'create_report':
            reqs = []
            for r in item['requests']:
                sp = o.ReportSpecifier(report_specifier_id=r['specifier'], granularity=td(r['granularity']),
                                       report_back_duration=td(r['back']),
                                       report_interval=None if r.get('at') is None else o.Interval(
                                           dtstart=moment(clock.epoch + r['at']), duration=td(0), signal_payload=0),
                                       specifier_payloads=[o.SpecifierPayload(r_id=x, reading_type='Direct Read')
                                                           for x in r['r_ids']])
                reqs.append(o.ReportRequest(report_request_id=r['id'], report_specifier=sp))
            return 'oadrCreateReport', {'report_requests': reqs}
        raise AssertionError(k)

    async def on_created_event(self, ven_id, event_id, opt_type):
        await self.act('on_created_event', self.by_id.get(ven_id), ven_id=ven_id, eid=event_id, opt=opt_type)

    def on_created_event_sync(self, ven_id, event_id, opt_type):
        self.act_sync('on_created_event', self.by_id.get(ven_id), ven_id=ven_id, eid=event_id, opt=opt_type)

    def act_sync(self, h, ven, **kw):
        d, fail, n = self.behave(h, ven)
        self.rec('vtn_h', h=h, ven=ven, n=n, phase='start', **kw)
        self.rec('vtn_h', h=h, ven=ven, n=n, phase='fail' if fail else 'end', **kw)
        if fail:
            raise AppError(h)

    async def on_request_event(self, ven_id):
        await self.act('on_request_event', self.by_id.get(ven_id), ven_id=ven_id)
        return self.request_events(ven_id)

    def on_request_event_sync(self, ven_id):
        self.act_sync('on_request_event', self.by_id.get(ven_id), ven_id=ven_id)
        return self.request_events(ven_id)

    def request_events(self, ven_id):
        name = self.by_id.get(ven_id)
        c = self.cfg['vens'].get(name, {})
        evs = c.get('request_events')
        if not evs:
            return None
        form = c.get('request_form', 'list_obj')
        self.rec('request_item', ven=name, events=evs[:1] if form.startswith('one') else evs)
        if form == 'one_obj':
            return self.event_obj(name, evs[0])
        if form == 'one_dict':
            return self.event_dict(name, evs[0])
        return [(self.event_dict if form == 'list_dict' else self.event_obj)(name, e) for e in evs]

    # ------------------------------------------------------------- events
    def intervals(self, spec, naive=False):
        t = spec['start']
        out = []
        for d, v in spec['ivs']:
            out.append((moment(clock.epoch + t, naive), timedelta(seconds=d), v))
            t += d
        return out

    def event_obj(self, name, spec):
        o = self.inc.pkg.objects
        ivs = [o.Interval(dtstart=a, duration=b, signal_payload=c) for a, b, c in self.intervals(spec)]
        sigs = [o.EventSignal(intervals=[o.Interval(dtstart=i.dtstart, duration=i.duration, signal_payload=i.signal_payload)
                                         for i in ivs], signal_name=s[0], signal_type=s[1], signal_id=f'sig{n}x',
                              current_value=spec.get('current'), measurement=self.measurement(spec, n))
                for n, s in enumerate(spec['sigs'])]
        d = o.EventDescriptor(event_id=spec['eid'], modification_number=spec.get('mod', 0),
                              market_context=spec.get('market', 'http://market.context'), event_status=spec.get('status', 'far'),
                              priority=spec.get('prio', 0), vtn_comment=spec.get('comment'), test_event=spec.get('test', False))
        tot = sum(x[0] for x in spec['ivs'])
        ap = o.ActivePeriod(dtstart=moment(clock.epoch + spec['start']), duration=timedelta(seconds=tot),
                            ramp_up_period=td(spec.get('ramp')), notification_period=td(spec.get('notify')),
                            recovery_period=td(spec.get('recovery'))) if not spec.get('noap') else None
        targets = [dict(t) for t in spec['targets']] if spec.get('targets') else [{'ven_id': self.cfg['vens'][name]['ven_id']}]
        return o.Event(event_descriptor=d, event_signals=sigs, targets=targets, active_period=ap,
                       response_required=spec['rr'])

    def measurement(self, spec, n):
        m = spec['meas'][n] if spec.get('meas') else None
        return copy.deepcopy(getattr(self.inc.pkg.enums.MEASUREMENTS, m)) if m else None

    def event_dict(self, name, spec):
        from dataclasses import asdict
        d = asdict(self.event_obj(name, spec))
        return d

    def callbacks(self, name, spec):
        eid, ven_id = spec['eid'], self.cfg['vens'][name]['ven_id']
        kind = spec.get('cb')
        uid = spec['uid']
        cb = None
        if kind == 'func':
            def cb(ven_id, event_id, opt_type):
                self.rec('cb', uid=uid, a_ven=ven_id, a_eid=event_id, opt=opt_type)
                if spec.get('cbraise'):
                    self.w.fault('failing_handler')
                    raise AppError('cb')
        elif kind == 'coro':
            async def cb(ven_id, event_id, opt_type):
                self.rec('cb', uid=uid, a_ven=ven_id, a_eid=event_id, opt=opt_type)
                await maybe_sleep(spec.get('cbdelay', 0))
                if spec.get('cbraise'):
                    self.w.fault('failing_handler')
                    raise AppError('cb')
        elif kind == 'future':
            cb = self.w.loop.create_future()
            cb.add_done_callback(lambda f: self.rec('cb', uid=uid, a_ven=None, a_eid=None, opt=f.result()),
                                 context=self.inc.ctx.copy())
        dcb = None
        if spec.get('dcb') == 'func':
            def dcb():
                self.rec('dcb', uid=uid, phase='start')
                self.rec('dcb', uid=uid, phase='end')
        elif spec.get('dcb') == 'coro':
            async def dcb():
                n = self.calls[('dcb', uid)] = self.calls.get(('dcb', uid), 0) + 1
                self.rec('dcb', uid=uid, phase='start')
                await maybe_sleep(spec.get('dcbdelay', 0))
                fail = n in spec.get('dcbraise', [])
                self.rec('dcb', uid=uid, phase='fail' if fail else 'end')
                if fail:
                    self.w.fault('failing_handler')
                    raise AppError('dcb')
        return cb, dcb

    def target_args(self, spec):
        """The targets of an event in one of the forms in which add_event takes them."""
        ts, form, o = spec.get('targets'), spec.get('tform'), self.inc.pkg.objects
        if not ts:
            return {'targets': None}
        if form == 'one' and len(ts) == 1:
            return {'target': dict(ts[0])}
        if form == 'one_obj' and len(ts) == 1:
            return {'target': o.Target(**ts[0])}
        if form == 'objs':
            return {'targets': [o.Target(**t) for t in ts]}
        if form == 'by_type':
            by = {}
            for t in ts:
                for k, v in t.items():
                    by.setdefault(k, []).append(v)
            return {'targets_by_type': by}
        return {'targets': [dict(t) for t in ts]}

    def add_event(self, name, spec, again=False):
        ven_id = self.cfg['vens'][name]['ven_id']
        cb, dcb = self.callbacks(name, spec)
        rec = self.rec('ev_add', ven=name, uid=spec['uid'], eid=spec['eid'], spec=spec, again=again)
        try:
            if spec.get('raw') == 'obj':
                self.server.add_raw_event(ven_id, self.event_obj(name, spec), callback=cb, delivery_callback=dcb)
            elif spec.get('raw') == 'dict':
                d = self.event_dict(name, spec)
                if spec.get('noap') == 'dict':
                    del d['active_period']
                self.server.add_raw_event(ven_id, d, callback=cb, delivery_callback=dcb)
            else:
                o = self.inc.pkg.objects
                ivs = self.intervals(spec, naive=True)
                if spec.get('ivdict'):
                    ivs = [{'dtstart': a, 'duration': b, 'signal_payload': c} for a, b, c in ivs]
                else:
                    ivs = [o.Interval(dtstart=a, duration=b, signal_payload=c) for a, b, c in ivs]
                self.server.add_event(ven_id=ven_id, signal_name=spec['sigs'][0][0], signal_type=spec['sigs'][0][1],
                                      intervals=ivs, callback=cb, delivery_callback=dcb, event_id=spec['eid'],
                                      **self.target_args(spec),
                                      response_required=spec['rr'], market_context=spec.get('market', 'http://market.context'),
                                      notification_period=td(spec.get('notify')), ramp_up_period=td(spec.get('ramp')),
                                      recovery_period=td(spec.get('recovery')))
        except Exception as e:
            rec['err'] = f'{type(e).__name__}: {e}'
        self.rec('ev_add_done', uid=spec['uid'])

    # ------------------------------------------------------------- lifecycle
    async def boot(self):
        inc, cfg = self.inc, self.cfg
        kw = {}
        if cfg.get('sign'):
            kw.update(cert=cert('vtn'), key=key('vtn'))
        if cfg.get('tls'):
            kw.update(http_cert=cert('vtn'), http_key=key('vtn'), http_ca_file=cert('ca'),
                      verify_message_signatures=cfg.get('verify', True))
        if cfg.get('lookup') in ('ven_lookup', 'both'):
            kw['ven_lookup'] = self.make_lookup()
        if cfg.get('lookup') in ('fingerprint_lookup', 'both'):
            kw['fingerprint_lookup'] = self.fingerprint_lookup
        s = self.server = inc.pkg.server.OpenADRServer(
            vtn_id=cfg.get('vtn_id', 'MyVTN'), http_host=inc.ip, http_port=PORT, show_fingerprint=False,
            show_server_cert_domain=False, requested_poll_freq=timedelta(seconds=cfg['freq']), **kw)
        for i, h in enumerate(cfg.get('hooks') or []):
            inc.pkg.hooks.register(h['h'], self.hook(i, h))
        s.add_handler('on_create_party_registration', self.on_create_party_registration)
        s.add_handler('on_cancel_party_registration', self.on_cancel_party_registration)
        if cfg.get('report_mode', 'compact') == 'compact':
            s.add_handler('on_register_report', self.on_register_report)
        else:
            s.add_handler('on_register_report', self.on_register_report_full)
        if cfg.get('polling') == 'external':
            s.add_handler('on_poll', self.on_poll_sync if cfg.get('sync_poll') else self.on_poll_async)
            s.add_handler('on_created_event', self.on_created_event_sync if cfg.get('sync_created') else self.on_created_event)
            s.add_handler('on_request_event', self.on_request_event_sync if cfg.get('sync_request') else self.on_request_event)
        if len(inc.host.incs) > 1:
            for name, spec in list(self.db['events']):
                self.add_event(name, spec, again=True)
        await s.run()
        self.rec('vtn_up')

    def op(self, op):
        k = op['op']
        if k == 'add_event':
            self.db['events'].append((op['ven'], op['ev']))
            self.add_event(op['ven'], op['ev'])
        elif k == 'cancel_event':
            for x in [x for x in self.db['events'] if x[0] == op['ven'] and x[1]['eid'] == op['eid']]:
                self.db['events'].remove(x)
            self.rec('ev_cancel', ven=op['ven'], eid=op['eid'])
            self.server.cancel_event(self.cfg['vens'][op['ven']]['ven_id'], op['eid'])
            self.rec('ev_cancel_done', ven=op['ven'], eid=op['eid'])
        elif k == 'forget':
            self.rec('vtn_forget', ven=op['ven'])
            self.db['regs'].pop(self.cfg['vens'][op['ven']]['ven_id'], None)
        elif k == 'newcert':
            self.db['certs'][op['ven']] = op['cert']
            self.rec('newcert', ven=op['ven'], cert=op['cert'])
        elif k == 'poll_item':
            item = op['item']
            self.queues.setdefault(op['ven'], []).append(item)


# ------------------------------------------------------------------------ VEN
def plain(m):
    return None if m is None else {k: dict(v) if isinstance(v, dict) else v for k, v in m.items()}


def event_view(event):
    """What the handler was given, reduced to comparable values."""
    d = event['event_descriptor']
    sigs = event['event_signals']
    if isinstance(sigs, dict):
        sigs = sigs['event_signals']
    return {'eid': d['event_id'], 'mod': d['modification_number'], 'status': d['event_status'],
            'start': unix(event['active_period']['dtstart']),
            'dur': event['active_period']['duration'].total_seconds(),
            'sigs': [(s['signal_name'], [(unix(i['dtstart']) if i.get('dtstart') else None,
                                          i['duration'].total_seconds(), float(i['signal_payload']))
                                         for i in s['intervals']]) for s in sigs],
            'more': {'types': [s.get('signal_type') for s in sigs], 'ids': [s.get('signal_id') for s in sigs],
                     'current': [s.get('current_value') for s in sigs], 'meas': [plain(s.get('measurement')) for s in sigs],
                     'prio': d.get('priority'), 'test': d.get('test_event'), 'comment': d.get('vtn_comment'),
                     'market': d.get('market_context'), 'rr': event.get('response_required'),
                     'targets': [dict(t) for t in event.get('targets') or []],
                     'by_type': {k: list(v) for k, v in (event.get('targets_by_type') or {}).items()},
                     **{k: seconds(event['active_period'].get(n, event['active_period'].get(n + '_period'))) for k, n in (
                         ('ramp', 'ramp_up'), ('notify', 'notification'), ('recovery', 'recovery'))}}}


class VenApp:
    def __init__(self, inc):
        self.inc = inc
        self.w = inc.world
        self.cfg = self.w.plan['vens'][inc.name]
        self.calls = {}
        self.client = None
        self.n = 0

    def rec(self, kind, **kw):
        return self.w.rec(kind, node=self.inc.label, **kw)

    def behaviour(self, eid, mod):
        n = self.calls[eid] = self.calls.get(eid, 0) + 1
        b = self.cfg.get('beh', {}).get(str(eid))
        if b:
            return b[min(n, len(b)) - 1]
        u = self.w.hash01('opt', self.inc.label, eid, n)
        return {'opt': 'optIn' if u < 0.5 else 'optOut'}

    def handler(self, call):
        def begin(event):
            v = event_view(event)
            b = self.behaviour(v['eid'], v['mod'])
            self.n += 1
            self.rec('ven_ev', call=call, n=self.n, phase='start', view=v)
            return v, b, self.n

        def finish(v, b, n):
            mode = b.get('mode', 'ok')
            result = {'ok': b['opt'], 'invalid': b.get('bad', 'maybe'), 'none': None, 'raise': None}[mode]
            self.rec('ven_ev', call=call, n=n, phase='end', eid=v['eid'], mod=v['mod'], result=result, mode=mode)
            if mode == 'raise':
                self.w.fault('failing_handler')
                raise AppError('ven handler')
            return result

        async def h(event):
            v, b, n = begin(event)
            if b.get('delay'):
                self.w.fault('slow_handler')
                await asyncio.sleep(b['delay'])
            return finish(v, b, n)

        def hs(event):
            v, b, n = begin(event)
            return finish(v, b, n)
        return hs if self.cfg.get('sync_handlers') else h

    # ---- report sources
    def source(self, r):
        key = (r['spec'], r['rid'])
        st = self.inc.host.state.setdefault('seqno', {})

        def val():
            n = st[str(key)] = st.get(str(key), 0) + 1
            odd = (r.get('odd') or {}).get(str(n))
            if odd is not None:
                self.w.probe('odd_values')
                return {'true': True, 'zero': 0}.get(odd) if odd in ('true', 'zero') else float(odd)
            v = r['base'] + n * r.get('step', 0.25)
            return int(v) if r.get('ints') else v

        def nth():
            n = self.calls[key] = self.calls.get(key, 0) + 1
            for b in r.get('beh', []):
                if b['nth'] <= n < b['nth'] + b.get('count', 1):
                    return n, b
            return n, {}

        def produce(n, b, args):
            now = clock.wall()
            if args:
                t, vals = args['from'], []
                while t < args['to'] - 1e-6 and len(vals) < 400:
                    vals.append((round(t, 6), val()))
                    t += max(args['step'], 1.0)
                out = [(moment(t), v) for t, v in vals]
            elif r.get('lists'):
                vals = [(round(now - 1.5 + k * 0.5, 6), val()) for k in range(r['lists'])]
                out = [(moment(t), v) for t, v in vals]
            else:
                v = val()
                vals, out = [(None, v)], v
            if b.get('empty'):
                vals = out = []
            fail = b.get('raise', False)
            self.rec('src', spec=r['spec'], rid=r['rid'], n=n, phase='fail' if fail else 'end',
                     values=[] if fail else [(t, wire.num(v)) for t, v in vals], now=round(now, 6), args=args)
            if fail:
                self.w.fault('failing_handler')
                raise AppError('source')
            return out

        if r['mode'] == 'full':
            async def cb(date_from, date_to, sampling_interval):
                n, b = nth()
                args = {'from': unix(date_from), 'to': unix(date_to), 'step': sampling_interval.total_seconds()}
                self.rec('src', spec=r['spec'], rid=r['rid'], n=n, phase='start', now=round(clock.wall(), 6), args=args)
                await maybe_sleep(b.get('delay', 0))
                return produce(n, b, args)

            def cbs(date_from, date_to, sampling_interval):
                n, b = nth()
                args = {'from': unix(date_from), 'to': unix(date_to), 'step': sampling_interval.total_seconds()}
                self.rec('src', spec=r['spec'], rid=r['rid'], n=n, phase='start', now=round(clock.wall(), 6), args=args)
                return produce(n, b, args)
        else:
            async def cb():
                n, b = nth()
                self.rec('src', spec=r['spec'], rid=r['rid'], n=n, phase='start', now=round(clock.wall(), 6), args=None)
                if b.get('delay'):
                    self.w.fault('slow_handler')
                await maybe_sleep(b.get('delay', 0))
                return produce(n, b, None)

            def cbs():
                n, b = nth()
                self.rec('src', spec=r['spec'], rid=r['rid'], n=n, phase='start', now=round(clock.wall(), 6), args=None)
                return produce(n, b, None)
        return cbs if r.get('sync') else cb

    # ---- lifecycle
    def make(self):
        inc, cfg = self.inc, self.cfg
        kw = {}
        scheme = 'https' if cfg.get('tls') else 'http'
        if cfg.get('cert'):
            kw.update(cert=cert(cfg['cert']), key=key(cfg['cert']), ca_file=cert('ca'), check_hostname=False,
                      disable_signature=cfg.get('disable_signature', False))
        if cfg.get('vtn_fp'):
            kw['vtn_fingerprint'] = fp(cfg['vtn_fp'])
        if cfg.get('cleanup'):
            kw['events_clean_up_period'] = cfg['cleanup']
        vtn = self.w.hosts[cfg.get('vtn', 'vtn')]
        c = self.client = inc.pkg.client.OpenADRClient(
            ven_name=cfg.get('name', inc.name), vtn_url=f'{scheme}://{vtn.ip}:{PORT}{PREFIX}',
            ven_id=cfg.get('preset_id'), show_fingerprint=False, **kw)
        if not cfg.get('no_handlers'):
            c.add_handler('on_event', self.handler('on_event'))
            if not cfg.get('no_update'):
                c.add_handler('on_update_event', self.handler('on_update_event'))
        for i, h in enumerate(cfg.get('hooks') or []):
            c.add_hook(h['h'], self.hook(h['h'], i, h['mode'], h['delay']))
        o = inc.pkg.objects
        for r in cfg.get('reports', []):
            m = r.get('measurement')
            if isinstance(m, dict) and 'enum' in m:
                m = getattr(inc.pkg.enums.MEASUREMENTS, m['enum'])
            elif isinstance(m, dict) and not m.get('plain'):
                m = o.Measurement(**m)
            elif isinstance(m, dict):
                m = {k: v for k, v in m.items() if k != 'plain'}
            c.add_report(self.source(r), resource_id=r['resource'], measurement=m, report_specifier_id=r['spec'],
                         r_id=r['rid'], report_name=r.get('name', 'TELEMETRY_USAGE'),
                         data_collection_mode=r['mode'], unit=r.get('unit'), scale=r.get('scale', 'none'),
                         report_duration=timedelta(seconds=r.get('duration', 3600)),
                         sampling_rate=td(r['min']) if r.get('srform') == 'one' else None if r.get('srform') == 'none' else
                         o.SamplingRate(min_period=td(r['min']), max_period=td(r['max']), on_change=r.get('on_change', False)),
                         **({'report_dtstart': moment(clock.epoch + r['dtstart'])} if 'dtstart' in r else {}),
                         **{k: r[k] for k in ('reading_type', 'report_type', 'market_context', 'power_ac', 'power_hertz',
                                              'power_voltage') if k in r})
        return c

    async def boot(self):
        c = self.make()
        self.rec('ven_run')
        try:
            await c.run()
        except asyncio.CancelledError:
            raise
        except Exception as e:
            self.rec('ven_run_error', err=f'{type(e).__name__}: {e}')
        ok = c.registration_id is not None and c.scheduler.running
        self.rec('ven_started' if ok else 'ven_not_started')
        retry = self.cfg.get('retry')
        if not ok and retry:
            def again():
                if self.inc.alive:
                    self.w.rec('exit', node=self.inc.label)
                    self.inc.alive = False
                    self.w.net.node_crashed(self.inc, False)
                    self.w.start(self.inc.name)
            self.w.net.at(clock.mono + retry, again)

    def op(self, op):
        k = op['op']
        if k == 'ven_stop':
            self.inc.spawn(self._stop())
        elif k == 'ven_cancel_reg':
            self.inc.spawn(self._cancel_reg())
        elif k == 'ven_call':
            self.inc.spawn(self._call(op))

    async def _stop(self):
        if self.client is None or self.client.client_session is None:
            self.rec('ven_stop_skipped')
            return
        self.rec('ven_stop', phase='start')
        try:
            await self.client.stop()
        except Exception as e:
            self.rec('ven_stop', phase='error', err=f'{type(e).__name__}: {e}')
            return
        self.rec('ven_stop', phase='end')

    async def _cancel_reg(self):
        self.rec('ven_cancel_reg', phase='start')
        try:
            await self.client.cancel_party_registration()
        except Exception as e:
            self.rec('ven_cancel_reg', phase='error', err=f'{type(e).__name__}: {e}')
            return
        self.rec('ven_cancel_reg', phase='end')

    async def _call(self, op):
        """The application calls the client's public coroutines itself."""
        if self.client is None or self.client.registration_id is None:
            return
        try:
            if op['call'] == 'request_event':
                await self.client.request_event()
            elif op['call'] == 'poll':
                await self.client.poll()
            elif op['call'] == 'created_event':
                await self.client.created_event(op['request_id'], op['eid'], op['opt'], op['mod'])
            elif op['call'] in ('create_opt', 'cancel_opt'):
                await self._opt(op)
        except Exception as e:
            self.rec('ven_call_error', err=f'{type(e).__name__}: {e}')


    async def _opt(self, op):
        c, o = self.client, self.inc.pkg.objects
        self.opts_n = getattr(self, 'opts_n', 0) + 1
        n, ids = self.opts_n, self.__dict__.setdefault('opt_ids', {})
        rec = {'call': op['call'], 'n': n, 'key': op['k']}
        if op['call'] == 'create_opt':
            a = op['a']
            kw = dict(opt_type=a['type'], opt_reason=a['reason'],
                      targets=[o.Target(**t) if a['obj'] else dict(t) for t in a['targets']])
            if a.get('event'):
                kw.update(event_id=a['event'], modification_number=a['mod'])
            if a.get('avail'):
                kw['vavailability'] = o.Vavailability(components=[
                    o.VavailabilityComponent(dtstart=moment(clock.epoch + s), duration=td(d)) for s, d in a['avail']])
            for f, g in (('mc', 'market_context'), ('mrid', 'signal_target_mrid'), ('opt_id', 'opt_id'), ('request_id', 'request_id')):
                if a.get(f):
                    kw[g] = a[f]
            bad = a.get('bad')
            if bad == 'type':
                kw['opt_type'] = 'maybe'
            elif bad == 'reason':
                kw['opt_reason'] = 'why not'
            elif bad == 'both':
                kw.update(event_id='e', vavailability=o.Vavailability(components=[]))
            elif bad == 'neither':
                kw.update(event_id=None, vavailability=None)
            if a.get('opt_id') and not bad:
                ids.setdefault(op['k'], a['opt_id'])
            coro = c.create_opt(**kw)
            rec['a'] = a
        else:
            oid = ids.get(op['k'], 'nosuchopt')
            coro = c.cancel_opt(oid)
            rec['oid'] = oid
        self.rec('ven_opt', phase='start', **rec)
        try:
            res = await coro
        except Exception as e:
            self.rec('ven_opt', phase='end', n=n, err=f'{type(e).__name__}: {e}')
            return
        if op['call'] == 'create_opt' and res:
            ids.setdefault(op['k'], res)
        self.rec('ven_opt', phase='end', n=n, res=res)

    def hook(self, h, i, mode, delay):
        def note(*args):
            self.rec('hook', h=h, i=i, what=args[0])
            if 'raise' in mode:
                raise ValueError('hook')

        async def anote(*args):
            if delay:
                await asyncio.sleep(delay)
            note(*args)
        return anote if mode.startswith('a') else note


# ------------------------------------------------------------- raw HTTP client
_cctx = {}


def client_ctx(certname):
    if certname not in _cctx:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        c.check_hostname = False
        c.verify_mode = ssl.CERT_NONE
        if certname:
            c.load_cert_chain(cert(certname), key(certname))
        _cctx[certname] = c
    return _cctx[certname]


class RawProto(asyncio.Protocol):
    def __init__(self, loop):
        self.fr = simnet.Framer()
        self.fut = loop.create_future()

    def data_received(self, data):
        for head, body, raw in self.fr.push(data):
            if not self.fut.done():
                self.fut.set_result((head, body))

    def connection_lost(self, exc):
        if not self.fut.done():
            self.fut.set_result((None, None))


async def raw_post(w, inc, target, path, body, headers=None, tls=None, ctype='application/xml', cut=None, keep=None,
                   method='POST', timeout=60):
    """One HTTP request over a fresh simulated connection. Returns (status or None, body)."""
    host = w.hosts[target]
    try:
        sock = await w.net.tcp_connect(inc, host.ip, PORT)
        ctx = client_ctx(tls) if tls is not None else None
        tr, proto = await w.net.attach_client(lambda: RawProto(w.loop), sock, ctx, None)
    except OSError as e:
        return None, str(e).encode()
    h = f'{method} {PREFIX}/{path} HTTP/1.1\r\nHost: x\r\n'
    if ctype:
        h += f'Content-Type: {ctype}\r\n'
    for k, v in (headers or {}).items():
        h += f'{k}: {v}\r\n'
    raw = (h + f'Content-Length: {len(body)}\r\n\r\n').encode() + body
    if cut is not None:                 # half a request, then silence or close
        sock.conn.framers['c'].raw = True
        tr.write(raw[:int(len(raw) * cut)])
        if keep:
            await asyncio.sleep(keep)
        tr.abort()
        return None, b'cut'
    tr.write(raw)
    try:
        head, rb = await asyncio.wait_for(proto.fut, timeout)
    except asyncio.TimeoutError:
        head, rb = None, b'timeout'
    tr.close()
    if head is None:
        return None, rb
    return int(head.split(b' ', 2)[1]), rb


class RawApp:
    """A host without openleadr: scripted requests of any kind."""
    def __init__(self, inc):
        self.inc, self.w = inc, inc.world

    async def boot(self):
        pass

    def op(self, op):
        self.inc.spawn(self.send(op))

    async def send(self, op):
        body, meta = build_raw(self.w, op)
        if body is None:
            self.w.rec('raw_skipped', node=self.inc.label, what=op['what'])
            return
        rec = self.w.rec('raw', node=self.inc.label, what=op['what'], meta=meta)
        n0 = len(self.w.exchanges)
        st, rb = await raw_post(self.w, self.inc, op.get('to', 'vtn'), op.get('path') or service_of(meta.get('type', '')),
                                body, tls=op.get('tls'), ctype=op.get('ctype', 'application/xml'), cut=op.get('cut'),
                                keep=op.get('keep'), headers=op.get('headers'), method=op.get('method', 'POST'))
        self.w.rec('raw_done', op=rec['s'], status=st)


def captured(w, op):
    """A message of another client that the sender got hold of, as it was or altered."""
    xs = [x for x in w.exchanges if x['src'] == op['src'] and x['type'] == op['type']]
    if not xs:
        return None, {}
    k = op.get('k', -1)
    body = xs[k if -len(xs) <= k < len(xs) else -1]['body']
    meta = {'type': op['type'], 'how': op['how']}
    w.raw_nonce = getattr(w, 'raw_nonce', 0) + 1
    if op['how'] == 'same':
        w.fault('replayed_request')
        return body, meta
    w.fault('forged_request')
    if op['how'] == 'tamper':
        new = body
        for x, y in op['subst']:
            new = new.replace(x.encode(), y.encode())
        if new == body:
            return None, {}
        body = new
    elif b'<ds:Signature' not in body:
        return None, {}
    elif op['how'] == 'extra_rp':
        # what the signature covers is untouched: still that very message
        w.derived[wire.extra_replay_protect(body, f'rawnonce{w.raw_nonce}')] = w.derived.get(body, body)
        body = wire.extra_replay_protect(body, f'rawnonce{w.raw_nonce}')
    elif op['how'] == 'wrap':
        evil, _ = build_raw(w, dict(op['evil'], so_only=True))
        if evil is None:
            return None, {}
        body = wire.wrap(body, evil)
        meta['type'] = simnet.msgtype(evil.encode())
    return body, meta


def build_raw(w, op):
    """Plan -> bytes of a hand-made message (never via openleadr)."""
    what = op['what']
    if what == 'bytes':
        return op['data'].encode('latin1'), {}
    if what == 'captured':
        return captured(w, op)
    so = None
    a = dict(op.get('a', {}))
    if a.get('rrid') == '@':            # a report request id seen on the wire
        xs = [x for x in w.exchanges if x['type'] == 'oadrUpdateReport' and wire.parse(x['body']).reports]
        if not xs:
            return None, {}
        rep = wire.parse(xs[-1]['body']).reports[0]
        a['rrid'], a['spec'] = rep.request_id or 'none', rep.specifier or 'none'
        a['ivs'] = [[clock.utc(), (rep.intervals[0][1] if rep.intervals else None) or 'r', 666.0]]
    if a.get('reg') == '@':             # the VEN's registration id
        a['reg'] = w.hosts['vtn'].state.get('regs', {}).get(a['ven_id']) or 'regunknown'
    rid = a.get('request_id', f"rawreq{w._seq}")
    f = {'poll': lambda: wire.b_poll(a['ven_id']),
         'query': lambda: wire.b_query(rid),
         'create_reg': lambda: wire.b_create_reg(rid, a['ven_name'], a.get('ven_id')),
         'cancel_reg': lambda: wire.b_cancel_reg(rid, a['reg'], a['ven_id']),
         'request_event': lambda: wire.b_request_event(rid, a['ven_id']),
         'created_event': lambda: wire.b_created_event(rid, a['ven_id'], [tuple(r) for r in a['responses']]),
         'update_report': lambda: wire.b_update_report(rid, a.get('ven_id'), a['rrid'], a['spec'],
                                                       [(w_t, r, v) for w_t, r, v in a['ivs']], clock.utc()),
         'response': lambda: wire.b_response(a.get('code', 200), rid, a.get('ven_id')),
         'rereg': lambda: wire.b_rereg(a['ven_id']),
         'register_report': lambda: wire.b_register_report(rid, a['ven_id'], a['reports'], clock.utc()),
         'create_opt': lambda: wire.b_create_opt(rid, a['ven_id']),
         'cancel_opt': lambda: wire.b_cancel_opt(rid, a['ven_id']),
         'created_report': lambda: wire.b_created_report(rid, a['ven_id'], a.get('pending', [])),
         'distribute': lambda: wire.b_distribute(rid, a['vtn_id'], [])}
    if what == 'xml':
        so = a['so']
    else:
        so = f[what]()
    for x, y in a.get('subst', []):
        so = so.replace(x, y)
    meta = {'type': simnet.msgtype(so.encode()), 'request_id': rid}
    if op.get('so_only'):
        return so, meta
    if op.get('sign'):
        w.raw_nonce = getattr(w, 'raw_nonce', 0) + 1
        body = wire.sign(so, pem(op['sign']), pem(op.get('signkey', op['sign']), 'key'), clock.utc() + op.get('sigage', 0.0),
                         op.get('nonce') or f'rawnonce{w.raw_nonce}')
        if op.get('signkey', op['sign']) == op['sign']:
            w.genuine[body] = op['sign']
        for x, y in op.get('tamper', []):
            body = body.replace(x.encode(), y.encode())
    else:
        if op.get('mut'):
            w.fault('mutated_request')
            so = wire.mutate(so, op['mut'])
            meta['type'] = simnet.msgtype(so.encode())
        body = wire.envelope(so)
        if op.get('enc'):
            w.fault('odd_encoding')
            body = wire.encode(body, op['enc'])
    return body, meta
