"""Small helpers for the demonstrations: a VTN served on a free loopback port and VENs talking to it."""
import asyncio, os, sys, logging
from datetime import datetime, timedelta, timezone
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
from openleadr import OpenADRServer, OpenADRClient, objects, enums, utils      # noqa
from openleadr.messaging import create_message, parse_message, validate_xml_schema      # noqa
from openleadr.service import VTNService      # noqa
import aiohttp      # noqa
from aiohttp.test_utils import TestServer      # noqa

UTC = timezone.utc


def now():
    return datetime.now(UTC)


class Vtn:
    """A VTN on a free port. handlers: dict of openleadr handlers."""

    def __init__(self, handlers=None, **kw):
        self.s = OpenADRServer(vtn_id='MyVTN', **kw)
        async def reg(payload):
            name = payload.get('ven_name') or 'x'
            return f'id_{name}', f'reg_{name}'
        h = {'on_create_party_registration': reg}
        h.update(handlers or {})
        for k, v in h.items():
            self.s.add_handler(k, v)

    async def start(self):
        self.t = TestServer(self.s.app)
        await self.t.start_server()
        self.url = str(self.t.make_url('/OpenADR2/Simple/2.0b'))
        return self

    async def stop(self):
        await self.t.close()

    async def post(self, service, msgtype, **payload):
        body = create_message(msgtype, **payload)
        async with aiohttp.ClientSession(headers={'content-type': 'application/xml'}) as s:
            async with s.post(f'{self.url}/{service}', data=body) as r:
                data = await r.read()
                if r.status != 200 or not data:
                    return r.status, {}
                return parse_message(data)

    async def poll(self, ven_id):
        return await self.post('OadrPoll', 'oadrPoll', ven_id=ven_id)

    def event(self, ven_id, eid, start=3600, dur=600, cb=None, dcb=None, **kw):
        return self.s.add_event(ven_id=ven_id, signal_name='SIMPLE', signal_type='level', event_id=eid,
                                intervals=[{'dtstart': now() + timedelta(seconds=start),
                                            'duration': timedelta(seconds=dur), 'signal_payload': 1.0}],
                                callback=cb or (lambda ven_id, event_id, opt_type: None), delivery_callback=dcb, **kw)

    async def created(self, ven_id, eid, mod=0, opt='optIn'):
        rid = utils.generate_id()
        return await self.post('EiEvent', 'oadrCreatedEvent', ven_id=ven_id,
                               response={'response_code': 200, 'response_description': 'OK', 'request_id': rid},
                               event_responses=[{'response_code': 200, 'response_description': 'OK', 'opt_type': opt,
                                                 'request_id': rid, 'modification_number': mod, 'event_id': eid}])


class Ven(OpenADRClient):
    """A VEN whose requests are answered by the given function (service, parsed type, parsed payload)."""

    def __init__(self, answer=None, **kw):
        super().__init__(kw.pop('ven_name', 'ven1'), kw.pop('vtn_url', 'http://127.0.0.1:1'), **kw)
        self.sent = []
        self.answer = answer or (lambda s, t, p: ('oadrResponse', {}))

    async def _perform_request(self, service, message):
        t, p = parse_message(message)
        self.sent.append((t, p))
        r = self.answer(service, t, p)
        if asyncio.iscoroutine(r):
            r = await r
        return r


def event(eid, mod=0, start=3600, dur=600, status='far', rr='always', signal='SIMPLE'):
    t = now() + timedelta(seconds=start)
    return {'event_descriptor': {'event_id': eid, 'modification_number': mod, 'event_status': status,
                                 'created_date_time': now(), 'market_context': 'http://m', 'priority': 0},
            'active_period': {'dtstart': t, 'duration': timedelta(seconds=dur)},
            'event_signals': [{'signal_name': signal, 'signal_type': 'level', 'signal_id': 's',
                               'intervals': [{'uid': 0, 'dtstart': t, 'duration': timedelta(seconds=dur),
                                              'signal_payload': 1.0}]}],
            'targets': [{'ven_id': 'id_ven1'}], 'targets_by_type': {'ven_id': ['id_ven1']},
            'response_required': rr}


def distribute(*events, rid='rq1'):
    return {'vtn_id': 'MyVTN', 'request_id': rid, 'events': list(events)}


def check(ok, text):
    print(('ok   ' if ok else 'FAIL ') + text)
    if not ok:
        os._exit(1)


def main(coro):
    async def run():
        await asyncio.wait_for(coro, 200)
    asyncio.run(run())
    os._exit(0)
