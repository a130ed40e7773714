"""A scripted VTN (no openleadr code): every reply is decided by the plan."""
from .boot import clock
import asyncio
import ssl

from . import wire
from . import net as simnet
from .apps import PORT, cert, key, pem


def dated(requests):
    return [dict(q, at=clock.epoch + q['at']) if q.get('at') is not None else q for q in requests]


class ServerProto(asyncio.Protocol):
    def __init__(self, app):
        self.app = app
        self.fr = simnet.Framer()
        self.q = []
        self.busy = False

    def connection_made(self, tr):
        self.tr = tr

    def data_received(self, data):
        for head, body, raw in self.fr.push(data):
            if head is not None:
                self.q.append(body)
        self.pump()

    def pump(self):
        if self.q and not self.busy:
            self.busy = True
            self.app.inc.spawn(self.serve(self.q.pop(0)))

    async def serve(self, body):
        try:
            r = await self.app.answer(body)
        finally:
            self.busy = False
        if r is None:
            return
        status, ctype, out = r
        h = f'HTTP/1.1 {status} X\r\n' + (f'Content-Type: {ctype}\r\n' if ctype else '') \
            + f'Content-Length: {len(out)}\r\n\r\n'
        self.tr.write(h.encode() + out)
        self.pump()


class ScriptVtn:
    def __init__(self, inc):
        self.inc, self.w = inc, inc.world
        self.cfg = self.w.plan['svtn']
        self.queues = {}
        self.count = {}
        self.rid = 0
        self.sent = []              # (ven, body)
        self.nonce = 0
        self.regno = 0
        self.by_id = {v['ven_id']: n for n, v in self.cfg['vens'].items()}
        if not hasattr(self.w, 'script_auth'):
            self.w.script_auth = {}

    async def boot(self):
        ctx = None
        if self.cfg.get('tls'):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_verify_locations(cert('ca'))
            ctx.verify_mode = ssl.CERT_REQUIRED
            ctx.load_cert_chain(cert('vtn'), key('vtn'))
        await self.w.loop.create_server(lambda: ServerProto(self), self.inc.ip, PORT, ssl=ctx)

    def op(self, op):
        if op['op'] == 'push':
            self.queues.setdefault(op['ven'], []).append(op['item'])

    def next_rid(self):
        self.rid += 1
        return f'srv{self.rid}x{self.inc.label[-1]}'

    def nth(self, ven, what):
        n = self.count[(ven, what)] = self.count.get((ven, what), 0) + 1
        return n

    @staticmethod
    def pick(lst, n, default):
        if not lst:
            return default
        return lst[min(n, len(lst)) - 1]

    # ------------------------------------------------------------------ answering
    async def answer(self, body):
        m = wire.parse(body)
        t = m.type
        name = m.ven_name or self.by_id.get(m.ven_id)
        if t == 'oadrQueryRegistration':
            name = next(iter(self.cfg['vens'])) if len(self.cfg['vens']) == 1 else None
        v = self.cfg['vens'].get(name, {'ven_id': m.ven_id or ''})
        ven_id = v['ven_id']
        n = self.nth(name, t)
        item = None
        for o in self.cfg.get('over', []):
            if o['type'] == t and o.get('ven') in (None, name) and o['nth'] <= n < o['nth'] + o.get('count', 1):
                item = dict(o['do'])
        if item is None:
            item = self.default(t, m, name, n)
        elif item['kind'] == 'as_usual':
            item = {**self.default(t, m, name, n), **{k: x for k, x in item.items() if k != 'kind'}}
        if item.get('delay'):
            await asyncio.sleep(item['delay'])
        if item['kind'] == 'hang':
            self.w.fault('hang')
            return None
        if item['kind'] == 'http':
            self.w.fault('http_error')
            return item['status'], item.get('ctype', 'application/xml'), item.get('body', '').encode('latin1')
        if item['kind'] == 'empty':
            return 200, 'application/xml', b''
        so = self.render(item, m, name, ven_id)
        out = self.seal(so, item.get('sig', {}), name)
        self.sent.append((name, out))
        return 200, 'application/xml', out

    def default(self, t, m, name, n):
        v = self.cfg['vens'].get(name, {})
        if t == 'oadrQueryRegistration':
            return {'kind': 'query_info'}
        if t == 'oadrCreatePartyRegistration':
            return self.pick(v.get('reg'), n, {'kind': 'accept'})
        if t == 'oadrPoll':
            q = self.queues.get(name)
            return q.pop(0) if q else {'kind': 'response'}
        if t == 'oadrRequestEvent':
            return self.pick(v.get('sync'), n, {'kind': 'response'})
        if t == 'oadrRegisterReport':
            return self.pick(v.get('regrep'), n, {'kind': 'registered_report', 'requests': []})
        if t == 'oadrUpdateReport':
            for u in v.get('upd', []):
                if u['nth'] == n:
                    return {'kind': 'updated_report', 'cancel': u['cancel']}
            return {'kind': 'updated_report'}
        if t == 'oadrCancelPartyRegistration':
            return self.pick(v.get('cancelreg'), n, {'kind': 'canceled_reg', 'code': 200})
        if t == 'oadrResponse':
            return {'kind': 'empty'}
        return {'kind': 'response'}

    def render(self, item, m, name, ven_id):
        k = item['kind']
        rid = m.request_id or m.resp_request_id or ''
        vtn_id = item.get('vtn_id', self.cfg.get('vtn_id', 'MyVTN'))
        if k == 'query_info':
            return wire.b_created_reg(rid, None, None, vtn_id, self.cfg['freq'])
        if k == 'accept':
            self.regno += 1
            return wire.b_created_reg(rid, item.get('ven_id', ven_id), item.get('reg', f'reg{self.regno}x'), vtn_id,
                                      item.get('freq', self.cfg['freq']), code=item.get('code', 200))
        if k == 'refuse':
            return wire.b_created_reg(rid, item.get('ven_id'), None, vtn_id, self.cfg['freq'], code=item.get('code', 200))
        if k == 'response':
            return wire.b_response(item.get('code', 200), rid, ven_id)
        if k == 'distribute':
            evs = [dict(e, ven=ven_id, start=clock.epoch + e['start'], created=clock.utc()) for e in item['events']]
            return wire.b_distribute(self.next_rid(), vtn_id, evs, rid)
        if k == 'registered_report':
            return wire.b_registered_report(rid, ven_id, dated(item['requests']))
        if k == 'create_report':
            return wire.b_create_report(self.next_rid(), ven_id, dated(item['requests']))
        if k == 'cancel_report':
            return wire.b_cancel_report(self.next_rid(), ven_id, item['rrid'], item.get('follow', False))
        if k == 'updated_report':
            c = item.get('cancel')
            if c:
                c = {'request_id': self.next_rid(), 'report_request_id': c['rrid'], 'follow': c.get('follow', False)}
            return wire.b_updated_report(rid, ven_id, c)
        if k == 'rereg':
            return wire.b_rereg(ven_id)
        if k == 'cancel_reg':
            reg = item.get('reg') or f'reg{self.regno}x'
            return wire.b_cancel_reg(self.next_rid(), reg, ven_id)
        if k == 'canceled_reg':
            return wire.b_canceled_reg(rid, item.get('reg', m.registration_id or ''), ven_id, item.get('code', 200))
        if k in ('created_opt', 'canceled_opt'):
            return wire.b_opt_ack('oadrCreatedOpt' if k == 'created_opt' else 'oadrCanceledOpt', rid, (m.opt or {}).get('id') or '')
        if k == 'register_report':
            return wire.b_register_report_empty(self.next_rid(), ven_id)
        raise AssertionError(k)

    # -------------------------------------------------------------------- sealing
    def seal(self, so, sig, name):
        signer = self.cfg.get('sign')
        if signer is None and not sig.get('cert'):
            return wire.envelope(so)
        how = sig.get('how', 'ok')
        auth = how == 'ok'
        if how != 'ok':
            self.w.fault('forged_reply')
        self.nonce += 1
        now = clock.utc() - sig.get('age', 0.0)
        signer = sig.get('cert') or signer
        nonce = f'svtnnonce{self.inc.label[-1]}{self.nonce}'
        if how == 'unsigned':
            out = wire.envelope(so)
        elif how == 'replay':                     # an earlier reply of ours, byte for byte
            mine = [b for v, b in self.sent if v == name and b in self.w.script_auth and self.w.script_auth[b]
                    and wire.parse(b).type == sig['type']]
            if not mine:
                out = wire.envelope(so)
            else:
                return mine[-1]
        else:
            out = wire.sign(so, pem(signer), pem(signer, 'key'), now, nonce)
            if how == 'othercert':
                pass
            elif how == 'tamper':
                a, b = sig['sub']
                new = out.replace(a.encode(), b.encode())
                if new == out:
                    new = out.replace(b'</oadr:oadrSignedObject>', b' </oadr:oadrSignedObject>', 1)
                out = new
            elif how == 'swapcert':               # claims the VTN's certificate, signed with another key
                out = wire.sign(so, pem(signer), pem(sig['key'], 'key'), now, nonce)
            elif how == 'wrap':                   # signed content moved aside, other content executed
                about = name or next(iter(self.cfg['vens']))
                inner = self.render(sig['signed_item'], wire.Msg(), about, self.cfg['vens'][about]['ven_id'])
                good = wire.sign(inner, pem(signer), pem(signer, 'key'), now, nonce)
                out = wire.wrap(good, so)
            elif how == 'extra_rp':
                out = wire.extra_replay_protect(out, nonce + 'b')
        self.w.script_auth[out] = auth
        return out
