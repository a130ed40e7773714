"""In-memory network: TCP-like streams between simulated nodes, with an HTTP
message tap at which the plan's fault rules decide each message's fate."""
from . import boot
from .boot import clock, NODE
import asyncio
import contextvars
import re
import ssl as _ssl

TYPE_RE = re.compile(rb'oadrSignedObject[^>]*>\s*<(?:\w+:)?(oadr\w+)')


def msgtype(body):
    m = TYPE_RE.findall(body)
    return m[-1].decode() if m else ''      # the last: a signed object inside the Signature is not the message


# --------------------------------------------------------------------------- TLS
def install_ssl():
    """Contexts stay real (argument checking, file loading) but remember which
    certificate and CA they were given; the handshake itself is a stub that
    performs chain and client-certificate checks on those."""
    cls = _ssl.SSLContext
    real_ca, real_chain = cls.load_verify_locations, cls.load_cert_chain

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        real_ca(self, cafile, capath, cadata)
        if cafile is not None:
            with open(cafile, 'rb') as f:
                self.sim_ca = f.read()

    def load_cert_chain(self, certfile, keyfile=None, password=None):
        real_chain(self, certfile, keyfile, password)
        with open(certfile, 'rb') as f:
            self.sim_cert = f.read()
    cls.load_verify_locations = load_verify_locations
    cls.load_cert_chain = load_cert_chain


_chain_cache = {}


def issued_by(cert_pem, ca_pem):
    key = (cert_pem, ca_pem)
    if key not in _chain_cache:
        from cryptography import x509
        try:
            cert = x509.load_pem_x509_certificate(cert_pem)
            ca = x509.load_pem_x509_certificate(ca_pem)
            cert.verify_directly_issued_by(ca)
            _chain_cache[key] = True
        except Exception:
            _chain_cache[key] = False
    return _chain_cache[key]


class StubSSLObject:
    def __init__(self, peer_pem):
        self.peer_pem = peer_pem

    def getpeercert(self, binary_form=False):
        if self.peer_pem is None:
            return None
        if binary_form:
            return _ssl.PEM_cert_to_DER_cert(self.peer_pem.decode())
        return {'subject': ()}

    def cipher(self):
        return ('STUB', 'TLSv1.3', 256)


# --------------------------------------------------------------------- transports
class FakeSock:
    """What start_connection() hands to create_connection()."""
    def __init__(self, conn):
        self.conn = conn

    def close(self):
        self.conn.abort_from('c')

    def getpeername(self):
        return (self.conn.server_ip, self.conn.port)

    def getsockname(self):
        return (self.conn.cnode.ip, 40000 + self.conn.id)

    def setblocking(self, x):
        pass

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1


class SimTransport(asyncio.Transport):
    def __init__(self, conn, side, node, protocol, extra):
        super().__init__(extra)
        self.conn, self.side, self.node = conn, side, node
        self.protocol = protocol
        self.closing = False
        self.lost = False
        self.paused = False
        self.rxbuf = []
        self.ctx = node.ctx.copy()

    # inbound -----------------------------------------------------------------
    def _dispatch(self, fn, *args):
        """Run a protocol callback as the owning node (respects pause and death)."""
        self.conn.net.loop.call_soon(fn, *args, context=self.ctx)

    def feed(self, data, then=None):
        if self.lost or self.closing:
            return
        if self.paused:
            self.rxbuf.append((data, then))
        else:
            if then:
                then()
            self.protocol.data_received(data)

    def feed_eof(self):
        if self.lost:
            return
        if self.closing:
            return
        keep = self.protocol.eof_received()
        if not keep:
            self.close()

    def feed_rst(self, exc=None):
        self._lose(exc or ConnectionResetError(104, 'Connection reset by peer'))

    def _lose(self, exc):
        if self.lost:
            return
        self.lost = True
        self.closing = True
        self.conn.net.loop.call_soon(self.protocol.connection_lost, exc, context=self.ctx)

    # outbound / API ------------------------------------------------------------
    def write(self, data):
        if self.closing or self.lost:
            return
        if data:
            self.conn.send(self.side, bytes(data))

    def writelines(self, chunks):
        self.write(b''.join(bytes(c) for c in chunks))

    def is_closing(self):
        return self.closing

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.conn.fin(self.side)
        self._lose_later(None)

    def _lose_later(self, exc):
        if not self.lost:
            self.lost = True
            self.conn.net.loop.call_soon(self.protocol.connection_lost, exc, context=self.ctx)

    def abort(self):
        if self.lost:
            return
        self.closing = True
        self.conn.abort_from(self.side)
        self._lose_later(None)

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False
        buf, self.rxbuf = self.rxbuf, []
        for d, then in buf:
            self._dispatch(self.feed, d, then)

    def is_reading(self):
        return not self.paused

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def can_write_eof(self):
        return False

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol


class Framer:
    """Splits a byte stream into HTTP messages (Content-Length framing)."""
    def __init__(self):
        self.buf = b''
        self.raw = False

    def push(self, data):
        out = []
        self.buf += data
        while self.buf:
            if self.raw:
                out.append((None, None, self.buf))
                self.buf = b''
                break
            i = self.buf.find(b'\r\n\r\n')
            if i < 0:
                if len(self.buf) > 65536:
                    self.raw = True
                    continue
                break
            head = self.buf[:i + 4]
            low = head.lower()
            m = re.search(rb'\r\ncontent-length:\s*(\d+)', low)
            if b'\r\ntransfer-encoding:' in low:
                self.raw = True
                continue
            n = int(m.group(1)) if m else 0
            if len(self.buf) < i + 4 + n:
                break
            out.append((head, self.buf[i + 4:i + 4 + n], self.buf[:i + 4 + n]))
            self.buf = self.buf[i + 4 + n:]
        return out


class Conn:
    def __init__(self, net, cnode, snode, port, cid):
        self.net, self.cnode, self.snode, self.port, self.id = net, cnode, snode, port, cid
        self.server_ip = snode.ip
        self.ct = self.st = None
        self.framers = {'c': Framer(), 's': Framer()}
        self.last = {'c': 0.0, 's': 0.0}       # last scheduled delivery per sending side
        self.inflight = []                     # requests awaiting their reply (exchange records)
        self.dead = False                      # blackholed for good
        self.cut = {'c': False, 's': False}    # this direction carries nothing any more
        self.tls = None
        self.wanted = None                     # when the client began to open it, until its first request

    def other(self, side):
        return self.st if side == 'c' else self.ct

    def names(self, side):
        return (self.cnode, self.snode) if side == 'c' else (self.snode, self.cnode)

    # ------------------------------------------------------------------ sending
    def send(self, side, data):
        # what is written to a connection that leads nowhere any more is part of the history, too
        for head, body, raw in self.framers[side].push(data):
            if head is None:
                self.ship(side, raw, self.net.latency(self, side))
            else:
                self.net.on_message(self, side, head, body, raw)

    def ship(self, side, raw, delay, then=None, segments=1):
        """Deliver raw bytes in order to the other side after `delay`."""
        if self.dead or self.cut[side]:
            return
        t = max(self.last[side] + 1e-7, clock.mono + delay)
        src, dst = self.names(side)
        t = self.net.partition_adjust(src.name, dst.name, t)
        if t is None:
            self.dead = True
            self.net.world.rec('conn_blackholed', conn=self.id)
            return
        if segments > 1 and len(raw) > segments:
            step = len(raw) // segments
            cuts = [raw[i * step:(i + 1) * step] for i in range(segments - 1)] + [raw[(segments - 1) * step:]]
        else:
            cuts = [raw]
        for i, c in enumerate(cuts):
            ti = t + i * 0.002
            self.last[side] = ti
            self.net.at(ti, self._arrive, side, c, then if i == len(cuts) - 1 else None)

    def _arrive(self, side, data, then):
        tr = self.other(side)
        if tr is None or self.dead:
            return
        if not tr.node.alive:
            return
        tr._dispatch(tr.feed, data, then)

    def fin(self, side):
        if self.dead or self.cut[side]:
            return
        t = max(self.last[side] + 1e-7, clock.mono + self.net.latency(self, side))
        src, dst = self.names(side)
        t = self.net.partition_adjust(src.name, dst.name, t)
        if t is None:
            self.dead = True
            return
        self.last[side] = t
        self.net.at(t, self._fin_arrive, side)

    def gone(self):
        for ex in self.inflight:
            ex.setdefault('t_gone', clock.mono)

    def _fin_arrive(self, side):
        tr = self.other(side)
        if tr and tr.node.alive and not self.dead:
            if side == 'c':
                self.gone()
            tr._dispatch(tr.feed_eof)

    def abort_from(self, side):
        """RST from one side."""
        if self.dead or self.cut[side]:
            return
        t = max(self.last[side] + 1e-7, clock.mono + self.net.latency(self, side))
        src, dst = self.names(side)
        t = self.net.partition_adjust(src.name, dst.name, t)
        if t is None:
            self.dead = True
            return
        self.last[side] = t
        self.net.at(t, self._rst_arrive, side)

    def _rst_arrive(self, side):
        tr = self.other(side)
        if tr and tr.node.alive and not self.dead:
            if side == 'c':
                self.gone()
            tr._dispatch(tr.feed_rst)

    def reset_both(self, delay=0.0):
        """The network kills the connection; both ends see a reset."""
        def go():
            self.gone()
            for tr in (self.ct, self.st):
                if tr and tr.node.alive:
                    tr._dispatch(tr.feed_rst)
            self.cut = {'c': True, 's': True}
        self.net.at(clock.mono + delay, go)

    def node_died(self, side, silent):
        """The process on `side` is gone."""
        self.cut[side] = True
        if silent:
            self.dead = True
        else:
            self.cut[side] = False
            self.abort_from(side)
            self.cut[side] = True


class SimServer:
    def __init__(self, net, key):
        self.net, self.key = net, key
        self.sockets = ()

    def close(self):
        self.net.listeners.pop(self.key, None)

    async def wait_closed(self):
        return None

    def is_serving(self):
        return self.key in self.net.listeners

    def close_clients(self):
        pass


class Net:
    def __init__(self, world):
        self.world = world
        self.loop = None
        self.listeners = {}
        self.conns = []
        self.by_ip = {}
        self.partitions = []        # (a, b, t1, t2)
        self.counters = {}

    # ------------------------------------------------------------------ helpers
    def at(self, t, fn, *args):
        self.loop.call_at(t, fn, *args, context=self.world.ctx)

    def latency(self, conn, side):
        src, dst = conn.names(side)
        return self.world.latency(src.name, dst.name)

    def partitioned(self, a, b, t):
        for p in self.partitions:
            if {p['a'], p['b']} == {a, b} and p['t1'] <= t < p['t2']:
                return p
        return None

    def partition_adjust(self, a, b, t):
        """When would a segment that should arrive at t really arrive? (TCP
        retransmits once the partition heals; None: the connection is lost)."""
        for _ in range(20):
            p = self.partitioned(a, b, t)
            if p is None:
                return t
            self.world.fault('partition_hold')
            if p['t2'] - t > 30:
                return None
            t = p['t2'] + 0.2 + (t - p['t1']) * 0.01
        return t

    # ---------------------------------------------------------------- listening
    def listen(self, factory, host, port, ssl):
        node = NODE.get()
        key = (node.ip, port)
        if key in self.listeners:
            raise OSError(98, 'Address already in use')
        self.listeners[key] = (node, factory, ssl)
        self.world.rec('listen', node=node.label, port=port)
        return SimServer(self, key)

    # --------------------------------------------------------------- connecting
    async def start_connection(self, addr_infos, **kw):
        addr = addr_infos[0][4]
        ip, port = addr[0], addr[1]
        node = NODE.get()
        e = self.world.rec('connect', node=node.label)
        sock = await self.tcp_connect(node, ip, port)
        sock.conn.wanted = (e['s'], e['t'])
        return sock

    async def tcp_connect(self, node, ip, port):
        snode = self.by_ip.get(ip)
        if snode is None:
            raise OSError(113, 'No route to host')
        t0 = clock.mono
        for backoff in (0.0, 1.0, 3.0, 7.0, 15.0, 31.0):
            if backoff:
                await asyncio.sleep(max(0.0, t0 + backoff - clock.mono))
            if self.partitioned(node.name, snode.name, clock.mono):
                self.world.fault('connect_blocked')
                continue
            if snode.host_down:
                self.world.fault('connect_host_down')
                continue
            lat = self.world.latency(node.name, snode.name) + self.world.latency(snode.name, node.name)
            await asyncio.sleep(lat)
            li = self.listeners.get((ip, port))
            if li is None or not li[0].alive:
                self.world.fault('connect_refused')
                raise ConnectionRefusedError(111, 'Connection refused')
            conn = Conn(self, node, li[0], port, len(self.conns))
            self.conns.append(conn)
            return FakeSock(conn)
        raise TimeoutError(110, 'Connection timed out')

    async def attach_client(self, factory, sock, ctx, server_hostname):
        conn = sock.conn
        li = self.listeners.get((conn.server_ip, conn.port))
        if li is None or not li[0].alive:
            raise ConnectionResetError(104, 'Connection reset by peer')
        snode, sfactory, sctx = li
        cextra = {'peername': (conn.server_ip, conn.port), 'sockname': (conn.cnode.ip, 40000 + conn.id)}
        sextra = {'peername': (conn.cnode.ip, 40000 + conn.id), 'sockname': (conn.server_ip, conn.port)}
        if ctx is not None or sctx is not None:
            await asyncio.sleep(2 * self.world.latency(conn.cnode.name, snode.name))
            if ctx is None or sctx is None:
                conn.dead = True
                raise ConnectionResetError(104, 'plaintext/TLS mismatch')
            self.handshake(conn, ctx, sctx, cextra, sextra)
        proto = factory()
        conn.ct = SimTransport(conn, 'c', conn.cnode, proto, cextra)
        sproto = conn.snode.ctx.copy().run(sfactory)
        conn.st = SimTransport(conn, 's', conn.snode, sproto, sextra)
        proto.connection_made(conn.ct)
        conn.st._dispatch(sproto.connection_made, conn.st)
        return conn.ct, proto

    def handshake(self, conn, cctx, sctx, cextra, sextra):
        ccert = getattr(cctx, 'sim_cert', None)
        cca = getattr(cctx, 'sim_ca', None)
        scert = getattr(sctx, 'sim_cert', None)
        sca = getattr(sctx, 'sim_ca', None)

        def fail(why):
            conn.dead = True
            self.world.rec('tls_fail', conn=conn.id, node=conn.cnode.label, why=why)
            raise _ssl.SSLError(1, why)
        if scert is None:
            fail('server has no certificate')
        if cctx.verify_mode != _ssl.CERT_NONE:
            if cca is None or not issued_by(scert, cca):
                fail('server certificate verify failed')
            if cctx.check_hostname:
                fail('hostname mismatch (addresses are simulated)')
        if ccert is None:
            if sctx.verify_mode == _ssl.CERT_REQUIRED:
                fail('client certificate required')
        elif sctx.verify_mode != _ssl.CERT_NONE:
            if sca is None or not issued_by(ccert, sca):
                fail('client certificate verify failed')
        else:
            ccert = None        # a server that does not ask gets no certificate
        conn.tls = ccert
        for extra, octx, peer in ((cextra, cctx, scert), (sextra, sctx, ccert)):
            extra['sslcontext'] = octx
            extra['ssl_object'] = StubSSLObject(peer)
            extra['peercert'] = {'subject': ()} if peer else None
            extra['cipher'] = ('STUB', 'TLSv1.3', 256)

    # ---------------------------------------------------------- HTTP-level tap
    def on_message(self, conn, side, head, body, raw):
        w = self.world
        if side == 'c':
            n = self.counters[('req', conn.cnode.name)] = self.counters.get(('req', conn.cnode.name), 0) + 1
            line = head.split(b'\r\n', 1)[0].decode('latin1')
            ex = {'id': len(w.exchanges), 'conn': conn.id, 'src': conn.cnode.name, 'srcinc': conn.cnode.label,
                  'dst': conn.snode.name, 'dstinc': conn.snode.label, 'n': n, 'line': line,
                  'type': msgtype(body), 'body': body, 't_sent': clock.mono, 's_sent': w.seq(),
                  't_dlv': None, 's_dlv': None, 'reps': [], 'fate': None,
                  'status': None, 'rtype': None, 'rbody': None, 't_rep': None, 's_rep': None,
                  't_rdlv': None, 's_rdlv': None, 'rdlv_body': None, 'rdlv_status': None,
                  'rfate': None, 'tls': conn.tls, 'head': head}
            ex['s_start'], ex['t_start'] = conn.wanted or (ex['s_sent'], ex['t_sent'])
            conn.wanted = None
            w.exchanges.append(ex)
            w.rec('req', ex=ex['id'], src=ex['srcinc'], dst=ex['dstinc'], type=ex['type'], n=n)
            conn.inflight.append(ex)
            w.on_wire('req_sent', ex)
            fate = w.fate('req', ex)
            if conn.dead or conn.cut['c']:
                ex['fate'] = 'void'
            else:
                self.apply_request(conn, ex, raw, fate)
        else:
            ex = conn.inflight.pop(0) if conn.inflight else None
            if ex is None:
                conn.ship('s', raw, self.latency(conn, 's'))
                return
            status = int(head.split(b' ', 2)[1])
            ex['status'], ex['rbody'], ex['rtype'] = status, body, msgtype(body)
            ex['rhead'] = head
            ex['t_rep'], ex['s_rep'] = clock.mono, w.seq()
            w.rec('rep', ex=ex['id'], src=ex['dstinc'], dst=ex['srcinc'], status=status, type=ex['rtype'])
            w.on_wire('rep_sent', ex)
            fate = w.fate('rep', ex)
            if conn.dead or conn.cut['s']:
                ex['rfate'] = 'void'
                return
            self.apply_reply(conn, ex, head, body, raw, fate)

    def _req_arrived(self, ex):
        ex['t_dlv'], ex['s_dlv'] = clock.mono, self.world.seq()
        self.world.rec('req_dlv', ex=ex['id'])
        self.world.on_wire('req_dlv', ex)

    def _rep_arrived(self, ex, status, body):
        ex['t_rdlv'], ex['s_rdlv'] = clock.mono, self.world.seq()
        ex['rdlv_status'], ex['rdlv_body'] = status, body
        self.world.rec('rep_dlv', ex=ex['id'])
        self.world.on_wire('rep_dlv', ex)

    def apply_request(self, conn, ex, raw, fate):
        lat = self.latency(conn, 'c')
        kind = fate['do'] if fate else 'ok'
        ex['fate'] = kind
        seg = 1 + (self.world.hash01('seg', ex['src'], ex['n']) < 0.2) * 2
        arrived = lambda: self._req_arrived(ex)      # noqa
        if kind == 'ok':
            conn.ship('c', raw, lat, arrived, seg)
        elif kind == 'delay':
            conn.ship('c', raw, lat + fate['by'], arrived, seg)
        elif kind == 'drop':                      # never arrives, connection silently dies
            conn.dead = True
        elif kind == 'reset':                     # connection reset before the peer saw it all
            part = raw[:int(len(raw) * fate.get('frac', 0.5))]
            if part:
                conn.ship('c', part, lat, *([arrived] if len(part) == len(raw) else []))
            conn.reset_both(lat + 0.001)
        elif kind == 'dup':                       # a middlebox replays the request on its own connection
            conn.ship('c', raw, lat, arrived, seg)
            self.at(clock.mono + lat + fate.get('by', 0.01), self.ghost, conn, ex, raw)
        else:
            raise AssertionError(kind)

    def apply_reply(self, conn, ex, head, body, raw, fate):
        lat = self.latency(conn, 's')
        kind = fate['do'] if fate else 'ok'
        ex['rfate'] = kind
        status = ex['status']
        seg = 1 + (self.world.hash01('rseg', ex['src'], ex['n']) < 0.2) * 2
        if kind == 'ok':
            conn.ship('s', raw, lat, lambda: self._rep_arrived(ex, status, body), seg)
        elif kind == 'delay':
            conn.ship('s', raw, lat + fate['by'], lambda: self._rep_arrived(ex, status, body), seg)
        elif kind == 'drop':
            conn.dead = True
        elif kind == 'reset':
            part = raw[:int(len(raw) * fate.get('frac', 0.5))]
            if part:
                conn.ship('s', part, lat, *([lambda: self._rep_arrived(ex, status, body)] if len(part) == len(raw) else []))
            conn.reset_both(lat + 0.001)
        elif kind == 'trunc':                     # short body, then an orderly close
            part = raw[:max(len(head), int(len(raw) * fate.get('frac', 0.7)))]
            conn.ship('s', part[:-1], lat)
            conn.cut['s'] = False
            conn.fin('s')
            conn.cut['s'] = True
        elif kind == 'replace':                   # a proxy answers instead
            b = fate['body'].encode('latin1')
            st = fate['status']
            h = (f'HTTP/1.1 {st} X\r\nContent-Type: {fate.get("ctype", "application/xml")}\r\n'
                 f'Content-Length: {len(b)}\r\n\r\n').encode()
            conn.ship('s', h + b, lat, lambda: self._rep_arrived(ex, st, b), seg)
        else:
            raise AssertionError(kind)

    def ghost(self, conn, ex, raw):
        """Second delivery of the same request bytes from a middlebox."""
        li = self.listeners.get((conn.server_ip, conn.port))
        if li is None or not li[0].alive:
            return
        w = self.world
        snode, sfactory, sctx = li
        g = Conn(self, w.ghost_node, snode, conn.port, len(self.conns))
        self.conns.append(g)
        g.tls = conn.tls
        sextra = {k: v for k, v in (conn.st._extra if conn.st else {}).items()}
        sproto = snode.ctx.copy().run(sfactory)

        class Sink(asyncio.Protocol):
            pass
        g.ct = SimTransport(g, 'c', w.ghost_node, Sink(), {})
        g.st = SimTransport(g, 's', snode, sproto, sextra)
        g.st._dispatch(sproto.connection_made, g.st)
        head, body = raw.split(b'\r\n\r\n', 1)
        ex2 = dict(ex)
        ex2.update(id=len(w.exchanges), conn=g.id, src='ghost', srcinc='ghost', orig=ex['id'], t_sent=clock.mono,
                   s_sent=w.seq(), t_dlv=None, s_dlv=None, reps=[], fate='ghost', rfate=None, dstinc=snode.label,
                   status=None, rbody=None, rtype=None, t_rep=None, s_rep=None, t_rdlv=None, s_rdlv=None,
                   rdlv_body=None, rdlv_status=None)
        w.exchanges.append(ex2)
        w.rec('req', ex=ex2['id'], src='ghost', dst=ex2['dstinc'], type=ex2['type'], n=0)
        g.inflight.append(ex2)
        g.ship('c', raw, 0.001, lambda: self._req_arrived(ex2))

    # ------------------------------------------------------------ node lifecycle
    def node_crashed(self, node, silent):
        for key in [k for k, v in self.listeners.items() if v[0] is node]:
            del self.listeners[key]
        for c in self.conns:
            if c.dead:
                continue
            if c.cnode is node:
                c.node_died('c', silent)
            elif c.snode is node:
                c.node_died('s', silent)


def install_connect_hook(world_ref):
    import aiohappyeyeballs

    async def start_connection(addr_infos, **kw):
        return await world_ref().net.start_connection(addr_infos, **kw)
    aiohappyeyeballs.start_connection = start_connection
