"""One simulated run: nodes, clocks, faults, recorded history."""
from . import boot
from .boot import clock, NODE
import asyncio
import builtins
import functools
import contextvars
import gc
import hashlib
import importlib
import json
import logging
import os
import ssl
import struct
import sys

from .loop import SimLoop
from . import net as simnet

REPO = os.environ.get('VERIF_REPO', '/repo')
CURRENT = [None]


# ------------------------------------------------------------- package copies
class PkgCopy:
    """A private copy of the openleadr package (its own module globals), so that
    every simulated process has its own nonce cache, hooks, class attributes."""
    def __init__(self, idx):
        self.idx = idx
        self.modules = {}

    def load(self):
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'openleadr' or k.startswith('openleadr.')}
        try:
            importlib.import_module('openleadr')
            for m in ('client', 'server', 'messaging', 'utils', 'objects', 'enums', 'errors', 'hooks'):
                importlib.import_module('openleadr.' + m)
            self._collect()
        finally:
            for k in [k for k in sys.modules if k == 'openleadr' or k.startswith('openleadr.')]:
                del sys.modules[k]
            sys.modules.update(saved)
        # compile templates once, in the parent
        try:
            env = self.modules['openleadr.messaging'].TEMPLATES
            env.auto_reload = False
            for name in env.list_templates(extensions=['xml']):
                env.get_template(name)
        except Exception:
            pass
        return self

    def _collect(self):
        for k, v in sys.modules.items():
            if k == 'openleadr' or k.startswith('openleadr.'):
                self.modules[k] = v
                v.__dict__['__sim_copy__'] = self

    def __getattr__(self, name):
        try:
            return self.modules['openleadr.' + name]
        except KeyError:
            raise AttributeError(name)


_real_import = builtins.__import__


def _sim_import(name, globals=None, locals=None, fromlist=(), level=0):
    copy = globals.get('__sim_copy__') if globals else None
    if copy is None or not (level > 0 or name == 'openleadr' or name.startswith('openleadr.')):
        return _real_import(name, globals, locals, fromlist, level)
    sys.modules.update(copy.modules)
    try:
        r = _real_import(name, globals, locals, fromlist, level)
        copy._collect()
        return r
    finally:
        for k in [k for k in sys.modules if k == 'openleadr' or k.startswith('openleadr.')]:
            del sys.modules[k]


POOL = []


def preload(n=8):
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    import aiohttp                      # noqa
    from aiohttp import web             # noqa
    import apscheduler.schedulers.asyncio   # noqa
    import aiohappyeyeballs             # noqa
    import signxml.signer
    # reading the same private key over and over (50 ms each) is only done once
    signxml.signer.load_pem_private_key = functools.lru_cache(64)(signxml.signer.load_pem_private_key)
    simnet.install_ssl()
    simnet.install_connect_hook(lambda: CURRENT[0])
    for i in range(n):
        POOL.append(PkgCopy(i).load())
    check_path()
    builtins.__import__ = _sim_import
    gc.disable()
    gc.freeze()


def check_path():
    f = os.path.realpath(POOL[0].modules['openleadr'].__file__)
    if not f.startswith(os.path.realpath(REPO) + '/'):
        raise RuntimeError(f'openleadr was imported from {f}, not from {REPO}')


# ---------------------------------------------------------------------- nodes
class Host:
    def __init__(self, name, ip, skew=0.0):
        self.name, self.ip, self.skew = name, ip, skew
        self.host_down = False
        self.incs = []
        self.boot = None             # async function(inc): starts the process
        self.state = {}              # what survives a crash (application's database)

    @property
    def inc(self):
        return self.incs[-1] if self.incs else None


class Inc:
    """One process incarnation on a host."""
    def __init__(self, world, host, pkg):
        self.world, self.host, self.pkg = world, host, pkg
        self.label = f'{host.name}#{len(host.incs)}'
        self.alive = True
        self.paused = False
        self.deferred = []
        self.ctx = contextvars.Context()
        self.ctx.run(NODE.set, self)
        self.app = None

    @property
    def name(self):
        return self.host.name

    @property
    def ip(self):
        return self.host.ip

    @property
    def skew(self):
        return self.host.skew

    def spawn(self, coro, name=None):
        return self.ctx.copy().run(self.world.loop.create_task, coro)

    def call(self, fn, *args):
        self.world.loop.call_soon(fn, *args, context=self.ctx.copy())


class World:
    def __init__(self, plan):
        self.plan = plan
        self.seed = plan['seed']
        self.ctx = contextvars.Context()
        self.hist = []
        self.exchanges = []
        self._seq = 0
        self.faults = {}
        self.probes = {}
        self.hosts = {}
        self.net = simnet.Net(self)
        self.loop = None
        self.lat_counters = {}
        self.rules = [dict(r, _hits=0) for r in plan.get('rules', [])]
        self.triggers = [dict(r, _hits=0) for r in plan.get('triggers', [])]
        self.step_limit_hit = False
        self.errors = []
        self.next_pkg = 0
        self.opctl = None            # scenario's operation executor
        lat = plan.get('lat', {})
        self.lat_lo = lat.get('lo', 0.001)
        self.lat_hi = lat.get('hi', 0.02)
        self.lat_tail = lat.get('tail', 0.0)
        self.ghost_node = None
        self.derived = {}            # message with unsigned additions -> the signed original
        self.genuine = {}            # bodies signed by raw clients -> certificate

    # -------------------------------------------------------------- recording
    def seq(self):
        self._seq += 1
        return self._seq

    def rec(self, kind, **kw):
        e = {'s': self.seq(), 't': clock.mono, 'k': kind}
        e.update(kw)
        self.hist.append(e)
        return e

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def loop_error(self, context):
        exc = context.get('exception')
        if type(exc).__name__ == 'HookError':
            return
        self.rec('loop_error', msg=str(context.get('message')), exc=type(exc).__name__ if exc else None)

    # ------------------------------------------------------- plan-derived choices
    def hash01(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return struct.unpack('>Q', h)[0] / 2.0 ** 64

    def latency(self, a, b):
        n = self.lat_counters[(a, b)] = self.lat_counters.get((a, b), 0) + 1
        u = self.hash01('lat', a, b, n)
        lat = self.lat_lo + (self.lat_hi - self.lat_lo) * u
        if self.lat_tail and self.hash01('tail', a, b, n) < self.lat_tail:
            lat += 4.0 * self.hash01('tail2', a, b, n) ** 2
        # microsecond grid keeps float noise out of the replay files
        return round(lat, 6)

    # --------------------------------------------------------------- fault rules
    @staticmethod
    def _match(rule, ex):
        if 'src' in rule and rule['src'] != ex['src']:
            return False
        if 'dst' in rule and rule['dst'] != ex['dst']:
            return False
        if 'type' in rule and rule['type'] != ex['type']:
            return False
        if 'rtype' in rule and rule['rtype'] != ex['rtype']:
            return False
        if 'tmin' in rule and clock.mono < rule['tmin']:
            return False
        if 'tmax' in rule and clock.mono > rule['tmax']:
            return False
        return True

    def fate(self, direction, ex):
        chosen = None
        for r in self.rules:
            if r['dir'] != direction or not self._match(r, ex):
                continue
            r['_hits'] += 1
            if chosen is None and r['nth'] <= r['_hits'] < r['nth'] + r.get('count', 1):
                chosen = r
        if chosen is not None:
            self.fault(f"{direction}_{chosen['do']}")
            self.rec('fault', dir=direction, do=chosen['do'], ex=ex['id'])
        return chosen

    def on_wire(self, point, ex):
        for r in self.triggers:
            if r['at'] != point or not self._match(r, ex):
                continue
            r['_hits'] += 1
            if r['_hits'] == r['nth']:
                self.net.at(clock.mono + r.get('after', 0.0), self.do_op, r['op'])

    # ------------------------------------------------------------------ lifecycle
    def add_host(self, name, boot, skew=0.0):
        h = Host(name, f'10.0.0.{len(self.hosts) + 1}', skew)
        h.boot = boot
        self.hosts[name] = h
        self.net.by_ip[h.ip] = h
        return h

    def start(self, name):
        h = self.hosts[name]
        if h.inc and h.inc.alive:
            return h.inc
        if self.next_pkg >= len(POOL):
            self.rec('no_more_copies', host=name)
            return None
        pkg = POOL[self.next_pkg]
        self.next_pkg += 1
        h.host_down = False
        inc = Inc(self, h, pkg)
        h.incs.append(inc)
        self.rec('start', node=inc.label)
        inc.task = inc.spawn(self._boot(h, inc))
        return inc

    async def _boot(self, h, inc):
        try:
            await h.boot(inc)
        except asyncio.CancelledError:
            raise
        except Exception as e:
            self.rec('boot_error', node=inc.label, err=f'{type(e).__name__}: {e}')

    def crash(self, name, silent=False):
        h = self.hosts[name]
        inc = h.inc
        if not inc or not inc.alive:
            return
        self.fault('crash_host' if silent else 'crash_process')
        inc.alive = False
        inc.deferred = []
        h.host_down = silent
        self.rec('crash', node=inc.label)
        self.net.node_crashed(inc, silent)

    def pause(self, name):
        inc = self.hosts[name].inc
        if inc and inc.alive and not inc.paused:
            inc.paused = True
            self.fault('pause')
            self.rec('pause', node=inc.label)

    def resume(self, name):
        inc = self.hosts[name].inc
        if inc and inc.paused:
            inc.paused = False
            self.rec('resume', node=inc.label)
            d, inc.deferred = inc.deferred, []
            self.loop.undefer(d)

    def skew(self, name, delta):
        h = self.hosts[name]
        h.skew += delta
        self.fault('clock_jump')
        self.rec('clock_jump', host=name, delta=delta)

    # ----------------------------------------------------------------- operations
    def do_op(self, op):
        k = op['op']
        if k == 'crash':
            self.crash(op['node'], op.get('silent', False))
            if op.get('restart') is not None:
                self.net.at(clock.mono + op['restart'], self.start, op['node'])
        elif k == 'start':
            self.start(op['node'])
        elif k == 'pause':
            self.pause(op['node'])
            self.net.at(clock.mono + op['for'], self.resume, op['node'])
        elif k == 'skew':
            self.skew(op['node'], op['delta'])
        elif k == 'partition':
            p = {'a': op['a'], 'b': op['b'], 't1': clock.mono, 't2': clock.mono + op['for']}
            self.net.partitions.append(p)
            self.fault('partition')
            self.rec('partition', a=op['a'], b=op['b'], dur=op['for'])
        elif k == 'kill_conns':
            self.fault('kill_conns')
            self.rec('kill_conns', host=op['node'])
            for c in self.net.conns:
                if not c.dead and (c.cnode.name == op['node'] or c.snode.name == op['node']):
                    c.reset_both(0.001)
        else:
            self.opctl(op)

    # ----------------------------------------------------------------------- run
    def run(self, horizon, max_steps=400000):
        CURRENT[0] = self
        self.loop = SimLoop(self)
        self.net.loop = self.loop
        self.loop.max_steps = max_steps
        self.ghost_host = Host('ghost', '10.0.9.9')
        self.ghost_node = Inc(self, self.ghost_host, None)
        self.ghost_host.incs.append(self.ghost_node)

        def kickoff():
            for op in self.plan['ops']:
                self.net.at(op['t'], self.do_op, op)
            self.net.at(horizon, self.loop.stop)
        self.loop.call_soon(kickoff, context=self.ctx)
        self.ctx.copy().run(self.loop.run_forever)
        self.rec('end')

    def digest(self):
        h = hashlib.sha256()
        for e in self.hist:
            h.update(json.dumps(e, sort_keys=True, default=str).encode())
        for x in self.exchanges:
            h.update(repr((x['id'], x['src'], x['type'], x['t_sent'], x['t_dlv'], x['t_rep'], x['t_rdlv'],
                           x['status'])).encode())
            h.update(x['body'])
            h.update(x['rbody'] or b'')
        return h.hexdigest()
