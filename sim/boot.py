"""Seams for time and randomness.  Must be imported before anything else that
reads a clock (asyncio, aiohttp, apscheduler, openleadr ...).

Every clock reading in the process goes through `clock`:
  * clock.mono    - virtual monotonic seconds (the event loop's time)
  * clock.epoch   - virtual UTC at mono == 0
  * per-node wall clock skew is looked up through the NODE context variable.
Every byte of randomness that library code draws (uuid4 -> os.urandom, random.*)
comes from a PRNG derived from the run's seed and the drawing node.
"""
import sys
import contextvars
import datetime as _dtmod
import hashlib
import os
import random as _random
import time as _time

NODE = contextvars.ContextVar('sim_node', default=None)   # the running node (or None: simulator)

real_time = _time.time
real_monotonic = _time.monotonic
real_perf_counter = _time.perf_counter
real_urandom = os.urandom
real_datetime = _dtmod.datetime

DEFAULT_EPOCH = 1709640000.0     # 2024-03-05T12:00:00Z


class Clock:
    def __init__(self):
        self.mono = 0.0
        self.epoch = DEFAULT_EPOCH
        self.zones = None           # how the applications write their datetimes

    def utc(self):
        """True simulated UTC (no skew)."""
        return self.epoch + self.mono

    def wall(self):
        node = NODE.get()
        if node is None:
            return self.epoch + self.mono
        return self.epoch + self.mono + node.skew


clock = Clock()


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real_datetime)


class SimDatetime(real_datetime, metaclass=_Meta):
    __slots__ = ()

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(clock.wall(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(clock.wall(), _dtmod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(clock.wall())


SimDatetime.__name__ = 'datetime'
SimDatetime.__qualname__ = 'datetime'
SimDatetime.__module__ = 'datetime'


class _Streams:
    """Random bytes per node, from (seed, node name, incarnation)."""
    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.seed = seed
        self.rngs = {}

    def get(self):
        node = NODE.get()
        name = node.label if node is not None else '-'
        rng = self.rngs.get(name)
        if rng is None:
            h = hashlib.sha256(f'{self.seed}/{name}'.encode()).digest()
            rng = self.rngs[name] = _random.Random(int.from_bytes(h, 'big'))
        return rng


streams = _Streams()


def _urandom(n):
    return streams.get().randbytes(n)


def _per_node(name):
    def f(*a, **kw):
        return getattr(streams.get(), name)(*a, **kw)
    f.__name__ = name
    return f


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for m in ('asyncio', 'aiohttp', 'apscheduler', 'openleadr'):
        if m in sys.modules:
            raise RuntimeError(f'{m} was imported before the simulated clock')
    _dtmod.datetime = SimDatetime
    _time.time = clock.wall
    _time.time_ns = lambda: int(clock.wall() * 1e9)
    _time.monotonic = lambda: clock.mono
    _time.monotonic_ns = lambda: int(clock.mono * 1e9)

    def _no_sleep(s):
        raise RuntimeError('time.sleep() called inside the simulation')
    _time.sleep = _no_sleep
    os.urandom = _urandom
    _random._urandom = _urandom
    # the module-level functions of random draw from the running process's own stream
    for name in ('random', 'uniform', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'getrandbits', 'choices',
                 'gauss', 'triangular', 'betavariate', 'expovariate', 'normalvariate', 'randbytes'):
        setattr(_random, name, _per_node(name))


def reset(seed, epoch=DEFAULT_EPOCH, tz='UTC', zones=None):
    """Start of one run."""
    clock.mono = 0.0
    clock.epoch = epoch
    clock.zones = zones
    streams.reset(seed)
    _random.seed(seed)
    os.environ['TZ'] = tz
    _time.tzset()
    if 'tzlocal' in sys.modules:
        import tzlocal
        try:
            tzlocal.reload_localzone()
        except Exception:
            pass


install()
