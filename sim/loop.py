"""Virtual-time asyncio event loop.

asyncio itself guarantees FIFO execution of ready callbacks inside one process,
so the schedule choices that exist in a real deployment are *when* things become
ready: network delivery, timers, handler latencies, process stalls and crashes.
All of those come from the plan; the loop adds none of its own.
"""
from . import boot
from .boot import clock, NODE
import asyncio
import heapq
from asyncio import events


class StepLimit(BaseException):
    pass


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, world):
        super().__init__()
        self.world = world
        self.steps = 0
        self.max_steps = 10 ** 9
        self.set_debug(False)
        self.slow_callback_duration = 1e9

    # -- BaseEventLoop plumbing ------------------------------------------------
    def time(self):
        return clock.mono

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _run_once(self):
        sched = self._scheduled
        ready = self._ready
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(sched)
            h._scheduled = False
        if not ready and not self._stopping:
            if not sched:
                raise RuntimeError('simulation ran out of events')
            if sched[0]._when > clock.mono:
                clock.mono = sched[0]._when
        end = clock.mono
        while sched and sched[0]._when <= end:
            h = heapq.heappop(sched)
            h._scheduled = False
            ready.append(h)
        n = len(ready)
        for _ in range(n):
            h = ready.popleft()
            if h._cancelled:
                continue
            node = h._context.get(NODE)
            if node is not None:
                if not node.alive:
                    continue
                if node.paused:
                    node.deferred.append(h)
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                self.world.step_limit_hit = True
                self.stop()
                ready.clear()
                return
            h._run()
        h = None

    def undefer(self, handles):
        self._ready.extend(handles)

    # -- things a real loop would hand to threads / the OS -----------------------
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as e:          # noqa
            fut.set_exception(e)
        return fut

    async def getaddrinfo(self, host, port, **kw):
        raise OSError(f'name resolution is not simulated ({host})')

    async def create_connection(self, protocol_factory, host=None, port=None, *, sock=None,
                                ssl=None, server_hostname=None, **kw):
        return await self.world.net.attach_client(protocol_factory, sock, ssl, server_hostname)

    async def create_server(self, protocol_factory, host=None, port=None, *, ssl=None, **kw):
        return self.world.net.listen(protocol_factory, host, port, ssl)

    def call_exception_handler(self, context):
        self.world.loop_error(context)

    def add_signal_handler(self, *a, **k):
        raise NotImplementedError

    def remove_signal_handler(self, *a, **k):
        return False
