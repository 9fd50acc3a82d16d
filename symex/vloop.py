"""Virtual-time asyncio event loop with a fake datagram network.

Shared by the symbolic runs and the native replays.  Time is an exact number of
milliseconds (possibly symbolic) inside ``VTime``.  One iteration of the loop
mirrors asyncio's: pending I/O first, then the timers that are due, then
everything that was ready when the iteration started.
"""
import asyncio
import contextvars

TICKS = 1000


class LoopStall(Exception):
    """Nothing left to run although the awaited coroutine has not finished"""


def ticks(x):
    """Seconds (int, float, symbolic int, VTime) -> milliseconds"""
    if isinstance(x, VTime):
        return x.t
    if isinstance(x, float):
        val = round(x * TICKS)
        if abs(val - x * TICKS) > 1e-6:
            raise ValueError("virtual time has a resolution of 1 ms")
        return val
    if type(x).__name__ == "SymFloat":
        from . import core
        parts = x._f
        if isinstance(parts, tuple) and TICKS % parts[1] == 0:
            return core.SymInt.from_value(parts[0]) * int(TICKS // parts[1])
        return ticks(float(x))
    return x * TICKS


class VTime:
    """An instant or a duration"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, other):
        return VTime(self.t + ticks(other))

    __radd__ = __add__

    def __sub__(self, other):
        return VTime(self.t - ticks(other))

    def __rsub__(self, other):
        return VTime(ticks(other) - self.t)

    def __eq__(self, other):
        return self.t == ticks(other)

    def __lt__(self, other):
        return self.t < ticks(other)

    def __le__(self, other):
        return self.t <= ticks(other)

    def __gt__(self, other):
        return self.t > ticks(other)

    def __ge__(self, other):
        return self.t >= ticks(other)

    def __float__(self):
        return float(self.t) / TICKS

    def __bool__(self):
        return bool(self.t != 0)

    def __repr__(self):
        return "VTime(%s)" % (self.t,)

    __hash__ = None


class Event:
    """Something the environment does at a given instant"""

    def __init__(self, when, fn):
        self.when = when
        self.fn = fn


class VirtualLoop(asyncio.AbstractEventLoop):
    def __init__(self, net):
        self.net = net
        self.net.loop = self
        self._now = VTime(0)
        self._ready = []
        self._timers = []
        self._events = []
        self._tasks = []
        self._running = False
        self._closed = False
        self.errors = []
        self.idle_hooks = []
        self.steps = 0

    # --------------------------------------------------- asyncio interface
    def time(self):
        return self._now

    def get_debug(self):
        return False

    def is_running(self):
        return self._running

    def is_closed(self):
        return self._closed

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        task = asyncio.Task(coro, loop=self, name=name, context=context)
        task._log_destroy_pending = False
        self._tasks.append(task)
        return task

    def set_task_factory(self, factory):
        raise NotImplementedError

    def get_task_factory(self):
        return None

    def call_soon(self, callback, *args, context=None):
        handle = asyncio.Handle(callback, args, self, context)
        self._ready.append(handle)
        return handle

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        if delay is None:
            raise TypeError("delay must not be None")
        return self.call_at(self._now + delay, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        if when is None:
            raise TypeError("when cannot be None")
        if not isinstance(when, VTime):
            when = VTime(ticks(when))
        timer = asyncio.TimerHandle(when, callback, args, self, context)
        timer._scheduled = True
        self._timers.append(timer)
        return timer

    def _timer_handle_cancelled(self, handle):
        pass

    def call_exception_handler(self, context):
        self.errors.append((context.get("message"), context.get("exception")))

    def default_exception_handler(self, context):
        self.call_exception_handler(context)

    def get_exception_handler(self):
        return None

    def set_exception_handler(self, handler):
        pass

    async def shutdown_asyncgens(self):
        pass

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **_kwargs):
        await asyncio.sleep(0)
        transport = Transport(self, local_addr, remote_addr)
        err = self.net.opening(transport)
        if err is not None:
            raise err
        protocol = protocol_factory()
        transport.protocol = protocol
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(lambda: waiter.done() or waiter.set_result(None))
        await waiter
        self.net.opened(transport)
        return transport, protocol

    # ----------------------------------------------------------- scheduling
    def at(self, when_ms, fn):
        """Environment action at an absolute instant (ms)"""
        self._events.append(Event(VTime(when_ms), fn))

    def _due(self):
        self._timers = [t for t in self._timers if not t._cancelled]
        items = self._events + self._timers
        if not items:
            return False
        first = None
        for item in items:
            when = item.when if isinstance(item, Event) else item._when
            if first is None or when < first:
                first = when
        if self._now < first:
            self._now = first
        now = self._now
        events = []
        for ev in self._events:
            if ev.when <= now:
                events.append(ev)
        self._events = [e for e in self._events if not any(e is d for d in events)]
        timers = []
        for timer in self._timers:
            if timer._when <= now:
                # keep the order of the deadlines
                pos = len(timers)
                while pos > 0 and timer._when < timers[pos - 1]._when:
                    pos -= 1
                timers.insert(pos, timer)
        self._timers = [t for t in self._timers if not any(t is d for d in timers)]
        for ev in events:
            self._ready.append(asyncio.Handle(ev.fn, (), self, contextvars.Context()))
        for timer in timers:
            timer._scheduled = False
            self._ready.append(timer)
        return True

    def _once(self):
        """One iteration; False when nothing can happen any more"""
        self.steps += 1
        if self.steps > 20000:
            raise LoopStall("more than 20000 loop iterations")
        if not self._ready:
            if not self._due():
                return False
        todo, self._ready = self._ready, []
        for handle in todo:
            if not handle._cancelled:
                handle._run()
        return True

    def _enter(self):
        asyncio._set_running_loop(self)
        self._running = True

    def _leave(self):
        self._running = False
        asyncio._set_running_loop(None)

    def run_until_complete(self, coro):
        self._enter()
        try:
            task = coro if asyncio.isfuture(coro) else self.create_task(coro)
            while not task.done():
                if not self._once():
                    raise LoopStall("deadlock: nothing left to happen")
            return task.result()
        finally:
            self._leave()

    def settle(self):
        """Run until nothing is ready; time does not advance"""
        self._enter()
        try:
            while self._ready:
                self._once()
        finally:
            self._leave()

    def run_until(self, when_ms):
        """Run everything up to and including an instant"""
        fired = []
        self.at(when_ms, lambda: fired.append(True))
        self._enter()
        try:
            while not fired:
                self._once()
            while self._ready:
                self._once()
        finally:
            self._leave()

    def close(self):
        self._closed = True
        for task in self._tasks:
            if not task.done():
                try:
                    task.get_coro().close()
                except BaseException:  # noqa: B902  engine control flow must not leak out of a discarded coroutine
                    pass
        self._ready = []
        self._timers = []
        self._events = []
        self._tasks = []


class Transport(asyncio.DatagramTransport):
    def __init__(self, loop, local_addr, remote_addr):
        super().__init__()
        self.loop = loop
        self.local_addr = local_addr
        self.remote_addr = remote_addr
        self.protocol = None
        self.closed = False

    def sendto(self, data, addr=None):
        if isinstance(data, str) or not hasattr(data, "__len__"):
            raise TypeError("data argument must be a bytes-like object, not %s" % type(data).__name__)
        if self.closed:
            return
        self.loop.net.sent(self, data, addr)

    def close(self):
        if not self.closed:
            self.closed = True
            self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    def lose(self, exc):
        """The socket fails"""
        if not self.closed:
            self.closed = True
            self.loop.call_soon(self.protocol.connection_lost, exc)

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return self.remote_addr
        if name == "sockname":
            return self.local_addr
        return default

    def deliver(self, data, addr=None):
        """A datagram arrives from the network"""
        if not self.closed:
            self.protocol.datagram_received(data, addr or self.remote_addr)


class Net:
    """Records what is sent; ``responders`` may react to it"""

    def __init__(self):
        self.loop = None
        self.transports = []
        self.log = []          # (ms, transport, data, addr)
        self.on_send = None
        self.on_open = None
        self.fail_open = None

    def opening(self, transport):
        if self.fail_open is not None:
            return self.fail_open(transport)
        return None

    def opened(self, transport):
        self.transports.append(transport)
        if self.on_open:
            self.on_open(transport)

    def sent(self, transport, data, addr):
        self.log.append((self.loop._now.t, transport, data, addr))
        if self.on_send:
            self.on_send(transport, data, addr)
