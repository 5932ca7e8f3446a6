"""A deterministic asyncio event loop for the monitors.

* Virtual clock: loop.time() only moves when nothing is runnable, so a 5 second timeout costs nothing and the
  machine's load cannot change an outcome.
* Real transports: connections are real asyncio socket transports over a socketpair whose other end is a scripted
  gateway living in the same loop.
* Quiescence detection: nothing runnable, no timer pending => the awaited thing can never happen ("hang"), which is
  reported at once instead of after a wall clock timeout.
"""
import asyncio
import selectors
import socket

from . import clock


DEBUG = False           # asyncio's debug mode
ON_CONTEXT = None       # called with what reaches the exception handler
COUNT = [0]


class HarnessError(Exception):
    """A bug of the scripts of the harness, says nothing about the code under test."""


class Quiescent(Exception):
    """Nothing can ever run again, but the scenario is not finished."""


class Horizon(Exception):
    """The scenario needed more virtual time or steps than any correct execution does."""


class _VSelector:
    def __init__(self, loop):
        self._sel = selectors.DefaultSelector()
        self._loop = loop

    def select(self, timeout=None):
        events = self._sel.select(0)
        if events:
            return events
        if timeout is None:
            self._loop._stalled("quiescent")
            return []
        if timeout > 0:
            self._loop._advance(timeout)
        return []

    def __getattr__(self, name):
        return getattr(self._sel, name)


class _Sock(socket.socket):
    """One end of a socket pair that answers like a TCP socket."""
    peer = ("192.0.2.35", 20000)
    own = ("192.0.2.9", 40000)

    def getpeername(self):
        super().getpeername()
        return self.peer

    def getsockname(self):
        return self.own

    def setsockopt(self, level, *args):
        if level != socket.IPPROTO_TCP:
            super().setsockopt(level, *args)

    def getsockopt(self, level, *args):
        return 0 if level == socket.IPPROTO_TCP else super().getsockopt(level, *args)


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, horizon=1e7, max_steps=400_000):
        self._vnow = 1000.0
        self._vstart = self._vnow
        self._horizon = horizon
        self._max_steps = max_steps
        self._steps = 0
        self.stall = None
        self.contexts = []
        self.endpoints = {}      # (host, port) -> Endpoint
        self.connections = []    # every client side (transport, protocol)
        super().__init__(_VSelector(self))
        self._clock_resolution = 1e-7       # more than the spacing of floats at the horizon

    # -- virtual time -----------------------------------------------------
    def time(self):
        return self._vnow

    @property
    def now(self):
        return self._vnow - self._vstart

    def _advance(self, dt):
        self._vnow += dt
        if self._vnow - self._vstart > self._horizon:
            self._stalled("horizon")

    def _stalled(self, why):
        if self.stall is None:
            self.stall = why
        self.stop()

    def _run_once(self):
        self._steps += 1
        if self._steps > self._max_steps:
            self._stalled("steps")
        # a timer is due when time() reaches it exactly, avoid float residue
        if self._scheduled:
            when = self._scheduled[0]._when
            if 0 < when - self._vnow < 1e-6:
                self._vnow = when
        super()._run_once()

    # -- recording --------------------------------------------------------
    def call_exception_handler(self, context):
        if ON_CONTEXT is not None:
            ON_CONTEXT(context)
        self.contexts.append({k: repr(v) for k, v in context.items()})
        super().call_exception_handler(context)

    def default_exception_handler(self, context):
        if ON_CONTEXT is not None and "context" in context:      # the handler itself failed
            ON_CONTEXT(context)
        super().default_exception_handler(context)

    # -- connections ------------------------------------------------------
    async def create_connection(self, protocol_factory, host=None, port=None, **kwargs):
        ep = self.endpoints.get((host, port))
        if ep is None:
            raise ConnectionRefusedError(111, f"Connect call failed ({host!r}, {port!r})")
        ep.attempts += 1
        err = await ep.before_connect()
        if err is not None:
            raise err
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        a = _Sock(socket.AF_UNIX, socket.SOCK_STREAM, 0, fileno=a.detach())
        a.peer = ("192.0.2.35", port)
        a.own = ("192.0.2.9", 40000 + len(self.connections))
        a.setblocking(False)
        b.setblocking(False)
        if ep.sndbuf:
            a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, ep.sndbuf)
        conn = ep.new_connection(self)
        await super().connect_accepted_socket(lambda: conn, sock=b)
        transport, protocol = await super().create_connection(protocol_factory, sock=a)
        conn.client_transport = transport
        conn.client_protocol = protocol
        self.connections.append((transport, protocol))
        ep.connected(conn)
        return transport, protocol


def run(main, *, horizon=1e7, max_steps=400_000):
    """Runs main(loop) on a fresh virtual loop, returns (result, loop).

    Raises Quiescent/Horizon when the scenario itself cannot finish.
    """
    loop = VirtualLoop(horizon=horizon, max_steps=max_steps)
    COUNT[0] += 1
    loop.set_debug(DEBUG)
    asyncio.set_event_loop(loop)
    outer, clock.loop = clock.loop, loop
    try:
        task = loop.create_task(main(loop))
        try:
            result = loop.run_until_complete(task)
        except RuntimeError:
            if loop.stall is None:
                raise
            if loop.stall == "quiescent":
                raise Quiescent(f"deadlock at virtual t={loop.now:.3f}") from None
            raise Horizon(f"no progress: {loop.stall} limit at virtual t={loop.now:.3f}") from None
        for ep in loop.endpoints.values():
            if ep.errors:
                raise HarnessError(ep.errors[0])
        return result, loop
    finally:
        _drain(loop)
        clock.loop = outer
        asyncio.set_event_loop(None)
        loop.close()


def _drain(loop):
    loop._horizon = loop.now + 1e9
    loop._max_steps = loop._steps + 20_000
    loop.stall = None
    pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
    for t in pending:
        t.cancel()
    for _ in range(3):
        pending = [t for t in pending if not t.done()]
        if not pending:
            break
        try:
            loop.stall = None
            loop.run_until_complete(asyncio.wait(pending, timeout=1))
        except Exception:
            pass
    for transport, _ in loop.connections:
        try:
            transport.abort()
        except Exception:
            pass
    for ep in loop.endpoints.values():
        for c in ep.conns:
            if c.transport is not None:
                c.transport.abort()
    try:
        loop.stall = None
        loop.run_until_complete(asyncio.sleep(0.001))
    except Exception:
        pass
