"""A scripted OpenWebNet gateway, written from docs/original only (shares no code with pyown)."""
import asyncio

from . import ref

ACK = "*#*1##"
NACK = "*#*0##"
LENGTH = {"none": 1, "open": 2, "hmac1": 4, "hmac2": 4}      # frames the client sends in a handshake


class Conn(asyncio.Protocol):
    """Gateway side of one connection: records every byte and frame the client sends."""

    def __init__(self, loop, index):
        self.loop = loop
        self.index = index
        self.transport = None
        self.client_transport = None
        self.client_protocol = None
        self.raw = b""
        self._rest = b""
        self.frames = []          # (virtual time, text)
        self._queue = asyncio.Queue()
        self.sent = []            # (virtual time, bytes)
        self.eof_at = None
        self.lost_at = None
        self.lost_exc = None
        self.opened_at = loop.now
        self.half_closed = False

    # asyncio.Protocol
    def connection_made(self, transport):
        self.transport = transport

    def data_received(self, data):
        self.raw += data
        self._rest += data
        while True:
            i = self._rest.find(b"##")
            if i < 0:
                break
            frame, self._rest = self._rest[: i + 2], self._rest[i + 2:]
            text = frame.decode("latin-1")
            self.frames.append((self.loop.now, text))
            self._queue.put_nowait(text)

    def eof_received(self):
        if self.eof_at is None:
            self.eof_at = self.loop.now
        self._queue.put_nowait(None)
        return False

    def connection_lost(self, exc):
        self.lost_exc = exc
        if self.lost_at is None:
            self.lost_at = self.loop.now
        if self.eof_at is None:
            self.eof_at = self.loop.now
        self._queue.put_nowait(None)

    # helpers for scripts
    @property
    def texts(self):
        return [f for _, f in self.frames]

    @property
    def client_gone(self):
        return self.eof_at is not None

    async def recv(self):
        """Next frame of the client, None when the client closed."""
        item = await self._queue.get()
        if item is None:
            self._queue.put_nowait(None)
        return item

    def write(self, data):
        if isinstance(data, str):
            data = data.encode("latin-1")
        self.sent.append((self.loop.now, data))
        if self.transport is not None and not self.transport.is_closing() and not self.half_closed:
            self.transport.write(data)

    async def write_cuts(self, data, cuts, gap=0.001):
        """Writes data cut at the given offsets, each piece is a separate segment for the client."""
        if isinstance(data, str):
            data = data.encode("latin-1")
        prev = 0
        for c in list(cuts) + [len(data)]:
            if c > prev:
                self.write(data[prev:c])
                await asyncio.sleep(gap)
            prev = max(prev, c)

    def half_close(self):
        """The gateway stops sending but still reads."""
        self.half_closed = True
        if self.transport is not None and not self.transport.is_closing():
            self.transport.write_eof()

    def close(self):
        if self.transport is not None:
            self.transport.close()

    def reset(self):
        """The client sees ECONNRESET."""
        t = self.client_transport
        if t is not None and not t.is_closing():
            t._force_close(ConnectionResetError(104, "Connection reset by peer"))
        if self.transport is not None:
            self.transport.abort()


class Endpoint:
    """One address (host, port) of the fake network."""

    def __init__(self, script, *, refuse=None, sndbuf=None, connect_delay=0.0):
        self.script = script
        self.refuse = refuse
        self.sndbuf = sndbuf
        self.connect_delay = connect_delay
        self.conns = []
        self.attempts = 0
        self.tasks = []
        self.errors = []

    async def before_connect(self):
        if self.connect_delay:
            await asyncio.sleep(self.connect_delay)
        if self.refuse:
            return {
                "refused": ConnectionRefusedError(111, "Connection refused"),
                "unreach": OSError(113, "No route to host"),
                "gai": OSError(-2, "Name or service not known"),
            }[self.refuse]
        return None

    def new_connection(self, loop):
        c = Conn(loop, len(self.conns))
        self.conns.append(c)
        return c

    def connected(self, conn):
        task = conn.loop.create_task(self._run(conn))
        self.tasks.append(task)

    async def _run(self, conn):
        try:
            await self.script(conn)
        except asyncio.CancelledError:
            raise
        except Exception as e:  # a bug of the harness, never of the code under test
            import traceback
            self.errors.append(traceback.format_exc())

    @property
    def conn(self):
        return self.conns[-1]


async def handshake(conn, auth, session_out=None):
    """A correct gateway handshake. auth: dict(mode=none|open|hmac1|hmac2, password=, nonce=, ra=, tail=).

    tail: what the gateway sends in the same segment as its last frame of the handshake.

    Returns True when the client is accepted; on a wrong answer sends NACK and closes, as real gateways do.
    """
    conn.write(ACK)
    f = await conn.recv()
    if f is None:
        return False
    conn.session_frame = f
    mode = auth.get("mode", "none")
    tail = auth.get("tail", "")
    if mode == "none":
        conn.write(ACK + tail)
        return True
    if mode == "open":
        conn.write(f"*#{auth['nonce']}##")
        f = await conn.recv()
        if f is None:
            return False
        if f == f"*#{ref.open_pass(int(auth['password']), auth['nonce'])}##":
            conn.write(ACK + tail)
            return True
        conn.write(NACK)
        conn.close()
        return False
    algo = {"hmac1": 1, "hmac2": 2}[mode]
    conn.write(f"*98*{algo}##")
    f = await conn.recv()
    if f != ACK:
        conn.close()
        return False
    ra = auth["ra"]
    conn.write(f"*#{ref.to_digits(ra)}##")
    f = await conn.recv()
    rb = ref.check_hmac_answer(f, algo, ra, auth["password"])
    if rb is None:
        conn.write(NACK)
        conn.close()
        return False
    conn.write(f"*#{ref.to_digits(ref.hmac_server(algo, ra, rb, auth['password']))}##" + tail)
    f = await conn.recv()
    if f != ACK:
        conn.close()
        return False
    return True
