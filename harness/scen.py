"""Building blocks shared by the checks: a client connected to a scripted gateway, on the virtual loop."""
import asyncio
import random

from pyown.client import Client, SessionType

from . import gateway, ref, vloop

HOST, PORT = "gw", 20000
CMD, OLDCMD, EVENT = SessionType.CommandSession, SessionType.OldCommandSession, SessionType.EventSession
SESSIONS = {"cmd": CMD, "oldcmd": OLDCMD, "event": EVENT}
SESSION_FRAME = {"cmd": "*99*9##", "oldcmd": "*99*0##", "event": "*99*1##"}
IDLE = [20, 70, 130, 400, 1000, 4000, 90000, 1_000_000]      # seconds a session may stay unused
ACK, NACK = gateway.ACK, gateway.NACK


def auth_of(mode, rng=None, password="12345"):
    rng = rng or random.Random(7)
    a = {"mode": mode, "password": password}
    if mode == "open":
        a["nonce"] = "".join(rng.choice("123456789") for _ in range(9))
    elif mode in ("hmac1", "hmac2"):
        n = ref.HEXLEN[{"hmac1": 1, "hmac2": 2}[mode]]
        a["ra"] = "".join(rng.choice("0123456789abcdef") for _ in range(n))
    return a


def endpoint(loop, *, auth=None, responder=None, after=None, host=HOST, port=PORT, **kw):
    """A well behaved gateway; responder(conn, frame) is called for each frame after the handshake."""
    auth = auth or {"mode": "none"}

    async def script(conn):
        conn.requests = []
        conn.ok = await gateway.handshake(conn, auth)
        conn.base = gateway.LENGTH[auth.get("mode", "none")] if conn.ok else len(conn.frames)
        if not conn.ok:
            return
        if after is not None:
            await after(conn)
        while True:
            f = await conn.recv()
            if f is None:
                return
            conn.requests.append((loop.now, f))
            if responder is not None:
                await responder(conn, f)

    ep = gateway.Endpoint(script, **kw)
    loop.endpoints[(host, port)] = ep
    return ep


def client(session="cmd", *, host=HOST, port=PORT, password="12345"):
    return Client(host, port, password, SESSIONS[session])


async def connected(loop, session="cmd", **kw):
    password = (kw.get("auth") or {}).get("password", "12345")
    ep = endpoint(loop, **kw)
    c = client(session, password=password)
    await c.start()
    await asyncio.sleep(0)
    return c, ep.conns[-1], ep


def sent_after_handshake(conn):
    """The frames the client wrote after the handshake."""
    return [f for _, f in conn.frames[getattr(conn, "base", 0):]]


async def outcome(coro):
    """('ok', value) or ('exc', exception); a coroutine that never ends is reported by the virtual loop."""
    try:
        return "ok", await coro
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return "exc", e


async def collect(agen):
    """Items of an async generator and how it ended."""
    items = []
    try:
        async for x in agen:
            items.append(x)
    except asyncio.CancelledError:
        raise
    except Exception as e:
        return items, e
    return items, None


def run(main, **kw):
    return vloop.run(main, **kw)[0]
