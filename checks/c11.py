"""C11: session discipline."""
import asyncio
import random

from harness import methods, ref, scen

RULE = ("every public item method and client primitive on event sessions, command sessions, never started and closed clients, with events "
        "arriving meanwhile; monitored: exception class and every byte the gateway receives; distinct = (state, call)")
N = {"quick": 1000, "thorough": 16000}
REQUIRE = {"refused": 500, "states": 50}
ISOLATE = True


def fixed(tier):
    for state in ("event", "unstarted_cmd", "unstarted_event", "closed_cmd", "closed_event", "lost_closed_cmd"):
        for part in range(8):
            yield {"state": state, "seed": 1, "part": part, "parts": 8, "events": 3}
    for s in scen.SESSIONS:
        yield {"state": "kind", "session": s, "seed": 1}
    yield {"state": "cmdloop", "session": "cmd", "seed": 1}
    yield {"state": "cmdloop", "session": "oldcmd", "seed": 1}
    yield {"state": "force", "seed": 1}
    yield {"state": "callback", "seed": 1}
    yield {"state": "callback", "seed": 2, "cmd_client": True}


def rand(rng, tier):
    st = rng.choice(["event"] * 4 + ["unstarted_cmd", "unstarted_event", "closed_cmd", "closed_event", "lost_closed_cmd", "force", "callback",
                                     "cmdloop"])
    return {"state": st, "session": rng.choice(["cmd", "oldcmd"]), "seed": rng.randint(0, 1 << 30), "part": rng.randint(0, 7), "parts": 8,
            "events": rng.randint(0, 6), "cmd_client": rng.random() < .5}


def run(case, mon):
    rng = random.Random(case["seed"])
    mon.obs("states")
    state = case["state"]
    {"kind": kind, "cmdloop": cmdloop, "force": force, "callback": callback}.get(state, refuse)(case, mon, rng)


def kind(case, mon, rng):
    async def main(loop):
        s = case["session"]
        c = scen.client(s)
        mon.check(c.is_cmd_session() is (s != "event"), "is_cmd_session is wrong", session=s)
    scen.run(main)


def cmdloop(case, mon, rng):
    from pyown.exceptions import InvalidSession

    async def main(loop):
        c, conn, ep = await scen.connected(loop, case["session"])
        k, v = await scen.outcome(c.loop())
        mon.check(k == "exc" and isinstance(v, InvalidSession), "loop() on a command session", got=repr(v))
        mon.check(len(conn.texts) == 1, "loop() wrote something", frames=conn.texts)
    scen.run(main)


def force(case, mon, rng):
    from pyown.messages import parse_message

    async def main(loop):
        c, conn, ep = await scen.connected(loop, "event")
        frames = [ref.rnd_frame(rng) for _ in range(5)]
        for f in frames:
            await c.send_message(parse_message(f), force=True)
        await asyncio.sleep(1)
        mon.check(scen.sent_after_handshake(conn) == frames, "force=True did not send the frames", got=scen.sent_after_handshake(conn),
                  expected=frames)
    scen.run(main)


def callback(case, mon, rng):
    """A callback that uses its item to send a command."""
    from pyown.exceptions import InvalidSession
    from pyown.items import Light
    seen = []

    async def main(loop):
        other = None
        if case.get("cmd_client"):
            cmd_ep = scen.endpoint(loop, host="cmd", responder=ack)
            other = scen.client("cmd", host="cmd")
            await other.start()

        async def feed(conn):
            await asyncio.sleep(1)
            for i in range(6):
                conn.write(f"*1*{i % 2}*1{i}##")
                await asyncio.sleep(rng.choice([0, 0.5]))

        async def cb(item, status):
            k, v = await scen.outcome(item.turn_on())
            seen.append((str(item.where), status, k, v))

        c, conn, ep = await scen.connected(loop, "event", after=feed)
        Light.on_status_change(cb)
        t = asyncio.ensure_future(c.loop(client=other) if other else c.loop())
        await asyncio.sleep(20)
        mon.check(not t.done(), "the loop ended", t=t)
        t.cancel()
        mon.check(sorted((a, b) for a, b, _, _ in seen) == [(f"1{i}", bool(i % 2)) for i in range(6)], "events were lost", seen=seen)
        mon.check(scen.sent_after_handshake(conn) == [], "a command was written on the event session", frames=conn.texts)
        for _, _, k, v in seen:
            if other:
                mon.check(k == "ok", "a command of a callback failed on the command client", got=repr(v))
            else:
                mon.check(k == "exc" and isinstance(v, InvalidSession), "a command on the event session was not refused", got=repr(v))
                mon.obs("refused")
        if other:
            got = scen.sent_after_handshake(cmd_ep.conn)
            mon.check(sorted(got) == [f"*1*1*1{i}##" for i in range(6)], "wrong commands on the command client", got=got)
    scen.run(main)


async def ack(conn, f):
    conn.write("*#*1##")


def refuse(case, mon, rng):
    from pyown.exceptions import InvalidSession
    from pyown.messages import parse_message
    state = case["state"]
    calls = methods.catalogue(rng)[case["part"]::case["parts"]]
    rng.shuffle(calls)

    async def main(loop):
        events = [f"*1*{rng.randint(0, 1)}*{rng.randint(11, 99)}##" for _ in range(case["events"])]
        feeder = {}

        async def feed(conn):
            feeder["conn"] = conn

        session = "event" if "event" in state else "cmd"
        ep = scen.endpoint(loop, after=feed, responder=ack if False else None)
        c = scen.client(session)
        conn = None
        if not state.startswith("unstarted"):
            await c.start()
            await asyncio.sleep(0.1)
            conn = ep.conn
            if state.startswith("lost"):
                conn.close()
                await asyncio.sleep(0.5)
            if "closed" in state:
                await c.close()
                await asyncio.sleep(0.2)
        base = len(conn.raw) if conn else 0
        pos = sorted(rng.randint(0, len(calls)) for _ in events)
        for i, call in enumerate(calls):
            while pos and pos[0] <= i and state == "event":
                pos.pop(0)
                conn.write(events[len(events) - len(pos) - 1])
                await asyncio.sleep(0.01)
            t = loop.now
            k, v = await scen.outcome(call.perform(c))
            mon.check(k == "exc" and isinstance(v, InvalidSession), f"{call} on a {state} client does not raise InvalidSession", got=repr(v))
            mon.check(loop.now - t < 0.5, f"{call} took {loop.now - t} s to be refused")
            mon.obs("refused")
            mon.sig(state, repr(call))
        prims = [("send_message", lambda: c.send_message(parse_message("*1*1*12##")))]
        if state != "event":
            prims += [("send_message force", lambda: c.send_message(parse_message("*1*1*12##"), force=True)),
                      ("read_message", lambda: c.read_message(timeout=2)), ("read_message", lambda: c.read_message()),
                      ("loop", lambda: c.loop())]
        for name, f in prims:
            k, v = await scen.outcome(f())
            mon.check(k == "exc" and isinstance(v, InvalidSession), f"{name} on a {state} client does not raise InvalidSession", got=repr(v))
            mon.obs("refused")
        if state == "event":
            for f in events[len(events) - len(pos):]:
                conn.write(f)
            got = []
            for _ in events:
                k, v = await scen.outcome(c.read_message(timeout=2))
                got.append(str(v))
            mon.check(got == events, "a refused command lost events", got=got, expected=events)
            mon.obs("events_kept", len(events))
        await asyncio.sleep(6)
        if conn:
            mon.check(len(conn.raw) == base, "bytes were written", raw=conn.raw[base:])
        mon.check(len(ep.conns) == (0 if state.startswith("unstarted") else 1), "a connection was opened", n=len(ep.conns))
    scen.run(main)
