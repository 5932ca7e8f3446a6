"""C10: a failed start is bounded in time and leaves no connection open."""
import asyncio

from checks import c07
from harness import hs, scen

RULE = ("every step x every fault x mode x session, and cancellation / caller timeouts at every step and in between; monitored: duration, "
        "socket state at the gateway, client state after; distinct = (mode, session, step, fault, cancel time, delays)")
LEVEL = "fault_enumeration"
N = {"quick": 6000, "thorough": 120000}
REQUIRE = {"failed_starts": 300, "cancelled": 100, "connections_closed": 300, "repeated_starts": 300}
EXHAUSTIVE = ["step x fault x mode x session type", "cancellation in each wait of the handshake x mode x session type"]


def fixed(tier):
    for mode in hs.STEPS:
        for session in scen.SESSIONS:
            n = hs.STEPS[mode]
            for k in range(n):
                for r in hs.REACTIONS:
                    yield c07.mk(mode, session, k, r)
                    yield c07.mk(mode, session, k, r, delays=[2] * n)
            for i in range(n + 1):
                c = c07.mk(mode, session, delays=[1] * n)
                yield {**c, "cancel": i + 0.5}
                yield {**c, "cancel": float(i)}
            for refuse in ("refused", "unreach", "gai", "nobody"):
                yield {**c07.mk(mode, session), "refuse": refuse}
            yield {**c07.mk(mode, session), "connect_delay": 3, "cancel": 1.0}
    for mode in ("open", "hmac1", "hmac2"):
        yield {**c07.mk(mode, "cmd"), "client_password": "777"}


    for mode in hs.STEPS:
        for session in scen.SESSIONS:
            for gap in (0, 0.3, 2):
                c = c07.mk(mode, session, 1, "nack")
                yield {**c, "again": [{**c, "reaction": r, "gap": gap} for r in ("nack", "close", "silence", "event")]}


def rand(rng, tier):
    c = one(rng, tier)
    if rng.random() < .3 and not c.get("refuse"):
        c["again"] = []
        for _ in range(rng.randint(1, 4)):
            d = one(rng, tier)
            # the client keeps its session type and password
            d["session"] = c["session"]
            pw, d["client_password"] = c["auth"].get("password", "12345"), c.get("client_password")
            if d["auth"]["mode"] == "open" and not (d["client_password"] or pw).isdecimal():
                continue
            if d["auth"]["mode"] == "none":
                d["client_password"] = None
            d["auth"] = {**d["auth"], "password": pw}
            d["gap"] = rng.choice([0, 0, 0.01, 0.5, rng.uniform(0, 8)])
            c["again"].append(d)
    return c


def one(rng, tier):
    c = c07.rand(rng, tier)
    if rng.random() < .5:
        c["cancel"] = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, sum(c["delays"]) + 6)])
    elif c["step"] is None and not c.get("client_password"):
        c["step"], c["reaction"] = 0, rng.choice(hs.REACTIONS)
    return c


def run(case, mon):
    from pyown.exceptions import InvalidSession
    from pyown.messages import parse_message

    mine, again = set(), bool(case.get("again"))

    async def main(loop):
        client = None
        for d in [case] + case.get("again", []):
            if client is not None:
                await client.close()
                await asyncio.sleep(d["gap"])
            client = await attempt(loop, d, client)
            if client is not None and case.get("again"):
                mon.obs("repeated_starts")
        await asyncio.sleep(8)

    async def attempt(loop, case, client):
        rec = await hs.attempt(loop, case, client, refuse=case.get("refuse"), cancel=case.get("cancel"), connect_delay=case.get("connect_delay", 0))
        mon.obs("starts")
        mine.update(rec.ep.tasks)
        mon.sig(case["auth"]["mode"], case["session"], case["step"], str(case["reaction"]), case.get("cancel"), case["delays"])
        if rec.result == "ok":
            if case["step"] is not None or case.get("client_password") or case.get("refuse"):
                mon.fail("start() succeeded although the gateway did not accept", frames=rec.frames)
            mon.obs("succeeded")
            return rec.client
        mon.obs("failed_starts")
        dt = rec.t_end - rec.t0
        mon.check(rec.result == "cancelled" or not rec.gave_up, "a start() that was cancelled while it waited did not end as cancelled", result=rec.result, error=repr(rec.exc))
        if rec.result == "cancelled":
            mon.obs("cancelled")
            mon.check(case.get("cancel") is not None, "start() was cancelled by nobody")
            mon.check(dt <= case["cancel"] + 0.2, "a cancelled start() took long to end", took=dt, cancel=case["cancel"])
        silent = rec.t_end - max(rec.last_good, rec.t0)
        delay = case["delays"][rec.good_steps] if rec.good_steps < len(case["delays"]) else 0
        mon.check(silent <= 5.3, "start() waited more than 5 seconds for a reply", waited=silent, reaction=case["reaction"])
        mon.obs("max_wait_checked")
        await asyncio.sleep(0.1)
        for c in rec.ep.conns:
            mon.check(c.client_transport is None or c.client_transport.is_closing(), "the connection is still open after a failed start()",
                      reaction=case["reaction"], result=rec.result)
            mon.check(c.client_gone, "the gateway still sees the connection open", reaction=case["reaction"], result=rec.result)
            mon.obs("connections_closed")
        n = len(rec.conn.raw) if rec.conn else 0
        # the client is unstarted
        for what, co in (("send_message", lambda: rec.client.send_message(parse_message("*1*1*12##"), force=True)),
                         ("read_message", lambda: rec.client.read_message(timeout=1)),
                         ("send_message", lambda: rec.client.send_message(parse_message("*1*1*12##"))),
                         ("loop", lambda: rec.client.loop())):
            k, v = await scen.outcome(co())
            mon.check(k == "exc" and isinstance(v, InvalidSession), f"{what} after a failed start() does not raise InvalidSession",
                      got=repr(v), reaction=case["reaction"])
        await rec.client.close()      # and closing it is harmless
        await asyncio.sleep(0.1 if again else 8)
        if rec.conn:
            mon.check(len(rec.conn.raw) == n, "something was written after start() failed")
        tasks = [t for t in asyncio.all_tasks(loop) if t is not asyncio.current_task() and t not in mine and not t.done()]
        mon.check(not tasks, "a task is left behind by a failed start()", tasks=tasks)
        return rec.client

    scen.run(main)
