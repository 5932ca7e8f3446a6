"""C12: a command reports success exactly when the gateway acknowledged it."""
import asyncio
import random

from harness import methods, scen

RULE = ("sequences of commands (every command method) with a scripted reaction for each: ACK, delayed ACK, NACK, other frames, silence, late "
        "ACK, partial frame, close, reset, garbage; distinct = (reactions, methods)")
LEVEL = "fault_enumeration"
N = {"quick": 4800, "thorough": 80000}
REQUIRE = {"out_ok": 500, "out_ResponseError": 200, "out_TimeoutError": 50, "out_lost": 50}
EXHAUSTIVE = ["every command method x {ACK, NACK}", "every reaction at each position of a sequence of three commands"]
LIVE = ["ack", "ack_delay", "nack", "nack_delay", "data_ack", "data_nack", "data_silence", "silence", "late", "partial_late", "ack_bytes", "generic_ack",
        "status_ack"]
DEAD = ["close", "reset", "garbage", "partial_close", "data_close"]


def fixed(tier):
    rng = random.Random(3)
    for c in methods.commands(rng):
        yield {"calls": [c, c, c], "react": ["ack", "nack", "ack_delay"], "pause": [0, 0, 0]}
    pool = methods.commands(rng)
    for i in range(3):
        for r in LIVE + DEAD:
            for follow in ("ack", "nack"):
                react = [follow, follow, follow]
                react[i] = r
                yield {"calls": rng.sample(pool, 3), "react": react, "pause": [3, 3, 3]}


    for i in range(6):
        yield {"calls": [rng.choice(pool) for _ in range(150)], "react": [rng.choice(LIVE + ["ack"] * 12) for _ in range(150)], "pause": [rng.choice([0, 3, 100]) for _ in range(150)]}
    for r in LIVE:          # the same outcome many times, then every other one
        n = 25
        yield {"calls": [rng.choice(pool) for _ in range(n + 4)], "react": [r] * n + ["ack", "nack", "ack_delay", "ack"], "pause": [rng.choice([0, 3]) for _ in range(n + 4)]}
    for i in range(2):      # thousands of commands on one connection
        n = 2600
        yield {"calls": [rng.choice(pool) for _ in range(n)], "react": [rng.choice(["ack"] * 60 + ["nack", "data_nack", "silence"][:1 + 2 * i]) for _ in range(n)],
               "pause": [0] * n, "session": ["cmd", "oldcmd"][i], "keep": i}
    one = {}                # hundreds of commands on one item
    for c in pool:
        one.setdefault((c.cls, c.where), []).append(c)
    for some in one.values():
        for n, r in ((60, ["ack"]), (300, ["ack"] * 20 + ["nack"])):
            yield {"calls": [rng.choice(some) for _ in range(n)], "react": [rng.choice(r) for _ in range(n)], "pause": [0] * n, "keep": 1}
    for c in pool:          # one command, again and again
        yield {"calls": [c] * 60, "react": [rng.choice(["ack"] * 20 + ["nack"]) for _ in range(60)], "pause": [0] * 60, "keep": 1}


def rand(rng, tier):
    n = rng.randint(1, 6)
    react = [rng.choice(LIVE + ["ack"] * 4 + ["nack"] * 2) for _ in range(n)]
    if rng.random() < .3:
        react[rng.randrange(n)] = rng.choice(DEAD)
    return {"calls": [rng.choice(methods.commands(rng)) for _ in range(n)], "react": react, "pause": [rng.choice([0, 0, 3] if rng.random() < .85 else scen.IDLE) for _ in range(n)],
            "session": rng.choice(["cmd", "oldcmd"]), "delay": rng.uniform(0.01, 4.5),
            "keep": rng.random() < .5}


def run(case, mon):
    from pyown.exceptions import ResponseError
    react = list(case["react"])
    calls = case["calls"]
    delay = case.get("delay", 4.5)

    async def main(loop):
        todo = iter(react)

        async def responder(conn, f):
            r = next(todo, None)
            if r is None:
                return
            if r.endswith("_delay"):
                await asyncio.sleep(delay)
            if r.startswith("ack"):
                if r == "ack_bytes":
                    await conn.write_cuts("*#*1##", range(1, 6), 0.01)
                else:
                    conn.write("*#*1##")
            elif r.startswith("nack"):
                conn.write("*#*0##")
            elif r == "data_ack":
                conn.write("*1*1*12##*#*1##")
            elif r == "data_nack":
                conn.write("*1*1*12##*#*0##")
            elif r == "generic_ack":
                conn.write("*9*9##*#*1##")
            elif r == "status_ack":
                conn.write("*#1*12*1*100*5##")
                await asyncio.sleep(1)
                conn.write("*#*1##")
            elif r == "data_silence":
                conn.write("*1*1*12##")
            elif r == "late":
                loop.call_later(5.6, conn.write, "*#*1##")
            elif r == "partial_late":
                conn.write("*#*1")
                loop.call_later(5.6, conn.write, "##")
            elif r == "close":
                conn.close()
            elif r == "reset":
                conn.reset()
            elif r == "garbage":
                conn.write(b"\xffnot a frame##")
            elif r == "partial_close":
                conn.write("*#*1#")
                await asyncio.sleep(0.1)
                conn.close()
            elif r == "data_close":
                conn.write("*1*1*12##")
                await asyncio.sleep(0.1)
                conn.close()

        c, conn, ep = await scen.connected(loop, case.get("session", "cmd"), responder=responder)
        dead = False
        sent = []
        items = {} if case.get("keep") else None
        for call, r, pause in zip(calls, react, case["pause"]):
            t = loop.now
            k, v = await scen.outcome(call.perform(c, items))
            dt = loop.now - t
            what = f"{call} answered with {r}"
            mon.check(dt <= 11.1, f"{what}: took {dt} s")
            if dead:
                mon.check(k == "exc", f"{call} succeeded on a lost connection", got=repr(v))
                mon.check(dt <= 5.3, f"{call} on a lost connection took {dt} s")
                mon.obs("out_lost")
                continue
            sent.append(call.frame)
            if r in ("ack", "ack_delay", "ack_bytes"):
                mon.check(k == "ok", f"{what} failed", error=repr(v))
                mon.check(v is None, f"{what} returned a value", value=v)
                mon.obs("out_ok")
            elif r in ("nack", "nack_delay", "data_ack", "data_nack", "generic_ack", "status_ack"):
                mon.check(k == "exc" and isinstance(v, ResponseError), f"{what} did not raise ResponseError", got=repr(v))
                mon.obs("out_ResponseError")
            elif r in ("silence", "late", "partial_late"):
                mon.check(k == "exc" and isinstance(v, TimeoutError), f"{what} did not raise TimeoutError", got=repr(v))
                mon.check(dt <= 5.3, f"{what} took {dt} s")
                mon.obs("out_TimeoutError")
            elif r == "data_silence":
                mon.check(k == "exc" and isinstance(v, (TimeoutError, ResponseError)), f"{what} did not fail", got=repr(v))
                mon.check(dt <= 10.5, f"{what} took {dt} s")
            else:
                mon.check(k == "exc", f"{what} succeeded")
                mon.check(dt <= 5.3, f"{what} took {dt} s")
                mon.obs("out_lost")
                dead = True
            if r in ("late", "partial_late"):
                await asyncio.sleep(3)
            await asyncio.sleep(pause)
        await asyncio.sleep(1)
        mon.check(scen.sent_after_handshake(conn) == sent, "the frames written are not one per command", got=scen.sent_after_handshake(conn),
                  expected=sent)
        mon.sig(react, [c.method for c in calls])
    scen.run(main, horizon=1e8, max_steps=3_000_000)
