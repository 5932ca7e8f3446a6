"""C20: loop() ends when the connection ends, after delivering prior events."""
import asyncio
import random

from harness import events, scen

RULE = ("the gateway sends n events and ends the connection (EOF, reset, garbage) or the client calls close() (from a task or from a callback), at every "
        "point of the stream, in the same or a later segment, with or without a partial frame, before or after loop() starts; monitored: how and when loop() "
        "ends and which events were dispatched, also for concurrent loops and for loop() called again; distinct = (end, position, timing)")
LEVEL = "fault_enumeration"
N = {"quick": 4800, "thorough": 80000}
REQUIRE = {"ended": 800, "events_dispatched": 3000, "end_eof": 150, "end_reset": 100, "end_close": 100, "end_cbclose": 40, "end_garbage": 40, "late_loop": 50, "repeated": 500, "concurrent_loops": 100, "mixed_events": 3000, "called_again": 500}
ISOLATE = True
GARBAGE = [b"garbage\xff##", b"garbage\xff##", b"garbage", b"garbage##", b"\xff", b"*1*hello", b"*1*x", b"*1*1*12#_5", b"*1*1*1-2", b"*a##", b"*1*1\x00*12##", b"*1*1*12\xe9",
           b"x", b"*1*1*1x##", b"HTTP/1.1 400 Bad Request\r\n\r\n", b"\x15\x03\x01\x00\x02\x02\x16"]
NO_START = [b"123", b"1*1*12##", b"12", b"0##"]      # nothing a frame starts with
ENDS = ["eof", "reset", "garbage", "close", "cbclose", "halfclose"]
EXHAUSTIVE = ["every end x 0..4 prior events x {same segment, later} x {loop running, loop started after the end} x {with, without partial frame}"]


def fixed(tier):
    s = 0
    for end in ENDS:
        for n in range(5):
            for gap in (0, 0.05, 7):
                for late in (False, True):
                    for partial in ("", "*1*1*1", "*1*1*15#", "*"):
                        s += 1
                        yield {"seed": s, "end": end, "n": n, "gap": gap, "late": late, "partial": partial, "glue": bool(s % 2), "slow": 0, "auth": "none"}

    for end in ENDS:
        for late in (False, True):
            for n in (1, 2, 5, 40):
                for glue in (False, True):
                    yield {"seed": n, "end": end, "n": n, "gap": 0, "late": late, "partial": "", "glue": glue, "slow": 0, "auth": "none", "mix": True}
            for loops in (1, 2):
                for n in (0, 1, 4, 30):
                    yield {"seed": n, "end": end, "n": n, "gap": 0.05, "late": late, "partial": "", "glue": bool(n % 2), "slow": 0, "auth": "none", "loops": loops}
            yield {"seed": 5, "end": end, "n": 1500, "gap": 0, "late": late, "partial": "*1*1*1", "glue": late, "slow": 0, "auth": "none"}
            yield {"seed": 6, "end": end, "n": 3000, "gap": 0, "late": late, "partial": "", "glue": True, "slow": 0, "auth": "none", "same": 2}
            for same in (1, 2, 3):
                for n in (2, 5, 40):
                    yield {"seed": n, "end": end, "n": n, "gap": 0, "late": late, "partial": "", "glue": n != 5, "slow": 0, "auth": "none", "same": same}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "end": rng.choice(ENDS), "n": rng.choice([0, 1, 2, 5, 20, 100]), "gap": rng.choice([0, 0, 0.001, 0.5, 6, 100000, 1_000_000]),
            "late": rng.random() < .25, "partial": rng.choice(["", "", "*1*1", "*#18*51*113*5", "*1*1*12#"]), "glue": rng.random() < .5,
            "slow": rng.choice([0, 0, 0.3, 20]), "same": rng.choice([0, 0, 1, 2, 5]), "quiet": rng.random() < .2, "auth": rng.choice(["none", "open", "hmac1", "hmac2"]),
            "mix": rng.random() < .4, "loops": rng.choice([0, 0, 0, 0, 1, 2])}


def run(case, mon):
    rng = random.Random(case["seed"])
    end, n = case["end"], case["n"]

    async def main(loop):
        from pyown.exceptions import InvalidSession
        go, over = asyncio.Event(), asyncio.Event()
        same = 0 if case.get("mix") else case.get("same")     # equal events are still events of their own
        frames = [f"*1*{rng.randint(0, 1)}*{11 + rng.randrange(same)}##" if same else f"*1*{i % 2}*{11 + i}##" for i in range(n)]
        kinds = ["light.status"]
        if case.get("mix"):         # events of all kinds
            kinds = list(events.KINDS)
            evs = [(k, events.KINDS[k][1](rng)) for k in (rng.choice(kinds) for _ in range(n))]
            frames = [e[0] for _, e in evs]
            mon.obs("mixed_events", n)
        if same:
            mon.obs("repeated", sum(a == b for a, b in zip(frames, frames[1:])))
        at = {}

        async def feed(conn):
            await go.wait()
            text = "".join(frames)
            if case["glue"]:
                conn.write(text + case["partial"])
            else:
                for f in frames:
                    conn.write(f)
                    await asyncio.sleep(rng.choice([0, 0.01, 0.3] + ([4000, 90000, 1_000_000] if case.get("quiet") and rng.random() < .2 else [])))
                if case["partial"]:
                    conn.write(case["partial"])
            # a reset drops what the kernel has not delivered yet, EOF and garbage come after the events
            if case["gap"] or end == "reset":
                await asyncio.sleep(max(case["gap"], 0.05 if end == "reset" else 0))
            at["end"] = loop.now
            if end == "eof":
                conn.close()
            elif end == "halfclose":
                conn.half_close()
            elif end == "reset":
                conn.reset()
            elif end == "garbage":
                conn.write(rng.choice(GARBAGE + (NO_START if not case["partial"] else [])))
            over.set()

        c, conn, ep = await scen.connected(loop, "event", after=feed, auth=scen.auth_of(case["auth"]))
        seen = []
        stop_at = rng.randint(0, n - 1) if n else None
        if end == "cbclose" and n == 0:
            frames.append("*1*1*11##")
            evs = [("light.status", ("*1*1*11##", "1", "11", [True]))]
            stop_at = 0

        async def cb(item, status, *rest):
            if case.get("mix"):
                w, cl, a = events.observed((item, status, *rest))
                seen.append((w, cl, [x.upper() if isinstance(x, str) else x for x in a]))
            else:
                seen.append((str(item.where), status))
            if end == "cbclose" and len(seen) == stop_at + 1:
                at["end"] = loop.now
                await c.close()
                over.set()
            if case["slow"]:
                await asyncio.sleep(rng.uniform(0, case["slow"]))
        for k in kinds:
            events.KINDS[k][0][0](cb)

        if case["late"] and end in ("eof", "reset", "halfclose", "garbage"):
            go.set()
            await over.wait()
            await asyncio.sleep(rng.choice([0, 0.2, 3]))
            start = loop.now
            task = asyncio.ensure_future(c.loop())
            extra = [asyncio.ensure_future(c.loop()) for _ in range(case.get("loops", 0))]
            mon.obs("late_loop")
        else:
            start = loop.now
            task = asyncio.ensure_future(c.loop())
            extra = [asyncio.ensure_future(c.loop()) for _ in range(case.get("loops", 0))]
            for _ in range(rng.randint(0, 3)):
                await asyncio.sleep(0)
            go.set()
            if end == "close":
                await asyncio.sleep(rng.choice([0, 0.001, 0.02, 0.5, 3]))
                at["end"] = loop.now
                await c.close()
                if rng.random() < .3:
                    await c.close()
        if end != "close":
            await over.wait()
        if extra:
            await asyncio.wait([task, *extra], timeout=60)
            for t in extra:
                mon.check(t.done(), f"{end} after {n} events: another loop() is still waiting 60 s later")
                mon.check(not t.cancelled() and (t.exception() is None or isinstance(t.exception(), (OSError, InvalidSession))), f"{end} after {n} events: another loop() failed", task=repr(t))
                mon.obs("concurrent_loops")
        await asyncio.wait([task], timeout=60)
        what = f"{end} after {n} events"
        mon.check(task.done(), f"{what}: loop() is still waiting 60 s later")
        took = loop.now - max(at.get("end", start), start)
        mon.check(took <= 10, f"{what}: loop() ended {took} s later")
        exc = None if task.cancelled() else task.exception()
        mon.check(not task.cancelled(), f"{what}: loop() was cancelled")
        ok = exc is None or isinstance(exc, OSError) or (end in ("close", "cbclose") or case["late"]) and isinstance(exc, InvalidSession)
        mon.check(ok, f"{what}: loop() failed with {type(exc).__name__}", error=repr(exc))
        await asyncio.sleep(1)
        if case.get("mix"):
            expected = [(w, cl, [x.upper() if isinstance(x, str) else x for x in a]) for w, cl, a in (events.expected(e) for _, e in evs)]
        else:
            expected = [(f[5:-2], f[3] == "1") for f in frames]
        if extra and end not in ("close", "cbclose"):       # they share the events
            seen.sort(key=repr)
            expected.sort(key=repr)
        if end in ("close", "cbclose"):
            mon.check(seen == expected[:len(seen)] or extra and len(seen) <= len(expected), f"{what}: wrong events", got=seen, expected=expected)
        elif case["late"] and isinstance(exc, InvalidSession):
            pass
        else:
            mon.check(seen == expected, f"{what}: events received before the end were not all dispatched", got=seen, expected=expected)
        mon.obs("events_dispatched", len(seen))
        mon.obs("ended")
        mon.obs("end_" + end)
        # afterwards readers fail too, nothing hangs
        again = asyncio.ensure_future(c.loop())
        await asyncio.wait([again], timeout=60)
        mon.check(again.done(), f"{what}: loop() called again is still waiting 60 s later")
        exc = None if again.cancelled() else again.exception()
        mon.check(exc is None or isinstance(exc, (OSError, InvalidSession)), f"{what}: loop() called again failed with {type(exc).__name__}", error=repr(exc))
        mon.obs("called_again")
        k, v = await scen.outcome(c.read_message(timeout=5))
        if end not in ("close", "cbclose"):
            mon.check(k == "exc", f"{what}: a message is read after the end", got=repr(v))
        mon.sig(end, n, case["gap"], case["late"], case["partial"], case["glue"], case["slow"])
    scen.run(main, horizon=1e8, max_steps=3_000_000)
