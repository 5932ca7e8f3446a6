"""C27: long-lived use does not accumulate anything."""
import asyncio
import collections
import gc
import itertools
import random
import sys
import tracemalloc

from harness import events, methods, scen

RULE = ("one activity (commands with every outcome, queries, partial queries, cancellations, timeouts, events, bad events, callbacks that fail, reads, parses, "
        "restarts, failed starts, pauses) is repeated 2 x 120..2000 times after a warm-up on a fixed set of addresses and values; monitored after a garbage collection: "
        "live objects by type, asyncio tasks, timers, file descriptors, connections at the gateway; distinct = (activity, parameters)")
N = {"quick": 90, "thorough": 2500}
REQUIRE = {"cycles": 50000, "measures": 100, "activities": 20}
ISOLATE = True
ACTS = ["command", "nack", "timeout", "cancel", "query", "partial", "single", "nested", "event", "event_bad", "event_evil", "event_noise", "event_late", "parse", "parse_bad",
        "tags", "restart", "failstart_nack", "failstart_drop", "failstart_silent", "cancelstart", "pause", "dropwait", "loopcycle", "readtimeout", "lateack",
        "auth", "items", "equality", "parse_varied", "parse_bad_varied", "tags_varied", "event_varied", "command_varied", "single_varied"]
EXHAUSTIVE = ["every activity of the list alone"]


def fixed(tier):
    for i, a in enumerate(ACTS):
        yield {"seed": i, "acts": [a], "n": 250}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "acts": [rng.choice(ACTS) for _ in range(rng.randint(1, 5))], "n": rng.choice([120, 250, 600 if tier == "quick" else 1000])}


def fds():
    import os
    return len(os.listdir("/proc/self/fd"))


def run(case, mon):
    rng = random.Random(case["seed"])
    auth = scen.auth_of(rng.choice(["none", "open", "hmac1", "hmac2"]))
    if "auth" in case["acts"]:
        auth = scen.auth_of(rng.choice(["hmac1", "hmac2", "open"]))

    async def main(loop):
        from pyown import items as I
        from pyown.exceptions import OWNException
        from pyown.messages import parse_message
        from pyown.tags import Dimension, Value, What, Where, Who
        mode = {"r": "ack", "hs": "ok"}
        num = itertools.count(100000)       # each value is used once

        async def script(conn):
            conn.requests = []
            if mode["hs"] == "ok":
                conn.ok = await scen.gateway.handshake(conn, auth)
                if not conn.ok:
                    return
            elif mode["hs"] == "nack":
                conn.write("*#*0##")
                return
            elif mode["hs"] == "drop":
                conn.close()
                return
            elif mode["hs"] == "silent":
                while await conn.recv() is not None:
                    pass
                return
            while True:
                f = await conn.recv()
                if f is None:
                    return
                r = mode["r"]
                if r == "ack":
                    conn.write("*#*1##")
                elif r == "nack":
                    conn.write("*#*0##")
                elif r == "late":
                    loop.call_later(5.5, conn.write, "*#*1##")
                elif r == "status":
                    conn.write("*1*1*11##*1*0*12##*1*1*13##*#*1##")
                elif r == "single":
                    conn.write("*#18*51*113*7##*#*1##")
                elif r == "varied":
                    conn.write(f"*#18*51*113*{next(num)}##*#*1##")

        ep = scen.gateway.Endpoint(script)
        loop.endpoints[(scen.HOST, scen.PORT)] = ep
        cmd = scen.client("cmd")
        await cmd.start()
        ev = scen.client("event")
        await ev.start()
        await asyncio.sleep(0.01)
        evconn = ep.conns[-1]
        hits = [0]

        async def cb(*args):
            hits[0] += 1

        async def bad(*args):
            raise ValueError("bad callback")

        async def late(*args):
            await asyncio.sleep(0.001)
        for k in events.KINDS:
            events.KINDS[k][0][0](cb)
        if "event_evil" in case["acts"]:
            events.KINDS["light.status"][0][0](bad)
            events.KINDS["energy.power"][0][0](bad)
        if "event_late" in case["acts"]:
            events.KINDS["light.status"][0][0](late)
        pump = [asyncio.ensure_future(ev.loop())]
        evs = [events.KINDS[k][1](random.Random(j))[0] for j, k in enumerate(events.KINDS)]
        legal = ["*1*1*12##", "*#1*12##", "*#18*51*113##", "*#18*51*#1200#1*5##", "*#18*51*113*5##", "*9*9##", "*#*1##", "*#*0##"]
        illegal = ["", "*", "*1*1*1", "1*1##", "*1*x*1##", "*1##1##", "garbage", "*1*1*1##*1##"]

        async def swallow(aw, timeout=None):
            try:
                await (aw if timeout is None else asyncio.wait_for(aw, timeout))
            except (OWNException, OSError, TimeoutError):
                pass

        async def act(a, k):
            mode["r"] = {"nack": "nack", "timeout": "silent", "cancel": "silent", "query": "status", "partial": "status", "nested": "status", "single": "single", "lateack": "late",
                         "dropwait": "silent", "pause": "silent", "single_varied": "varied"}.get(a, "ack")
            mode["hs"] = "ok"
            light = I.Light(cmd, str(11 + k % 3))
            if a in ("command", "nack", "timeout", "lateack"):
                if k % 5 == 0 or a in ("command", "nack"):
                    await swallow(light.turn_on())
                if a == "lateack":
                    await asyncio.sleep(1)
            elif a == "cancel":
                if k % 3 == 0:
                    await swallow(light.turn_off(), 0.01)
                    await asyncio.sleep(6)
            elif a == "query":
                async for _ in light.get_status():
                    pass
            elif a == "partial":
                async for _ in light.get_status():
                    break
            elif a == "nested":
                async for _ in light.get_status():
                    mode["r"] = "ack"
                    await light.turn_on()
            elif a == "single_varied":
                await I.EnergyManagement(cmd, "51").get_active_power()
            elif a == "command_varied":
                await I.Dimmer(cmd, "12").send_dimension_writing("8", Value(str(next(num))))
            elif a == "parse_varied":
                x = next(num)
                for f in (f"*1*1*{x}##", f"*#1*{x}##", f"*#18*{x}*113##", f"*#18*51*113*{x}##", f"*{x}*9##", f"*#18*51*#{x}*1##"):
                    m = parse_message(f)
                    str(m), m.bytes, m.tags, hash(m)
            elif a == "parse_bad_varied":
                x = next(num)
                for f in (f"*1*1*{x}", f"*1*{x}x*1##", f"{x}*1##"):
                    try:
                        parse_message(f)
                    except OWNException:
                        pass
            elif a == "tags_varied":
                x = next(num)
                for cls in (What, Where, Dimension, Value):
                    t = cls(f"12#{x}")
                    t.parameters, t.tag, hash(t), t.with_parameter(x)
                try:
                    Where(f"{x}#4#01").type
                except ValueError:
                    pass
                try:
                    What(f"x{x}")
                except OWNException:
                    pass
            elif a == "single":
                await I.EnergyManagement(cmd, "51").get_active_power()
            elif a.startswith("event"):
                if pump[0].done():
                    pump[0].result()
                if a == "event_bad":
                    evconn.write((events.BROKEN[:20] + events.UNSUPPORTED)[k % (20 + len(events.UNSUPPORTED))])
                elif a == "event_varied":
                    x = next(num)
                    evconn.write(f"*#18*51*113*{x}##*#1*12*2*1*2*{x}##*1*{x}*12##*9*{x}##")
                elif a == "event_noise":
                    evconn.write(events.NOISE[k % len(events.NOISE)])
                else:
                    evconn.write(evs[k % len(evs)] + "*1*1*11##")
                await asyncio.sleep(0.01)
            elif a == "parse":
                m = parse_message(legal[k % len(legal)])
                str(m), m.bytes, m.tags, hash(m)
            elif a == "parse_bad":
                try:
                    parse_message(illegal[k % len(illegal)])
                except OWNException:
                    pass
            elif a == "tags":
                for cls in (What, Where, Dimension, Value):
                    t = cls("12#4#01")
                    t.parameters, t.tag, hash(t)
                Where("12#4#01").type
                Who("1").name
                try:
                    What("x")
                except OWNException:
                    pass
            elif a == "equality":
                assert parse_message("*1*1*12##") == parse_message("*1*1*12##")
            elif a in ("restart", "auth"):
                await cmd.close()
                await cmd.start()
                await light.turn_on()
            elif a.startswith("failstart"):
                if a == "failstart_silent" and k % 5:
                    return
                mode["hs"] = a.split("_")[1]
                c2 = scen.client("cmd")
                await swallow(c2.start())
                await c2.close()
            elif a == "cancelstart":
                mode["hs"] = "silent"
                c2 = scen.client("event")
                await swallow(c2.start(), 0.05)
            elif a == "pause":
                p = next(c for c in ep.conns if not c.client_gone and c is not evconn).client_protocol
                p.pause_writing()
                t = asyncio.ensure_future(cmd.send_message(parse_message("*2*1*15##")))
                await asyncio.sleep(0.05)
                p.resume_writing()
                await t
                await asyncio.sleep(0.05)
                mon.obs("paused")
            elif a == "dropwait":
                t = asyncio.ensure_future(light.turn_on())
                await asyncio.sleep(0.01)
                live = [c for c in ep.conns if not c.client_gone and c is not evconn]
                live[-1].close()
                await swallow(t)
                await cmd.close()
                await cmd.start()
            elif a == "loopcycle":
                c2 = scen.client("event")
                await c2.start()
                t = asyncio.ensure_future(c2.loop())
                await asyncio.sleep(0.01)
                await c2.close()
                await swallow(t)
            elif a == "readtimeout":
                await swallow(cmd.read_message(timeout=0.01))
            elif a == "items":
                ev.get_item(Who("1"), Where(str(11 + k % 5)), client=cmd)
                try:
                    ev.get_item(Who("4"), Where("11"), client=cmd)
                except KeyError:
                    pass

        async def cycle(n):
            for k in range(n):
                for a in case["acts"]:
                    await act(a, k)
                    mon.obs("cycles")
                # the harness itself must not keep what is over
                ep.conns[:] = [c for c in ep.conns if not (c.client_gone and c.lost_at is not None)]
                ep.tasks[:] = [t for t in ep.tasks if not t.done()]
                loop.connections[:] = [(t, p) for t, p in loop.connections if not t.is_closing()]
                for c in ep.conns:
                    del c.frames[:-4]
                    del c.sent[:]
                    c.raw = b""
                    while c._queue.qsize():
                        if c._queue.get_nowait() is None:
                            c._queue.put_nowait(None)
                            break
                del loop.contexts[:]
            mode["r"] = "ack"
            await asyncio.sleep(30)
            for _ in range(3):
                await asyncio.sleep(0)
            gc.collect()
            gc.collect()

        own = [0]

        def measure():
            mon.obs("measures")
            blocks, size = sys.getallocatedblocks(), tracemalloc.get_traced_memory()[0]
            raw, size = size, size - own[0]
            types = collections.Counter(type(o) for o in gc.get_objects())
            own[0] += tracemalloc.get_traced_memory()[0] - raw      # what the monitor itself keeps
            return {"tasks": len(asyncio.all_tasks(loop)), "timers": len(loop._scheduled), "ready": len(loop._ready), "fds": fds(),
                    "connections": sum(1 for c in ep.conns if not c.client_gone), "objects": sum(types.values()), "blocks": blocks, "bytes": size}, types

        for a in set(case["acts"]):
            if a.endswith("varied"):        # caches of a bounded size are full afterwards
                for k in range(5000 if a[0] in "pt" else 2500):
                    await act(a, k)
        await cycle(60)
        measure()
        await cycle(20)
        m0, t0 = measure()
        await cycle(case["n"])
        m1, t1 = measure()
        await cycle(case["n"])
        m2, t2 = measure()
        for key, slack in (("tasks", 3), ("timers", 8), ("fds", 3), ("connections", 3), ("objects", 20 + case["n"] // 20),
                           ("blocks", 150 + case["n"] // 5), ("bytes", 8000 + case["n"] * 30)):
            if m2[key] - m1[key] > slack and m1[key] - m0[key] > slack:
                grow = {k: v - t1.get(k, 0) for k, v in t2.items() if v - t1.get(k, 0) > 5}
                mon.fail(f"{key} accumulate: {m0[key]} -> {m1[key]} -> {m2[key]} after 2 x {case['n']} rounds of {case['acts']}", growth=grow)
            mon.obs("assertions")
        for a in set(case["acts"]):
            mon.obs("act_" + a)
        mon.sig(case["acts"], case["n"], auth["mode"])
        await cmd.close()
        await ev.close()
    tracemalloc.start(1)
    try:
        scen.run(main, horizon=1e8, max_steps=20_000_000)
    finally:
        tracemalloc.stop()


def finish(mon):
    mon.counters["activities"] = sum(1 for a in ACTS if mon.counters.get("act_" + a))
