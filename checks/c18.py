"""C18: each event reaches its callbacks exactly once, in order, with the right data."""
import asyncio
import random

from harness import events, scen

RULE = ("a random set of callbacks (0..3 per kind of event, all kinds, some for several kinds; functions, bound methods, partials, callable objects) is registered, loop() runs and the gateway sends a stream of documented event "
        "frames of all kinds mixed with ACK/NACK, unsupported WHOs and unsupported kinds, with random segmentation (also glued to the end of the handshake) and pauses (up to days of virtual time); monitored: the log of "
        "invocations of every callback vs the stream; distinct = (callbacks registered, stream)")
N = {"quick": 2800, "thorough": 50000}
REQUIRE = {"invocations": 5000, "events": 5000, "kinds_seen": 31, "noise": 1000, "quiet_periods": 100, "loop_cancelled": 100, "registered_while_running": 200, "shared_callbacks": 200, "glued_events": 500}
QUIET = [15, 70, 400, 1300, 4000, 10000, 90000, 200000, 1_000_000]     # seconds
ISOLATE = True      # the registries are global


def fixed(tier):
    for i, k in enumerate(events.KINDS):
        # only that kind is registered, all kinds are sent
        yield {"seed": i, "reg": {k: 2}, "send": 3, "noise": 0.0, "cut": i % 3, "mode": "each"}
        # all kinds but that one
        yield {"seed": 100 + i, "reg": {x: 1 for x in events.KINDS if x != k}, "send": 1, "noise": 0.2, "cut": i % 3, "mode": "each"}
    yield {"seed": 7, "reg": {x: 1 for x in events.KINDS}, "send": 40, "noise": .3, "cut": 1, "mode": "each"}
    yield {"seed": 8, "reg": {}, "send": 3, "noise": .3, "cut": 0, "mode": "each"}
    yield {"seed": 9, "reg": {"light.status": 3}, "send": 300, "noise": 0, "cut": 1, "mode": "light"}
    yield {"seed": 10, "reg": {"light.status": 2}, "send": 5000, "noise": 0, "cut": 1, "mode": "light"}
    yield {"seed": 11, "reg": {"light.status": 150}, "send": 30, "noise": 0, "cut": 1, "mode": "light"}
    for i, k in enumerate(events.KINDS):        # many callbacks of one kind, many events of one kind
        yield {"seed": 300 + i, "reg": {k: 40, "light.status": 1, "gw.ip": 1}, "send": 1, "noise": 0, "cut": i % 3, "mode": "each"}
        yield {"seed": 400 + i, "reg": {k: 2}, "send": 400, "noise": 0, "cut": i % 3, "mode": "reg"}
    yield {"seed": 12, "reg": {"light.status": 2}, "send": 1500, "noise": 0, "cut": 1, "mode": "light", "slow": 2000}
    for i in range(9):
        yield {"seed": 60 + i, "reg": {x: 1 for x in events.KINDS}, "send": 2, "noise": .1, "cut": i % 4, "mode": "each", "shapes": True, "several": 8, "glue": True,
               "auth": ["none", "open", "hmac1"][i % 3]}
    for i in range(10):
        yield {"seed": 200 + i, "phases": 4}
    for i in range(6):
        yield {"seed": 20 + i, "reg": {x: 1 for x in events.KINDS}, "send": 2, "noise": .1, "cut": [0, 3][i % 2], "mode": "each", "quiet": 6}


def rand(rng, tier):
    if rng.random() < .15:
        return {"seed": rng.randint(0, 1 << 30), "phases": rng.randint(2, 6)}
    kinds = list(events.KINDS)
    reg = {k: rng.choice([0, 1, 1, 2, 3]) for k in rng.sample(kinds, rng.choice([1, 3, 8, len(kinds)]))}
    return {"seed": rng.randint(0, 1 << 30), "reg": reg, "send": rng.choice([5, 20, 60]), "noise": rng.choice([0, .2, .6]), "cut": rng.randint(0, 4),
            "mode": rng.choice(["mix", "reg", "reg"]), "slow": rng.choice([0, 0, 0.5, 30]), "late": rng.random() < .2, "quiet": rng.choice([0, 0, 3]), "auth": rng.choice(["none", "open", "hmac2"]), "shapes": rng.random() < .5, "several": rng.choice([0, 0, 2, 6]), "glue": rng.random() < .2}


def stream(case, rng):
    """[(kind or None, event)]"""
    kinds = list(events.KINDS)
    out = []
    if case["mode"] == "each":
        for _ in range(case["send"]):
            out += [(k, events.KINDS[k][1](rng)) for k in kinds]
        rng.shuffle(out)
    elif case["mode"] == "light":
        out = [("light.status", events.KINDS["light.status"][1](rng)) for _ in range(case["send"])]
    else:
        pool = [k for k, n in case["reg"].items() if n] * (1 if case["mode"] == "reg" else 0) + (kinds if case["mode"] == "mix" else [])
        for _ in range(case["send"]):
            k = rng.choice(pool or kinds)
            out.append((k, events.KINDS[k][1](rng)))
            while rng.random() < .15:      # the same event again is another event
                out.append(out[-1])
    res = []
    for x in out:
        while rng.random() < case["noise"]:
            res.append((None, (rng.choice(events.NOISE + events.UNSUPPORTED) if rng.random() < .5 else events.unsupported(rng),)))
        res.append(x)
    return res


def phases(case, mon):
    """Callbacks are registered while loop() runs (also from a callback), loop() is cancelled and called again, several loops in a row."""
    rng = random.Random(case["seed"])

    async def main(loop):
        c, conn, ep = await scen.connected(loop, "event")
        kinds = list(events.KINDS)
        logs = []           # (kind, log, sent[kind] when it was registered)
        sent = {k: [] for k in kinds}

        def register(kind):
            log = []

            async def cb(*args):
                log.append(events.observed(args))
                mon.obs("invocations")
                if rng.random() < .05:
                    await asyncio.sleep(rng.uniform(0, 3))
            events.KINDS[kind][0][rng.randrange(len(events.KINDS[kind][0]))](events.shaped(cb, rng))
            logs.append((kind, log, len(sent[kind])))
        for k in rng.sample(kinds, 12):
            register(k)
        task = None
        for phase in range(case["phases"]):
            if task is None:
                task = asyncio.ensure_future(c.loop())
                await asyncio.sleep(rng.choice([0, 0.1]))
            burst = []
            for _ in range(rng.choice([1, 5, 30])):
                k = rng.choice([x for x, _, _ in logs] + kinds[:3])
                e = events.KINDS[k][1](rng)
                sent[k].append(events.expected(e))
                burst.append(e[0])
            cut = rng.random()
            if cut < .4:
                conn.write("".join(burst))
            else:
                for f in burst:
                    conn.write(f)
                    for _ in range(rng.choice([0, 0, 1, 3])):
                        await asyncio.sleep(0)
            if rng.random() < .5:
                # ended by its caller in the middle of the stream: the next loop() goes on from there
                for _ in range(rng.choice([0, 1, 2, 5])):
                    await asyncio.sleep(0)
                task.cancel()
                await asyncio.wait([task], timeout=5)
                mon.check(task.cancelled(), "a cancelled loop() does not end as cancelled", task=task)
                mon.obs("loop_cancelled")
                task = asyncio.ensure_future(c.loop())
            await asyncio.sleep(rng.choice([1, 1, 20]))
            for _ in range(rng.randint(0, 4)):
                register(rng.choice(kinds))
                mon.obs("registered_while_running")
        await asyncio.sleep(1)
        mon.check(not task.done(), "loop() ended while the connection is open", task=task)
        for kind, log, since in logs:
            got = [(w, cl, [str(a[0]).upper()]) for w, cl, a in log] if kind == "gw.mac" else log
            mon.check(got == sent[kind][since:], f"a callback of {kind} did not get exactly the events since its registration", got=got, expected=sent[kind][since:])
        mon.obs("events", sum(map(len, sent.values())))
        mon.sig(case["seed"], [(k, len(x)) for k, x, _ in logs])
        conn.close()
        await asyncio.wait([task], timeout=20)
        mon.check(task.done(), "loop() did not end with the connection")
    scen.run(main, horizon=1e7)


def run(case, mon):
    if "phases" in case:
        return phases(case, mon)
    rng = random.Random(case["seed"])

    async def main(loop):
        st = stream(case, rng)
        glued = rng.randint(1, len(st)) if case.get("glue") else 0     # these come in the same segment as the end of the handshake
        tail = "".join(e[0] for _, e in st[:glued])
        text = "".join(e[0] for _, e in st[glued:])
        go = asyncio.Event()
        sent = asyncio.Event()
        left = [case.get("quiet", 0)]

        async def pause(usual):
            """Between two segments; the house may also be quiet for hours or days."""
            if left[0] and rng.random() < .2:
                left[0] -= 1
                mon.obs("quiet_periods")
                await asyncio.sleep(rng.choice(QUIET))
            else:
                await asyncio.sleep(rng.choice(usual))

        async def feed(conn):
            await go.wait()
            await asyncio.sleep(0.1)
            if case["cut"] == 0:
                for _, e in st[glued:]:
                    conn.write(e[0])
                    await pause([0, 0, 0.01, 1])
            elif case["cut"] == 1:
                conn.write(text)
            elif case["cut"] == 2 and len(text) > 1:
                cuts = sorted(rng.sample(range(1, len(text)), min(len(text) - 1, 40)))
                await conn.write_cuts(text, cuts, rng.choice([0, 0.001, 0.2]))
            else:
                i = glued
                while i < len(st):
                    k = rng.randint(1, 6)
                    conn.write("".join(e[0] for _, e in st[i:i + k]))
                    i += k
                    await pause([0, 0.05])
            sent.set()

        c, conn, ep = await scen.connected(loop, "event", after=feed, auth={**scen.auth_of(case.get("auth", "none")), "tail": tail})
        logs = []

        def callback(kind):
            log = []

            async def cb(*args):
                log.append((events.observed(args), args[0]))
                mon.obs("invocations")
                if case.get("slow"):
                    await asyncio.sleep(rng.uniform(0, case["slow"]))
            logs.append((kind, log))
            return events.shaped(cb, rng) if case.get("shapes") else cb

        for kind, n in case["reg"].items():
            regs = events.KINDS[kind][0]
            for j in range(n):
                regs[j % len(regs)](callback(kind))
        several = rng.sample(list(events.KINDS), case.get("several", 0))       # one callback for several kinds of event
        if several:
            shared = callback(several)
            for kind in several:
                events.KINDS[kind][0][0](shared)
            mon.obs("shared_callbacks")
        if case.get("late"):     # frames that arrive before loop() is called wait for it
            go.set()
            await sent.wait()
            await asyncio.sleep(1)
        task = asyncio.ensure_future(c.loop())
        go.set()
        await sent.wait()
        await asyncio.sleep(1)
        mon.check(not task.done(), "loop() ended while the connection is open", task=task)
        for kind, log in logs:
            of = kind if isinstance(kind, list) else [kind]
            mine = [(k, e) for k, e in st if k in of]
            exp = [events.expected(e) for _, e in mine]
            got = [x for x, _ in log]
            if "gw.mac" in of:
                got = [(w, cl, [str(a[0]).upper()]) if i < len(mine) and mine[i][0] == "gw.mac" else (w, cl, a) for i, (w, cl, a) in enumerate(got)]
            if got != exp:
                i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
                mon.fail(f"a callback of {kind} did not get exactly the events of that kind", first_difference=i, got=got[i:i + 2], expected=exp[i:i + 2],
                         counts=(len(got), len(exp)), frame=[e[0] for _, e in mine][i:i + 1])
            mon.obs("assertions")
            for (w, cl, _), item in log:
                mon.check(item is c.get_item(item.who, item.where, client=c) and item.client is c, "the item is not that of the client", where=w)
        mon.check(scen.sent_after_handshake(conn) == [], "loop() wrote to the gateway", frames=scen.sent_after_handshake(conn))
        mon.obs("events", sum(1 for k, _ in st if k))
        mon.obs("noise", sum(1 for k, _ in st if not k))
        for k in {k for k, _ in st if k and case["reg"].get(k)}:
            mon.obs("kind_" + k)
        mon.obs("glued_events", glued)
        mon.sig(sorted(case["reg"].items()), tail, text)
        conn.close()
        k, v = await scen.outcome(asyncio.wait_for(task, 20))
        mon.check(k == "ok" or isinstance(v, ConnectionError), "loop() did not end with the connection", got=repr(v))
    scen.run(main, horizon=1e7, max_steps=3_000_000)


def finish(mon):
    mon.counters["kinds_seen"] = sum(1 for k in events.KINDS if mon.counters.get("kind_" + k))
