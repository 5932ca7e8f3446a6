"""C13: replies are matched to their own request, whatever the interleaving."""
import asyncio
import random

from harness import scen

RULE = ("several tasks issue commands, full and partial queries, nested commands inside a query, cancelled and timed out requests on one client "
        "while a sequential gateway answers each WHERE with data unique to it after random delays (ACK, NACK, silence, late), and several tasks share items and numbered answers; monitored: every "
        "result equals what the gateway answered to that very request, each request is written once; distinct = order of frames and outcomes")
N = {"quick": 6000, "thorough": 100000}
REQUIRE = {"op_cmd": 500, "op_full": 300, "op_partial": 200, "op_nested": 200, "op_cancel": 200, "op_silent": 30, "concurrent": 300, "late_seq": 30,
           "op_single": 200, "shared_calls": 5000}
KINDS = ["cmd", "full", "partial", "nested", "cancel", "single", "waitfor"]


def fixed(tier):
    # every kind of operation next to every other
    s = 0
    for a in KINDS:
        for b in KINDS:
            s += 1
            yield {"seed": s, "tasks": [[a], [b]], "silent": 0, "maxdelay": 1.0}
            yield {"seed": s, "tasks": [[a, b, a]], "silent": 0, "maxdelay": 0.2}
    for a in KINDS:
        yield {"seed": s, "tasks": [[a] * 3] * 4, "silent": 0, "maxdelay": 0.0}
        yield {"seed": s, "tasks": [[a] * 2, ["cmd"] * 2], "silent": 1.0, "maxdelay": 0.5}
        for k in ("ack", "nack", "data", "data_ack"):
            yield {"late": k, "kind": a, "seed": s}
    for k in range(4):
        yield {"seed": k, "tasks": [[KINDS[(k + j) % len(KINDS)]] * 3 for j in range(60)], "silent": 0, "maxdelay": [0, 0.2][k % 2]}
        yield {"seed": k, "tasks": [[KINDS[(k + j) % len(KINDS)] for j in range(150)]], "silent": 0.02, "maxdelay": [0, 0.2][k % 2]}
        # a long queue behind slow or silent answers: minutes of waiting for the turn
        yield {"seed": k, "tasks": [[KINDS[(k + j) % len(KINDS)]] * 2 for j in range(24)], "silent": [0, .3][k % 2], "maxdelay": 4.5}
        yield {"seed": k, "tasks": [["cmd"]] * 40, "silent": [0, 1, .5, .2][k], "maxdelay": [4.8, 1][k % 2]}
    yield {"seed": 9, "tasks": [[KINDS[j % len(KINDS)] for j in range(1500)]], "silent": 0, "maxdelay": 0}
    yield {"seed": 10, "tasks": [[KINDS[(j + i) % len(KINDS)] for j in range(300)] for i in range(5)], "silent": 0, "maxdelay": 0}
    for k in range(12):
        yield {"seed": k, "shared": [4] * (2 + k), "maxdelay": [0, .3, 2][k % 3], "nack": [0, .2][k % 2], "session": ["cmd", "oldcmd"][k % 2]}
    yield {"finding": "late-reply-crosses"}


def rand(rng, tier):
    r = rng.random()
    if r < .1:
        return {"late": rng.choice(["ack", "nack", "data", "data_ack"]), "kind": rng.choice(KINDS), "seed": rng.randint(0, 1 << 30)}
    if r > .8:
        return {"seed": rng.randint(0, 1 << 30), "shared": [rng.randint(1, 5) for _ in range(rng.choice([2, 3, 5, 12]))], "maxdelay": rng.choice([0, 0.01, 0.5, 2.0, 4.5]),
                "nack": rng.choice([0, .2]), "session": rng.choice(["cmd", "oldcmd"])}
    n = rng.choice([1, 2, 2, 3, 4, 6, 6, 16] if r > .2 else [1, 2, 3])
    return {"seed": rng.randint(0, 1 << 30), "tasks": [[rng.choice(KINDS) for _ in range(rng.randint(1, 4))] for _ in range(n)],
            "silent": rng.choice([0, 0, .1, .3]), "maxdelay": rng.choice([0, 0.01, 0.5, 2.0, 4.8]), "session": rng.choice(["cmd", "oldcmd"])}


class World:
    """What the gateway answers to each WHERE, and what the caller must therefore get."""

    def __init__(self, rng, silent, maxdelay):
        self.rng, self.silent, self.maxdelay = rng, silent, maxdelay
        self.n = 0
        self.plans = {}

    def new(self, kind):
        """A fresh request: (item factory, coroutine/generator maker, where)."""
        rng = self.rng
        self.n += 1
        i = self.n
        p = {"kind": kind, "silent": rng.random() < self.silent, "nack": rng.random() < .2, "seen": 0,
             "delays": [rng.uniform(0, self.maxdelay) for _ in range(12)], "glue": rng.random() < .4}
        from pyown.items import Automation, Dimmer, EnergyManagement, Light
        if kind == "cmd":
            cls, m, f = rng.choice([(Light, "turn_on", "*1*1*{w}##"), (Light, "turn_off", "*1*0*{w}##"), (Automation, "up", "*2*1*{w}##"),
                                    (Dimmer, "set_50_percent", "*1*5*{w}##"), (Light, "blink_1_0_sec", "*1*21*{w}##")])
            w = str(1000 + i)
            p["replies"], p["result"] = [], None
        elif kind == "single":
            cls, m, f = rng.choice([(EnergyManagement, "get_active_power", "*#18*{w}*113##"),
                                    (EnergyManagement, "get_energy_unit_totalizer", "*#18*{w}*51##")])
            w = f"5{1000 + i}"
            d = {"get_active_power": 113, "get_energy_unit_totalizer": 51}[m]
            k = rng.choice([1, 1, 2, 3])
            p["replies"] = [f"*#18*{w}*{d}*{i * 10 + j}##" for j in range(k)]
            p["result"] = float(i * 10)
        else:
            cls, m, f = rng.choice([(Light, "get_status", "*#1*{w}##"), (Light, "request_working_time_lamp", "*#1*{w}*8##"),
                                    (Automation, "get_status", "*#2*{w}##"), (Dimmer, "request_current_brightness_speed", "*#1*{w}*1##"),
                                    (Dimmer, "get_status", "*#1*{w}##")])
            w = str(1000 + i)
            k = rng.choice([0, 1, 2, 3, 4, 5])
            p["replies"], p["result"] = [], []
            for j in range(k):
                v = rng.randint(0, 1)
                if m == "request_working_time_lamp":
                    p["replies"].append(f"*#1*{w}*8*{i * 10 + j}##")
                    p["result"].append((w, i * 10 + j))
                elif m == "request_current_brightness_speed":
                    p["replies"].append(f"*#1*{w}*1*{100 + j}*{i}##")
                    p["result"].append((w, 100 + j, i))
                elif cls is Automation:
                    p["replies"].append(f"*2*{v}*{w}{j}##")
                    p["result"].append((f"{w}{j}", str(v)))
                elif cls is Dimmer:
                    p["replies"].append(f"*1*{v * 2 + 2}*{w}{j}##")
                    p["result"].append((f"{w}{j}", v * 20 + 20))
                else:
                    p["replies"].append(f"*1*{v}*{w}{j}##")
                    p["result"].append((f"{w}{j}", bool(v)))
        p["cls"], p["method"], p["where"], p["frame"] = cls, m, w, f.format(w=w)
        self.plans[p["frame"]] = p
        return p

    async def respond(self, conn, f):
        p = self.plans.get(f)
        if p is None:
            conn.write("*#*0##")
            return
        p["seen"] += 1
        if p["silent"]:
            return
        out = p["replies"] + ["*#*0##" if p["nack"] else "*#*1##"]
        if p["glue"]:
            await asyncio.sleep(p["delays"][0])
            conn.write("".join(out))
            return
        for d, x in zip(p["delays"], out):
            if d:
                await asyncio.sleep(d)
            conn.write(x)


def plain(x):
    return tuple(str(y) if type(y).__module__.startswith("pyown") else y for y in x) if isinstance(x, tuple) else x


def call(p, client):
    return getattr(p["cls"](client, p["where"]), p["method"])()


def judge(mon, p, k, v, got=None, partial=False):
    """k, v: outcome; got: what a generator yielded."""
    from pyown.exceptions import ResponseError
    name = f"{p['cls'].__name__}.{p['method']}({p['where']})"
    if k == "cancelled":
        mon.obs("cancelled")
    elif p["silent"]:
        mon.check(k == "exc" and isinstance(v, TimeoutError), f"{name}: the gateway did not answer it, but it did not time out", got=repr(v), items=got)
        mon.obs("op_silent")
    elif p["nack"]:
        if not (partial and k == "ok"):     # a partial read may stop before the NACK
            mon.check(k == "exc" and isinstance(v, ResponseError), f"{name}: answered with NACK", got=repr(v), items=got)
    else:
        mon.check(k == "ok", f"{name} failed although the gateway answered it", error=repr(v), plan={x: p[x] for x in ("replies", "delays", "glue")})
        if got is None:
            mon.check(plain(v) == p["result"], f"{name}: wrong result", got=v, expected=p["result"])
        elif not partial:
            mon.check(got == p["result"], f"{name}: wrong replies", got=got, expected=p["result"])
    if got:
        mon.check(got == p["result"][:len(got)], f"{name}: replies of another request", got=got, expected=p["result"])


async def do(world, mon, c, kind, used):
    rng = world.rng
    mon.obs(f"op_{kind}")
    if kind in ("cmd", "single"):
        p = world.new(kind)
        used.append((p, True))
        judge(mon, p, *await scen.outcome(call(p, c)))
        return
    if kind in ("cancel", "waitfor"):
        p = world.new(rng.choice(["cmd", "full", "single"]))
        used.append((p, False))
        after = rng.choice([0, 0, 0.0005, rng.uniform(0, 3), rng.uniform(0, 6)])

        async def whole():
            if p["kind"] == "full":
                return [plain(x) async for x in call(p, c)]
            return await call(p, c)

        if kind == "waitfor":
            t0 = asyncio.get_running_loop().time()
            try:
                async with asyncio.timeout(after):
                    k, v = await scen.outcome(whole())
            except TimeoutError:
                k, v = "cancelled", None
            if k == "exc" and isinstance(v, asyncio.CancelledError):
                k = "cancelled"
        else:
            t = asyncio.ensure_future(whole())
            for _ in range(rng.randint(0, 4)):
                await asyncio.sleep(0)
            if after:
                await asyncio.sleep(after)
            was_done = t.done()
            t.cancel()
            try:
                k, v = await scen.outcome(t)
            except asyncio.CancelledError:
                k, v = "cancelled", None
            if not was_done and not t.done():
                mon.fail("a cancelled request goes on")
        if k == "ok" and p["kind"] == "full":
            judge(mon, p, k, None, v)
        else:
            judge(mon, p, k, v)
        return
    p = world.new("gen")
    used.append((p, True))
    got, stop = [], rng.randint(0, 3) if kind == "partial" else None
    k, v, broke = "ok", None, False
    g = call(p, c)
    try:
        async for x in g:
            got.append(plain(x))
            if kind == "nested":
                q = world.new(rng.choice(["cmd", "single"]))
                used.append((q, True))
                judge(mon, q, *await scen.outcome(call(q, c)))
            if stop is not None and len(got) > stop:
                broke = True
                break
    except asyncio.CancelledError:
        raise
    except Exception as e:
        k, v = "exc", e
    if broke and rng.random() < .5:
        await g.aclose()
    judge(mon, p, k, v, got, partial=broke)


def run(case, mon):
    if "finding" in case:
        return crossing(mon)
    if "late" in case:
        return late(case, mon)
    if "shared" in case:
        return shared(case, mon)
    rng = random.Random(case["seed"])

    async def main(loop):
        world = World(rng, case["silent"], case["maxdelay"])
        c, conn, ep = await scen.connected(loop, case.get("session", "cmd"), responder=world.respond)
        used = []

        async def job(kinds):
            await asyncio.sleep(rng.choice([0, 0, rng.uniform(0, 1)]))
            for k in kinds:
                await do(world, mon, c, k, used)
                if rng.random() < .3:
                    await asyncio.sleep(rng.uniform(0, 1) if rng.random() < .9 else rng.choice(scen.IDLE))

        jobs = [asyncio.ensure_future(job(k)) for k in case["tasks"]]
        try:
            await asyncio.gather(*jobs)
        finally:
            for j in jobs:
                j.cancel()
        if len(jobs) > 1:
            mon.obs("concurrent")
        # whatever happened before, the next request gets its own replies
        await asyncio.sleep(rng.choice([0, 0, 6, 12, 200, 5000]))
        world.silent = 0
        for k in ("cmd", "full", "single"):
            await do(world, mon, c, k, used)
        for p, must in used:
            mon.check(p["seen"] == 1 if must else p["seen"] <= 1, f"the request {p['frame']} was written {p['seen']} times",
                      frames=scen.sent_after_handshake(conn))
        mon.obs("requests", len(used))
        mon.sig([f[:6] for f in scen.sent_after_handshake(conn)], case["tasks"], [p["nack"] for p, _ in used])
    scen.run(main, horizon=1e8)


# queries that several tasks make of the same items: (class, where, method, arguments, frame, reply with the number c, number in the result)
def shared_ops(rng):
    n, m, y = rng.choice([1, 2]), rng.randint(1, 3), rng.choice([24, 25])
    last = lambda v: int(v.rsplit(".", 1)[1])
    return rng.choice([
        ("EnergyManagement", "51", "get_active_power", (), "*#18*51*113##", "*#18*51*113*{c}##", int),
        ("EnergyManagement", "52", "get_active_power", (), "*#18*52*113##", "*#18*52*113*{c}##", int),
        ("EnergyManagement", "51", "get_energy_unit_totalizer", (), "*#18*51*51##", "*#18*51*51*{c}##", int),
        ("EnergyManagement", "51", "get_totalizers", (n,), f"*#18*51*72#{n}##", f"*#18*51*72#{n}*{{c}}*1*1*2024*0*0##", lambda v: int(v[1])),
        ("EnergyManagement", "51", "get_energy_unit_per_month", (m, y), f"*#18*51*52#{y}#{m}##", f"*#18*51*52#{y}#{m}*{{c}}##", int),
        ("Gateway", None, "get_firmware", (), "*#13**16##", "*#13**16*1*2*{c}##", last),
        ("Gateway", None, "get_kernel_version", (), "*#13**23##", "*#13**23*1*2*{c}##", last),
        ("Light", "12", "request_working_time_lamp", (), "*#1*12*8##", "*#1*12*8*{c}##", None),
        ("Dimmer", "12", "request_current_white_temperature", (), "*#1*12*14##", "*#1*12*14*{c}##", None),
        ("Light", "12", "turn_on", (), "*1*1*12##", "", None), ("Light", "12", "turn_off", (), "*1*0*12##", "", None), ("Light", "13", "turn_on", (), "*1*1*13##", "", None)])


def shared(case, mon):
    """Equal requests and requests that differ only in a parameter, of the same items, at the same time. The gateway numbers its answers: each answer is
    the result of exactly one call for that frame, a call that was going on when the gateway gave it."""
    rng = random.Random(case["seed"])

    async def main(loop):
        from pyown import items
        from pyown.exceptions import ResponseError
        answers = {}        # number -> [frame, time, 'ack' | 'nack', used]
        delay = case["maxdelay"]

        async def responder(conn, f):
            c = len(answers) + 1
            await asyncio.sleep(rng.uniform(0, delay))
            nack = rng.random() < case["nack"]
            answers[c] = [f, loop.now, "nack" if nack else "ack", 0]
            reply = replies.get(f, "").format(c=c)
            conn.write(("*#*0##" if nack else reply + "*#*1##"))
        replies = {}
        c, conn, ep = await scen.connected(loop, case["session"], responder=responder)
        pool = {}
        log = []            # (frame, start, end, number | 'ack' | 'nack')

        async def job(n):
            for _ in range(n):
                cls, where, method, args, frame, reply, number = shared_ops(rng)
                replies[frame] = reply
                item = pool.get((cls, where)) if rng.random() < .8 else None
                if item is None:
                    item = pool[(cls, where)] = getattr(items, cls)(c) if where is None else getattr(items, cls)(c, where)
                t0 = loop.now
                try:
                    r = getattr(item, method)(*args)
                    if number is None and reply:
                        got = [x async for x in r]
                        mon.check(len(got) == 1, f"{method}: not the one reply to it", got=got)
                        v = got[0][1]
                    else:
                        v = await r
                        v = number(v) if number else "ack"
                except ResponseError:
                    v = "nack"
                log.append((frame, t0, loop.now, v))
                mon.obs("shared_calls")
                if rng.random() < .3:
                    await asyncio.sleep(rng.uniform(0, 1))
        await asyncio.gather(*[job(n) for n in case["shared"]])
        for frame, t0, t1, v in log:
            if isinstance(v, int):
                a = answers.get(v)
                mon.check(a is not None and a[0] == frame and a[2] == "ack", "the result is the answer to another request", frame=frame, number=v, answer=a)
                mon.check(t0 <= a[1] <= t1, "the result is an answer given before or after the call", frame=frame, call=(t0, t1), answer=a)
                a[3] += 1
                mon.check(a[3] == 1, "one answer is the result of two calls", frame=frame, answer=a)
        for f in {x[0] for x in log}:
            calls = sorted([x for x in log if x[0] == f and isinstance(x[3], str)], key=lambda x: x[2])
            for kind in ("ack", "nack"):
                mine = [x for x in calls if x[3] == kind]
                given = sorted(a[1] for a in answers.values() if a[0] == f and a[2] == kind and not a[3])
                mon.check(len(mine) == len(given), f"calls of {f} and answers with {kind} differ", calls=len(mine), answers=len(given))
                mon.check(all(t <= x[2] for t, x in zip(given, mine)), f"a call of {f} ended before its answer", calls=mine, answers=given)
        sent = scen.sent_after_handshake(conn)
        mon.check(sorted(sent) == sorted(x[0] for x in log), "the requests written are not those made", sent=sent)
        mon.sig(sent, [x[3] for x in log])
    scen.run(main, horizon=1e8)


def late(case, mon):
    """The reply arrives after its request timed out and before the next one."""
    rng = random.Random(case["seed"])
    text = {"ack": "*#*1##", "nack": "*#*0##", "data": "*1*1*77##", "data_ack": "*1*1*77##*#*1##"}[case["late"]]

    async def main(loop):
        world = World(rng, 0, 0.2)
        first = []

        async def responder(conn, f):
            if not first:
                first.append(f)
                loop.call_later(rng.uniform(5.1, 8), conn.write, text)
            else:
                await world.respond(conn, f)

        c, conn, ep = await scen.connected(loop, rng.choice(["cmd", "oldcmd"]), responder=responder)
        p = world.new(rng.choice(["cmd", "full", "single"]))
        if p["kind"] == "full":
            got, e = await scen.collect(call(p, c))
            mon.check(got == [] and isinstance(e, TimeoutError), "an unanswered query did not time out", got=got, error=repr(e))
        else:
            k, v = await scen.outcome(call(p, c))
            mon.check(k == "exc" and isinstance(v, TimeoutError), "an unanswered request did not time out", got=repr(v))
        await asyncio.sleep(4)
        used = []
        for k in (case["kind"], "cmd", "full"):
            await do(world, mon, c, k, used)
        mon.obs("late_seq")
        mon.sig("late", case["late"], case["kind"], p["kind"])
    scen.run(main)


def crossing(mon):
    """Known finding: the late reply of a timed out request arrives when the next request is already waiting."""
    async def main(loop):
        from pyown.exceptions import ResponseError
        from pyown.items import Light

        async def responder(conn, f):
            if f == "*1*1*11##":
                loop.call_later(5.5, conn.write, "*#*0##")
            else:
                loop.call_later(2, conn.write, "*#*1##")

        c, conn, ep = await scen.connected(loop, "cmd", responder=responder)
        k, v = await scen.outcome(Light(c, "11").turn_on())
        mon.check(k == "exc" and isinstance(v, TimeoutError), "an unanswered command did not time out", got=repr(v))
        k, v = await scen.outcome(Light(c, "12").turn_on())
        if k == "exc" and isinstance(v, ResponseError):
            mon.finding("late-reply-crosses", "the late NACK of a timed out command was taken as the reply to the next one")
        else:
            mon.check(k == "ok", "the command after a timed out one", got=repr(v))
    scen.run(main)
