"""C17: device readings are decoded as documented."""
import asyncio
import random

from harness import events, methods, scen
from harness.methods import Call

RULE = ("every query of lights, dimmers, automations, energy meters, actuators and Stop&Go is answered with documented frames from an independent "
        "encoder, series and status events with the documented event frames; monitored: the decoded value; distinct = (method, frame)")
N = {"quick": 2000, "thorough": 40000}
REQUIRE = {"decoded": 12000, "masks": 8192, "event_masks": 8192, "series": 500}
ISOLATE = True
EXHAUSTIVE = ["all 8192 Stop&Go masks (query and event)", "the 13 single Stop&Go states", "all 64 actuator states", "all dimmer levels, brightness levels, "
              "speeds, hues, saturations, values", "all hours, minutes and seconds of temporization", "every (month, day, hour) series tag"]
ASSUMPTIONS = ["the energy getters return the number of the frame; the documentation contradicts itself about Wh and kWh",
               "dimmer level WHAT=1 (on, level unknown) is not judged"]


def space():
    """(call, frame, expected) for every field value of the small domains."""
    L = []
    q = lambda cls, w, m, kind, f, e, kw=None: L.append((Call(cls, w, m, (), None, kind, kwargs=kw), f, e))
    for w in methods.LIGHT_WHERES:
        for n in range(11):     # 2..10 are the levels of the dimmers in the same area
            q("Light", w, "get_status", "gen", f"*1*{n}*{w}##", [w, bool(n)])
        for n in (0, 2, 3, 4, 5, 6, 7, 8, 9, 10):
            q("Dimmer", w, "get_status", "gen", f"*1*{n}*{w}##", [w, n * 10.])
    for w in methods.AUTO_WHERES:
        for n in (0, 1, 2):
            q("Automation", w, "get_status", "gen", f"*2*{n}*{w}##", [w, str(n)])
    for v in range(256):
        q("Dimmer", "12", "request_current_brightness_speed", "gen", f"*#1*12*1*{100 + v % 101}*{v}##", ["12", 100. + v % 101, float(v)])
    for h in range(360):
        q("Dimmer", "12", "request_current_hsv", "gen", f"*#1*12*12*{h}*{h % 101}*{100 - h % 101}##", ["12", float(h), float(h % 101), 100. - h % 101])
    for v in range(60):
        for cls in ("Light", "Dimmer"):
            q(cls, "0312#4#01", "temporization_request", "gen", f"*#1*0312#4#01*2*{v % 24}*{v}*{59 - v}##", ["0312#4#01", v % 24., float(v), 59. - v])
    for t in (1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 32767, 32768, 65534):
        q("Dimmer", "12", "request_current_white_temperature", "gen", f"*#1*12*14*{t}##", ["12", float(t)])
    for t in (1, 9, 10, 99, 100, 999, 1000, 65536, 99999, 100000):
        for cls in ("Light", "Dimmer"):
            q(cls, "12", "request_working_time_lamp", "gen", f"*#1*12*8*{t}##", ["12", float(t)])
    for bits in range(32):
        b = [bits >> i & 1 for i in range(5)]
        for mode in (1, 2):
            q("EnergyManagement", "71#0", "get_actuators_info", "single", "*#18*71#0*71*" + "*".join(map(str, b + [mode])) + "##", methods.actuator(b, mode))
    return L


def fixed(tier):
    s = space()
    for i in range(0, len(s), 120):
        yield {"space": (i, i + 120), "keep": i % 240}
    for a in range(0, 8192, 512):
        yield {"masks": (a, a + 512), "keep": a % 1024}
        yield {"event_masks": (a, a + 512)}
    for m in range(1, 13):
        yield {"series": m}
    yield {"one": True}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "n": 25, "keep": rng.random() < .5}


SPACE = None


def run(case, mon):
    global SPACE
    SPACE = SPACE or space()
    if "event_masks" in case or "series" in case:
        return by_event(case, mon)

    async def main(loop):
        cur = {}

        async def responder(conn, f):
            conn.write(cur["frame"] + "*#*1##")

        c, conn, ep = await scen.connected(loop, "cmd", responder=responder)

        items = {} if case.get("keep") else None

        async def ask(call, frame, exp):
            cur["frame"] = frame
            k, v = await scen.outcome(call.perform(c, items))
            mon.check(k == "ok", f"{call} fails on {frame}", error=repr(v))
            if call.kind == "gen":
                exp = [exp]
            mon.check(methods.norm(v) == methods.norm(exp), f"{call} decodes {frame} wrongly", got=v, expected=exp)
            if call.kind == "gen":
                mon.check([type(x[0]).__name__ for x in v] == ["Where"], f"{call}: the address is not a Where", got=v)
            mon.obs("decoded")
            mon.sig(call.method, frame)

        if "space" in case:
            for x in SPACE[slice(*case["space"])]:
                await ask(*x)
        elif "masks" in case:
            for m in range(*case["masks"]):
                await ask(Call("StopGo", "11", "request_status", (), None, "single"), f"*#18*11*250*{methods.sg_text(m)}##", methods.sg_mask(m))
                mon.obs("masks")
        elif "one" in case:
            rng = random.Random(1)
            for call in methods.sg_calls("1127"):
                if call.reply:
                    for i in range(12):
                        await ask(call, *call.reply(rng, "1127"))
        else:
            rng = random.Random(case["seed"])
            pool = [q for q in methods.queries(rng) if q.cls != "Gateway"]
            for _ in range(case["n"]):
                call = rng.choice(pool)
                await ask(call, *call.reply(rng, call.where))
    scen.run(main)


def by_event(case, mon):
    """Readings that only exist as events."""
    async def main(loop):
        evs = []
        if "event_masks" in case:
            evs = [("energy.sg", (f"*#18*11*250*{methods.sg_text(m)}##", "18", "11", [methods.sg_mask(m)])) for m in range(*case["event_masks"])]
            mon.obs("event_masks", len(evs))
        else:
            mo = case["series"]
            for d in range(1, 32):
                for h in (1, 2, 10, 12, 24, 25, (d % 25) + 1):
                    evs.append(("energy.daily", (f"*#18*51*511#{mo}#{d}*{h}*{d * 100 + h}##", "18", "51", [float(d), float(mo), float(h), d * 100. + h])))
                evs.append(("energy.year", (f"*#18*51*513#{mo}*{d}*{d + 70000}##", "18", "51", [float(mo), float(d), d + 70000.])))
                evs.append(("energy.last", (f"*#18*51*514#{mo}*{d}*{d + 90000}##", "18", "51", [float(mo), float(d), d + 90000.])))
            for h in range(1, 26):
                evs.append(("energy.avg", (f"*#18*51*512#{mo}*{h}*{h + 300}##", "18", "51", [float(mo), float(h), h + 300.])))
            for y in range(100):
                evs.append(("energy.month", (f"*#18*51*52#{y}#{mo}*{y * 7}##", "18", "51", [float(mo), float(y), y * 7.])))
            mon.obs("series", len(evs))
        got = []
        go = asyncio.Event()

        async def feed(conn):
            await go.wait()
            for i in range(0, len(evs), 16):
                conn.write("".join(e[0] for _, e in evs[i:i + 16]))
                await asyncio.sleep(0.01)

        c, conn, ep = await scen.connected(loop, "event", after=feed)
        for k in {k for k, _ in evs}:
            async def cb(*args, k=k):
                got.append((k, events.observed(args)))
            events.KINDS[k][0][0](cb)
        t = asyncio.ensure_future(c.loop())
        go.set()
        await asyncio.sleep(len(evs) * 0.01 + 1)
        t.cancel()
        exp = [(k, events.expected(e)) for k, e in evs]
        for i, (a, b) in enumerate(zip(got, exp)):
            mon.check(a == b, f"the event {evs[i][1][0]} is decoded wrongly", got=a, expected=b)
            mon.obs("decoded")
            mon.sig(evs[i][1][0])
        mon.check(len(got) == len(exp), "events are missing", got=len(got), expected=len(exp))
    scen.run(main)
