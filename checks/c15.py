"""C15: commands are encoded as documented, illegal arguments are rejected before anything is written."""
import asyncio
import contextlib
import datetime
import random
import sys

from harness import methods, scen
from harness.methods import Call

RULE = ("every public item method at every form of WHERE with every documented argument value (exhaustive for one-argument methods) and illegal "
        "values around each bound; monitored: the exact frames the gateway receives; distinct = (call)")
N = {"quick": 2400, "thorough": 40000}
REQUIRE = {"frames": 6000, "illegal": 120, "invalid_address": 20, "defaults": 20}
EXHAUSTIVE = ["every method at every WHERE form", "dimmer speeds 0..255, percentages 0..100, hue 0..359, saturation/value 0..100", "camera dial 4x4",
              "every (month, day), month, year, force time 1..254, power period 1..255"]
ASSUMPTIONS = ["energy methods do not document what happens with months, days or totalizer numbers out of range: only legal values are used"]


def chunks(l, n=60):
    return [l[i:i + n] for i in range(0, len(l), n)]


def argument_space():
    L = []
    n = lambda m, what, args, w="12", kw=None: L.append(Call("Dimmer", w, m, args, f"*1*{what}*{w}##", "cmd", kwargs=kw))
    for sp in range(256):
        n("turn_on", f"1#{sp}", (sp,))
        n("turn_off", f"0#{sp}", (), kw={"speed": sp})
        n("up_percent", f"30#{sp % 101}#{sp}", (sp % 101, sp))
        n("down_percent", f"31#{100 - sp % 101}#{sp}", (), kw={"value": 100 - sp % 101, "speed": sp})
    for v in range(101):
        n("up_percent", f"30#{v}", (v,))
        n("down_percent", f"31#{v}", (v,))
        L.append(Call("Dimmer", "0105", "set_brightness_with_speed", (100 + v, 255 - v), f"*#1*0105*#1*{100 + v}*{255 - v}##", "cmd"))
        L.append(Call("Dimmer", "0105", "set_brightness_with_speed", (str(100 + v), str(v)), f"*#1*0105*#1*{100 + v}*{v}##", "cmd"))
    for h in range(360):
        L.append(Call("Dimmer", "31", "set_hsv", (h, h % 101, 100 - h % 101), f"*#1*31*#12*{h}*{h % 101}*{100 - h % 101}##", "cmd"))
    for t in [1, 2, 9, 10, 99, 100, 255, 256, 32767, 32768, 65533, 65534] + list(range(150, 500, 7)):
        L.append(Call("Dimmer", "31", "set_white_temperature", (t,), f"*#1*31*#14*{t}##", "cmd"))
    for h in range(24):
        for m, s in ((0, 0), (59, 59), (h * 2, 59 - h), (9, 10)):
            for cls in ("Light", "Dimmer"):
                L.append(Call(cls, "12", "temporization_command", (h, m, s), f"*#1*12*#2*{h}*{m}*{s}##", "cmd"))
    e = lambda m, f, args, w, kw=None: L.append(Call("EnergyManagement", w, m, args, f, "cmd", kwargs=kw))
    for mo in range(1, 13):
        for d in range(1, 32):
            e("start_sending_daily_totalizers_hourly", f"*18*57#{mo}#{d}*51##", (d, mo), "51")
        for m, x in (("start_sending_monthly_average_hourly", 58), ("start_sending_monthly_totalizers_current_year", 59),
                     ("start_sending_monthly_totalizers_last_year", 510)):
            e(m, f"*18*{x}#{mo}*5255##", (mo,), "5255")
        for y in (0, 1, 9, 10, 24, 50, 99):
            L.append(Call("EnergyManagement", "53", "get_energy_unit_per_month", (mo, y), f"*#18*53*52#{y}#{mo}##", "single",
                          methods.r_energy(f"52#{y}#{mo}")))
    for t in range(1, 255):
        e("force_actuator_on", f"*18*73#{t}*71#0##", (t,), "71#0")
    for t in range(1, 256):
        e("start_sending_instant_power", f"*#18*71#0*#1200#1*{t}##", (t,), "71#0")
    return L


def fixed(tier):
    rng = random.Random(11)
    for part in chunks(methods.catalogue(rng, one_where=False)):
        yield {"calls": part, "seed": 1}
    for part in chunks(argument_space(), 150):
        yield {"calls": part, "seed": 2}
        yield {"calls": part[::-1], "seed": 2, "keep": True}
    pool = [c for c in methods.catalogue(rng)]
    for i in range(30):         # long use of the same items
        mates = [c for c in pool if (c.cls, c.where) == (pool[i * 7 % len(pool)].cls, pool[i * 7 % len(pool)].where)]
        yield {"calls": [rng.choice(mates) for _ in range(200)], "seed": i, "keep": True}
    for part in chunks(methods.illegal_calls(), 25):
        yield {"illegal": part}
    yield {"addresses": True}
    for y, m, d in ((2024, 2, 29), (2023, 12, 31), (2031, 1, 1), (2000, 10, 9), (2099, 11, 12), (2005, 7, 8)):
        yield {"now": (y, m, d)}
    yield {"now": None}
    yield {"raw": 1}


def rand(rng, tier):
    r = rng.random()
    if r < .08:
        return {"now": (rng.randint(2000, 2099), rng.randint(1, 12), rng.randint(1, 28))}
    if r < .2:
        return {"raw": rng.randint(0, 1 << 30)}
    if r < .3:
        return {"illegal": rand_illegal(rng)}
    pool = methods.catalogue(rng)
    return {"calls": [rng.choice(pool) for _ in range(15)], "seed": rng.randint(0, 1 << 30), "object": rng.random() < .5, "keep": rng.random() < .5,
            "session": rng.choice(["cmd", "oldcmd"])}


def rand_illegal(rng):
    out = []
    for _ in range(10):
        over = rng.choice([lambda hi: hi + 1, lambda hi: hi + rng.randint(1, 10 ** rng.randint(1, 6)), lambda hi: -rng.randint(1, 10 ** rng.randint(1, 4))])
        m, args = rng.choice([
            ("turn_on", (over(255),)), ("turn_off", (over(255),)), ("up_percent", (over(100),)), ("down_percent", (over(100),)),
            ("up_percent", (5, over(255))), ("down_percent", (5, over(255))), ("set_hsv", (over(359), 1, 1)), ("set_hsv", (1, over(100), 1)),
            ("set_hsv", (1, 1, over(100))), ("set_white_temperature", (over(65534),)), ("temporization_command", (over(23), 1, 1)),
            ("temporization_command", (1, over(59), 1)), ("temporization_command", (1, 1, over(59)))])
        out.append(Call("Dimmer", rng.choice(methods.LIGHT_WHERES), m, args, None, "illegal"))
    return out


@contextlib.contextmanager
def fake_today(y, m, d):
    """Replaces the datetime and date classes in the modules of pyown."""
    real_dt, real_d = datetime.datetime, datetime.date

    class FakeDT(real_dt):
        @classmethod
        def now(cls, tz=None):
            return real_dt(y, m, d, 12, 30, 15, tzinfo=tz)
        today = now
        utcnow = now

    class FakeD(real_d):
        @classmethod
        def today(cls):
            return real_d(y, m, d)

    class FakeMod:
        datetime, date = FakeDT, FakeD

        def __getattr__(self, name):
            return getattr(datetime, name)

    undo = []
    for name, mod in list(sys.modules.items()):
        if name == "pyown" or name.startswith("pyown."):
            for k, v in list(vars(mod).items()):
                new = FakeDT if v is real_dt else FakeD if v is real_d else FakeMod() if v is datetime else None
                if new is not None:
                    undo.append((mod, k, v))
                    setattr(mod, k, new)
    try:
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)


def run(case, mon):
    if "illegal" in case:
        return illegal(case, mon)
    if "addresses" in case:
        return addresses(mon)
    if "now" in case:
        return defaults(case, mon)
    if "raw" in case:
        return raw(case, mon)
    rng = random.Random(case["seed"])

    async def main(loop):
        data = {}

        async def responder(conn, f):
            conn.write(data.get("reply", "") + "*#*1##")

        c, conn, ep = await scen.connected(loop, case.get("session", "cmd"), responder=responder)
        from pyown.tags import Where
        items = {} if case.get("keep") else None
        for call in case["calls"]:
            base = len(conn.frames)
            data["reply"] = call.reply(rng, call.where)[0] if call.reply else ""
            if case.get("object") and call.cls != "Gateway":
                call = Call(call.cls, Where(call.where), call.method, call.args, call.frame, call.kind, call.reply, call.note, call.kwargs)
            k, v = await scen.outcome(call.perform(c, items))
            mon.check(k == "ok", f"{call} failed", error=repr(v))
            got = conn.texts[base:]
            mon.obs("frames")
            mon.sig(call.cls, call.method, call.args, sorted(map(str, call.kwargs.items())), str(call.where))
            if call.note == "30min":
                if got == [call.frame]:
                    mon.finding("turn-on-30-min", f"{call} writes WHAT 17, documented as 30 seconds", got=got)
                else:
                    mon.check(got == [f"*#1*{call.where}*#2*0*30*0##"], f"{call} writes another frame", got=got)
                continue
            mon.check(got == [call.frame], f"{call} writes another frame", got=got, expected=call.frame)
    scen.run(main)


def illegal(case, mon):
    async def main(loop):
        async def responder(conn, f):
            conn.write("*#*1##")

        c, conn, ep = await scen.connected(loop, "cmd", responder=responder)
        for call in case["illegal"]:
            base = len(conn.raw)
            k, v = await scen.outcome(call.perform(c))
            await asyncio.sleep(0.01)
            mon.check(len(conn.raw) == base, f"{call} (illegal argument) wrote to the gateway", raw=conn.raw[base:], outcome=repr(v))
            mon.check(k == "exc" and isinstance(v, (ValueError, KeyError, TypeError)) or type(v).__name__ == "InvalidTag",
                      f"{call} (illegal argument) is not rejected", outcome=repr(v))
            mon.obs("illegal")
            mon.sig(call.method, call.args, sorted(call.kwargs.items()))
    scen.run(main)


def addresses(mon):
    from pyown.exceptions import InvalidTag
    from pyown.items import EnergyManagement, StopGo
    from pyown.items.energy.enums import TypeEnergy

    async def main(loop):
        c = scen.client("cmd")
        for n in range(1, 256):
            types = {f"5{n}": TypeEnergy.POWER_METER, f"7{n}#0": TypeEnergy.ACTUATOR}
            if n <= 127:
                types[f"1{n}"] = TypeEnergy.STOP_GO
            for w, t in types.items():
                mon.check(EnergyManagement(c, w).get_type() == t, "wrong type of an energy address", where=w, got=EnergyManagement(c, w).get_type())
                if t != TypeEnergy.STOP_GO:
                    try:
                        StopGo(c, w)
                    except InvalidTag:
                        mon.obs("invalid_address")
                    else:
                        mon.fail("a Stop&Go at an address of another kind", where=w)
                else:
                    StopGo(c, w)
        for w in ("", "0", "2", "21", "31", "41", "61", "81", "91", "8", "9", "6255", "#1", "71", "72", "7255", "71#1", "71#4", "#3", "00", "1", "5", "7", "7#0", "1#1", "1#0", "5#0", "51#0", "11#0", "31#0", "81#0", "1255#0", "#0", "01", "051", "071#0"):
            for cls in (EnergyManagement, StopGo):
                try:
                    cls(c, w)
                except InvalidTag:
                    mon.obs("invalid_address")
                else:
                    mon.fail(f"{cls.__name__} accepts an address that is not of the energy system", where=w)
    scen.run(main)


def defaults(case, mon):
    """Arguments left out mean the current month, day and year."""
    y, m, d = case["now"] or datetime.date.today().timetuple()[:3]

    async def main(loop):
        async def responder(conn, f):
            conn.write(("*#18*51*52#1#1*5##" if f.startswith("*#") else "") + "*#*1##")

        c, conn, ep = await scen.connected(loop, "cmd", responder=responder)
        from pyown.items import EnergyManagement
        it = EnergyManagement(c, "51")
        for days in range(2):     # midnight can pass while this runs
            real = datetime.date.today()
            base = len(conn.frames)
            await it.start_sending_daily_totalizers_hourly(None, None)
            await it.start_sending_daily_totalizers_hourly(None, 7)
            await it.start_sending_daily_totalizers_hourly(5, None)
            await it.start_sending_monthly_average_hourly(None)
            await it.start_sending_monthly_totalizers_current_year(None)
            await it.start_sending_monthly_totalizers_last_year(None)
            await it.get_energy_unit_per_month()
            await it.get_energy_unit_per_month(month=3)
            await it.get_energy_unit_per_month(year=7)
            got = conn.texts[base:]
            if real == datetime.date.today():
                break

        def exp(y, m, d):
            y %= 100
            return [f"*18*57#{m}#{d}*51##", f"*18*57#7#{d}*51##", f"*18*57#{m}#5*51##", f"*18*58#{m}*51##", f"*18*59#{m}*51##",
                    f"*18*510#{m}*51##", f"*#18*51*52#{y}#{m}##", f"*#18*51*52#{y}#3##", f"*#18*51*52#7#{m}##"]
        mon.check(got in (exp(y, m, d), exp(*real.timetuple()[:3])), "the defaults are not the current date", got=got, expected=exp(y, m, d))
        mon.obs("defaults", len(got))
        mon.sig("now", y, m, d)
    if case["now"]:
        with fake_today(y, m, d):
            scen.run(main)
    else:
        scen.run(main)


def raw(case, mon):
    """The generic senders of every item."""
    rng = random.Random(case["raw"])

    async def main(loop):
        async def responder(conn, f):
            conn.write("*#*1##")

        c, conn, ep = await scen.connected(loop, "cmd", responder=responder)
        from pyown.items import Automation, Camera, EnergyManagement, Gateway, Light
        from pyown.tags import Dimension, Value, What
        num = lambda: str(rng.randint(0, 10 ** rng.randint(1, 4)))
        tag = lambda: num() + "".join("#" + num() for _ in range(rng.choice([0, 0, 1, 2])))
        for _ in range(12):
            cls, who, w = rng.choice([(Light, 1, rng.choice(methods.LIGHT_WHERES)), (Automation, 2, rng.choice(methods.AUTO_WHERES)),
                                      (Camera, 7, "4001"), (EnergyManagement, 18, "51"), (EnergyManagement, 18, "71#0"), (Gateway, 13, "")])
            item = cls(c) if cls is Gateway else cls(c, w)
            base = len(conn.frames)
            t = tag()
            k = rng.choice(["normal", "status", "dim", "write"])
            if k == "normal":
                await item.send_normal_message(rng.choice([t, What(t)]))
                exp = f"*{who}*{t}*{w}##"
            elif k == "status":
                mon.check([x async for x in item.send_status_request()] == [], "an empty answer yields something")
                exp = f"*#{who}*{w}##"
            elif k == "dim":
                mon.check([x async for x in item.send_dimension_request(rng.choice([t, Dimension(t)]))] == [], "an empty answer yields something")
                exp = f"*#{who}*{w}*{t}##"
            else:
                vals = [num() for _ in range(rng.randint(1, 6))]
                await item.send_dimension_writing(rng.choice([t, Dimension(t)]), *[Value(rng.choice([v, int(v)])) for v in vals])
                exp = f"*#{who}*{w}*#{t}" + "".join("*" + v for v in vals) + "##"
            mon.check(conn.texts[base:] == [exp], f"{cls.__name__}: generic {k} message", got=conn.texts[base:], expected=exp)
            mon.obs("frames")
            mon.sig("raw", exp)
    scen.run(main)
