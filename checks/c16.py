"""C16: gateway values survive the wire."""
import datetime
import ipaddress
import random

from harness import methods, scen
from harness.methods import tz_of, tz_text, weekday

RULE = ("setters called with dates, times and time zones, getters answered with documented frames (independent encoder), and set-then-get round "
        "trips through a gateway that stores what it is sent; monitored: the frame written and the value returned; distinct = (method, value)")
N = {"quick": 6000, "thorough": 120000}
REQUIRE = {"set": 3000, "get": 3000, "roundtrip": 300, "naive": 10, "weekdays": 7}
EXHAUSTIVE = ["every day of 2023..2028 (quick) or 2000..2099 (thorough) for set_date and get_date", "every whole hour time zone -12..+14",
              "every hour, minute and second value", "every octet value in each position of IP, MAC; every netmask"]


def fixed(tier):
    years = range(2000, 2100) if tier == "thorough" else range(2023, 2029)
    for y in years:
        for m in range(1, 13):
            yield {"month": (y, m)}
    for z in range(-12, 15):
        yield {"zone": z}
    for a in range(0, 60, 4):
        yield {"clock": (a, a + 4)}
    for a in range(0, 256, 16):
        yield {"octets": (a, a + 16)}
    yield {"masks": True}
    yield {"naive": True}
    yield {"models": True}
    for i in range(4):          # long use of one item
        yield {"seed": i, "n": 60}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "n": 8}


class Store:
    """A gateway with a clock: what is written to a dimension is what is read from it."""

    def __init__(self):
        self.dims = {}

    async def respond(self, conn, f):
        body = f[:-2].split("*")       # ['', '#13', '', dim, values...]
        if f.startswith("*#13**#"):
            self.dims[body[3][1:]] = body[4:]
            conn.write("*#*1##")
        elif f.startswith("*#13**") and body[3] in self.dims:
            conn.write(f"*#13**{body[3]}*" + "*".join(self.dims[body[3]]) + "##*#*1##")
        else:
            conn.write("*#*0##")


def run(case, mon):
    async def main(loop):
        st = Store()
        c, conn, ep = await scen.connected(loop, "cmd", responder=st.respond)
        from pyown.items import Gateway
        gw = Gateway(c)

        async def wrote(coro, frame, what):
            base = len(conn.frames)
            k, v = await scen.outcome(coro)
            mon.check(k == "ok", f"{what} failed", error=repr(v))
            mon.check(conn.texts[base:] == [frame], f"{what} wrote another frame", got=conn.texts[base:], expected=frame)
            mon.obs("set")
            mon.sig(frame)

        async def reads(method, dim, values, expected):
            st.dims[str(dim)] = [str(v) for v in values]
            k, v = await scen.outcome(getattr(gw, method)())
            mon.check(k == "ok", f"{method} failed on {values}", error=repr(v))
            if method == "get_macaddress" and isinstance(v, str):
                v = v.upper()
            same = v == expected and (not isinstance(v, datetime.datetime) and not isinstance(v, datetime.time) or
                                      v.utcoffset() == expected.utcoffset() and v.replace(tzinfo=None) == expected.replace(tzinfo=None))
            mon.check(same, f"{method} decodes {values} wrongly", got=repr(v), expected=repr(expected))
            mon.obs("get")
            mon.sig(method, values)

        async def date(y, m, d):
            w = weekday(y, m, d)
            mon.obs(f"weekday{w}")
            x = datetime.date(y, m, d)
            await wrote(gw.set_date(x), f"*#13**#1*{w:02d}*{d:02d}*{m:02d}*{y}##", f"set_date({x})")
            mon.check(await gw.get_date() == x, "set_date then get_date", date=x)
            mon.obs("roundtrip")
            await reads("get_date", 1, [f"{w:02d}", f"{d:02d}", f"{m:02d}", y], x)

        async def moment(y, m, d, h, mi, s, z, us=0):
            x = datetime.datetime(y, m, d, h, mi, s, us, tzinfo=tz_of(z))
            w = weekday(y, m, d)
            t = f"{h:02d}*{mi:02d}*{s:02d}*{tz_text(z)}"
            await wrote(gw.set_datetime(x), f"*#13**#22*{t}*{w:02d}*{d:02d}*{m:02d}*{y}##", f"set_datetime({x})")
            await wrote(gw.set_time(x.timetz()), f"*#13**#0*{t}##", f"set_time({x.timetz()})")
            x = x.replace(microsecond=0)
            await reads("get_datetime", 22, t.split("*") + [f"{w:02d}", f"{d:02d}", f"{m:02d}", y], x)
            await reads("get_time", 0, t.split("*"), x.timetz())
            if z == 0:      # a gateway without a time zone
                await reads("get_datetime", 22, [f"{h:02d}", f"{mi:02d}", f"{s:02d}", "", f"{w:02d}", f"{d:02d}", f"{m:02d}", y], x)
                mon.obs("no_zone")
            st.dims = {}
            await gw.set_datetime(x)
            got = await gw.get_datetime()
            mon.check(got == x and got.utcoffset() == x.utcoffset(), "set_datetime then get_datetime", got=got, expected=x)
            mon.obs("roundtrip")

        if "month" in case:
            y, m = case["month"]
            d = datetime.date(y, m, 1)
            while d.month == m:
                await date(y, m, d.day)
                d += datetime.timedelta(days=1)
        elif "zone" in case:
            for h, mi, s in ((0, 0, 0), (23, 59, 59), (12, 30, 9), (9, 9, 9), (10, 10, 10)):
                await moment(2024, 2, 29, h, mi, s, case["zone"])
        elif "clock" in case:
            for v in range(*case["clock"]):
                await moment(2025, 10, 5, v % 24, 59 - v, v, 1)
                await reads("get_uptime", 19, [v, v % 24, v, 59 - v], datetime.timedelta(days=v, hours=v % 24, minutes=v, seconds=59 - v))
        elif "octets" in case:
            for v in range(*case["octets"]):
                for i in range(4):
                    o = [10, 200, 7, 99]
                    o[i] = v
                    await reads("get_ip", 10, o, ipaddress.IPv4Address(".".join(map(str, o))))
                for i in range(6):
                    o = [0, 3, 80, 10, 171, 255]
                    o[i] = v
                    await reads("get_macaddress", 12, o, ":".join(f"{x:02X}" for x in o))
                await reads("get_firmware", 16, [v, v + 1, v + 2], f"{v}.{v + 1}.{v + 2}")
                await reads("get_kernel_version", 23, [v, v + 1, v + 2], f"{v}.{v + 1}.{v + 2}")
                await reads("get_distribution_version", 24, [v, v + 1, v + 2], f"{v}.{v + 1}.{v + 2}")
        elif "masks" in case:
            for bits in range(33):
                v = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF
                o = [v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255]
                await reads("get_netmask", 11, o, ".".join(map(str, o)))
                for ip in ("192.168.1.77", "10.200.3.4", "255.0.255.1"):
                    st.dims["10"] = ip.split(".")
                    got = await gw.get_netinfo()
                    mon.check(got == ipaddress.ip_interface(f"{ip}/{bits}").network, "get_netinfo", ip=ip, bits=bits, got=got)
                    mon.obs("get")
        elif "models" in case:
            for n, name in methods.MODELS.items():
                st.dims["15"] = [n]
                v = await gw.get_model()
                mon.check(str(v) == n and v.name == name, "get_model", got=repr(v), expected=name)
                mon.obs("get")
            for n in ("99", "1", "3", "1000"):
                st.dims["15"] = [n]
                v = await gw.get_model()
                mon.check(str(v) == "0", "get_model for an unknown model is not GENERIC", got=repr(v))
        elif "naive" in case:
            class Unknown(datetime.tzinfo):
                def utcoffset(self, dt):
                    return None
            for h in range(12):
                base = len(conn.raw)
                for f in (lambda: gw.set_time(datetime.time(h, 5, tzinfo=Unknown())), lambda: gw.set_datetime(datetime.datetime(2024, 5, 6, h, 7, tzinfo=Unknown())), lambda: gw.set_time(datetime.time(h, 5)), lambda: gw.set_datetime(datetime.datetime(2024, 5, 6, h, 7))):
                    k, v = await scen.outcome(f())
                    mon.check(k == "exc" and isinstance(v, ValueError), "a time without time zone is not refused", got=repr(v))
                    mon.check(len(conn.raw) == base, "a refused time was written", raw=conn.raw[base:])
                    mon.obs("naive")
        else:
            rng = random.Random(case["seed"])
            for _ in range(case["n"]):
                y, m, d, h, mi, s = methods.rnd_dt(rng)
                y = rng.choice([y, y, rng.randint(1970, 9999)])
                if (m, d) == (2, 29):
                    y = 2024
                await date(y, m, d)
                await moment(y, m, d, h, mi, s, rng.randint(-12, 14), rng.choice([0, 1, 500000, 999999]))
                for call in methods.gw_get_calls():
                    frame, exp = call.reply(rng, "")
                    _, _, _, dim, *vals = frame[:-2].split("*")
                    st.dims[dim] = vals
                    k, v = await scen.outcome(call.perform(c))
                    mon.check(k == "ok", f"{call.method} failed on {frame}", error=repr(v))
                    if call.method == "get_macaddress" and isinstance(v, str):
                        v = v.upper()
                    mon.check(methods.norm(v) == methods.norm(exp), f"{call.method} decodes {frame} wrongly", got=repr(v), expected=repr(exp))
                    if isinstance(exp, (datetime.time, datetime.datetime)):
                        mon.check(v.utcoffset() == exp.utcoffset(), f"{call.method}: time zone of {frame}", got=v)
                    mon.obs("get")
                    mon.sig(frame)
    scen.run(main)


def finish(mon):
    if all(mon.counters.get(f"weekday{w}") for w in range(7)):
        mon.obs("weekdays", 7)
