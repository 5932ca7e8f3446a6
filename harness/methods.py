"""Catalogue of the public item methods: the frame docs/original prescribes and the meaning of the documented replies.

Written from docs/original and the public docstrings, shares no tables with pyown.
"""
import datetime
import ipaddress
import random

LIGHT_WHERES = ["12", "0", "1", "9", "00", "0105", "1015", "#3", "#15", "12#4#01", "0312#4#01", "0#4#02", "#3#4#01", "99", "100"]
AUTO_WHERES = ["15", "0", "3", "0215", "#2", "45#4#03"]
CAM_WHERES = ["4000", "4001", "4099"]
POWER_WHERES = ["51", "5255", "53"]
ACT_WHERES = ["71#0", "7255#0", "72#0"]
SG_WHERES = ["11", "1127", "15"]


class Call:
    """One concrete call: item class, where, method, arguments -> frame and kind."""

    def __init__(self, cls, where, method, args, frame, kind, reply=None, note=None, kwargs=None):
        self.cls, self.where, self.method, self.args, self.frame, self.kind = cls, where, method, args, frame, kind
        self.reply = reply      # f(rng, where) -> (frame, expected result or item)
        self.note = note
        self.kwargs = kwargs or {}

    def __repr__(self):
        a = ", ".join([repr(x) for x in self.args] + [f"{k}={v!r}" for k, v in self.kwargs.items()])
        return f"{self.cls}({self.where!r}).{self.method}({a})"

    def item(self, client, items=None):
        """A new item, or the one of `items` (a dict) when it is given."""
        if items is not None:
            key = (self.cls, type(self.where).__name__, str(self.where))
            if key not in items:
                items[key] = self.item(client)
            return items[key]
        from pyown.items import Automation, Camera, Dimmer, EnergyManagement, Gateway, Light, StopGo
        c = dict(Automation=Automation, Camera=Camera, Dimmer=Dimmer, EnergyManagement=EnergyManagement, Gateway=Gateway,
                 Light=Light, StopGo=StopGo)[self.cls]
        return c(client) if self.cls == "Gateway" else c(client, self.where)

    def invoke(self, client, items=None):
        """The coroutine (or async generator) of the call."""
        return getattr(self.item(client, items), self.method)(*self.args, **self.kwargs)

    async def perform(self, client, items=None):
        """Result of the call: None, a value, or the list of what the generator yields."""
        r = self.invoke(client, items)
        if self.kind == "gen":
            return [x async for x in r]
        return await r


# -- replies: (frame, decoded) ---------------------------------------------------
def norm(x):
    """A comparable form of a decoded value."""
    import enum
    if isinstance(x, (tuple, list)):
        return [norm(y) for y in x]
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, enum.Enum):
        return str(x)
    if type(x).__module__.startswith("pyown.tags"):
        return str(x)
    if isinstance(x, (int, float)):
        return float(x)
    if hasattr(x, "__dataclass_fields__"):
        return {k: norm(getattr(x, k)) for k in x.__dataclass_fields__}
    return x


def big(rng):
    return rng.choice([0, 1, 9, 10, 99, 255, 256, 1000, 65535, 65536, 123456, 2 ** 32 - 1, rng.randint(0, 10 ** rng.randint(1, 9))])


def edge(rng, lo, hi):
    """Any value of the range, the ends and the limits of a byte or word more often."""
    if rng.random() < .3:
        return rng.choice([lo, lo, hi, hi, lo + 1, hi - 1] + [x for x in (0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536) if lo <= x <= hi])
    if rng.random() < .2:
        return rng.randint(lo, min(hi, lo + 20))
    return rng.randint(lo, hi)


def r_light(rng, w):
    n = rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 5, 9, 10])     # an area holds dimmers too
    return f"*1*{n}*{w}##", [w, n != 0]


def r_dimmer(rng, w):
    n = rng.choice([0, 2, 3, 4, 5, 6, 7, 8, 9, 10])
    return f"*1*{n}*{w}##", [w, float(n * 10)]


def r_tempo(rng, w):
    h, m, s = edge(rng, 0, 23), edge(rng, 0, 59), edge(rng, 0, 59)
    return f"*#1*{w}*2*{h}*{m}*{s}##", [w, float(h), float(m), float(s)]


def r_work(rng, w):
    n = edge(rng, 0, 100000)
    return f"*#1*{w}*8*{n}##", [w, float(n)]


def r_bright(rng, w):
    b, s = edge(rng, 100, 200), edge(rng, 0, 255)
    return f"*#1*{w}*1*{b}*{s}##", [w, float(b), float(s)]


def r_hsv(rng, w):
    h, s, v = edge(rng, 0, 359), edge(rng, 0, 100), edge(rng, 0, 100)
    return f"*#1*{w}*12*{h}*{s}*{v}##", [w, float(h), float(s), float(v)]


def r_white(rng, w):
    t = edge(rng, 1, 65534)
    return f"*#1*{w}*14*{t}##", [w, float(t)]


def r_auto(rng, w):
    n = rng.randint(0, 2)
    return f"*2*{n}*{w}##", [w, str(n)]


def r_energy(dim):
    def f(rng, w):
        v = big(rng)
        return f"*#18*{w}*{dim}*{v}##", float(v)
    return f


def r_level(rng, w):
    v = rng.randint(1, 3)
    return f"*#18*{w}*73*{v}##", float(v)


ACT_FIELDS = ["disabled", "forcing", "threshold", "protection", "phase"]


def actuator(bits, mode):
    return {**{k: bool(b) for k, b in zip(ACT_FIELDS, bits)}, "advanced": mode == 1}


def r_actuator(rng, w):
    bits = [rng.randint(0, 1) for _ in range(5)]
    mode = rng.choice([1, 2])
    return f"*#18*{w}*71*" + "*".join(map(str, bits + [mode])) + "##", actuator(bits, mode)


def rnd_dt(rng):
    y = rng.choice([2000, 2024, 2023, 2099, rng.randint(2000, 2100)])
    m = rng.randint(1, 12)
    d = rng.randint(1, 28 if m == 2 else 30)
    if rng.random() < .1:
        y, m, d = 2024, 2, 29
    if rng.random() < .1:
        m, d = 12, 31
    if rng.random() < .15:      # midnight, noon, the first and last instants of the day
        return (y, m, d) + rng.choice([(0, 0, 0), (0, 0, 0), (12, 0, 0), (23, 59, 59), (0, 0, 1), (23, 0, 0), (0, 59, 0)])
    return y, m, d, edge(rng, 0, 23), edge(rng, 0, 59), edge(rng, 0, 59)


def pad(rng, n, w=2):
    """Fields are zero padded, or not, depending on the device."""
    return f"{n:0{w}d}" if rng.random() < .6 else str(n)


def r_totalizer(n):
    def f(rng, w):
        y, m, d, h, mi, _ = rnd_dt(rng)
        e = big(rng)
        return (f"*#18*{w}*72#{n}*{e}*{pad(rng, d)}*{pad(rng, m)}*{y}*{pad(rng, h)}*{pad(rng, mi)}##",
                [datetime.datetime(y, m, d, h, mi), float(e)])
    return f


SG_FIELDS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
             "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]


def sg_mask(mask):
    """Documented as b13...b1, b1 (open) being the last digit."""
    return {k: bool(mask >> i & 1) for i, k in enumerate(SG_FIELDS)}


def sg_text(mask):
    return f"{mask:013b}"


def r_sg(rng, w):
    mask = rng.getrandbits(13)
    return f"*#18*{w}*250*{sg_text(mask)}##", sg_mask(mask)


def r_sg_one(i):
    def f(rng, w):
        b = rng.randint(0, 1)
        return f"*#18*{w}*{251 + i}*{b}##", {k: (bool(b) if j == i else None) for j, k in enumerate(SG_FIELDS)}
    return f


def tz_text(hours):
    return f"{'0' if hours >= 0 else '1'}{abs(hours):02d}"


def tz_of(hours):
    return datetime.timezone(datetime.timedelta(hours=hours))


def r_time(rng, w):
    _, _, _, h, m, s = rnd_dt(rng)
    z = rng.randint(-12, 14)
    return f"*#13**0*{h:02d}*{m:02d}*{s:02d}*{tz_text(z)}##", datetime.time(h, m, s, tzinfo=tz_of(z))


def weekday(y, m, d):
    """00 is Sunday (Zeller, independent of datetime)."""
    if m < 3:
        m, y = m + 12, y - 1
    h = (d + 13 * (m + 1) // 5 + y % 100 + y % 100 // 4 + y // 100 // 4 + 5 * (y // 100)) % 7    # 0 is Saturday
    return (h - 1) % 7


def r_date(rng, w):
    y, m, d, *_ = rnd_dt(rng)
    return f"*#13**1*{weekday(y, m, d):02d}*{d:02d}*{m:02d}*{y}##", datetime.date(y, m, d)


def r_datetime(rng, w):
    y, m, d, h, mi, s = rnd_dt(rng)
    z = rng.randint(-12, 14)
    return (f"*#13**22*{h:02d}*{mi:02d}*{s:02d}*{tz_text(z)}*{weekday(y, m, d):02d}*{d:02d}*{m:02d}*{y}##",
            datetime.datetime(y, m, d, h, mi, s, tzinfo=tz_of(z)))


def octets(rng, n):
    return [rng.choice([0, 1, 9, 10, 15, 16, 99, 100, 127, 128, 192, 255, rng.randint(0, 255)]) for _ in range(n)]


def r_ip(rng, w):
    o = octets(rng, 4)
    return "*#13**10*" + "*".join(map(str, o)) + "##", ipaddress.IPv4Address(".".join(map(str, o)))


def r_mask(rng, w):
    bits = rng.randint(0, 32)
    v = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF
    o = [v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255]
    return "*#13**11*" + "*".join(map(str, o)) + "##", ".".join(map(str, o))


def r_mac(rng, w):
    o = octets(rng, 6)
    return "*#13**12*" + "*".join(map(str, o)) + "##", ":".join(f"{x:02X}" for x in o)


MODELS = {"2": "MHServer", "4": "MH200", "6": "F452", "7": "F452V", "11": "MHServer2", "13": "H4684", "23": "HL4684", "200": "MH202"}


def r_model(rng, w):
    n = rng.choice(list(MODELS))
    return f"*#13**15*{n}##", n


def r_version(dim):
    def f(rng, w):
        v, r, b = (rng.choice([0, 1, 2, 9, 10, 25, 99, 100]) for _ in range(3))
        return f"*#13**{dim}*{v}*{r}*{b}##", f"{v}.{r}.{b}"
    return f


def r_uptime(rng, w):
    d, h, m, s = rng.choice([0, 1, 30, 400, 9999]), edge(rng, 0, 23), edge(rng, 0, 59), edge(rng, 0, 59)
    return f"*#13**19*{pad(rng, d)}*{pad(rng, h)}*{pad(rng, m)}*{pad(rng, s)}##", datetime.timedelta(days=d, hours=h, minutes=m, seconds=s)


# -- calls --------------------------------------------------------------------
def light_calls(cls, w):
    def n(method, what, args=(), note=None, kwargs=None):
        return Call(cls, w, method, args, f"*1*{what}*{w}##", "cmd", note=note, kwargs=kwargs)

    out = [n("turn_on", 1), n("turn_off", 0)]
    out += [n(f"turn_on_{k}_min", v, note="30min" if k == 30 else None) for k, v in ((1, 11), (2, 12), (3, 13), (4, 14), (5, 15), (15, 16), (30, 17))]
    out += [n("turn_on_0_5_sec", 18)]
    out += [Call(cls, w, "temporization_request", (), f"*#1*{w}*2##", "gen", r_tempo),
            Call(cls, w, "request_working_time_lamp", (), f"*#1*{w}*8##", "gen", r_work)]
    if cls == "Light":
        out += [n(f"blink_{k // 10}_{k % 10}_sec", 20 + i) for i, k in enumerate(range(5, 55, 5))]
        out += [Call(cls, w, "get_status", (), f"*#1*{w}##", "gen", r_light)]
    else:
        out += [n(f"set_{p}_percent", p // 10) for p in range(20, 110, 10)]
        out += [Call(cls, w, "get_status", (), f"*#1*{w}##", "gen", r_dimmer),
                Call(cls, w, "request_current_brightness_speed", (), f"*#1*{w}*1##", "gen", r_bright),
                Call(cls, w, "request_current_hsv", (), f"*#1*{w}*12##", "gen", r_hsv),
                Call(cls, w, "request_current_white_temperature", (), f"*#1*{w}*14##", "gen", r_white),
                n("up_percent", 30), n("down_percent", 31)]
    return out


def light_arg_calls(cls, w, rng):
    """Calls with arguments."""
    def n(method, what, args=(), kwargs=None):
        return Call(cls, w, method, args, f"*1*{what}*{w}##", "cmd", kwargs=kwargs)

    def dw(method, dim, args):
        return Call(cls, w, method, args, f"*#1*{w}*#{dim}" + "".join(f"*{a}" for a in args) + "##", "cmd")

    edge = lambda lo, hi: rng.choice([lo, hi, lo + 1, hi - 1, rng.randint(lo, hi)])
    h, m, s = edge(0, 23), edge(0, 59), edge(0, 59)
    out = [dw("temporization_command", 2, (h, m, s))]
    if cls == "Dimmer":
        v, sp = edge(0, 100), edge(0, 255)
        out += [n("turn_on", f"1#{sp}", (sp,)), n("turn_off", f"0#{sp}", (sp,)), n("turn_on", f"1#{sp}", kwargs={"speed": sp}),
                n("up_percent", f"30#{v}", (v,)), n("up_percent", f"30#{v}#{sp}", (v, sp)), n("down_percent", f"31#{v}", (v,)),
                n("down_percent", f"31#{v}#{sp}", (v, sp)), n("up_percent", f"30#1#{sp}", kwargs={"speed": sp}),
                n("down_percent", f"31#1#{sp}", kwargs={"speed": sp}),
                dw("set_brightness_with_speed", 1, (edge(100, 200), sp)),
                dw("set_hsv", 12, (edge(0, 359), edge(0, 100), edge(0, 100))), dw("set_white_temperature", 14, (edge(1, 65534),))]
    return out


def illegal_calls(w="12"):
    """Calls whose arguments are outside the documented range: they must raise and write nothing."""
    out = []
    def bad(cls, method, *args, where=w, **kw):
        out.append(Call(cls, where, method, args, None, "illegal", kwargs=kw))
    for cls in ("Light", "Dimmer"):
        for a in ((24, 0, 0), (0, 60, 0), (0, 0, 60), (99, 99, 99), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (25, 0, 0), (0, 61, 5), (5, 5, 61)):
            bad(cls, "temporization_command", *a)
    for sp in (-1, 256, 1000, -255):
        bad("Dimmer", "turn_on", sp)
        bad("Dimmer", "turn_off", sp)
        for m in ("up_percent", "down_percent"):
            bad("Dimmer", m, 10, sp)
            bad("Dimmer", m, speed=sp)
    for v in (-1, 101, 255):
        for m in ("up_percent", "down_percent"):
            bad("Dimmer", m, v)
            bad("Dimmer", m, v, 10)
    for a in ((99, 10), (201, 10), (0, 10), (-1, 10), (255, 255), (1000, 0), (150, -1), (150, 256), (100, 1000), (200, -255), ("99", "10"), ("201", "10"), ("150", "256"),
              ("150", "-1"), ("-150", "1"), (50, 0), ("", "1"), ("150", "")):
        bad("Dimmer", "set_brightness_with_speed", *a)
    for a in ((360, 0, 0), (-1, 0, 0), (0, 101, 0), (0, -1, 0), (0, 0, 101), (0, 0, -1), (361, 100, 100), (1000, 1, 1)):
        bad("Dimmer", "set_hsv", *a)
    for t in (0, -1, 65535, 65536, 100000):
        bad("Dimmer", "set_white_temperature", t)
    for a in ((0, 1), (1, 0), (5, 1), (1, 5), (-1, 2), (2, -1), (11, 1), (0, 0)):
        bad("Camera", "display_dial", *a, where="4001")
    return out


def auto_calls(w):
    return [Call("Automation", w, m, (), f"*2*{v}*{w}##", "cmd") for m, v in (("stop", 0), ("up", 1), ("down", 2))] + [
        Call("Automation", w, "get_status", (), f"*#2*{w}##", "gen", r_auto)]


CAM = {"free_resources": 9, "zoom_in": 120, "zoom_out": 121, "increase_x_coordinate": 130, "decrease_x_coordinate": 131,
       "increase_y_coordinate": 140, "decrease_y_coordinate": 141, "increase_luminosity": 150, "decrease_luminosity": 151,
       "increase_contrast": 160, "decrease_contrast": 161, "increase_color": 170, "decrease_color": 171, "increase_quality": 180,
       "decrease_quality": 181}


def cam_calls(w):
    return ([Call("Camera", w, "receive_video", (), f"*7*0*{w}##", "cmd")]
            + [Call("Camera", w, m, (), f"*7*{v}##", "cmd") for m, v in CAM.items()]
            + [Call("Camera", w, "display_dial", (x, y), f"*7*3{x}{y}##", "cmd") for x in (1, 2, 3, 4) for y in (1, 2, 3, 4)])


def energy_calls(w, rng, cls="EnergyManagement"):
    day, month, year = rng.randint(1, 31), rng.randint(1, 12), rng.choice([0, 9, 10, 24, 99, rng.randint(0, 99)])
    t, n = rng.choice([1, 2, 100, 254, rng.randint(1, 254)]), rng.choice([1, 2])
    t2 = rng.choice([1, 5, 255, rng.randint(1, 255)])

    def c(method, what, args=(), kwargs=None):
        return Call(cls, w, method, args, f"*18*{what}*{w}##", "cmd", kwargs=kwargs)

    def q(method, dim, reply, args=(), kwargs=None):
        return Call(cls, w, method, args, f"*#18*{w}*{dim}##", "single", reply, kwargs=kwargs)

    return [
        c("start_sending_daily_totalizers_hourly", f"57#{month}#{day}", (day, month)),
        c("start_sending_daily_totalizers_hourly", f"57#{month}#{day}", kwargs={"day": day, "month": month}),
        c("start_sending_monthly_average_hourly", f"58#{month}", (month,)),
        c("start_sending_monthly_totalizers_current_year", f"59#{month}", (month,)),
        c("start_sending_monthly_totalizers_last_year", f"510#{month}", (month,)),
        c("enable_actuator", 71), c("force_actuator_on", 73), c("force_actuator_on", f"73#{t}", (t,)), c("force_actuator_off", 74),
        c("reset_totalizers", f"75#{n}", (n,)),
        Call(cls, w, "start_sending_instant_power", (t2,), f"*#18*{w}*#1200#1*{t2}##", "cmd"),
        Call(cls, w, "start_sending_instant_power", (t2, 2), f"*#18*{w}*#1200#2*{t2}##", "cmd"),
        Call(cls, w, "stop_sending_instant_power", (), f"*#18*{w}*#1200#1*0##", "cmd"),
        Call(cls, w, "stop_sending_instant_power", (2,), f"*#18*{w}*#1200#2*0##", "cmd"),
        q("get_active_power", 113, r_energy("113")), q("get_energy_unit_totalizer", 51, r_energy("51")),
        q("get_energy_unit_per_month", f"52#{year}#{month}", r_energy(f"52#{year}#{month}"), (month, year)),
        q("get_energy_unit_per_month", f"52#{year}#{month}", r_energy(f"52#{year}#{month}"), kwargs={"month": month, "year": year}),
        q("get_partial_totalizer_current_month", 53, r_energy("53")), q("get_partial_totalizer_current_day", 54, r_energy("54")),
        q("get_actuators_info", 71, r_actuator), q("get_totalizers", f"72#{n}", r_totalizer(n), (n,)),
        q("get_differential_current_level", 73, r_level),
    ]


def sg_calls(w):
    from pyown.items.energy.enums import DimensionEnergy
    out = [Call("StopGo", w, "enable_automatic_reset", (), f"*18*26*{w}##", "cmd"),
           Call("StopGo", w, "disable_automatic_reset", (), f"*18*27*{w}##", "cmd"),
           Call("StopGo", w, "request_status", (), f"*#18*{w}*250##", "single", r_sg)]
    for i in range(13):
        out.append(Call("StopGo", w, "request_status", (), f"*#18*{w}*{251 + i}##", "single", r_sg_one(i),
                        kwargs={"dim_req": DimensionEnergy(str(251 + i))}))
    return out


def gw_get_calls():
    def q(m, d, r):
        return Call("Gateway", "", m, (), f"*#13**{d}##", "single", r)
    return [q("get_time", 0, r_time), q("get_date", 1, r_date), q("get_ip", 10, r_ip), q("get_netmask", 11, r_mask),
            q("get_macaddress", 12, r_mac), q("get_model", 15, r_model), q("get_firmware", 16, r_version(16)), q("get_uptime", 19, r_uptime),
            q("get_datetime", 22, r_datetime), q("get_kernel_version", 23, r_version(23)), q("get_distribution_version", 24, r_version(24))]


def gw_set_calls(rng):
    y, m, d, h, mi, s = rnd_dt(rng)
    z = rng.randint(-12, 14)
    us = rng.choice([0, 0, 999999])
    t = datetime.time(h, mi, s, us, tzinfo=tz_of(z))
    dt = datetime.datetime(y, m, d, h, mi, s, us, tzinfo=tz_of(z))
    w = weekday(y, m, d)
    return [Call("Gateway", "", "set_time", (t,), f"*#13**#0*{h:02d}*{mi:02d}*{s:02d}*{tz_text(z)}##", "cmd"),
            Call("Gateway", "", "set_date", (datetime.date(y, m, d),), f"*#13**#1*{w:02d}*{d:02d}*{m:02d}*{y}##", "cmd"),
            Call("Gateway", "", "set_datetime", (dt,),
                 f"*#13**#22*{h:02d}*{mi:02d}*{s:02d}*{tz_text(z)}*{w:02d}*{d:02d}*{m:02d}*{y}##", "cmd")]


def catalogue(rng=None, *, one_where=True):
    """Every public method of every item, with legal arguments."""
    rng = rng or random.Random(5)
    pick = lambda l: [rng.choice(l)] if one_where else l
    out = []
    for w in pick(LIGHT_WHERES):
        out += light_calls("Light", w) + light_arg_calls("Light", w, rng)
    for w in pick(LIGHT_WHERES):
        out += light_calls("Dimmer", w) + light_arg_calls("Dimmer", w, rng)
    for w in pick(AUTO_WHERES):
        out += auto_calls(w)
    for w in pick(CAM_WHERES):
        out += cam_calls(w)
    for w in pick(POWER_WHERES + ACT_WHERES):
        out += energy_calls(w, rng)
    for w in pick(SG_WHERES):
        out += energy_calls(w, rng, "StopGo") + sg_calls(w)
    out += gw_get_calls() + gw_set_calls(rng)
    return out


def commands(rng):
    return [c for c in catalogue(rng) if c.kind == "cmd"]


def queries(rng):
    return [c for c in catalogue(rng) if c.kind in ("gen", "single")]
