"""Catalogue of the event callbacks: how they are registered, documented frames and the arguments they must get.

Written from docs/original and the docstrings of the registration methods.
"""
import datetime
import functools

from . import methods
from .methods import LIGHT_WHERES, AUTO_WHERES, CAM_WHERES, POWER_WHERES, ACT_WHERES, SG_WHERES, big, pad, rnd_dt

LIGHT_WHATS = [str(i) for i in list(range(0, 19)) + list(range(20, 32))]


def _light(rng):
    w = rng.choice(LIGHT_WHERES)
    n = rng.choice(["0", "1", "0", "1", rng.choice(LIGHT_WHATS)])
    p = rng.choice(["", "", "", f"#{rng.randint(0, 255)}"]) if n in ("0", "1") else ""
    return f"*1*{n}{p}*{w}##", "1", w, [n != "0"]


def _dim(reply, drop=1):
    """From a reply generator of a light query: (frame, [where, *values])."""
    def f(rng):
        w = rng.choice(LIGHT_WHERES)
        frame, exp = reply(rng, w)
        return frame, "1", w, exp[drop:]
    return f


def _auto(rng):
    w = rng.choice(AUTO_WHERES)
    n = rng.randint(0, 2)
    return f"*2*{n}*{w}##", "2", w, [str(n)]


def _cam(rng):
    w = rng.choice(CAM_WHERES)
    n = rng.choice([0, 0] + list(methods.CAM.values()) + [310 + 10 * x + y for x in range(4) for y in range(1, 5)])
    f = f"*7*{n}*{w}##"
    return f, "7", w, [str(n), f]


def _num(dim):
    def f(rng):
        w = rng.choice(POWER_WHERES + ACT_WHERES)
        v = big(rng)
        return f"*#18*{w}*{dim}*{v}##", "18", w, [float(v)]
    return f


def _daily(rng):
    w, mo, d, h, v = rng.choice(POWER_WHERES + ACT_WHERES), rng.randint(1, 12), rng.randint(1, 31), rng.randint(1, 25), rng.randint(0, 65535)
    return f"*#18*{w}*511#{mo}#{d}*{h}*{v}##", "18", w, [float(d), float(mo), float(h), float(v)]


def _series(dim, top):
    def f(rng):
        w, mo, t, v = rng.choice(POWER_WHERES + ACT_WHERES), rng.randint(1, 12), rng.randint(1, top), big(rng)
        return f"*#18*{w}*{dim}#{mo}*{t}*{v}##", "18", w, [float(mo), float(t), float(v)]
    return f


def _per_month(rng):
    w, mo, y, v = rng.choice(POWER_WHERES + ACT_WHERES), rng.randint(1, 12), rng.randint(0, 99), big(rng)
    return f"*#18*{w}*52#{y}#{mo}*{v}##", "18", w, [float(mo), float(y), float(v)]


def _sg(rng):
    w = rng.choice(SG_WHERES)
    mask = rng.choice([0, 0x1FFF, 1 << rng.randrange(13), rng.getrandbits(13)])
    return f"*#18*{w}*250*{methods.sg_text(mask)}##", "18", w, [methods.sg_mask(mask)]


def _act(rng):
    w = rng.choice(ACT_WHERES)
    f, e = methods.r_actuator(rng, w)
    return f, "18", w, [e]


def _tot(rng):
    w, n = rng.choice(POWER_WHERES + ACT_WHERES), rng.choice([1, 2])
    f, e = methods.r_totalizer(n)(rng, w)
    return f, "18", w, [float(n)] + e


def _level(rng):
    w = rng.choice(POWER_WHERES + ACT_WHERES)
    f, e = methods.r_level(rng, w)
    return f, "18", w, [e]


def _gw(reply):
    def f(rng):
        frame, exp = reply(rng, "")
        if rng.random() < .3:       # the gateway tells the events also as written values
            frame = frame.replace("*#13**", "*#13**#", 1)
        return frame, "13", "", [exp]
    return f


def _reg(cls, method):
    def f(cb):
        import pyown.items as items
        getattr(getattr(items, cls), method)(cb)
    return f


def _reg_gw(name):
    def f(cb):
        from pyown.items import Gateway
        from pyown.items.gateway import WhatGateway
        Gateway.register_callback(WhatGateway(name), cb)
    return f


# name -> (registrations of that kind of event, generator of (frame, who, where, arguments after the item))
KINDS = {
    "light.status": ([_reg("Light", "on_status_change"), _reg("Dimmer", "on_status_change")], _light),
    "light.tempo": ([_reg("Light", "on_temporization_change"), _reg("Dimmer", "on_temporization_change")], _dim(methods.r_tempo)),
    "light.lumin": ([_reg("Dimmer", "on_luminosity_change")], _dim(methods.r_bright)),
    "light.hsv": ([_reg("Dimmer", "on_hsv_change")], _dim(methods.r_hsv)),
    "light.white": ([_reg("Dimmer", "on_white_temp_change")], _dim(methods.r_white)),
    "auto": ([_reg("Automation", "on_status_change")], _auto),
    "camera": ([_reg("Camera", "on_status_change")], _cam),
    "energy.daily": ([_reg("EnergyManagement", "on_daily_totalizers_hourly")], _daily),
    "energy.avg": ([_reg("EnergyManagement", "on_monthly_average_hourly")], _series(512, 25)),
    "energy.year": ([_reg("EnergyManagement", "on_monthly_totalizers_current_year")], _series(513, 31)),
    "energy.last": ([_reg("EnergyManagement", "on_monthly_totalizers_last_year")], _series(514, 31)),
    "energy.sg": ([_reg("EnergyManagement", "on_stop_go_status"), _reg("StopGo", "on_stop_go_status")], _sg),
    "energy.power": ([_reg("EnergyManagement", "on_instant_power")], _num(113)),
    "energy.unit": ([_reg("EnergyManagement", "on_energy_unit_totalizer")], _num(51)),
    "energy.month": ([_reg("EnergyManagement", "on_energy_unit_per_month")], _per_month),
    "energy.curmonth": ([_reg("EnergyManagement", "on_partial_totalizer_current_month")], _num(53)),
    "energy.curday": ([_reg("EnergyManagement", "on_partial_totalizer_current_day")], _num(54)),
    "energy.act": ([_reg("EnergyManagement", "on_actuators_info")], _act),
    "energy.tot": ([_reg("EnergyManagement", "on_totalizer_since_reset")], _tot),
    "energy.level": ([_reg("EnergyManagement", "on_differential_current_level")], _level),
    "gw.time": ([_reg_gw("0")], _gw(methods.r_time)), "gw.date": ([_reg_gw("1")], _gw(methods.r_date)),
    "gw.ip": ([_reg_gw("10")], _gw(methods.r_ip)), "gw.mask": ([_reg_gw("11")], _gw(methods.r_mask)),
    "gw.mac": ([_reg_gw("12")], _gw(methods.r_mac)), "gw.model": ([_reg_gw("15")], _gw(methods.r_model)),
    "gw.fw": ([_reg_gw("16")], _gw(methods.r_version(16))), "gw.uptime": ([_reg_gw("19")], _gw(methods.r_uptime)),
    "gw.datetime": ([_reg_gw("22")], _gw(methods.r_datetime)), "gw.kernel": ([_reg_gw("23")], _gw(methods.r_version(23))),
    "gw.distro": ([_reg_gw("24")], _gw(methods.r_version(24))),
}
CLASSES = {"1": "Light", "2": "Automation", "7": "Camera", "13": "Gateway", "18": "EnergyManagement"}
# legal frames that are not an event of a supported kind
NOISE = ["*#*1##", "*#*0##", "*9*9##", "*0*1*12##", "*4*1*12##", "*#4*1*0*215##", "*99*1*12##", "*#22*3#1*5*1##", "*25*21#1*31##", "*17*1*3##",
         "*#5*0##", "*5*9*##", "*16*3*11##", "*#24*1*1*5##", "*1001*1*12##", "*15*1*12##"]
# of a supported WHO, but no callback may be invoked, and nothing may break
UNSUPPORTED = ["*1*99*12##", "*1*1000*12##", "*1*1000#1*12##", "*2*7*15##", "*2*1000#1*15##", "*7*500*4001##", "*#1*12##", "*#1*12*1##", "*#1*12*9*5##",
               "*#1*12*#1*150*5##", "*#1*12*#2*1*2*3##", "*#2*15*10*10*65*000*0##", "*#2*15*1*5##", "*18*71*51##", "*18*57#1#2*51##", "*#18*51*999*5##",
               "*#18*51*1200#1*5##", "*#18*51*#1200#1*5##", "*#18*81*113*5##", "*#18*0*113*5##", "*#18**113*5##", "*#18*71*113*5##", "*#18*51##", "*#18*51*113##",
               "*#13**99*5##", "*#13**0##", "*#13**##", "*13*1*##", "*#13**17*1*2*3##", "*#7*4001*1*5##", "*7*0##", "*7*9##", "*1*1##", "*1*1*12*13##",
               "*#2*15##", "*#18*15*251*1##"]


def unsupported(rng):
    """A frame of a supported WHO whose WHAT or DIMENSION is of no kind of event, with any values."""
    r = rng.random()
    if r < .2:
        return f"*1*{rng.randint(40, 999)}*{rng.randint(11, 99)}##"
    if r < .3:
        return f"*2*{rng.choice([3, 4, 5, 6, 7, 8, 9, 20, 99])}*{rng.randint(11, 99)}##"
    if r < .4:
        return f"*7*{rng.randint(500, 999)}*{rng.randint(4000, 4099)}##"
    who, where, dims = rng.choice([("1", str(rng.randint(11, 99)), [5, 6, 7, 9, 10, 11, 13, 15, 16, 20, 21, 22, 100, 120, 121, 140, 141, 1000]),
                                   ("18", f"5{rng.randint(1, 255)}", [1, 2, 5, 7, 11, 25, 50, 55, 70, 110, 111, 112, 114, 510, 515, 1130, 5110, 720]),
                                   ("13", "", [2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 18, 20, 21, 25, 26, 100, 101, 110, 120, 150, 220, 230])])
    vals = "".join(f"*{rng.choice(['0', '1', '00', '12', '150', '2024', str(rng.randint(0, 255))])}" for _ in range(rng.randint(1, 8)))
    par = f"#{rng.randint(1, 12)}" * rng.choice([0, 0, 0, 1, 2])
    return f"*#{who}*{where}*{rng.choice(dims)}{par}{vals}##"


# of a supported kind but with missing, empty or absurd values
BROKEN = ["*#1*12*1*150##", "*#1*12*2*1*2##", "*#1*12*12*5##", "*#1*12*14*##", "*#1*12*1**##", "*#1*12*2*1**3##", "*#1*12*1*1#2*##", "*1**12##",
          "*2**15##", "*7**4001##", "*#18*51*113*##", "*#18*51*511#1*1*5##", "*#18*51*511*1*5##", "*#18*51*512*1*5##", "*#18*51*52#24*5##",
          "*#18*51*52*5##", "*#18*51*72#1*5*1*1##", "*#18*51*72#1*5*31*2*2024*0*0##", "*#18*51*72*5*1*1*2024*0*0##", "*#18*71#0*71*1*0##", "*#18*11*250*##",
          "*#18*11*250*2222##", "*#18*51*73*##", "*#18*51*51*1#2##", "*#13**0*1*2*3##", "*#13**0*25*61*61*001##", "*#13**1*00*31*02*2024##", "*#13**1*1*1*1##",
          "*#13**10*300*1*1*1##", "*#13**10*1*2*3##", "*#13**12*1*2*3##", "*#13**15*##", "*#13**16*1##", "*#13**19*1*2##", "*#13**22*1*2*3*001##",
          "*#13**22*12*00*00*001*00*32*13*2024##", "*#13**#0*1##", "*#13**0*1*2*3*9##", "*#18*51*514#1*5##", "*#18*51*513#*1*5##", "*#13**0*1*2*3*1#2##"]
# numbers that do not fit where they belong
BROKEN += ["*#13**19*99999999999*0*0*0##", f"*#13**19*{'9' * 400}*1*1*1##", "*#13**22*1*1*1*001*01*01*01*99999999999999999999##",
           "*#13**1*01*01*01*99999999999999999999##", "*#18*51*72#1*5*1*1*99999999999999999999*0*0##", f"*#13**0*1*1*{'9' * 30}*001##",
           f"*#1*12*1*{'9' * 5000}*1##", f"*#18*51*113*{'9' * 5000}##", f"*#18*51*511#{'9' * 5000}#1*1*1##", f"*1*{'9' * 5000}*12##",
           f"*2*1*{'1' * 3000}#{'2' * 3000}##", f"*#13**10*1*1*1*{'9' * 400}##", f"*#13**15*{'9' * 400}##", "*#13**0*1*2*3*099##", "*#13**22*1*1*1*199*01*01*01*2024##",
           f"*#18*11*250*{'1' * 6000}##"]


def observed(args, client=None):
    """What a callback got: (who, where, class, normalised arguments)."""
    item, *rest = args
    out = []
    for x in rest:
        if hasattr(x, "bytes") and hasattr(x, "tags"):      # a message
            out.append(str(x))
        elif isinstance(x, (datetime.datetime, datetime.time)) and x.tzinfo is not None:
            out.append([x.isoformat(), str(x.utcoffset())])
        else:
            out.append(methods.norm(x))
    return str(item.where), type(item).__name__, out


def expected(event):
    frame, who, where, args = event
    out = []
    for x in args:
        if isinstance(x, (datetime.datetime, datetime.time)) and x.tzinfo is not None:
            out.append([x.isoformat(), str(x.utcoffset())])
        else:
            out.append(methods.norm(x))
    return where, CLASSES[who], out


class _Obj:
    """Callables that are not plain coroutine functions."""

    def __init__(self, fn):
        self.fn = fn

    async def method(self, *args):
        return await self.fn(*args)

    async def __call__(self, *args):
        return await self.fn(*args)


async def _with(extra, fn, *args):
    return await fn(*args)


def shaped(fn, rng):
    """The coroutine function fn, as one of the callables a program may register as a coroutine callback."""
    return rng.choice([fn, lambda *a: fn(*a), functools.partial(_with, 1, fn), _Obj(fn).method, _Obj(fn), functools.wraps(fn)(lambda *a: fn(*a))])
