"""C21: get_item returns one stable item per WHO and WHERE."""
import asyncio
import random

from harness import events, methods, ref, scen

RULE = ("random histories of get_item calls (equal but distinct Who/Where objects, many addresses, several clients, unsupported WHOs) mixed with events "
        "delivered by loop(), checked against a model map (client, who, where) -> object; distinct = history")
N = {"quick": 4800, "thorough": 80000}
REQUIRE = {"calls": 10000, "hits": 4000, "event_items": 800, "unsupported": 800, "clients": 500, "restarts": 1000, "late_clients": 5000}
ISOLATE = True
SUPPORTED = {"1": "Light", "2": "Automation", "7": "Camera", "13": "Gateway", "18": "EnergyManagement"}


def fixed(tier):
    for i in range(24):
        yield {"seed": i, "steps": 60, "clients": 1 + i % 3, "events": i % 2, "shared": i % 3 == 0}
    for i in range(3):
        yield {"seed": 500 + i, "steps": 9000, "clients": 1 + i, "events": i % 2, "shared": False, "wide": True}
    yield {"seed": 600, "steps": 40000, "clients": 1, "events": 0, "shared": False, "wide": 30000}
    yield {"all": True}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "steps": rng.choice([5, 20, 60, 150]), "clients": rng.choice([1, 1, 2, 3]), "events": rng.random() < .7,
            "shared": rng.random() < .3}


def address(rng, who, wide=False):
    if who == "13":
        return ""
    if wide and rng.random() < .8:      # thousands of devices
        n = rng.randint(1, 2500 if wide is True else wide)
        return f"5{n}" if who == "18" else str(n)
    if rng.random() < .15 and who != "18":     # addresses that differ in little more than a #, a zero or a parameter
        base = rng.choice(["12", "1", "0115", "0"])
        return rng.choice([base, "#" + base, "0" + base, base + "#0", base + "#4#01", base + "#4#1", base + "#4", base + "#04", base + "4", base + "0"])
    if who == "18":
        return rng.choice([f"5{rng.randint(1, 30)}", f"7{rng.randint(1, 30)}#0", f"1{rng.randint(1, 30)}"])
    return rng.choice(methods.LIGHT_WHERES + [str(rng.randint(1, 40)), f"{rng.randint(1, 9):02d}{rng.randint(1, 15):02d}", f"{rng.randint(11, 19)}#4#0{rng.randint(1, 3)}"])


def fresh(s):
    return "".join(list(s))     # another object with the same text


def run(case, mon):
    if "all" in case:
        return every_who(mon)
    rng = random.Random(case["seed"])

    async def main(loop):
        from pyown.items import Light, Automation, EnergyManagement
        from pyown.tags import Where, Who
        clients, conns, cmds, eps = [], [], [], []
        for i in range(case["clients"]):
            ep = scen.endpoint(loop, host=f"gw{i}")
            c = scen.client("event", host=f"gw{i}")
            await c.start()
            await asyncio.sleep(0.01)
            clients.append(c)
            conns.append(ep.conn)
            eps.append(ep)
            cmds.append(scen.client(rng.choice(["cmd", "oldcmd", "event"]), host=f"cmd{i}") if case["shared"] else None)
            mon.obs("clients")
        others = [scen.client("event", host="other"), scen.client("cmd", host="other"), scen.client("oldcmd", host="other")]
        model = {}          # (client index, who, where) -> item
        owner = {}          # id(item) -> key
        hist = []
        seen = []

        async def cb(item, *args):
            seen.append(item)
        for k in ("light.status", "auto", "energy.power", "camera", "gw.uptime"):
            events.KINDS[k][0][0](cb)
        tasks = []
        if case["events"]:
            for c, cmd in zip(clients, cmds):
                tasks.append(asyncio.ensure_future(c.loop(client=cmd) if cmd else c.loop()))
        await asyncio.sleep(0.1)

        def learn(i, who, where, item, bound):
            key = (i, who, where)
            if key in model:
                mon.obs("hits")
                mon.check(item is model[key], f"get_item({who}, {where!r}) returned another object", history=hist[-20:])
            else:
                mon.check(id(item) not in owner, "one item for two different addresses or clients", key=key, other=owner.get(id(item)), history=hist[-20:])
                mon.check(item.client is bound, "the item is bound to another client", key=key, history=hist[-20:])
                model[key] = item
                owner[id(item)] = key
            mon.check(type(item).__name__ == SUPPORTED[who], "the item has another class", key=key, got=type(item).__name__)
            mon.check(str(item.where) == where and str(item.who) == who, "who/where of the item", key=key, got=(item.who, item.where))
            mon.check(item is model[key] and item.client is bound_of[key] if key in bound_of else True, "the client of the item changed", key=key)
            bound_of.setdefault(key, item.client)

        bound_of = {}
        for _ in range(case["steps"]):
            i = rng.randrange(len(clients))
            c = clients[i]
            r = rng.random()
            if r < .12:
                who = rng.choice(sorted(ref.WHOS - set(SUPPORTED)))
                try:
                    x = c.get_item(Who(who), Where(address(rng, "1")), client=c)
                except KeyError:
                    mon.obs("unsupported")
                else:
                    mon.fail("get_item of an unsupported WHO does not raise KeyError", who=who, got=x)
                continue
            if r < (.121 if case.get("wide") else .15):        # the client is closed and started again: the items stay
                if tasks:
                    await c.close()
                    await asyncio.wait([tasks[i]], timeout=20)
                    mon.check(tasks[i].done(), "loop() did not end after close()")
                else:
                    await c.close()
                await c.start()
                await asyncio.sleep(0.01)
                conns[i] = eps[i].conn
                if tasks:
                    tasks[i] = asyncio.ensure_future(c.loop(client=cmds[i]) if cmds[i] else c.loop())
                    await asyncio.sleep(0.01)
                hist.append((i, "restart"))
                mon.obs("restarts")
                continue
            if r < .4 and case["events"]:
                who = rng.choice(["1", "2", "18", "7", "13"])
                w = address(rng, who, case.get("wide"))
                f = {"1": f"*1*1*{w}##", "2": f"*2*1*{w}##", "7": f"*7*0*{w}##", "18": f"*#18*{w}*113*5##", "13": "*#13**19*1*2*3*4##"}[who]
                base = len(seen)
                conns[i].write(f)
                await asyncio.sleep(0.05)
                hist.append((i, f))
                mon.check(len(seen) == base + 1, "the event was not dispatched once", frame=f, n=len(seen) - base)
                learn(i, who, w, seen[-1], cmds[i] or c)
                mon.obs("event_items")
                continue
            who = rng.choice(list(SUPPORTED))
            w = address(rng, who, case.get("wide"))
            bound = rng.choice([c, cmds[i] or c, rng.choice(clients), others[rng.randrange(len(others))]])
            hist.append((i, who, w))
            learn(i, who, w, c.get_item(Who(fresh(who)), Where(fresh(w)), client=bound), bound)
            mon.obs("calls")
        # a client made now starts with no items, also for the same gateway
        for host in ("gw0", "elsewhere"):
            late = scen.client(rng.choice(["cmd", "event"]), host=host)
            for (i, who, w) in list(model)[:50]:
                x = late.get_item(Who(who), Where(w), client=late)
                mon.check(id(x) not in owner and x.client is late, "a new client gave an item of another client", key=(i, who, w), got=(x, x.client))
                mon.check(late.get_item(Who(fresh(who)), Where(fresh(w)), client=clients[0]) is x, "get_item returned another object", key=(i, who, w))
                mon.obs("late_clients")
        # in the end everything is still there
        for (i, who, w), item in model.items():
            mon.check(clients[i].get_item(Who(who), Where(w), client=clients[i]) is item, "get_item forgot an item", key=(i, who, w))
            mon.check(item.client is bound_of[(i, who, w)], "the client of an item changed", key=(i, who, w))
        for t in tasks:
            mon.check(not t.done(), "loop() ended", t=t)
            t.cancel()
        mon.sig(hist)
    scen.run(main, max_steps=3_000_000)


def every_who(mon):
    async def main(loop):
        from pyown.tags import Where, Who
        c = scen.client("cmd")
        for who in sorted(ref.WHOS):
            for w in ("51", "5255", "53"):
                for _ in range(2):
                    try:
                        x = c.get_item(Who(who), Where("" if who == "13" else w), client=c)
                    except KeyError:
                        mon.check(who not in SUPPORTED, "get_item raises KeyError for a supported WHO", who=who)
                        mon.obs("unsupported")
                    else:
                        mon.check(who in SUPPORTED and type(x).__name__ == SUPPORTED[who], "wrong item", who=who, got=x)
    scen.run(main)
