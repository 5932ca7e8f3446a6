"""C28: the generic item interface drives any WHO."""
import asyncio
import random

from harness import ref, scen

RULE = ("items of every WHO (generic items and the dedicated classes, who= overrides, Where or str addresses) send random normal, status, dimension request and "
        "dimension writing messages given as strings or tags, with 0..6 random replies and ACK/NACK, and are moved between clients; monitored: the frames at each "
        "gateway, what is yielded, the messages built; distinct = (who, kind, frame)")
N = {"quick": 12000, "thorough": 200000}
REQUIRE = {"normal": 3000, "status": 2000, "dimreq": 2000, "dimwrite": 2000, "moved": 800, "nack": 1000, "built": 5000, "override": 1000, "replies": 5000, "to_event": 2000, "empty_values": 300, "refused": 3000, "other_reply": 800}
EXHAUSTIVE = ["every WHO x {generic item, dedicated class with who=} x the four kinds of message"]
OTHER = ["*1*1*12##", "*2*0*12##", "*#1*12*1*100*5##", "*#18*51*113*10##", "*9*9##", "*77*1*12##", "*#1*12##", "*#1*12*1##"]


def fixed(tier):
    for i, w in enumerate(sorted(ref.WHOS)):
        for cls in ("generic", "Light", "Automation", "Dimmer", "Camera"):
            yield {"seed": i, "who": w, "cls": cls, "ops": 12}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "who": rng.choice(sorted(ref.WHOS)), "cls": rng.choice(["generic", "generic", "own", "Light", "Automation", "Dimmer", "Camera"]),
            "ops": rng.choice([3, 8])}


def run(case, mon):
    rng = random.Random(case["seed"])

    async def main(loop):
        from pyown import items as I
        from pyown import messages as M
        from pyown.exceptions import InvalidSession, InvalidTag, ResponseError
        from pyown.items.base import BaseItem
        from pyown.tags import Dimension, Value, What, Where, Who
        replies = {}

        def responder_of(i):
            async def responder(conn, f):
                got.append((i, f))
                conn.write("".join(replies["out"]))
            return responder
        got = []
        clients = []
        for i in range(2):
            scen.endpoint(loop, host=f"gw{i}", responder=responder_of(i))
            c = scen.client(rng.choice(["cmd", "oldcmd"]), host=f"gw{i}")
            await c.start()
            clients.append(c)
        who, cls = case["who"], case["cls"]
        place = ref.rnd_tag(rng, first=(1, 4), last=True, prefix=True)
        at = rng.choice([place, Where(place)])
        cur = rng.randrange(2)
        if cls == "generic":
            item = BaseItem(clients[cur], at, who=rng.choice([who, Who(who)]))
            mon.obs("override")
        elif cls == "own":
            class Mine(BaseItem):
                _who = Who(who)
            item = Mine(clients[cur], at)
        else:
            item = getattr(I, cls)(clients[cur], at, who=rng.choice([who, Who(who)]))
            mon.obs("override")
        mon.check(str(item.who) == who and item.who == Who(who) and isinstance(item.who, Who), "the item does not have the WHO it was created with", got=item.who, expected=who, cls=cls)
        def siblings():
            """Items of the same class, made without who=, keep the WHO of the class."""
            for name, w in (("Light", "1"), ("Dimmer", "1"), ("Automation", "2"), ("Camera", "7")):
                x = getattr(I, name)(clients[0], "11")
                mon.check(str(x.who) == w and str(x.create_status_message()) == f"*#{w}*11##", f"the WHO of {name} changed", got=(x.who, x.create_status_message()), item=item)
            mon.obs("siblings")
        siblings()
        mon.check(place in str(item) and place in repr(item), "the text of an item does not tell its address", got=(str(item), repr(item)))
        for i in range(case["ops"]):
            if i == 2:
                siblings()
            mon.check(item.client is clients[cur] and str(item.where) == place and isinstance(item.where, Where), "client or where of the item",
                      got=(item.client, item.where))
            kind = rng.choice(["normal", "status", "dimreq", "dimwrite"])
            n = rng.randint(0, 6)
            end = rng.choice(["*#*1##", "*#*1##", "*#*0##"])
            dim = ref.rnd_tag(rng, first=(1, 4), last=True)
            what = ref.rnd_tag(rng, first=(1, 4))
            if rng.random() < .2:
                item.client = clients[1 - cur]
                cur = 1 - cur
                mon.obs("moved")
            if kind == "normal":
                f = f"*{who}*{what}*{place}##"
                arg = rng.choice([what, What(what)])
                m = item.create_normal_message(arg)
                data, other = [], rng.choice(OTHER) if rng.random() < .25 else ""
                op = item.send_normal_message(arg)
            elif kind == "status":
                f = f"*#{who}*{place}##"
                m = item.create_status_message()
                data = [ref.rnd_frame(rng, "NORMAL") for _ in range(n)]
                op = item.send_status_request()
            elif kind == "dimreq":
                f = f"*#{who}*{place}*{dim}##"
                m = item.create_dimension_request_message(Dimension(dim))
                data = [ref.rnd_frame(rng, "DIMENSION RESPONSE") for _ in range(n)]
                op = item.send_dimension_request(rng.choice([dim, Dimension(dim)]))
            else:
                vals = [ref.rnd_tag(rng, first=(1, 3), params=rng.choice([0, 0, 1]), last=True) for _ in range(rng.randint(0, 5))]
                if len(vals) > 1 and rng.random() < .3:
                    vals[rng.randrange(len(vals) - 1)] = ""
                    mon.obs("empty_values")
                f = f"*#{who}*{place}*#{dim}" + "".join("*" + v for v in vals) + "##"
                m = item.create_dimension_writing_message(Dimension(dim), *[Value(v) for v in vals])
                data, other = [], rng.choice(OTHER) if rng.random() < .25 else ""
                op = item.send_dimension_writing(rng.choice([dim, Dimension(dim)]), *[Value(v) for v in vals])
            if not (ref.verdict(f) == "legal" and ref.classify(f)[0] == {"normal": "NORMAL", "status": "STATUS REQUEST", "dimreq": "DIMENSION REQUEST",
                                                                         "dimwrite": "DIMENSION WRITING"}[kind]):
                op.close() if kind in ("normal", "dimwrite") else await op.aclose()
                continue
            mon.check(str(m) == f and type(m).__name__ == ref.CLASS_OF[ref.classify(f)[0]], f"wrong message built by the item ({kind})", got=m, expected=f)
            mon.check(m == M.parse_message(f), "the message built is not equal to the parsed frame", frame=f)
            mon.obs("built")
            replies["out"] = data + [end]
            if kind in ("normal", "dimwrite"):
                if other:       # a frame in place of the ACK
                    replies["out"] = [other, end]
                    mon.obs("other_reply")
            elif data and rng.random() < .3:        # the same devices on two buses, and the same answer twice
                x = rng.choice(data)
                data.insert(rng.randint(0, len(data)), x)
                replies["out"] = data + [end]
            if rng.random() < .05:
                await asyncio.sleep(rng.choice(scen.IDLE))
            del got[:]
            if kind in ("normal", "dimwrite"):
                k, v = await scen.outcome(op)
                out = []
            else:
                out, v = await scen.collect(op)
                k = "exc" if v else "ok"
            mon.check(got == [(cur, f)], f"{kind}: wrong frame or gateway", got=got, expected=(cur, f))
            if end == "*#*0##" or kind in ("normal", "dimwrite") and other:
                mon.check(k == "exc" and isinstance(v, ResponseError), f"{kind}: NACK, or another frame in place of the ACK", got=repr(v), replies=replies["out"])
                mon.obs("nack")
            else:
                mon.check(k == "ok", f"{kind}: failed although acknowledged", error=repr(v), frame=f)
                mon.check([str(x) for x in out] == data, f"{kind}: wrong replies", got=out, expected=data)
                mon.obs("replies", len(data))
                for x in out:
                    mon.check(type(x) is (M.NormalMessage if kind == "status" else M.DimensionResponse), "wrong class of a reply", got=type(x))
            mon.obs(kind)
            mon.sig(who, kind, f)
        # text that is not a tag is refused and nothing is written
        del got[:]
        for _ in range(2):
            bad = rng.choice(["a", "1a", "1 ", " 1", "1*2", "*", "##", "1##", "1##2", "-1", "+1", "1.5", "1\n", "ON", "\u0661", "1*1*12##*1"])
            for op in (item.send_normal_message(bad), item.send_dimension_writing(bad), item.send_dimension_writing(bad, Value("2")), item.send_dimension_request(bad)):
                if hasattr(op, "__aiter__"):
                    out, v = await scen.collect(op)
                else:
                    k, v = await scen.outcome(op)
                mon.check(isinstance(v, InvalidTag), "illegal text is not refused by the item", text=bad, got=repr(v))
            try:
                item.create_normal_message(bad)
            except InvalidTag:
                pass
            else:
                mon.fail("a message is built from illegal text", text=bad)
            try:
                BaseItem(clients[cur], bad, who=who)
            except InvalidTag:
                pass
            else:
                mon.fail("an item at an illegal address", text=bad)
            mon.obs("refused")
        await asyncio.sleep(1)
        mon.check(not got, "bytes were written for illegal text", got=got)
        # moved to an event session: it must not transmit
        scen.endpoint(loop, host="gw9", responder=responder_of(9))
        ev = scen.client("event", host="gw9")
        await ev.start()
        item.client = ev
        del got[:]
        mon.check(item.client is ev, "client of the moved item", got=item.client)
        for op in (item.send_normal_message("1"), item.send_dimension_writing("1", Value("2"))):
            k, v = await scen.outcome(op)
            mon.check(k == "exc" and isinstance(v, InvalidSession), "an item moved to an event client sends", got=(k, repr(v)))
        for op in (item.send_status_request(), item.send_dimension_request("1")):
            out, v = await scen.collect(op)
            mon.check(isinstance(v, InvalidSession) and not out, "an item moved to an event client sends", got=repr(v))
        await asyncio.sleep(1)
        mon.check(not got, "bytes were written after the move to an event client", got=got)
        mon.obs("to_event")
    scen.run(main)
