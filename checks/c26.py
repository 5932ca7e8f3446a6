"""C26: clients in one process are independent."""
import asyncio
import random

from harness import events, gateway, scen

RULE = ("2..5 clients (command and event sessions, own gateways or several connections to the same address, all authentications) work at once in one event loop "
        "while some of them suffer silence, NACK, drops, resets, garbage, floods, pauses, cancellations, failed starts, close() and restarts; monitored: "
        "results, events, frames and latencies of every healthy client vs its own gateway's script alone, item identity; distinct = (roles, faults, history)")
LEVEL = "fault_enumeration"
N = {"quick": 3600, "thorough": 80000}
REQUIRE = {"healthy_ops": 10000, "healthy_events": 3000, "faults": 1500, "overlaps": 2000, "restarts": 200, "healthy_restarts": 2000}
ISOLATE = True
FAULTS = ["silence", "nack", "drop", "reset", "garbage", "flood", "pause", "cancel", "close", "failstart", "partial", "restart", "evilcb", "slowcb", "sendstorm", "callstorm", "failauth"]
EXHAUSTIVE = ["every fault on one client, next to a healthy command client and a healthy event client"]


def fixed(tier):
    s = 0
    for f in FAULTS:
        for sick in ("cmd", "event", "oldcmd"):
            for same in (False, True):
                s += 1
                yield {"seed": s, "healthy": ["cmd", "event"], "sick": [(sick, f)], "same": same, "auth": ["none"] * 5, "ops": 6}
    yield {"seed": 2, "healthy": ["cmd", "event"] * 20, "sick": [("cmd", f) for f in FAULTS], "same": False, "auth": ["none", "open", "hmac1", "hmac2"], "ops": 6}
    yield {"seed": 1, "healthy": ["cmd", "oldcmd", "event", "event"], "sick": [], "same": True, "auth": ["none", "open", "hmac1", "hmac2"], "ops": 20}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "healthy": [rng.choice(["cmd", "cmd", "oldcmd", "event"]) for _ in range(rng.randint(1, 4))],
            "sick": [(rng.choice(["cmd", "event", "oldcmd"]), rng.choice(FAULTS)) for _ in range(rng.randint(0, 3))], "same": rng.random() < .4,
            "auth": [rng.choice(["none", "open", "hmac1", "hmac2"]) for _ in range(8)], "ops": rng.choice([4, 10, 25])}


def run(case, mon):
    rng = random.Random(case["seed"])

    async def main(loop):
        from pyown.items import Automation, EnergyManagement, Light
        from pyown.tags import Where, Who
        seen = {}           # where -> [(item, status)]
        evil = [False]
        slow = [False]

        async def cb(item, status):
            seen.setdefault(id(item.client), []).append((item, str(item.where), status))
            if slow[0]:
                await asyncio.sleep(1000)
            if evil[0]:
                raise ConnectionResetError("bad callback")
        Light.on_status_change(cb)
        roles = [("healthy", s, None) for s in case["healthy"]] + [("sick", s, f) for s, f in case["sick"]]
        rng.shuffle(roles)
        keep = []           # ids must not be reused
        state = {"inflight": 0}

        def make(i, session, fault):
            """Gateway of client i: each answer carries i."""
            async def responder(conn, f):
                delay = rng.choice([0, 0.01, 0.3, 2])
                if delay:
                    await asyncio.sleep(delay)
                if conn.fault == "silence":
                    return
                if conn.fault == "nack":
                    conn.write("*#*0##")
                    return
                if conn.fault == "partial":
                    conn.write("*#*1")
                    return
                if f.startswith("*#18*"):
                    n = f.split("*")[2]
                    conn.write(f"*#18*{n}*113*{i * 1000 + int(n) % 1000}##*#*1##")
                elif f.startswith("*#1*"):
                    n = f[4:-2]
                    conn.write(f"*1*1*{n}##" + f"*1*0*{n}{i}##" + "*#*1##")
                else:
                    conn.write("*#*1##")
            host, port = ("gw", 20000) if case["same"] else (f"gw{i}", 20000 + i)
            auth = scen.auth_of(case["auth"][i % len(case["auth"])], random.Random(i), password=str(10000 + i))

            async def start(c=None):
                """One connection; with a shared address the gateway serves each connection by its own script."""
                ep = scen.endpoint(loop, auth=auth, responder=responder, host=host, port=port)
                c = c or scen.client(session, host=host, port=port, password=auth["password"])
                await c.start()
                conn = ep.conns[-1]
                conn.fault = None
                for _ in range(4):
                    await asyncio.sleep(0)
                return c, conn
            start.addr = (host, port)
            return start

        clients = []
        for i, (role, session, fault) in enumerate(roles):
            start = make(i, session, fault)
            c, conn = await start()
            keep.append(c)
            clients.append(dict(i=i, role=role, session=session, fault=fault, c=c, conn=conn, start=start, sent=[], expected=[], log=[]))

        async def healthy_cmd(d):
            i, c = d["i"], d["c"]
            for k in range(case["ops"]):
                n = str(5000 + k)
                before = state["inflight"]
                state["inflight"] += 1
                if before:
                    mon.obs("overlaps")
                t = loop.now
                kind = rng.choice(["cmd", "power", "status"])
                if kind == "cmd":
                    w = str(100 + k)
                    r = await scen.outcome(Automation(c, w).up())
                    d["sent"].append(f"*2*1*{w}##")
                    exp = None
                elif kind == "power":
                    r = await scen.outcome(EnergyManagement(c, n).get_active_power())
                    d["sent"].append(f"*#18*{n}*113##")
                    exp = i * 1000 + int(n) % 1000
                else:
                    w = str(100 + k)
                    items, err = await scen.collect(Light(c, w).get_status())
                    r = ("exc", err) if err else ("ok", [(str(a), b) for a, b in items])
                    d["sent"].append(f"*#1*{w}##")
                    exp = [(w, True), (f"{w}{i}", False)]
                state["inflight"] -= 1
                mon.check(r[0] == "ok", f"client {i}: {kind} failed although its gateway answered", error=repr(r[1]), roles=roles)
                mon.check(r[1] == exp, f"client {i}: wrong answer", got=r[1], expected=exp, roles=roles)
                mon.check(loop.now - t <= 3.5, f"client {i}: {kind} was delayed by other clients", took=loop.now - t, roles=roles)
                mon.obs("healthy_ops")
                if rng.random() < .5:
                    await asyncio.sleep(rng.uniform(0, 1))

        async def healthy_event(d):
            i, c, conn = d["i"], d["c"], d["conn"]
            d["task"] = asyncio.ensure_future(c.loop())
            for k in range(case["ops"] * 2):
                w, on = rng.choice(["11", "12", "13", f"2{i}"]), rng.random() < .5
                conn.write(f"*1*{int(on)}*{w}##")
                d["expected"].append((w, on))
                mon.obs("healthy_events")
                await asyncio.sleep(rng.choice([0, 0.01, 0.5]))
            await asyncio.sleep(0.5)

        async def sick(d):
            c, conn, fault = d["c"], d["conn"], d["fault"]
            for _ in range(3):
                await asyncio.sleep(rng.uniform(0, 2))
                mon.obs("faults")
                task = asyncio.ensure_future(c.loop() if d["session"] == "event" else Automation(c, "77").up())
                await asyncio.sleep(0)
                if fault in ("silence", "nack", "partial"):
                    conn.fault = fault
                    if d["session"] == "event":
                        conn.write("*#*0##*1*1" if fault == "partial" else "*#*0##")
                elif fault == "drop":
                    conn.close()
                elif fault == "reset":
                    conn.reset()
                elif fault == "garbage":
                    conn.write(b"\xff\xfe*1*x##garbage##")
                elif fault == "flood":
                    conn.write("*9*9##" * 300 + "*1*" + "1" * 3000)
                elif fault == "pause" and not conn.client_transport.is_closing():
                    conn.client_protocol.pause_writing()
                    asyncio.ensure_future(scen.outcome(c.send_message(parse("*2*1*78##"))))
                elif fault == "cancel":
                    await asyncio.sleep(rng.choice([0, 0.05]))
                    task.cancel()
                elif fault == "close":
                    await c.close()
                elif fault == "sendstorm":
                    for x in range(200):
                        asyncio.ensure_future(scen.outcome(c.send_message(parse(f"*2*1*{x + 100}##"), force=True)))
                elif fault == "callstorm":
                    for x in range(60):
                        asyncio.ensure_future(scen.outcome(asyncio.wait_for(Automation(c, str(x + 100)).up(), rng.choice([0.01, 0.5, 30]))))
                elif fault == "failstart":
                    bad = scen.client(d["session"], host="nowhere", port=1)
                    await scen.outcome(bad.start())
                elif fault == "failauth":       # starts that fail at the address of a healthy client
                    host, port = rng.choice(clients)["start"].addr
                    how = rng.choice(["*#*0##", "*#*1##", "*1*1*12##", "drop", "refused"])

                    async def hostile(conn):
                        if how == "drop":
                            conn.close()
                        else:
                            conn.write(how)
                            if await conn.recv() is not None:
                                conn.write("*#*0##")
                    async with starting:
                        loop.endpoints[(host, port)] = gateway.Endpoint(hostile, refuse="refused" if how == "refused" else None)
                        bad = scen.client(d["session"], host=host, port=port, password="99")
                        r = await scen.outcome(bad.start())
                    mon.check(r[0] == "exc", "start() succeeded although the gateway refused", how=how)
                elif fault == "evilcb":
                    evil[0] = True
                elif fault == "slowcb":
                    slow[0] = True
                if fault == "pause":
                    await asyncio.sleep(rng.uniform(0, 3))
                    if not conn.client_transport.is_closing():
                        conn.client_protocol.resume_writing()
                await asyncio.wait([task], timeout=8)
                task.cancel()
                if fault in ("drop", "reset", "garbage", "close", "restart", "partial"):
                    await c.close()
                    async with starting:        # several gateways at one address: the scripts of the harness are per connection
                        _, conn = await d["start"](c)
                    d["conn"] = conn
                    mon.obs("restarts")

        def parse(f):
            from pyown.messages import parse_message
            return parse_message(f)
        starting = asyncio.Lock()
        jobs = []
        for d in clients:
            f = sick if d["role"] == "sick" else healthy_event if d["session"] == "event" else healthy_cmd
            jobs.append(asyncio.ensure_future(f(d)))
        done, left = await asyncio.wait(jobs, timeout=600)
        for j in done:
            if j.exception() is not None:
                raise j.exception()
        mon.check(not left, "some client never finishes", roles=roles)
        await asyncio.sleep(1)
        for d in clients:
            if d["role"] == "sick":
                continue
            i, c, conn = d["i"], d["c"], d["conn"]
            mon.check(scen.sent_after_handshake(conn) == d["sent"], f"client {i}: the gateway got other frames than those of its client",
                      got=scen.sent_after_handshake(conn), expected=d["sent"])
            if d["session"] == "event":
                mon.check(not d["task"].done(), f"client {i}: loop() ended because of another client", task=d["task"], roles=roles)
                got = seen.get(id(c), [])
                mon.check([(w, s) for _, w, s in got] == d["expected"], f"client {i}: events lost, repeated or delivered to another client",
                          got=[(w, s) for _, w, s in got], expected=d["expected"], roles=roles)
                for item, w, _ in got:
                    mon.check(item is c.get_item(Who("1"), Where(w), client=c), f"client {i}: item of another client")
                conn.close()
                await asyncio.wait([d["task"]], timeout=10)
                mon.check(d["task"].done(), f"client {i}: loop() does not end with its own connection")
            else:
                k, v = await scen.outcome(Light(c, "99").turn_on())
                mon.check(k == "ok", f"client {i} does not work in the end", error=repr(v))
            await c.close()
            # and it can start again whatever happened to the others
            t = loop.now
            k, v = await scen.outcome(d["start"](c))
            mon.check(k == "ok", f"client {i} cannot start again", error=repr(v), roles=roles)
            if d["session"] != "event":
                k, w = await scen.outcome(Light(c, "98").turn_on())
                mon.check(k == "ok", f"client {i} does not work after it was started again", error=repr(w), roles=roles)
            mon.check(loop.now - t <= 4, f"client {i}: its new start was delayed by other clients", took=loop.now - t, roles=roles)
            mon.obs("healthy_restarts")
            await c.close()
        # nothing else was dispatched
        mine = {id(d["c"]) for d in clients}
        mon.check(set(seen) <= mine, "an event for an unknown client")
        mon.sig(roles, case["same"], [d["sent"] for d in clients], [d["expected"] for d in clients])
    scen.run(main, horizon=1e7)
