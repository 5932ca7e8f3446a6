"""C24: a client can be closed and started again."""
import asyncio
import random

from harness import gateway, hs, scen

RULE = ("histories of 2..8 sessions on one client: starts that succeed (each with its own authentication mode) or fail at any step, are refused or cancelled; "
        "commands, queries, pending and queued requests, unread and partial frames left over; ended by close, drop, reset, garbage, with requests or loop() "
        "still running; restart at once or later, close repeated and before start; every address and value carries the number of its connection, so a leak "
        "is visible; distinct = history")
LEVEL = "fault_enumeration"
N = {"quick": 4500, "thorough": 100000}
REQUIRE = {"sessions": 3000, "failed_starts": 500, "restarts": 1500, "pending_at_end": 800, "leftovers": 500, "events": 1000, "results": 1500, "extra_closes": 500}
ISOLATE = True
ENDS = ["close", "close", "eof", "reset", "garbage", "halfclose"]


def fixed(tier):
    s = 0
    for session in ("cmd", "event", "oldcmd"):
        for end in ENDS[1:]:
            for gap in (0, 0.05, 8):
                for mode in ("none", "open", "hmac1", "hmac2"):
                    s += 1
                    yield {"seed": s, "session": session, "steps": [{"start": "ok", "mode": mode, "end": end, "gap": gap, "pending": s % 4, "left": s % 3, "ops": 2}
                                                                   for _ in range(3)]}
    for session in ("cmd", "event"):
        for mode in hs.STEPS:
            for k in range(hs.STEPS[mode]):
                for r in hs.REACTIONS:
                    s += 1
                    yield {"seed": s, "session": session, "steps": [
                        {"start": "fail", "mode": mode, "step": k, "reaction": r, "gap": [0, 0.05, 8][s % 3]},
                        {"start": "ok", "mode": mode, "end": "close", "gap": 0, "pending": 1, "left": 0, "ops": 1},
                        {"start": "ok", "mode": "none", "end": "close", "gap": 0, "pending": 0, "left": 0, "ops": 1}]}


    rng = random.Random(5)
    for i in range(6):
        yield rand(rng, tier, 60)
    for session in ("cmd", "event"):        # dozens of sessions that all authenticate the same way
        for mode in hs.STEPS:
            yield {"seed": s, "session": session, "steps": [{"start": "ok", "mode": mode, "end": "close", "gap": 0, "pending": 0, "left": 0, "ops": 1}
                                                            for _ in range(40)]}


def rand(rng, tier, n=0):
    steps = []
    for _ in range(n or rng.randint(2, 8)):
        r = rng.random()
        mode = rng.choice(list(hs.STEPS))
        gap = rng.choice([0, 0, 0.01, 0.2, 3, 8])
        if r < .15:
            steps.append({"start": "fail", "mode": mode, "step": rng.randrange(hs.STEPS[mode]), "reaction": rng.choice(hs.REACTIONS), "gap": gap})
        elif r < .2:
            steps.append({"start": "refused", "mode": mode, "gap": gap})
        elif r < .27:
            steps.append({"start": "cancel", "mode": mode, "at": rng.uniform(0, 3), "gap": gap})
        else:
            steps.append({"start": "ok", "mode": mode, "end": rng.choice(ENDS), "gap": gap, "pending": rng.choice([0, 0, 1, 3]), "left": rng.choice([0, 0, 1, 2, 3]),
                          "ops": rng.randint(0, 4)})
    steps.append({"start": "ok", "mode": rng.choice(list(hs.STEPS)), "end": "close", "gap": 0, "pending": 0, "left": 0, "ops": 2})
    return {"seed": rng.randint(0, 1 << 30), "session": rng.choice(["cmd", "cmd", "event", "event", "oldcmd"]), "steps": steps}


def run(case, mon):
    rng = random.Random(case["seed"])
    session = case["session"]

    async def main(loop):
        from pyown.exceptions import InvalidSession, ResponseError
        from pyown.items import Automation, Light
        c = scen.client(session)
        hist = []
        if rng.random() < .4:
            await c.close()
            mon.obs("extra_closes")
            hist.append("close")
        seen = []

        async def cb(item, status):
            seen.append((str(item.where), status))
        Light.on_status_change(cb)
        n_conn = 0
        stale = []          # requests and loops of earlier connections

        async def request(kind, w, n):
            if kind == "cmd":
                return await Automation(c, w).up()
            return [(str(a), b) async for a, b in Light(c, w).get_status()]

        for si, step in enumerate(case["steps"]):
            tag = si + 1                    # addresses of this session: tag*100..tag*100+99
            auth = scen.auth_of(step["mode"], rng)
            ready = asyncio.Event()
            state = {}

            async def responder(conn, f, tag=tag):
                # *2*1*w##: command; *#1*w##: query, answered with frames of this connection
                if f.startswith("*2*1*"):
                    w = int(f[5:-2])
                    if w % 100 >= 60:
                        return
                    conn.write("*#*0##" if w % 100 >= 40 else "*#*1##")
                elif f.startswith("*#1*"):
                    w = int(f[4:-2])
                    if w % 100 >= 60:
                        conn.write(f"*1*1*{tag * 100 + 99}##")
                        return
                    for i in range(w % 4):
                        conn.write(f"*1*{i % 2}*{tag * 100 + i}##")
                    conn.write("*#*1##")

            async def script(conn, step=step, auth=auth, state=state, ready=ready, responder=responder):
                if step["start"] == "fail":
                    rec = hs.Rec()
                    await hs.script(conn, {"session": session, "auth": auth, "step": step["step"], "reaction": step["reaction"]}, rec)
                    return
                if step["start"] == "cancel":
                    await asyncio.sleep(4)
                conn.ok = await gateway.handshake(conn, auth)
                conn.base = len(conn.frames)
                state["conn"] = conn
                ready.set()
                while conn.ok:
                    f = await conn.recv()
                    if f is None:
                        return
                    await responder(conn, f)

            ep = gateway.Endpoint(script, refuse="refused" if step["start"] == "refused" else None)
            loop.endpoints[(scen.HOST, scen.PORT)] = ep
            hist.append((step["start"], step["mode"], step.get("step"), step.get("reaction"), step.get("end"), step["gap"]))
            start = asyncio.ensure_future(c.start())
            if step["start"] == "cancel":
                await asyncio.wait([start], timeout=step["at"])
                start.cancel()
            else:
                await asyncio.wait([start], timeout=40)
                mon.check(start.done(), "start() does not end", history=hist)
            if step["start"] != "ok":
                mon.obs("failed_starts")
                try:
                    await start
                except asyncio.CancelledError:
                    mon.check(step["start"] == "cancel", "start() was cancelled", history=hist)
                except Exception:
                    pass
                else:
                    mon.fail("start() succeeded although the gateway did not accept", history=hist)
                if rng.random() < .5:
                    await c.close()
                    mon.obs("extra_closes")
                k, v = await scen.outcome(c.read_message(timeout=1))
                mon.check(k == "exc" and isinstance(v, InvalidSession), "a client whose start() failed can read", got=repr(v), history=hist)
                if step["gap"]:
                    await asyncio.sleep(step["gap"])
                continue
            k, v = await scen.outcome(start)
            mon.check(k == "ok", "start() fails on a client that was used before", error=repr(v), history=hist)
            await ready.wait()
            await asyncio.sleep(0)
            conn = state["conn"]
            mon.check(len(ep.conns) == 1, "start() opened several connections", n=len(ep.conns), history=hist)
            mon.check(conn.ok and conn.session_frame == scen.SESSION_FRAME[session], "the handshake of a restarted client", ok=conn.ok, frames=conn.texts, history=hist)
            expected_frames = {"none": 1, "open": 2, "hmac1": 3, "hmac2": 3}[step["mode"]]
            await asyncio.sleep(0.01)
            head = conn.texts[:expected_frames + (step["mode"].startswith("hmac"))]
            mon.check(len(conn.texts) == len(head), "something else was written during the handshake of a restarted client", frames=conn.texts, history=hist)
            mon.obs("sessions")
            if n_conn:
                mon.obs("restarts")
            n_conn += 1

            if session == "event":
                base = len(seen)
                task = asyncio.ensure_future(c.loop())
                sent = []
                for i in range(step["ops"]):
                    w, v = str(tag * 100 + i), bool(rng.randint(0, 1))
                    sent.append((w, v))
                    conn.write(f"*1*{int(v)}*{w}##")
                    if rng.random() < .5:
                        await asyncio.sleep(rng.choice([0, 0.1] if rng.random() < .9 else scen.IDLE))
                await asyncio.sleep(0.3)
                mon.check(seen[base:] == sent, "the events of a restarted client", got=seen[base:], expected=sent, history=hist)
                mon.obs("events", len(sent))
                mon.check(not task.done(), "loop() of a restarted client ended", task=repr(task), history=hist)
                stale.append((task, tag))
                mon.obs("pending_at_end")
            else:
                for i in range(step["ops"]):
                    kind = rng.choice(["cmd", "query", "nack"])
                    w = tag * 100 + (40 if kind == "nack" else 0) + rng.randint(0, 19)
                    if kind == "query":
                        got = await scen.outcome(request("query", str(w), 0))
                        exp = [(str(tag * 100 + j), bool(j % 2)) for j in range(w % 4)]
                        mon.check(got == ("ok", exp), "the query of a restarted client", got=got, expected=exp, history=hist)
                    else:
                        k, v = await scen.outcome(request("cmd", str(w), 0))
                        mon.check(k == "ok" if kind == "cmd" else k == "exc" and isinstance(v, ResponseError), f"the {kind} command of a restarted client",
                                  got=repr(v), history=hist)
                    mon.obs("results")
                # requests that the gateway never answers: waiting, or queued behind another one, when the session ends
                for i in range(step["pending"]):
                    w = str(tag * 100 + 60 + i)
                    stale.append((asyncio.ensure_future(request(rng.choice(["cmd", "query"]), w, 0)), tag))
                    mon.obs("pending_at_end")
                if step["pending"] and rng.random() < .7:
                    await asyncio.sleep(rng.choice([0, 0.02, 1]))
            # unread and partial input left over
            if step["left"]:
                mon.obs("leftovers")
                # (an ACK would answer a pending request)
                ack = "" if step["pending"] else "*#*1##"
                text = {1: f"*1*1*{tag * 100 + 90}##{ack}{ack}", 2: "*1*1*1", 3: f"{ack}*1*0*{tag * 100 + 91}##*#*"}[step["left"]]
                conn.write(text)
                if rng.random() < .6:
                    await asyncio.sleep(rng.choice([0, 0.02]))
            if step["end"] == "eof":
                conn.close()
            elif step["end"] == "halfclose":
                conn.half_close()
            elif step["end"] == "reset":
                conn.reset()
            elif step["end"] == "garbage":
                conn.write(b"\xff\xfe##")
            if step["end"] != "close":
                await asyncio.sleep(rng.choice([0, 0, 0.05, 1, 6]))
            await c.close()
            closed = loop.now
            if rng.random() < .4:
                await c.close()
                mon.obs("extra_closes")
            if rng.random() < .5:
                # a closed client is unusable until it is started again
                k, v = await scen.outcome(c.send_message(scen_message(), force=True))
                mon.check(k == "exc" and isinstance(v, InvalidSession), "a closed client sends", got=repr(v), history=hist)
            if step["gap"]:
                await asyncio.sleep(step["gap"])
                await asyncio.sleep(0.05)
                mon.check(conn.client_gone or step["end"] in ("eof", "reset"), "the connection is open after close()", history=hist)
        await asyncio.sleep(10)
        # nothing of the earlier connections is left
        for t, tag in stale:
            mon.check(t.done(), "a request or loop() of a closed connection still waits", session=tag, history=hist)
            if not t.cancelled() and t.exception() is None and session != "event":
                mon.fail("a request that the gateway never answered succeeded", result=t.result(), session=tag, history=hist)
            e = None if t.cancelled() else t.exception()
            if e is not None:
                mon.check(isinstance(e, (OSError, TimeoutError, InvalidSession, ResponseError)), "a request of a closed connection failed with an internal error",
                          error=repr(e), history=hist)
        if session == "event":
            left = {str((i + 1) * 100 + x) for i, s in enumerate(case["steps"]) if s.get("left") for x in (90, 91)}
            per = {}
            for x in seen:
                per[x] = per.get(x, 0) + 1
            order = [int(w) // 100 for w, _ in seen]
            mon.check(order == sorted(order), "an event of an earlier connection was delivered in a later session", got=seen, history=hist)
        for tr, _ in loop.connections:
            mon.check(tr.is_closing(), "a connection is still open in the end", history=hist)
        k, v = await scen.outcome(c.read_message(timeout=1))
        mon.check(k == "exc" and isinstance(v, InvalidSession), "a closed client reads", got=repr(v), history=hist)
        mon.sig(hist)
    scen.run(main, horizon=1e8)


def scen_message():
    from pyown.messages import parse_message
    return parse_message("*1*1*12##")
