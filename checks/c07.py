"""C07: the handshake has the right exchange and outcome for every gateway behaviour."""
from harness import hs, scen

RULE = ("every step of the handshake x every gateway reaction x authentication mode x session type x segmentation x delays, "
        "then random combinations; distinct = (mode, session, step, reaction, delays, cuts)")
LEVEL = "fault_enumeration"
N = {"quick": 6000, "thorough": 120000}
REQUIRE = {"accepted": 100, "refused_InvalidAuthentication": 50, "refused_TimeoutError": 20, "refused_lost": 20, "wrong_password": 30}
EXHAUSTIVE = ["step x reaction x mode x session type"]
LOST = ("close", "reset", "garbage", "partial_close")
QUIET = ("silence", "partial", "whitespace", "trickle", "late")


def mk(mode, session, step=None, reaction=None, delays=(), cuts="whole", password="12345", seed=7):
    import random
    return {"session": session, "auth": scen.auth_of(mode, random.Random(seed), password), "step": step, "reaction": reaction,
            "delays": list(delays), "cuts": cuts}


def fixed(tier):
    for mode in hs.STEPS:
        for session in scen.SESSIONS:
            for cuts in ("whole", "bytes"):
                yield mk(mode, session, cuts=cuts)
                yield {**mk(mode, session, cuts=cuts), "thread": True}
                yield mk(mode, session, cuts=cuts, delays=[4, 4, 4, 4])
            yield mk(mode, session, delays=[4.9, 4.9, 4.9, 4.9])
            for k in range(hs.STEPS[mode]):
                d = [0] * k + [4.5]
                yield mk(mode, session, delays=d)
                for r in hs.REACTIONS + ["late"]:
                    yield mk(mode, session, k, r)
                if not (mode in ("none", "open") and k == hs.STEPS[mode] - 1) and k != 0 and k != 1:
                    yield mk(mode, session, k, "ack")
            for refuse in ("refused", "unreach", "gai", "nobody"):
                yield {**mk(mode, session), "refuse": refuse}
    yield {**mk("open", "cmd"), "client_password": "54321"}
    for pw in ("abcde", "x1", "12345a", "secret word", "\u00e9t\u00e9", ""):
        for session in scen.SESSIONS:
            yield {**mk("open", session), "client_password": pw}
    yield {**mk("hmac1", "cmd"), "client_password": "54321"}
    yield {**mk("hmac2", "event"), "client_password": "54321"}


def rand(rng, tier):
    mode = rng.choice(list(hs.STEPS))
    pw = str(rng.randint(0, 999999999)) if mode == "open" else "".join(rng.choice("abcXYZ0189") for _ in range(rng.randint(1, 12)))
    n = hs.STEPS[mode]
    c = mk(mode, rng.choice(list(scen.SESSIONS)), delays=[rng.choice([0, 0, rng.uniform(0, 4.5)]) for _ in range(n)],
           cuts=rng.choice(["whole", "bytes"]), password=pw, seed=rng.random())
    if rng.random() < .1:
        c["thread"] = True
    if rng.random() < .5:
        c["step"] = rng.randrange(n)
        c["reaction"] = rng.choice(hs.REACTIONS)
    elif rng.random() < .2 and mode != "none":
        c["client_password"] = rng.choice([str(int(pw) + 1), pw + "x"]) if mode == "open" else pw + "x"
    return c


def run(case, mon):
    from pyown.exceptions import InvalidAuthentication
    from pyown.client import Client
    from pyown.items import Light

    async def main(loop):
        client = None
        if case.get("thread"):      # made outside of the event loop, for that loop
            import threading
            t = threading.Thread(target=lambda: made.append(Client(scen.HOST, scen.PORT, case.get("client_password", case["auth"]["password"]),
                                                                   scen.SESSIONS[case["session"]], loop=loop)))
            made = []
            t.start()
            t.join()
            client = made[0]
            mon.obs("loop_given")
        rec = await hs.attempt(loop, case, client, refuse=case.get("refuse"))
        if rec.result == "ok" and rec.conn is not None and case["session"] != "event" and case["step"] is None:
            # the session is usable
            import asyncio
            t = asyncio.ensure_future(Light(rec.client, "12").turn_on())
            await asyncio.sleep(0.3)
            rec.conn.write("*#*1##")
            await asyncio.wait_for(t, 3)
            rec.usable = rec.conn.texts[-1]
        return rec

    rec = scen.run(main)
    step, reaction, mode = case["step"], case["reaction"], case["auth"]["mode"]
    mon.sig(mode, case["session"], step, str(reaction), case["delays"], case["cuts"], case.get("refuse"))
    mon.obs("starts")
    allowed = list(rec.expected)
    if case.get("refuse"):
        mon.check(rec.result == "exc", "start() succeeded without a connection", result=rec.result)
        mon.obs("refused_connection")
        return
    if "client_password" in case:
        mon.check(rec.result == "exc", "start() succeeded with a wrong password")
        mon.check(isinstance(rec.exc, InvalidAuthentication), "a wrong password is not InvalidAuthentication", error=rec.exc)
        mon.obs("wrong_password")
        if mode == "open" and not case["client_password"].isdecimal():      # it has no encoding: there is nothing to answer
            mon.check(rec.frames[:1] == allowed[:1] and rec.frames[1:] in ([], ["*#*0##"]), "the client answered although its password can't be encoded", got=rec.frames)
        return
    if step is None:
        mon.obs("accepted")
        mon.check(rec.result == "ok", "start() failed although the gateway accepted", error=repr(rec.exc), frames=rec.frames)
        mon.check(rec.frames == rec.expected, "the client did not send the documented frames", got=rec.frames, expected=rec.expected)
        if hasattr(rec, "usable"):
            mon.check(rec.usable == "*1*1*12##", "the session is not usable after start()", got=rec.usable)
        return
    mon.check(rec.result == "exc", "start() succeeded although the gateway did not accept", frames=rec.frames, sent=rec.conn.sent)
    if reaction in LOST:
        mon.obs("refused_lost")
    elif reaction in QUIET:
        mon.obs("refused_TimeoutError")
        mon.check(isinstance(rec.exc, TimeoutError), f"silence raised {type(rec.exc).__name__}", error=rec.exc)
    else:
        mon.obs("refused_InvalidAuthentication")
        mon.check(isinstance(rec.exc, InvalidAuthentication), f"{reaction} raised {type(rec.exc).__name__}", error=rec.exc)
    # nothing but the documented frames, possibly followed by a NACK
    got = rec.frames
    ok = got[:len(allowed)] == allowed and got[len(allowed):] in ([], ["*#*0##"])
    # a gateway that answers a challenge in another mode: '*98*...' at step 1 makes the client answer
    if reaction == "late":
        ok = got[:len(allowed)] == allowed
    mon.check(ok, "the client sent something that is not part of the exchange", got=got, expected=allowed)
