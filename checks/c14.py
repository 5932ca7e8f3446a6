"""C14: a query yields exactly the data of the gateway and ends with the gateway's terminator."""
import asyncio
import random

from harness import methods, ref, scen

RULE = ("every query method and the two base requests; the gateway sends 0..n data frames (random WHERE, values, gaps, segmentation) and then ACK, "
        "NACK, a frame of another kind, silence, close or reset; monitored: what is yielded vs what was sent, and how the query ends; "
        "distinct = (method, number of frames, end, position of the fault)")
LEVEL = "fault_enumeration"
N = {"quick": 10000, "thorough": 160000}
REQUIRE = {"end_ack": 500, "end_nack": 100, "end_wrong": 100, "end_silence": 50, "end_close": 50, "empty_single": 10, "again": 1000, "data_frames": 1500}
ENDS = ["ack", "nack", "wrong", "wrong_silence", "silence", "partial_silence", "close", "reset", "garbage"]
EXHAUSTIVE = ["every query method x every end x 0..3 data frames before it"]
WRONG = {"normal": "*1*1*12##", "status": "*#1*12##", "dimreq": "*#1*12*1##", "writing": "*#1*12*#1*100*5##", "response": "*#1*12*1*100*5##",
         "generic": "*9*9##", "generic2": "*77*1*12##"}


def fixed(tier):
    i = 0
    for c in methods.queries(random.Random(3)) + base_calls("12"):
        for end in ENDS:
            for n in range(4):
                i += 1
                yield {"call": c, "n": n, "end": end, "seed": i, "cut": i % 3, "gap": [0, 0.3, 4.5][i % 3]}
        if c.kind == "gen":
            for end in ("ack", "nack", "silence"):
                yield {"call": c, "n": 3000, "end": end, "seed": i, "cut": 1, "gap": 0}
            yield {"call": c, "n": 120, "end": "ack", "seed": i, "cut": 0, "gap": 4.5}

    for s in range(60):
        yield {"rounds": 4 + s % 5 if s % 6 else 60, "seed": s, "session": ["cmd", "oldcmd"][s % 2]}
    for i in range(len(methods.queries(random.Random(3)) + base_calls("12"))):     # one query, again and again
        yield {"rounds": 50, "seed": i, "session": "cmd", "only": i}


def base_calls(w):
    mk = lambda m, args, f, r: methods.Call("Light", w, m, args, f, "gen", r)
    return [mk("send_status_request", (), f"*#1*{w}##", "normal"), mk("send_dimension_request", ("1",), f"*#1*{w}*1##", "response"),
            mk("send_dimension_request", ("52#24#3",), f"*#1*{w}*52#24#3##", "response")]


def rand(rng, tier):
    if rng.random() < .06:
        return {"rounds": rng.choice([2, 4, 12]), "seed": rng.randint(0, 1 << 30), "session": rng.choice(["cmd", "oldcmd"])}
    c = rng.choice(methods.queries(rng) + base_calls(rng.choice(methods.LIGHT_WHERES)) * 2)
    return {"call": c, "n": rng.choice([0, 1, 2, 3, 5, 8, 20]), "end": rng.choice(ENDS + ["ack"] * 6), "seed": rng.randint(0, 1 << 30),
            "cut": rng.randint(0, 3), "gap": rng.choice([0, 0, 0.1, rng.uniform(0, 4.5)]), "session": rng.choice(["cmd", "oldcmd"])}


def replies(call, rng, n):
    """(frames, expected yields)"""
    if call.reply == "normal":
        fr = [f"*{rng.randint(0, 2)}*{rng.randint(0, 99)}{rng.choice(['', '#5', '#1#2'])}*{rng.randint(1, 999)}##" for _ in range(n)]
        return fr, fr
    if call.reply == "response":
        fr = [f"*#{rng.randint(0, 2)}*{rng.randint(1, 999)}*{rng.randint(0, 99)}{rng.choice(['', '#5'])}"
              + "".join(f"*{rng.randint(0, 999)}" for _ in range(rng.randint(1, 5) if rng.random() < .95 else rng.randint(20, 300))) + "##" for _ in range(n)]
        return fr, fr
    out = []
    for _ in range(n):
        w = call.where
        if call.kind == "gen" and rng.random() < .6:
            w = rng.choice([str(rng.randint(11, 99)), f"{rng.randint(1, 9):02d}{rng.randint(1, 15):02d}", "12#4#01"])
        out.append(call.reply(rng, w))
    return [f for f, _ in out], [e for _, e in out]


def run(case, mon):
    if "rounds" in case:
        return rounds(case, mon)
    from pyown.exceptions import ResponseError
    call, end = case["call"], case["end"]
    rng = random.Random(case["seed"])
    n = case["n"]
    stopgo = call.method == "request_status"
    if stopgo:
        n = min(n, 1)
    frames, expected = replies(call, rng, n)
    # a frame which is not an answer to that kind of request
    wants_normal = call.frame.count("*") == 2      # a status request
    bad = [k for k in WRONG if k != ("normal" if wants_normal else "response")]
    pos = rng.randint(0, n)
    wrong = WRONG[rng.choice(bad)]

    async def main(loop):
        async def responder(conn, f):
            mon.check(f == call.frame, "the query wrote another frame", got=f, expected=call.frame)
            seq = list(frames)
            if end.startswith("wrong"):
                seq.insert(pos, wrong)
            if end in ("ack", "wrong"):
                seq.append("*#*1##")
            elif end == "nack":
                seq.append("*#*0##")
            elif end == "garbage":
                seq.append("*1*x##")
            elif end == "partial_silence":
                seq.append("*#*1#")
            text = "".join(seq)
            if case["cut"] == 0:
                for x in seq:
                    conn.write(x)
                    await asyncio.sleep(case["gap"])
            elif case["cut"] == 1:
                conn.write(text)
            else:
                k = min(len(text), 1 if case["cut"] == 2 else rng.randint(1, 30))
                cuts = sorted(rng.sample(range(1, len(text)), min(k, len(text) - 1))) if len(text) > 1 else []
                await conn.write_cuts(text, cuts, 0.01)
            if end == "close":
                conn.close()
            elif end == "reset":
                await asyncio.sleep(0.01)
                conn.reset()

        c, conn, ep = await scen.connected(loop, case.get("session", "cmd"), responder=responder)
        if rng.random() < .15:
            await asyncio.sleep(rng.choice(scen.IDLE))
            mon.obs("idle")
        t0 = loop.now
        if call.kind == "gen":
            got, err = await scen.collect(call.invoke(c))
            got = [str(x) if isinstance(call.reply, str) else methods.norm(x) for x in got]
        else:
            k, v = await scen.outcome(call.perform(c))
            got, err = ([methods.norm(v)], None) if k == "ok" else ([], v)
        took = loop.now - max(t0, conn.sent[-1][0])
        what = f"{call} after {n} data frames and {end}"
        if call.kind == "gen":
            mon.check(got == expected[:len(got)], f"{what}: yields what the gateway did not send", got=got, sent=frames)
        elif got and expected:
            mon.check(got == expected[:1], f"{what}: wrong value", got=got, sent=frames)
        if end == "ack":
            if call.kind == "gen":
                mon.check(err is None, f"{what}: failed", error=repr(err), sent=frames)
                mon.check(got == expected, f"{what}: replies are missing", got=got, sent=frames)
            elif n:
                mon.check(err is None, f"{what}: failed", error=repr(err), sent=frames)
            elif not stopgo:
                mon.check(isinstance(err, ResponseError), f"{what}: no data must raise ResponseError", got=got, error=repr(err))
                mon.obs("empty_single")
        elif end in ("nack", "wrong"):
            mon.check(isinstance(err, ResponseError), f"{what} ({wrong}): must raise ResponseError", got=got, error=repr(err), sent=frames)
        elif end == "wrong_silence":
            mon.check(isinstance(err, (ResponseError, TimeoutError)), f"{what}: must fail", got=got, error=repr(err))
        elif end in ("silence", "partial_silence"):
            mon.check(isinstance(err, TimeoutError), f"{what}: must raise TimeoutError", got=got, error=repr(err))
        else:
            mon.check(err is not None, f"{what}: ended as if it was complete", got=got, sent=frames)
        mon.check(took <= 5.3, f"{what}: ended {took} s after the last byte")
        await asyncio.sleep(1)
        mon.check(scen.sent_after_handshake(conn) == [call.frame], f"{what}: frames written", got=scen.sent_after_handshake(conn))
        mon.obs("end_" + end.split("_")[0].replace("reset", "close").replace("partial", "silence"))
        mon.obs("data_frames", n)
        mon.sig(call.method, n, end, pos if end.startswith("wrong") else 0)
    scen.run(main)


def rounds(case, mon):
    """The same item is queried again and again: each answer is the one of its own moment."""
    from pyown.exceptions import ResponseError
    rng = random.Random(case["seed"])

    async def main(loop):
        now = {}

        async def responder(conn, f):
            mon.check(f == now["frame"], "the query wrote another frame", got=f, expected=now["frame"])
            if now["delay"]:
                await asyncio.sleep(now["delay"])
            conn.write(now["text"])

        c, conn, ep = await scen.connected(loop, case["session"], responder=responder)
        pool = methods.queries(rng) + base_calls("12")
        first = pool[case["only"]] if "only" in case else rng.choice(pool)
        mates = [x for x in pool if (x.cls, x.where) == (first.cls, first.where)]
        some = rng.sample(mates, min(len(mates), rng.choice([1, 1, 2, 4])))
        if "only" in case:
            some = [first]
        item = first.item(c)
        kept = []
        for _ in range(case["rounds"]):
            call = rng.choice(some)
            n = rng.choice([0, 1, 1, 2, 3]) if call.method != "request_status" else 1
            frames, expected = replies(call, rng, n)
            end = rng.choice(["ack", "ack", "ack", "nack", "silence"])
            now.update(frame=call.frame, delay=rng.choice([0, 0, 0.05, 3]), text="".join(frames) + {"ack": "*#*1##", "nack": "*#*0##", "silence": ""}[end])
            base = len(conn.texts)
            r = getattr(item, call.method)(*call.args, **call.kwargs)
            if call.kind == "gen":
                got, err = await scen.collect(r)
                got = [str(x) if isinstance(call.reply, str) else methods.norm(x) for x in got]
            else:
                k, v = await scen.outcome(r)
                got, err = ([methods.norm(v)], None) if k == "ok" else ([], v)
                expected = expected[:1]
                if k == "ok":
                    kept.append((call, v, methods.norm(v)))
            what = f"{call} again, {end}"
            mon.check(conn.texts[base:] == [call.frame], f"{what}: frames written", got=conn.texts[base:])
            if end == "ack" and n == 0 and call.kind != "gen":
                mon.check(isinstance(err, ResponseError), f"{what}: no data must raise ResponseError", got=got, error=repr(err))
                mon.obs("empty_single")
            elif end == "ack":
                mon.check(err is None and got == expected, f"{what}: not the answer of the gateway", got=got, expected=expected, error=repr(err))
            else:
                mon.check(isinstance(err, ResponseError if end == "nack" else TimeoutError), f"{what}: did not fail", got=got, error=repr(err))
                mon.check(got == expected[:len(got)], f"{what}: yields what the gateway did not send", got=got, sent=frames)
            mon.obs("again")
            await asyncio.sleep(rng.choice([0, 0, 0.01, 0.4, 2] if rng.random() < .9 else scen.IDLE))
        for call, v, was in kept:
            mon.check(methods.norm(v) == was, f"{call}: a later query changed an answer returned before", got=methods.norm(v), expected=was)
        mon.sig("rounds", first.method, case["seed"])
    scen.run(main)
