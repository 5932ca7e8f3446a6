"""C19: the event loop survives bad events and failing callbacks."""
import asyncio
import logging
import random

from harness import events, methods, ref, scen

RULE = ("valid events with unique markers are interleaved with unknown WHOs, unsupported WHAT/DIMENSION/WHERE, missing, extra or absurd values and "
        "random legal frames, while callbacks raise at once, raise later, or hang; monitored: every recorder callback sees every marked event once and in "
        "order, and loop() keeps running; distinct = stream and failing callbacks")
LEVEL = "fault_enumeration"
N = {"quick": 2800, "thorough": 50000}
REQUIRE = {"marked": 5000, "bad_frames": 3000, "evil_calls": 1500, "bad_singles": 80, "reported": 1000}
ISOLATE = True
EXHAUSTIVE = ["each malformed or unsupported frame of the catalogue alone between two events of every WHO", "each kind of failing callback alone on every kind "
              "of event"]
EVIL = ["raise", "raise_later", "raise_much_later", "hang", "hang_forever_event", "invalid_message", "invalid_tag", "connection", "timeout", "session", "key", "stop",
        "oserror", "eof", "type", "cancelled", "group", "attribute"]
MARKED = ["light.status", "light.lumin", "light.tempo", "auto", "camera", "energy.power", "energy.daily", "gw.uptime"]


def mark(kind, i, rng):
    w = str(77000 + i)
    if kind == "light.status":
        n = rng.randint(0, 1)
        return f"*1*{n}*{w}##", "1", w, [bool(n)]
    if kind == "light.lumin":
        return f"*#1*{w}*1*150*{i % 256}##", "1", w, [150., float(i % 256)]
    if kind == "light.tempo":
        return f"*#1*{w}*2*1*2*{i % 60}##", "1", w, [1., 2., float(i % 60)]
    if kind == "auto":
        return f"*2*{i % 3}*{w}##", "2", w, [str(i % 3)]
    if kind == "camera":
        return f"*7*0*{w}##", "7", w, ["0", f"*7*0*{w}##"]
    if kind == "energy.power":
        return f"*#18*5{w}*113*{i}##", "18", "5" + w, [float(i)]
    if kind == "energy.daily":
        return f"*#18*5{w}*511#{i % 12 + 1}#{i % 28 + 1}*5*{i}##", "18", "5" + w, [i % 28 + 1., i % 12 + 1., 5., float(i)]
    import datetime
    return f"*#13**19*{w}*1*2*3##", "13", "", [datetime.timedelta(days=int(w), hours=1, minutes=2, seconds=3)]


def fixed(tier):
    bad = events.NOISE + events.UNSUPPORTED + events.BROKEN
    for i, f in enumerate(bad):
        yield {"seed": i, "stream": ["m", f, "m"], "evil": {}, "each": True, "cut": i % 2}
    for e in EVIL:
        for k in MARKED:
            yield {"seed": 1, "stream": ["m"] * 3, "evil": {k: [e]}, "each": True, "cut": 0}
    yield {"seed": 2, "stream": bad * 3 + ["m"] * 5, "evil": {}, "each": True, "cut": 0}
    for e in EVIL:
        yield {"seed": 4, "stream": ["m"] * 1200, "evil": {"light.status": [e], "auto": [e]}, "each": False, "cut": 1}
    yield {"seed": 5, "stream": ["m"] * 6000, "evil": {"light.status": ["raise"]}, "each": False, "cut": 1}
    for i, f in enumerate(bad):
        yield {"seed": 6, "stream": [f] * 130 + ["m"] * 3, "evil": {}, "each": False, "cut": i % 3}
    yield {"seed": 3, "stream": ["m"] * 40, "evil": {k: EVIL for k in MARKED}, "each": False, "cut": 1}


def rand(rng, tier):
    bad = events.NOISE + events.UNSUPPORTED + events.BROKEN
    n = rng.choice([5, 15, 40, 80])
    st = []
    for _ in range(n):
        r = rng.random()
        st.append("m" if r < .5 else rng.choice(bad) if r < .75 else supported(rng) if r < .95 else ref.rnd_frame(rng))
    evil = {k: [rng.choice(EVIL) for _ in range(rng.randint(1, 3))] for k in rng.sample(MARKED, rng.randint(0, len(MARKED)))}
    return {"seed": rng.randint(0, 1 << 30), "stream": st + ["m"] * 3, "evil": evil, "each": False, "cut": rng.randint(0, 2), "quiet": rng.random() < .25}


def supported(rng):
    """A legal frame of a supported WHO with arbitrary fields."""
    who = rng.choice(["1", "2", "7", "13", "18"])
    t = lambda: ref.rnd_tag(rng, last=True, first=(0, 3))
    dim = rng.choice(["1", "2", "8", "12", "14", "113", "51", "52", "52#24#1", "53", "54", "71", "72#1", "72", "73", "250", "511#1#2", "511", "512#3", "513#4", "514#5",
                      "0", "10", "11", "15", "16", "19", "22", "23", "24", "99", "251"])
    where = rng.choice(["12", "", "51", "71#0", "11", "#3", "0", t()])
    k = rng.random()
    if k < .3:
        return f"*{who}*{rng.choice([t(), str(rng.randint(0, 40))])}*{where or '1'}##"
    vals = "".join("*" + rng.choice([t(), str(rng.randint(0, 300)), "", str(10 ** rng.randint(3, 40)), "00"]) for _ in range(rng.randint(0, 9)))
    f = f"*#{who}*{where}*{rng.choice(['', '', '#'])}{dim}{vals}##"
    return f if ref.verdict(f) == "legal" else f"*#{who}*{where}*{dim}##"


def run(case, mon):
    rng = random.Random(case["seed"])

    async def main(loop):
        from pyown import exceptions as X
        forever = asyncio.Event()
        evil_tasks, raised, records = [], [], []

        class Keep(logging.Handler):
            def emit(self, record):
                records.append((record.getMessage(), record.exc_info and record.exc_info[1]))
        logging.disable(logging.INFO)
        keep = Keep(logging.WARNING)
        logging.getLogger("pyown").addHandler(keep)

        def bad(cls, *args, silent=False):
            text = f"bad callback {len(raised)};"
            e = cls(*args, text) if cls is not ExceptionGroup else cls(text, *args)
            raised.append((e, text, silent))
            return e

        def evil(kind, silent):
            async def cb(item, *args):
                mon.obs("evil_calls")
                evil_tasks.append(asyncio.current_task())
                if kind == "raise":
                    raise bad(ValueError, silent=silent)
                if kind == "raise_later":
                    await asyncio.sleep(0)
                    raise bad(RuntimeError, silent=silent)
                if kind == "raise_much_later":
                    await asyncio.sleep(rng.uniform(0.01, 3))
                    raise bad(RuntimeError, silent=silent)
                if kind == "hang":
                    await asyncio.sleep(100000)
                if kind == "hang_forever_event":
                    await forever.wait()
                if kind == "invalid_message":
                    raise bad(X.InvalidMessage, silent=silent)
                if kind == "invalid_tag":
                    raise bad(X.InvalidTag, silent=silent)
                if kind == "connection":
                    raise bad(ConnectionResetError, silent=silent)
                if kind == "timeout":
                    raise bad(TimeoutError, silent=silent)
                if kind == "session":
                    raise bad(X.InvalidSession, silent=silent)
                if kind == "key":
                    raise bad(KeyError, silent=silent)
                if kind == "stop":
                    raise bad(StopAsyncIteration, silent=silent)
                if kind == "oserror":
                    raise bad(OSError, 5, silent=silent)
                if kind == "eof":
                    raise bad(EOFError, silent=silent)
                if kind == "cancelled":      # e.g. it awaited a task that was cancelled
                    evil_tasks.pop()
                    raise asyncio.CancelledError
                if kind == "group":
                    raise bad(ExceptionGroup, [ValueError("x"), OSError("y")], silent=silent)
                if kind == "attribute":
                    raise bad(AttributeError, silent=silent)
                if kind == "type":
                    raise bad(TypeError, silent=silent)
            return cb

        stream, expect, i = [], {k: [] for k in MARKED}, 0
        for x in case["stream"]:
            if x != "m":
                stream.append(x)
                mon.obs("bad_frames")
                continue
            for k in MARKED if case["each"] else [rng.choice(MARKED)]:
                i += 1
                e = mark(k, i, rng)
                stream.append(e[0])
                expect[k].append(events.expected(e))
        go = asyncio.Event()
        done = asyncio.Event()

        async def feed(conn):
            await go.wait()
            if case["cut"] == 1:
                conn.write("".join(stream))
            else:
                for f in stream:
                    conn.write(f)
                    await asyncio.sleep(0 if case["cut"] == 2 else rng.choice([0, 0.01, 0.5] + ([0.5, 0.1, 20, 1000, 7000, 90000] if case.get("quiet") else [])))
            done.set()

        c, conn, ep = await scen.connected(loop, "event", after=feed)
        logs = {k: [] for k in MARKED}
        for k in MARKED:
            regs = events.KINDS[k][0]
            es = list(case["evil"].get(k, []))
            at = rng.randint(0, len(es))
            second = []
            waits = any(e.startswith("hang") for e in es)        # the failures of an event are reported when all of its callbacks ended
            for e in es[:at]:
                regs[0](evil(e, waits))

            async def rec(*args, k=k):
                logs[k].append(events.observed(args))

            async def rec2(*args, log=second):
                await asyncio.sleep(0.2)
                log.append(events.observed(args))
            regs[0](rec)
            for e in es[at:]:
                regs[0](evil(e, waits))
            regs[0](rec2)
            logs[k + "+"] = second
            expect[k + "+"] = expect[k]
        task = asyncio.ensure_future(c.loop())
        go.set()
        await done.wait()
        await asyncio.sleep(10)
        mon.check(not task.done(), "loop() stopped", task=task, stream=stream)
        for k in logs:
            ours = {repr(x) for x in expect[k]}
            got = [x for x in logs[k] if repr(x) in ours]
            want = expect[k]
            if k.endswith("+"):      # recorded after a pause: how the loop orders equal timers says nothing
                got, want = sorted(got, key=repr), sorted(want, key=repr)
            mon.check(got == want, f"valid events of {k} were lost, repeated or reordered", counts=(len(got), len(expect[k])),
                      missing=[x for x in expect[k] if x not in got][:2], stream=stream[:60])
            mon.obs("marked", len(got))
        text = "\n".join(m for m, _ in records)
        known = {id(e) for _, e in records}
        for e, marker, silent in raised:
            if not silent:
                mon.check(id(e) in known or marker in text, "the failure of a callback was not reported in the log", error=repr(e), records=[m for m, _ in records][:5])
                mon.obs("reported")
        for t in evil_tasks:
            mon.check(not t.cancelled(), "a callback was cancelled")
        if len(case["stream"]) == 3:
            mon.obs("bad_singles")
        mon.sig(stream, sorted(case["evil"].items()))
        conn.close()
        k, v = await scen.outcome(asyncio.wait_for(task, 20))
        mon.check(k == "ok" or isinstance(v, ConnectionError), "loop() did not end with the connection", got=repr(v))
    scen.run(main, horizon=1e8, max_steps=3_000_000)
