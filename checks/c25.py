"""C25: reading is exact: no message is lost, repeated or reordered by timeouts, cancellations and concurrent readers."""
import asyncio
import random

from pyown.messages import NormalMessage
from pyown.tags import What, Where, Who

from harness import scen

RULE = ("1..4 tasks read with read_message (timeouts 0..None, many of them expiring at the very instant a frame arrives, cancellations before, at and "
        "after that instant) while the gateway sends uniquely numbered frames; then the connection ends or stays; monitored: the log of everything "
        "read vs the stream, the instants of every TimeoutError, the end of every reader; distinct = (arrivals, schedule of the readers)")
LEVEL = "fault_enumeration"
N = {"quick": 12000, "thorough": 200000}
REQUIRE = {"read": 15000, "timeouts": 3000, "cancelled": 800, "race_timeout": 500, "race_cancel": 200, "ended_readers": 1000, "multi": 500, "late_reads": 5000, "equal_read": 5000}
EXHAUSTIVE = ["timeout or cancellation 20 ms..0 before, exactly at, and after the arrival, for whole and split frames, 1..3 frames at once, both session kinds"]
GRID = 0.01
PING = NormalMessage((Who.LIGHTING, What("1"), Where("12")))


def fixed(tier):
    s = 0
    for off in (-2, -1, 0, 1, 2):
        for how in ("timeout", "cancel", "waitfor"):
            for burst in (1, 2, 3):
                for split in (False, True):
                    for session in ("event", "cmd", "oldcmd"):
                        for order in (0, 1):
                            s += 1
                            yield {"one": how, "off": off, "burst": burst, "split": split, "session": session, "order": order}
    for n in (1, 2, 3, 4):
        for end in ("eof", "none"):
            yield {"seed": s + n, "readers": n, "frames": 4000, "end": end, "session": ["event", "cmd"][n % 2]}
        for end in ("eof", "reset", "none", "close"):
            yield {"seed": s + n, "readers": n, "frames": 20, "end": end, "session": "event"}


    for k in range(12):
        yield {"same": 1 + k % 3, "frames": [6, 40, 3000][k % 3] if k < 9 else 60, "seed": k, "session": ["event", "cmd", "oldcmd"][k // 3 % 3]}
    for gap in (4.9, 5.1, 31, 61, 310, 610, 3601, 7300, 86401, 700000, 5_000_000):
        for session in ("event", "cmd"):
            yield {"idle": gap, "session": session}


def rand(rng, tier):
    if rng.random() < .1:
        return {"seed": rng.randint(0, 1 << 30), "same": rng.randint(1, 4), "frames": rng.choice([4, 12, 40]), "session": rng.choice(["event", "cmd", "oldcmd"])}
    return {"seed": rng.randint(0, 1 << 30), "readers": rng.choice([1, 1, 1, 2, 3, 4]), "frames": rng.choice([3, 10, 30]),
            "end": rng.choice(["none", "eof", "reset", "halfclose"]), "session": rng.choice(["event", "cmd", "oldcmd"])}


def frame(i):
    return f"*1*1*{10000 + i}##"


def number(m):
    return int(str(m)[5:-2]) - 10000


def run(case, mon):
    if "one" in case:
        return race(case, mon)
    if "idle" in case:
        return idle(case, mon)
    if "same" in case:
        return equal(case, mon)
    rng = random.Random(case["seed"])
    n = case["frames"]

    async def main(loop):
        c, conn, ep = await scen.connected(loop, case["session"])
        t0 = loop.time()
        ticks = sorted(rng.randint(1, 60) for _ in range(n))        # arrivals, in units of GRID
        log = [[] for _ in range(case["readers"])]
        ends = [None] * case["readers"]
        total = []
        stop = [False]

        async def feed():
            prev = 0
            for i, k in enumerate(ticks):
                d = t0 + k * GRID - loop.time()
                if d > 0:
                    await asyncio.sleep(d)
                f = frame(i)
                if rng.random() < .2:
                    conn.write(f[:4])
                    f = f[4:]
                conn.write(f)

        async def reader(r):
            while not stop[0]:
                start = loop.time()
                kind = rng.random()
                # the deadline is on the same grid as the arrivals: they race
                to = rng.choice([0, 0.0005, 1, 5, None] if kind < .3 else [max(0, rng.randint(1, 12) * GRID - (start - t0) % GRID)])
                if kind > .85:
                    try:
                        async with asyncio.timeout(to):
                            m = await c.read_message(timeout=None)
                    except TimeoutError:
                        mon.obs("cancelled")
                        continue
                    except OSError as e:
                        ends[r] = e
                        return
                else:
                    try:
                        m = await c.read_message(timeout=to)
                    except TimeoutError:
                        took = loop.time() - start
                        mon.obs("timeouts")
                        mon.check(to is not None and took >= to - 1e-6, "read_message timed out too early", timeout=to, took=took)
                        mon.check(took <= to + 0.5, "read_message timed out too late", timeout=to, took=took)
                        if any(abs(loop.time() - t0 - k * GRID) < 1e-6 for k in ticks):
                            mon.obs("race_timeout")
                        if to == 0:
                            await asyncio.sleep(rng.choice([0, GRID]))
                        continue
                    except OSError as e:
                        ends[r] = e
                        return
                    mon.check(to is None or loop.time() - start <= to + 0.5, "read_message returned after its timeout", timeout=to, took=loop.time() - start)
                log[r].append(number(m))
                total.append(number(m))
                mon.obs("read")
                while rng.random() < .2:
                    await asyncio.sleep(rng.choice([0, GRID, 3 * GRID]))

        feeder = asyncio.ensure_future(feed())
        tasks = [asyncio.ensure_future(reader(r)) for r in range(case["readers"])]
        for _ in range(rng.choice([0, 0, 3])):      # cancel some readers, others take over
            r = rng.randrange(case["readers"])
            await asyncio.sleep(rng.randint(1, 20) * GRID)
            if not tasks[r].done():
                tasks[r].cancel()
                mon.obs("cancelled")
                await asyncio.wait([tasks[r]])
                if not tasks[r].cancelled() and tasks[r].exception():
                    raise tasks[r].exception()
                tasks[r] = asyncio.ensure_future(reader(r))
        await feeder
        end = case["end"]
        if rng.random() < .5:
            await asyncio.sleep(rng.choice([0.005, 0.3, 20]))
        if end == "none":
            stop[0] = True
        elif end == "eof":
            conn.close()
        elif end == "halfclose":
            conn.half_close()
        elif end == "reset":
            await asyncio.sleep(0.05)       # what the kernel already delivered is read
            conn.reset()
        elif end == "close":
            await c.close()
        if end == "none":
            # drain what nobody read yet; readers that still wait forever are cancelled: they took nothing
            await asyncio.sleep(10)
            for t in tasks:
                if not t.done():
                    t.cancel()
            await asyncio.wait(tasks)
            for t in tasks:
                if not t.cancelled() and t.exception():
                    raise t.exception()
            while len(total) < n:
                k, v = await scen.outcome(c.read_message(timeout=1))
                mon.check(k == "ok", "a message was lost", missing=sorted(set(range(n)) - set(total)), error=repr(v), log=log)
                total.append(number(v))
                log[0].append(number(v))
            for to in (1, 0, 0.25, 30):
                t1 = loop.time()
                k, v = await scen.outcome(asyncio.wait_for(c.read_message(timeout=to), 100))
                mon.check(k == "exc" and isinstance(v, TimeoutError), "read_message returned something that was not sent", got=repr(v))
                mon.check(to - 1e-6 <= loop.time() - t1 <= to + 0.5, "read_message timed out too early or too late", timeout=to, took=loop.time() - t1)
        else:
            done, left = await asyncio.wait(tasks, timeout=15)
            mon.check(not left, f"{len(left)} of {len(tasks)} readers still wait 15 s after the connection ended ({end})", total=total)
            for r, t in enumerate(tasks):
                if t.exception() is not None:
                    from pyown.exceptions import InvalidSession
                    if not (end == "close" and isinstance(t.exception(), InvalidSession)):
                        raise t.exception()
                mon.obs("ended_readers")
            if end != "close":
                # whoever comes later learns it too, whatever was tried in between
                from pyown.items import Light
                for step in [rng.choice(["read", "read", "send", "command", "query"]) for _ in range(4)] + ["read", "read"]:
                    start = loop.time()
                    if step == "read":
                        t = asyncio.ensure_future(c.read_message(timeout=rng.choice([None, None, 3])))
                        done, _ = await asyncio.wait([t], timeout=15)
                        mon.check(done, "read_message on a connection that ended never ends", end=end)
                        mon.check(isinstance(t.exception(), OSError) and not isinstance(t.exception(), TimeoutError),
                                  "read_message on a connection that ended did not report it", end=end, got=repr(t))
                        mon.obs("late_reads")
                    elif step == "send":
                        await scen.outcome(c.send_message(PING))
                    elif step == "command":
                        await scen.outcome(Light(c, "12").turn_on())
                    else:
                        await scen.collect(Light(c, "12").get_status())
                    mon.check(loop.time() - start < 30, "an operation on a connection that ended takes very long", step=step)
        if end != "close":
            mon.check(sorted(total) == list(range(n)), "messages were lost or repeated", got=total, expected=n, log=log)
        else:
            mon.check(len(set(total)) == len(total), "messages were repeated", got=total)
        for x in log:
            mon.check(x == sorted(x), "a reader got messages out of order", got=x)
        if case["readers"] == 1:
            mon.check(total == sorted(total), "messages out of order", got=total)
        else:
            mon.obs("multi")
        mon.sig(ticks, case["session"], case["end"], log)
    scen.run(main)


def race(case, mon):
    """One reader ends at `off` steps of 10 ms from the arrival; the next reader gets everything, from the first frame not read."""
    async def main(loop):
        c, conn, ep = await scen.connected(loop, case["session"])
        at = 0.5
        when = at + case["off"] * GRID
        t0 = loop.time()

        def arrive():
            text = "".join(frame(i) for i in range(case["burst"]))
            if case["split"]:
                conn.write(text[3:])
            else:
                conn.write(text)
        if case["split"]:
            conn.write(frame(0)[:3])
        got = []

        async def read():
            if case["one"] == "timeout":
                return await c.read_message(timeout=when)
            if case["one"] == "waitfor":
                return await asyncio.wait_for(c.read_message(timeout=None), when)
            return await c.read_message(timeout=None)

        async def first():
            got.append(number(await read()))
            return True

        def start():
            t = asyncio.ensure_future(first())
            if case["one"] == "cancel":
                loop.call_at(t0 + when, t.cancel)
            return t
        if case["order"]:       # the order in which equal timers were created decides which one runs first
            task = start()
            await asyncio.sleep(0)
            loop.call_at(t0 + at, arrive)
        else:
            loop.call_at(t0 + at, arrive)
            task = start()
        await asyncio.wait([task], timeout=3)
        mon.check(task.done(), "the reader never ends", case=case)
        if not task.cancelled() and task.exception() is not None:
            mon.check(isinstance(task.exception(), TimeoutError), "unexpected error", error=repr(task.exception()))
            mon.obs("timeouts")
        if case["off"] > 0:
            mon.check(got == [0], "the frame had arrived but was not returned", got=got)
        elif case["off"] < 0:
            mon.check(not got, "read too early", got=got)
        mon.obs("race_" + ("timeout" if case["one"] == "timeout" else "cancel"))
        await asyncio.sleep(1)
        while len(got) < case["burst"]:
            k, v = await scen.outcome(c.read_message(timeout=2))
            mon.check(k == "ok", "a message was lost by a reader that gave up", got=got, error=repr(v))
            got.append(number(v))
            mon.obs("read")
        mon.check(got == list(range(case["burst"])), "messages lost, repeated or out of order", got=got)
        k, v = await scen.outcome(c.read_message(timeout=1))
        mon.check(k == "exc" and isinstance(v, TimeoutError), "something more was read", got=repr(v))
        mon.sig("one", sorted(case.items()), got)
    scen.run(main)


def idle(case, mon):
    """Frames that come after long silences go to the read that waits for them, at the instant they arrive."""
    gap = case["idle"]

    async def main(loop):
        c, conn, ep = await scen.connected(loop, case["session"])
        i = 0
        for to in (None, gap + 1, gap - 1, None, gap * 2, None):
            for glue in (1, 2):
                first = i
                loop.call_later(gap, conn.write, "".join(frame(i + k) for k in range(glue)))
                i += glue
                start = loop.time()
                k, v = await scen.outcome(c.read_message(timeout=to))
                took = loop.time() - start
                if to is not None and to < gap:
                    mon.check(k == "exc" and isinstance(v, TimeoutError) and to - 1e-6 <= took <= to + 0.5, "a read that should time out", timeout=to, took=took, got=repr(v))
                    mon.obs("timeouts")
                    await asyncio.sleep(2)
                    k, v = await scen.outcome(c.read_message(timeout=1))
                    took = gap
                mon.check(k == "ok" and number(v) == first, "a message after a long silence was not read", gap=gap, timeout=to, got=repr(v), expected=first)
                mon.check(gap - 1e-6 <= took <= gap + 0.5, "a message was not read when it arrived", gap=gap, took=took)
                mon.obs("read")
                for j in range(first + 1, i):
                    k, v = await scen.outcome(c.read_message(timeout=1))
                    mon.check(k == "ok" and number(v) == j, "a message after a long silence was lost", gap=gap, got=repr(v), expected=j)
        mon.sig("idle", gap, case["session"])
    scen.run(main, horizon=1e9)


def equal(case, mon):
    """Frames that are equal to others, unread or read, are messages of their own."""
    rng = random.Random(case["seed"])

    async def main(loop):
        c, conn, ep = await scen.connected(loop, case["session"])
        pool = [rng.choice(["*1*1*12##", "*1*0*12##", "*#*1##", "*#*0##", "*2*1*15##", "*#18*51*113*10##"]) for _ in range(case["same"])]
        stream = [rng.choice(pool) for _ in range(case["frames"])]
        todo, got = list(stream), []

        async def read(to):
            k, v = await scen.outcome(c.read_message(timeout=to))
            if k == "exc":
                mon.check(isinstance(v, TimeoutError) and to is not None, "unexpected error", error=repr(v))
                mon.obs("timeouts")
                return False
            got.append(str(v))
            mon.obs("read")
            mon.obs("equal_read")
            return True
        arrived = 0
        while todo:
            k = rng.choice([1, 2, 3, 10, len(todo)])
            some, todo = todo[:k], todo[k:]
            if rng.random() < .5:
                conn.write("".join(some))
            else:
                for f in some:
                    conn.write(f)
                    await asyncio.sleep(rng.choice([0, GRID]))
            arrived += len(some)
            await asyncio.sleep(rng.choice([0, GRID, 3]))
            for _ in range(rng.choice([0, 1, 2, len(some)])):
                if not await read(rng.choice([0.5, 2])):
                    mon.check(len(got) == arrived, "a message that arrived was not read", read=len(got), arrived=arrived, pool=pool)
        while await read(1):
            pass
        mon.check(got == stream, "messages equal to others were lost, repeated or reordered", got=got[:60], sent=stream[:60], n=(len(got), len(stream)))
        mon.sig("equal", stream, case["session"])
    scen.run(main, max_steps=3_000_000)
