"""C01: exactly once, in order, unaltered delivery for any TCP segmentation."""
import asyncio

from harness import ref, scen

RULE = ("a random or fixed list of legal frames (every kind, long frames, bursts, whitespace between frames) is cut at "
        "random/systematic offsets and written to a real transport; distinct = (frames, cuts, reader mode)")
N = {"quick": 2800, "thorough": 80000}
REQUIRE = {"frames_delivered": 500, "segments": 1000}
ASSUMPTIONS = ["segments are separated by 0.5 s of virtual time, so 'as soon as the last byte arrived' means before "
               "0.25 s of virtual time"]
GAP = 0.5
SEPS = ["", "", "", "", "\n", "\r\n", " ", "\t", "\r", "  \n"]


def mk(frames, seps, cuts, mode="reader", session="event", glue=False, auth="none"):
    return {"frames": frames, "seps": seps, "cuts": cuts, "mode": mode, "session": session, "glue": glue, "auth": auth}


def fixed(tier):
    base = ["*1*1*12##", "*#1*12*1*150*255##", "*#*1##", "*2*0*0312#4#01##", "*#13**22*12*34*56*001*00*05*06*2024##"]
    text = "".join(base)
    # every single cut position, every reader
    for i in range(1, len(text)):
        yield mk(base, [""] * 5, [i], ["reader", "poll", "two"][i % 3], ["event", "cmd"][i % 2])
    # byte by byte, everything in a segment
    for mode in ("reader", "poll", "two", "late"):
        yield mk(base, [""] * 5, list(range(1, len(text))), mode)
        yield mk(base, [""] * 5, [], mode)
        yield mk(base, [""] * 5, [], mode, glue=True)
        for a in ("none", "open", "hmac1", "hmac2"):
            yield mk(base, [""] * 5, [], mode, glue="segment", auth=a)
            for c in (1, 2, 5, len(base[0]) - 1, len(base[0]), len(base[0]) + 1):
                yield mk(base, [""] * 5, [c], mode, glue="segment", auth=a)
        yield mk(base, ["\n"] * 5, [], mode)
    # every pair of cuts of two frames
    two = ["*1*0*11##", "*#*0##"]
    t2 = "".join(two)
    for i in range(1, len(t2)):
        for j in range(i + 1, len(t2)):
            yield mk(two, ["", ""], [i, j], "reader", "cmd")
    # with whitespace, each cut
    t3 = "*1*0*11##" + "\r\n" + "*2*1*5##" + "\n"
    for i in range(1, len(t3)):
        yield mk(["*1*0*11##", "*2*1*5##"], ["\r\n", "\n"], [i], "reader")
    # an identical frame repeated is delivered as many times
    yield mk(["*1*1*12##"] * 40, [""] * 40, [7 * k for k in range(1, 50)])
    yield mk(["*#*1##"] * 300, [""] * 300, [])
    for a in ("open", "hmac1", "hmac2"):
        yield mk(base, [""] * 5, [3, 11, 30], glue=True, auth=a)
        yield mk(base, [""] * 5, [3, 11, 30], "late", "cmd", auth=a)
    # long frames
    long = "*#18*51*511#1#2" + "".join(f"*{i}" for i in range(600)) + "##"
    yield mk([long, "*1*1*1##", long], [""] * 3, [1, 1000, 2000, len(long) - 1, len(long) + 1])
    yield mk([long] * 60, [""] * 60, [])
    many = [f"*1*{i % 2}*{i}##" for i in range(6000)]
    yield mk(many, [""] * 6000, [], "late")
    yield mk(many, [""] * 6000, [k * 4001 for k in range(1, 18)], "late", "cmd")
    flood = [f"*1*{i % 2}*{i % 99}##" for i in range(70000)]
    yield mk(flood, [""] * 70000, [], "late")
    # frames that end like another frame, cut right before it
    for a, b in (("*#1*#", "*#*1##"), ("*9*9", "*#*1##"), ("*#1*12", "*1*1*12##"), ("*1*1", "*12##"), ("*#13*", "*#*0##"), ("*#18*51*113*5", "*1*1*12##")):
        if ref.verdict(a + b) == "legal":
            for pre in ([], ["*1*1*5##"]):
                fr = pre + [a + b, b if ref.verdict(b) == "legal" else "*#*1##"]
                at = len("".join(pre)) + len(a)
                yield mk(fr, [""] * len(fr), [at], "reader", "cmd")
                yield mk(fr, [""] * len(fr), [at, at + len(b)], "reader", "cmd")
    yield mk(many[:3000], ["\n"] * 3000, [k * 64 for k in range(1, 500)], "reader")
    huge = "*#18*51*511#1#2" + "*1234567" * 9000 + "##"
    yield mk([huge, "*1*1*1##", huge, "*1*0*1##"], [""] * 4, [5, len(huge) - 1, len(huge) + 20], "reader")
    yield mk(["*1*1*1##", huge, "*1*0*1##"], [""] * 3, [], "late")


def rand(rng, tier):
    n = rng.choice([1, 2, 3, 3, 5, 8, 12]) if rng.random() < .95 else rng.randint(50, 250)
    frames = [ref.rnd_frame(rng) for _ in range(n)]
    if rng.random() < .2:
        frames = [rng.choice(frames) for _ in frames]
    ws = rng.random() < .3
    seps = [rng.choice(SEPS) if ws else "" for _ in frames]
    total = sum(map(len, frames)) + sum(map(len, seps))
    m = rng.random()
    if m < .1:
        cuts = []
    elif m < .3 and total < 400:
        cuts = list(range(1, total))
    elif m < .5:      # near the terminators
        cuts, p = set(), 0
        for f, s in zip(frames, seps):
            p += len(f)
            for d in (-2, -1, 0, 1):
                if rng.random() < .35:
                    cuts.add(p + d)
            p += len(s)
        cuts = sorted(c for c in cuts if 0 < c < total)
    else:
        cuts = sorted(rng.sample(range(1, total), min(total - 1, rng.randint(1, 15)))) if total > 1 else []
    return mk(frames, seps, cuts, rng.choice(["reader", "reader", "poll", "two", "late"]),
              rng.choice(["event", "cmd", "oldcmd"]), rng.choice([False, False, False, True, "segment"]), rng.choice(["none", "none", "open", "hmac1", "hmac2"]))


def run(case, mon):
    frames = case["frames"]
    data = "".join(f + s for f, s in zip(frames, case["seps"])).encode()
    ends, p = [], 0
    for f, s in zip(frames, case["seps"]):
        p += len(f)
        ends.append(p)
        p += len(s)
    cuts = case["cuts"]
    mode = case["mode"]

    async def main(loop):
        written = asyncio.Event()
        # "segment": the first bytes of the stream come in the same segment as the end of the handshake
        head = ([c for c in cuts if c > 0] + [len(data)])[0] if case["glue"] == "segment" else 0
        arrived = {}       # frame index -> time its last byte was written

        async def after(conn):
            if case["glue"]:
                await asyncio.sleep(0)
            prev = head
            for i, e in enumerate(ends):
                if e <= head:
                    arrived[i] = loop.now
            for c in list(cuts) + [len(data)]:
                if c <= prev:
                    continue
                if prev > 0 or not case["glue"]:
                    await asyncio.sleep(GAP)
                conn.write(data[prev:c])
                for i, e in enumerate(ends):
                    if prev < e <= c:
                        arrived[i] = loop.now
                mon.obs("segments")
                prev = c
            written.set()

        client, conn, ep = await scen.connected(loop, case["session"], auth={**scen.auth_of(case["auth"]), "tail": data[:head].decode()}, after=after)
        got = []           # (time, text, reader)

        async def reader(name, timeout):
            while True:
                try:
                    m = await client.read_message(timeout=timeout)
                except TimeoutError:
                    if written.is_set() and loop.now > written_at[0] + 3:
                        return
                    continue
                got.append((loop.now, str(m), name))

        written_at = [1e9]

        async def watch():
            await written.wait()
            written_at[0] = loop.now

        w = asyncio.ensure_future(watch())
        if mode == "late":
            await written.wait()
            await asyncio.sleep(2)
            await reader("a", 4)
        elif mode == "reader":
            await reader("a", 4)
        elif mode == "poll":
            await reader("a", 0.13)
        else:
            await asyncio.gather(reader("a", 0.7), reader("b", 0.31))
        await w
        return got, arrived

    got, arrived = scen.run(main, horizon=100000)
    texts = [t for _, t, _ in got]
    if mode == "two":
        mon.check(sorted(texts) == sorted(frames), "two readers: the frames delivered are not those of the stream",
                  got=texts, expected=frames)
        # the readers are served one at a time, so the global order is kept too
    mon.check(texts == frames, "the frames delivered are not those of the stream", got=texts, expected=frames)
    if mode != "late":
        for i, (t, text, _) in enumerate(got):
            # a frame can be glued with the handshake: then it waits for the reader
            mon.check(t - arrived[i] < GAP / 2, "a frame was not delivered when its last byte arrived",
                      frame=text, arrived=arrived[i], delivered=t)
    mon.obs("frames_delivered", len(got))
    mon.obs("mode_" + mode)
    mon.sig(frames, cuts, mode, case["seps"])
