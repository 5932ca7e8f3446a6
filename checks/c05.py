"""C05: parsing cost is bounded."""
import asyncio
import time

from harness import ref, scen

RULE = ("hostile strings made of a repeated unit with a prefix and a tail, 64 B to 8 KB, given to parse_message, the tag "
        "constructors and a live connection; CPU time measured per call; distinct = (unit, prefix, tail, size, target)")
N = {"quick": 1200, "thorough": 12000}
REQUIRE = {"calls": 2000}
LIMIT = 5.0     # CPU seconds for at most 8 KB, three orders of magnitude above the usual cost
ASSUMPTIONS = ["a call on at most 8 KB that uses more than 5 CPU seconds is 'stalled' (the current code needs milliseconds)"]
UNITS = ["1", "#", "*", "1#", "#1", "1*", "*1", "*#", "#*", "1#1", "*1#", "#1*", "*#1", "11", "1#1*", "*1#1", "0", "*1*1*1##", "12#4#01",
         "*#*1", "##", "###", "*1*1*1#", "1#2#3*", " ", "\n", "a", "*a", "1*#1*"]
PREFIX = ["*", "", "*1*", "*#1*", "*#1*12*", "*#1*12*#", "*#1*12*#1*", "*#1*12*1*", "*1*1*", "*1*1*12#", "*#", "*#*", "*#1*1#1"]
TAIL = ["##", "", "a##", "x", "#", "*", "*##", "#a", " ", "\n##", "*a##", "*1*1##", "!", "##x"]


def fixed(tier):
    for u in UNITS:
        for p in PREFIX:
            yield {"unit": u, "prefix": p, "tails": TAIL, "sizes": [30, 700, 8000]}
    for u in UNITS:
        for seg in ("whole", "bytes", "chunks"):
            yield {"unit": u, "prefix": "*1*", "tails": ["##", "x##"], "sizes": [2000 if seg == "bytes" else 8000], "stream": seg}


def rand(rng, tier):
    unit = "".join(rng.choice("*#01") for _ in range(rng.randint(1, 6)))
    c = {"unit": unit, "prefix": rng.choice(PREFIX) + ("".join(rng.choice("*#1") for _ in range(rng.randint(0, 4)))),
         "tails": rng.sample(TAIL, 4) + ["".join(rng.choice("*#1ax") for _ in range(rng.randint(1, 4)))],
         "sizes": [rng.randint(20, 60), rng.randint(1000, 8000)]}
    if rng.random() < .15:
        c["stream"] = rng.choice(["whole", "chunks"])
        c["tails"] = c["tails"][:2]
    return c


def measure(mon, what, text, fn):
    mon.obs("calls")
    t0 = time.process_time()
    fn()
    dt = time.process_time() - t0
    mon.check(dt < LIMIT, f"{what} needed {dt:.1f} CPU seconds", size=len(text), text=text[:80])
    mon.obs("cpu_ms", int(dt * 1000))


def run(case, mon):
    from pyown.exceptions import ParseError
    from pyown.messages import parse_message
    from pyown.tags import Dimension, Value, What, Where

    def tolerant(f, arg):
        def g():
            try:
                f(arg)
            except ParseError:
                pass
            except ValueError:
                pass
        return g

    for tail in case["tails"]:
        for size in case["sizes"]:
            n = max(1, (size - len(case["prefix"]) - len(tail)) // len(case["unit"]))
            text = case["prefix"] + case["unit"] * n + tail
            mon.sig(case["unit"], case["prefix"], tail, size, case.get("stream"))
            if "stream" in case:
                run_stream(case, mon, text)
                continue
            measure(mon, "parse_message", text, tolerant(parse_message, text))
            measure(mon, "parse_message", text, tolerant(parse_message, " " * 50 + text + "\n" * 50))
            body = text.replace("*", "")
            for cls in (What, Where, Dimension, Value):
                measure(mon, cls.__name__, body, tolerant(cls, body))
            measure(mon, "Where.type", body, tolerant(lambda s: Where(s).type, body))


def run_stream(case, mon, text):
    data = text.encode()

    async def main(loop):
        async def feed(conn):
            await asyncio.sleep(1)
            if case["stream"] == "whole":
                cuts = []
            elif case["stream"] == "chunks":
                cuts = list(range(100, len(data), 100))
            else:
                cuts = list(range(1, len(data)))
            await conn.write_cuts(data, cuts, 0.001)

        client, conn, ep = await scen.connected(loop, "event", after=feed)
        t0 = time.process_time()
        while True:
            k, v = await scen.outcome(client.read_message(timeout=30))
            if k == "exc":
                break
        return time.process_time() - t0

    mon.obs("streams")
    dt = scen.run(main)
    mon.check(dt < 2 * LIMIT, f"receiving {len(data)} bytes needed {dt:.1f} CPU seconds", text=text[:80], how=case["stream"])
    mon.obs("calls")
