"""C02: malformed input is contained."""
import asyncio

from harness import ref, scen

RULE = ("(a) strings: legal frames mutated, random ASCII/Unicode/control text and near frames given to parse_message, "
        "judged by an independent grammar; (b) streams: valid frames + garbage (+ valid frames) over random "
        "segmentations on a live connection; distinct = input text / (stream, cuts)")
N = {"quick": 24000, "thorough": 500000}
REQUIRE = {"parse_calls": 3000, "garbage_streams": 200, "rejected": 500}
ALPHA = "*#0123456789"
BAD = "abcXYZ ,.;:-+_/\\'\"()[]{}<>=!?@$%&|~^`\t\n\r\x00\x01\x1b\x7f"
UNI = "é²٣１Ⅷ߀\u00a0\u2028\u200b\ud7ffÀ中\U0001f600"
JUNK = ["abc##", "*1*x*12##", "*1*1*12a##", "1*1*12##", "hello", "*1* 1*12##", "x", "*1*1*-1##", "\x00", "#*1##", "*1*1*1.5##",
        "*#*A##", "GET / HTTP/1.1\r\n\r\n", "*1*1*12#+#", "*1,1*12##", "12##", "*é##", "\xff\xfe", "\x80", "*1*1*12##\xc3\xa9",
        "*1*1\xa0*12##", "?##", "*1*1*\t12##"]


def fixed(tier):
    yield {"kind": "parse", "texts": [
        "", "*", "#", "##", "*##", "**##", "*#", "*#*##", "*#*1#", "*#*1##", "*#*0##", "*#*2##", "*1*1*12", "*1*1*12#",
        "*1*1*12###", "*1*1*12####", "*1*1##*12##", "##*1*1*12##", "*1*1*12##*1*1*13##", " *1*1*12## ", "*1*1*12##\n",
        "\n*1*1*12##", "*1*1*12##\x00", "*1*1*12##x", "x*1*1*12##", "*1*1*1\n2##", "*1*\n*12##", "*99*1##", "*98*2##",
        "*#603356072##", "*#1*##", "*#1**##", "*#1***##", "*#1**#1##", "*#1*12*#1##", "*#1*12*#1*##", "*#1*12*#1#2*3*4##",
        "*#1*12*1#2*3*4##", "*#1*12*1#2##", "*9*1*12##", "*#9*12##", "*#9*12*1##", "*#9*12*#1*2##", "*#9*12*1*2##",
        "*1*1*#3##", "*1*#*12##", "*#*1*2##", "*#*0*0##", "*#1#2*12##", "*1#2*1*12##", "*#1#*12##", "*" * 50 + "##",
        "*#" * 50 + "##", "*1" * 200 + "##", "*1*٣*12##", "*1*²*12##", "*1*1*１##", "*1*1*12##\u00a0", "None", "*#1001*12*1##",
        "*1001*1*12##", "*#018*51*113##", "*01*1*12##", "*1*1*12##\r\n", "*1*1*12#4#01##", "*#1*12#4#01*2*1*2*3##",
    ]}
    valid = ["*1*1*12##", "*#1*12*1*150*255##", "*#*1##"]
    for j in JUNK:
        for before in (0, 1, 3):
            for after in (0, 2):
                for cut in ("one", "sep", "bytes"):
                    yield {"kind": "stream", "before": valid[:before], "junk": j, "after": ["*2*1*5##", "*2*0*5##"][:after],
                           "cut": cut, "session": "event" if after else "cmd"}


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.randint(1, 3)):
        m = rng.randint(0, 4)
        i = rng.randint(0, len(s)) if s else 0
        ch = rng.choice(ALPHA * 4 + BAD + UNI)
        if m == 0:
            s.insert(i, ch)
        elif m == 1 and s:
            del s[min(i, len(s) - 1)]
        elif m == 2 and s:
            s[min(i, len(s) - 1)] = ch
        elif m == 3 and s:
            k = rng.randint(0, len(s) - 1)
            s[k:k] = s[k:k + rng.randint(1, 4)]
        elif s:
            s = s[:i]
    return "".join(s)


def rand(rng, tier):
    if rng.random() < .8:
        texts = []
        for _ in range(8):
            m = rng.random()
            if m < .5:
                t = mutate(rng, ref.rnd_frame(rng))
            elif m < .7:
                t = "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, 14)))
                t = rng.choice([t, "*" + t + "##", t + "##", "*" + t])
            elif m < .8:
                t = "".join(rng.choice(ALPHA + BAD + UNI) for _ in range(rng.randint(0, 30)))
            elif m < .9:
                t = rng.choice([" ", "\n", "\r\n", "\t", ""]) + ref.rnd_frame(rng) + rng.choice([" ", "\n", "\r\n", "\t ", ""])
            else:
                t = ref.rnd_frame(rng)
            texts.append(t)
        return {"kind": "parse", "texts": texts}
    junk = rng.choice(JUNK)
    if rng.random() < .5:
        f = list(ref.rnd_frame(rng, rng.choice(["NORMAL", "DIMENSION RESPONSE", "GENERIC"])))
        f[rng.randint(1, len(f) - 3)] = rng.choice("abcXYZ,.-+_\x00\x80\xff\xe9")
        junk = "".join(f)
    return {"kind": "stream", "before": [ref.rnd_frame(rng) for _ in range(rng.randint(0, 6))], "junk": junk,
            "after": [ref.rnd_frame(rng) for _ in range(rng.randint(0, 3))], "cut": rng.choice(["one", "sep", "bytes", "rnd"]),
            "session": rng.choice(["event", "cmd"]), "cseed": rng.random()}


def run(case, mon):
    (run_parse if case["kind"] == "parse" else run_stream)(case, mon)


def run_parse(case, mon):
    from pyown.exceptions import ParseError
    from pyown.messages import BaseMessage, parse_message
    for t in case["texts"]:
        mon.obs("parse_calls")
        try:
            m = parse_message(t)
        except ParseError:
            m = None
        except Exception as e:
            mon.fail(f"parse_message raised {type(e).__name__}, not a ParseError", text=t, error=e)
        v = ref.verdict(t)
        mon.sig("p", t)
        if m is None:
            mon.obs("rejected")
            mon.check(v != "legal", "a legal frame was rejected", text=t)
        else:
            mon.obs("accepted")
            mon.check(isinstance(m, BaseMessage), "parse_message returned something that is not a message", text=t, got=m)
            mon.check(v != "illegal", "text that is not a frame was accepted as a message", text=t, got=repr(m))


def run_stream(case, mon):
    import random
    from pyown.exceptions import OWNException
    before, after = case["before"], case["after"]
    b = "".join(before).encode("latin-1")
    j = case["junk"].encode("latin-1", "replace")
    a = "".join(after).encode("latin-1")
    data = b + j + a
    cut = case["cut"]
    if cut == "one":
        cuts = []
    elif cut == "sep":
        cuts = [len(b), len(b) + len(j)]
    elif cut == "bytes":
        cuts = list(range(1, len(data)))
    else:
        r = random.Random(case["cseed"])
        cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.randint(1, 6)))) if len(data) > 1 else []

    async def main(loop):
        done = []

        async def feed(conn):
            await asyncio.sleep(1)
            await conn.write_cuts(data, cuts, min(0.01, 4 / len(data)))
            done.append(loop.now)

        client, conn, ep = await scen.connected(loop, case["session"], after=feed)
        got = []
        while True:
            t = loop.now
            k, v = await scen.outcome(client.read_message(timeout=7))
            if k == "exc":
                return got, v, loop.now - t
            got.append(str(v))
            if len(got) > 1000:
                return got, None, 0

    got, exc, dt = scen.run(main)
    n = len(before)
    mon.obs("garbage_streams")
    mon.sig("s", data, cuts)
    mon.check(got[:n] == before, "a valid frame that came before the garbage was not delivered", got=got, before=before,
              junk=case["junk"])
    rest = got[n:]
    it = iter(after)
    # the garbage itself may hold a whole legal frame ('*1*1*12##\xc3'): that one isn't garbage
    inner = [x for x in (p + "##" for p in case["junk"].split("##")[:-1]) if ref.verdict(x) == "legal"]
    it = iter(inner + after)
    ok = all(any(x == y for y in it) for x in rest)
    mon.check(ok, "something that is not a frame of the stream was delivered", got=rest, junk=case["junk"], after=after)
    mon.check(isinstance(exc, (ConnectionError, TimeoutError, OWNException)), "the reader got an unexpected error",
              error=repr(exc))
    mon.check(dt <= 7.01, "the reader waited longer than its timeout", waited=dt)
    mon.obs("end_" + type(exc).__name__)
