"""C09: HMAC authentication is mutual."""
import asyncio
import hashlib
import hmac as _hmac
import random

from harness import hs, ref, scen

RULE = ("HMAC handshakes with random passwords and Ra against an independent gateway; every deviation of the confirmation and of the "
        "nonce; distinct = (algorithm, deviation, password, Ra)")
N = {"quick": 10000, "thorough": 160000}
REQUIRE = {"right": 40, "wrong_confirmation": 300, "bad_nonce": 10, "unknown_algorithm": 10, "restarted": 500}
ASSUMPTIONS = ["Rb is fresh when no two of the observed starts share it, also with the random module re-seeded"]


def flip(i, d=1):
    def f(algo, auth, rb, answer, right):
        h = list(ref.from_digits(right[2:-2]))
        k = i % len(h)
        h[k] = "0123456789abcdef"[(int(h[k], 16) + d) % 16]
        return f"*#{ref.to_digits(''.join(h))}##"
    return f


def enc(fn):
    def f(algo, auth, rb, answer, right):
        return f"*#{ref.to_digits(fn(algo, auth['ra'], rb, auth['password']))}##"
    return f


def _rfc(algo, ra, rb, pw):
    return _hmac.new(pw.encode(), (ra + rb).encode(), hashlib.sha1 if algo == 1 else hashlib.sha256).hexdigest()


DEV = {
    "flip": None,
    "truncated2": lambda a, au, rb, an, r: r[:-4] + "##",
    "truncated_half": lambda a, au, rb, an, r: r[:2 + (len(r) - 4) // 4 * 2] + "##",
    "one_nibble": lambda a, au, rb, an, r: r[:4] + "##",
    "byte": lambda a, au, rb, an, r: r[:6] + "##",
    "extended": lambda a, au, rb, an, r: r[:-2] + "0101##",
    "reflect_hmac": lambda a, au, rb, an, r: "*#" + an[2:-2].split("*")[1] + "##",
    "echo_answer": lambda a, au, rb, an, r: an,
    "echo_rb": enc(lambda a, ra, rb, pw: rb),
    "echo_ra": enc(lambda a, ra, rb, pw: ra),
    "swapped": enc(lambda a, ra, rb, pw: ref.hmac_server(a, rb, ra, pw)),
    "other_rb": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ra, ref._h(a, "zz"), pw)),
    "other_ra": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ref._h(a, "zz"), rb, pw)),
    "no_rb": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ra, "", pw)),
    "no_ra": enc(lambda a, ra, rb, pw: ref.hmac_server(a, "", rb, pw)),
    "no_key": enc(lambda a, ra, rb, pw: ref._h(a, ra + rb)),
    "other_password": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ra, rb, pw + "1")),
    "empty_password": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ra, rb, "")),
    "rfc": enc(_rfc),
    "other_hash": enc(lambda a, ra, rb, pw: ref.hmac_server(3 - a, ra, rb, pw)),
    "other_hash_cut": enc(lambda a, ra, rb, pw: ref.hmac_server(3 - a, ra, rb, pw)[:ref.HEXLEN[a]]),
    "zeros": enc(lambda a, ra, rb, pw: "0" * ref.HEXLEN[a]),
    "kab": enc(lambda a, ra, rb, pw: ref._h(a, pw)),
    "reversed": enc(lambda a, ra, rb, pw: ref.hmac_server(a, ra, rb, pw)[::-1]),
    "ack": lambda *a: "*#*1##",
    "nack": lambda *a: "*#*0##",
    "event": lambda *a: "*1*1*12##",
    "odd": lambda a, au, rb, an, r: r[:-3] + "##",
    "over15": lambda a, au, rb, an, r: "*#16" + r[4:],
    "over15_twice": lambda a, au, rb, an, r: "*#1617" + r[6:],
    "over15_end": lambda a, au, rb, an, r: r[:-4] + "99##",
    "two_tags": lambda a, au, rb, an, r: r[:-2] + "*" + r[2:],
    "params": lambda a, au, rb, an, r: r[:-2] + "#1##",
    "nothing": lambda *a: "*#0##",
    "silence": lambda *a: None,
    "raw_hex_digits": lambda a, au, rb, an, r: "*#" + "".join(c if c.isdigit() else "1" for c in ref.from_digits(r[2:-2])) + "##",
}
NONCE = {
    "odd": lambda r: r[:-3] + "##", "over15": lambda r: "*#1601" + r[6:], "over15_twice": lambda r: "*#1617" + r[6:], "over15_last": lambda r: r[:-6] + "9999##", "ack": lambda r: "*#*1##", "nack": lambda r: "*#*0##",
    "event": lambda r: "*1*1*12##", "two": lambda r: r[:-2] + "*0102##", "again": lambda r: "*98*1##",
}


def mk(algo, dev=None, pw="12345", seed=1, session="cmd", **kw):
    return {"mode": f"hmac{algo}", "pw": pw, "seed": seed, "dev": dev, "session": session, **kw}


def fixed(tier):
    for algo in (1, 2):
        for pw in ("12345", "1", "", "abc123", "password with spaces!", "0000", "àè€", "x" * 300, " 12345", "12345 ", " a b ", "12345\n", "\t", "ABC", "abc", "00012345", "#1*2##"):
            yield mk(algo, None, pw)
        for s in scen.SESSIONS:
            yield mk(algo, None, session=s)
            for d in DEV:
                if d != "flip":
                    yield mk(algo, d, session=s)
        for i in range(ref.HEXLEN[algo]):
            yield mk(algo, "flip", seed=i, pos=i)
        for n in NONCE:
            yield mk(algo, None, nonce=n)
        yield mk(algo, "replay")
        for s in scen.SESSIONS:     # a slow gateway
            yield mk(algo, None, session=s, delays=[4.8] * 4)
            yield mk(algo, None, session=s, delays=[4.8] * 4, cuts="bytes")
    for a in ("0", "3", "4", "9", "10", "12", "21", "98", "100", "01", "02", "001", "11", "22", "20"):
        for s in scen.SESSIONS:
            yield mk(1, None, session=s, other=a)
    for a in ("1#2", "2#1", "1#1", "1*2", "2*1", "1*1", "#1", "#2", "1#0", "*1", "3*1", "1*3"):
        for s in scen.SESSIONS:
            yield mk(1, None, session=s, other=a, odd=True)


def rand(rng, tier):
    pw = "".join(rng.choice("abcdefXYZ0123456789") for _ in range(rng.randint(1, 16)))
    d = rng.choice([None] * 8 + list(DEV) * 2 + ["replay"])
    return mk(rng.choice([1, 2]), d, pw, rng.randint(0, 1 << 30), rng.choice(list(scen.SESSIONS)), pos=rng.randint(0, 63),
              diff=rng.choice([1, 8, 15, rng.randint(1, 15)]), delays=[rng.choice([0, 0, 0.2, 4.5]) for _ in range(4)] if rng.random() < .3 else None,
              cuts=rng.choice(["whole", "whole", "bytes"]))


SEEN = set()


def run(case, mon):
    from pyown.exceptions import InvalidAuthentication
    auth = scen.auth_of(case["mode"], random.Random(case["seed"]), case["pw"])
    hc = {"session": case["session"], "auth": auth, "delays": case.get("delays"), "cuts": case.get("cuts")}
    dev = case["dev"]
    mon.sig(case["mode"], dev, case["pw"], case["seed"], case.get("pos"), case.get("nonce"), case.get("other"))
    if dev == "flip":
        hc["confirm"] = flip(case["pos"], case.get("diff", 1))
    elif dev == "replay":
        pass
    elif dev is not None:
        hc["confirm"] = DEV[dev]
    if case.get("nonce"):
        hc.update(step=2, reaction=NONCE[case["nonce"]])
    if case.get("other"):
        hc.update(step=1, reaction=lambda r: f"*98*{case['other']}##")

    async def main(loop):
        random.seed(0)
        if dev == "replay":
            first = await hs.attempt(loop, hc)
            old = "*" + b"".join(x for _, x in first.conn.sent).decode().rsplit("##*", 1)[-1]
            await first.client.close()
            hc["confirm"] = lambda *a: old
            random.seed(0)
        rec = await hs.attempt(loop, hc)
        rec2 = None
        if dev is None and not case.get("nonce") and not case.get("other"):
            random.seed(0)
            again = None
            if case["seed"] % 2:        # the same client once more
                again = rec.client
                await again.close()
                await asyncio.sleep(0.1)
                mon.obs("restarted")
            rec2 = await hs.attempt(loop, hc, again)
        return rec, rec2

    rec, rec2 = scen.run(main)
    mon.check(rec.frames[:1] == [scen.SESSION_FRAME[case["session"]]], "wrong session frame", frames=rec.frames)
    if case.get("other"):
        mon.obs("unknown_algorithm")
        mon.check(rec.result == "exc" and isinstance(rec.exc, InvalidAuthentication), "an unknown algorithm was not refused",
                  result=rec.result, error=rec.exc)
        if case.get("odd"):     # no choice of an algorithm at all: how it is refused is free
            mon.check("*#*1##" not in rec.frames[1:], "a frame that chooses no algorithm was accepted with ACK", frames=rec.frames)
            return
        mon.check(rec.frames[1:] == ["*#*0##"], "an unknown algorithm is not refused with NACK", frames=rec.frames)
        return
    mon.check(rec.frames[1:2] == ["*#*1##"], "the algorithm was not accepted with ACK", frames=rec.frames)
    if case.get("nonce"):
        mon.obs("bad_nonce")
        mon.check(rec.result == "exc" and isinstance(rec.exc, InvalidAuthentication), "a malformed Ra was accepted", error=rec.exc,
                  result=rec.result, frames=rec.frames)
        return
    mon.check(len(rec.frames) >= 3 and rec.rb is not None, "the answer to Ra is wrong", answer=rec.frames[2:3], ra=auth["ra"],
              password=case["pw"])
    for r in (rec, rec2):
        if r is not None and r.rb is not None:
            mon.check(r.rb not in SEEN, "Rb was used twice", rb=r.rb)
            SEEN.add(r.rb)
            mon.check(len(set(r.rb)) > 4, "Rb is not random", rb=r.rb)
            mon.obs("rb_seen")
    if dev is None:
        mon.obs("right")
        for r in (rec, rec2):
            mon.check(r.result == "ok", "start() failed although the gateway proved the password", error=r.exc)
            mon.check(r.frames == r.expected and r.frames[-1] == "*#*1##" and len(r.frames) == 4, "wrong exchange", frames=r.frames)
        return
    mon.obs("wrong_confirmation")
    mon.obs("dev_" + dev)
    mon.check(rec.result == "exc", "start() succeeded with a wrong confirmation", frames=rec.frames, sent=rec.conn.sent[-1])
    want = TimeoutError if dev == "silence" else InvalidAuthentication
    mon.check(isinstance(rec.exc, want), f"wrong error {type(rec.exc).__name__}", error=rec.exc)
    mon.check("*#*1##" not in rec.frames[3:], "the client sent the final ACK although the confirmation was wrong", frames=rec.frames)
