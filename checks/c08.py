"""C08: OPEN password encoding."""
from harness import hs, ref, scen

RULE = ("(password, nonce) pairs: all nonces up to 4 digits for chosen passwords, random ones up to 40 digits, str/int forms, against an "
        "independent implementation checked on official vectors; and start() against an OPEN gateway; distinct = (password, nonce)")
N = {"quick": 24000, "thorough": 600000}
REQUIRE = {"pairs": 20000, "wire": 100}
EXHAUSTIVE = ["every nonce of 1 to 4 digits for 8 passwords", "every pair of operations on 64 single bit passwords"]
ASSUMPTIONS = ["passwords are numbers below 2^32"]


def fixed(tier):
    for pw in ("0", "1", "12345", "54321", "999999999", "4294967295", "2147483648", "305419896"):
        for d in range(0, 10000, 500):
            yield {"pairs": [(pw, n) for k in (1, 2, 3, 4) for i in range(d, d + 500) if i < 10 ** k for n in [f"{i:0{k}d}"]]}
    for a in "0123456789":
        yield {"pairs": [(str(1 << b), a + c + e) for b in range(32) for c in "0123456789" for e in ("", "1", "8")]}
    yield {"pairs": [(p, n) for p, n, _ in ref.VECTORS]}
    for nonce in ("603356072", "410501656", "000000001", "123456789", "1", "999999999", "0603356072", "1234567891234567891234567", "98" * 20, "7" * 100):
        yield {"wire": ("12345", nonce)}


def rand(rng, tier):
    if rng.random() < .1:
        return {"wire": (str(rng.randint(0, 2 ** 32 - 1)) if rng.random() < .5 else "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 9))),
                         "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 5, 9, 12, 20, 33]))))}
    out = []
    for _ in range(12):
        p = rng.choice([rng.randint(0, 99999), rng.randint(0, 999999999), rng.randint(0, 2 ** 32 - 1), 1 << rng.randint(0, 31)])
        out.append((rng.choice(["", "", "0", "000"]) + str(p), "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 5, 9, 9, 10, 20, 40])))))
    return {"pairs": out}


def run(case, mon):
    from pyown.auth.open import own_calc_pass
    for pw, nonce in case.get("pairs", ()):
        mon.obs("pairs")
        mon.sig(pw, nonce)
        exp = ref.open_pass(int(pw), nonce)
        for p in (pw, int(pw)):
            for n in (nonce, int(nonce)):
                got = own_calc_pass(p, n)
                if got != exp or type(got) is not str:
                    mon.fail("wrong encoded password", password=p, nonce=n, got=got, expected=exp)
        mon.obs("assertions", 4)
    if "wire" in case:
        pw, nonce = case["wire"]
        c = {"session": "cmd", "auth": {"mode": "open", "password": pw, "nonce": nonce}}

        async def main(loop):
            return await hs.attempt(loop, c)

        rec = scen.run(main)
        mon.obs("wire")
        mon.sig("w", pw, nonce)
        mon.check(rec.result == "ok", "start() failed against an OPEN gateway", error=rec.exc, frames=rec.frames)
        mon.check(rec.frames == ["*99*9##", f"*#{ref.open_pass(int(pw), nonce)}##"], "wrong frames", got=rec.frames)
