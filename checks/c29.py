"""C29: the password is never disclosed."""
import asyncio
import base64
import hashlib
import io
import logging
import random
import string
import traceback

from harness import gateway, scen

RULE = ("starts with every authentication mode, right and wrong passwords, faults and cancellations at every step of the handshake, followed by use of the client, with "
        "all loggers recorded at DEBUG level; searched for the password (also hex, base64, reversed, all but one character of it, its hashes and their digit encoding): bytes sent, log records with their arguments and "
        "tracebacks, exceptions raised, contexts of the event loop, repr/str of client, items and messages, stdout and stderr; distinct = (mode, password, fault, step)")
LEVEL = "fault_enumeration"
N = {"quick": 8000, "thorough": 120000}
REQUIRE = {"log_records": 10000, "wire_bytes": 20000, "exceptions": 800, "reprs": 3000, "started": 600}
FAULTS = ["none", "nack", "drop", "reset", "silence", "garbage", "wrong", "cancel", "algo", "generic"]
EXHAUSTIVE = ["every authentication mode x fault x step"]


def fixed(tier):
    s = 0
    for mode in ("none", "open", "hmac1", "hmac2"):
        for fault in FAULTS:
            for step in range(4):
                for session in ("cmd", "event"):
                    s += 1
                    yield {"seed": s, "mode": mode, "fault": fault, "step": step, "session": session}


def rand(rng, tier):
    return {"seed": rng.randint(0, 1 << 30), "mode": rng.choice(["none", "open", "hmac1", "hmac2"]), "fault": rng.choice(FAULTS + ["none"] * 5), "step": rng.randint(0, 3),
            "session": rng.choice(["cmd", "oldcmd", "event"])}


class Record(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.out = []

    def emit(self, r):
        self.out.append(r.getMessage())
        self.out.append(repr(r.args))
        if r.exc_info and r.exc_info[1] is not None:
            self.out.append("".join(traceback.format_exception(*r.exc_info)))
        if r.stack_info:
            self.out.append(r.stack_info)


def forms(password):
    p = password.encode()
    out = {password, p.hex(), p.hex().upper(), password[::-1], base64.b64encode(p).decode().rstrip("="), password[1:], password[:-1]}
    if password.isdecimal():
        out.add(f"{int(password):x}")
    for h in (hashlib.sha1, hashlib.sha256, hashlib.md5, hashlib.sha512, hashlib.sha384, hashlib.sha224):
        out.add(h(p).hexdigest())
        out.add("".join(f"{int(c, 16):02d}" for c in h(p).hexdigest()))
    return out


def run(case, mon):
    rng = random.Random(case["seed"])
    mode = case["mode"]
    if mode == "open" or rng.random() < .3:
        password = str(rng.randint(10 ** 9, 2 ** 32 - 1))
    else:
        password = "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(14))
    auth = scen.auth_of(mode, rng, password)
    if mode == "open":
        from harness import ref
        if password in ref.open_pass(int(password), auth["nonce"]):
            auth["nonce"] = "1"
    if case["fault"] == "wrong":
        auth["password"] = "1234567"
    texts = []
    rec = Record()
    root = logging.getLogger()
    own = logging.getLogger("pyown")
    level, olevel = root.level, own.level
    logging.disable(logging.NOTSET)
    root.addHandler(rec)
    root.setLevel(1)
    own.setLevel(1)
    import sys
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()

    async def main(loop):
        steps = [0]

        async def script(conn):
            real = conn.write

            def write(data):
                """The gateway misbehaves at its n-th message."""
                steps[0] += 1
                if steps[0] - 1 == case["step"] and case["fault"] not in ("none", "wrong", "cancel"):
                    f = case["fault"]
                    if f == "nack":
                        real("*#*0##")
                    elif f == "drop":
                        conn.close()
                    elif f == "reset":
                        conn.reset()
                    elif f == "garbage":
                        real(b"\xff\xfenot a frame##")
                    elif f == "algo":
                        real("*98*7##")
                    elif f == "generic":
                        real("*#1234567890##")
                    return
                real(data)
            conn.write = write
            conn.ok = await gateway.handshake(conn, auth)
            conn.write = real
            while True:
                f = await conn.recv()
                if f is None:
                    return
                conn.write(rng.choice(["*#*1##", "*#*0##", "*1*1*12##*#*1##"]))
        loop.endpoints[(scen.HOST, scen.PORT)] = ep = gateway.Endpoint(script)
        c = scen.client(case["session"], password=password)
        if case["fault"] == "cancel":
            t = asyncio.ensure_future(c.start())
            for _ in range(case["step"] * 6 + rng.randint(0, 6)):
                await asyncio.sleep(0)
            t.cancel()
            await asyncio.wait([t])
            k, v = ("exc", t.exception() if not t.cancelled() else None) if t.cancelled() or t.exception() else ("ok", None)
        else:
            k, v = await scen.outcome(c.start())
        if v is not None:
            mon.obs("exceptions")
            texts.append(("exception", "".join(traceback.format_exception(v)) + repr(v) + repr(v.args) + repr(vars(v))))
        if k == "ok":
            mon.obs("started")
        from pyown.items import Light
        if case["session"] == "event":
            t = asyncio.ensure_future(c.loop())
            if ep.conns and k == "ok":
                ep.conns[-1].write("*1*1*12##*1*77*12##*9*9##")
            await asyncio.sleep(0.1)
            await c.close()
            r = await scen.outcome(t)
        else:
            r = await scen.outcome(Light(c, "12").turn_on())
        if r[0] == "exc":
            texts.append(("exception", "".join(traceback.format_exception(r[1])) + repr(r[1])))
            mon.obs("exceptions")
        light = Light(c, "12")
        for x in (c, light, light.client, c.get_item(light.who, light.where, client=c)):
            texts.append(("repr", repr(x)))
            texts.append(("str", str(x)))
            mon.obs("reprs", 2)
        await c.close()
        for conn in ep.conns:
            texts.append(("wire", conn.raw.decode("latin-1")))
            mon.obs("wire_bytes", len(conn.raw))
        texts.append(("loop context", repr(loop.contexts)))
    try:
        scen.run(main)
        texts.append(("stdout", sys.stdout.getvalue()))
        texts.append(("stderr", sys.stderr.getvalue()))
    finally:
        sys.stdout, sys.stderr = so, se
        root.removeHandler(rec)
        root.setLevel(level)
        own.setLevel(olevel)
        logging.disable(logging.CRITICAL)
    mon.obs("log_records", len(rec.out) // 2)
    texts += [("log", x) for x in rec.out]
    secrets = sorted({f.lower() for f in forms(password)})
    for where, x in texts:
        low = x.lower()
        for f in secrets:
            mon.check(f not in low, f"the password is disclosed ({where})", form=f, text=x[:600], password=password)
    mon.sig(mode, case["fault"], case["step"], case["session"], password)
