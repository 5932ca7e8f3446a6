"""C31: the programs of examples/ work end to end, over real TCP and in real time."""
import asyncio
import os
import random
import re
import socket
import sys

from harness import gateway, ref, scen

RULE = ("every program of examples/ is run as its own process against a scripted gateway on the loopback interface (real TCP, real time), with each authentication, "
        "random answers and events and random segmentation; monitored: the frames the gateway received, what the program printed and its end; "
        "distinct = (program, authentication, values, segmentation)")
N = {"quick": 60, "thorough": 1500}
REQUIRE = {"runs": 60, "frames": 150, "lines": 150, "programs": 11}
EXHAUSTIVE = ["every program x every authentication mode"]
NAMES = ["automation_01", "automation_02", "camera_01", "custom_message_01", "custom_message_02", "energy_management_01", "energy_management_02",
         "gateway_01", "gateway_02", "light_01", "light_02"]
MODES = ["none", "open", "hmac1", "hmac2"]


def fixed(tier):
    for i, n in enumerate(NAMES):
        for j, m in enumerate(MODES):
            yield {"ex": n, "mode": m, "seed": 4 * i + j}


def rand(rng, tier):
    return {"ex": rng.choice(NAMES), "mode": rng.choice(MODES), "seed": rng.randint(0, 1 << 30)}


def plan(name, rng):
    """-> (replies by frame, expected frames, expected lines, events to push or None), from the documentation."""
    ack = "*#*1##"
    if name == "automation_01":
        return {}, ["*2*1*15##", "*2*0*15##", "*2*2*15##", "*2*0*15##"], [], None
    if name == "light_01":
        n = rng.randint(1, 4)
        on = [rng.randint(0, 1) for _ in range(n)]
        w = ["32"] + [str(rng.randint(11, 99)) for _ in range(n - 1)]
        return ({"*#1*32##": "".join(f"*1*{o}*{a}##" for o, a in zip(on, w)) + ack}, ["*1*11*32##", "*#1*32##"],
                [f"Light {a} status: {'ON' if o else 'OFF'}" for o, a in zip(on, w)], None)
    if name == "camera_01":
        return ({}, ["*7*0*4000##", "*7*120##", "*7*150##", "*7*160##", "*7*311##", "*7*9##"],
                ["Activating camera...", "Camera activated!", "Video stream available at: http://127.0.0.1/telecamera.php", "Displaying dial 1-1...", "Freeing video resources..."], None)
    if name == "custom_message_01":
        ip = [rng.randint(0, 255) for _ in range(4)]
        return ({"*#13**10##": f"*#13**10*{'*'.join(map(str, ip))}##" + ack}, ["*#13**10##"],
                ["The server acknowledged the message", f"The ip address of the server is {'.'.join(map(str, ip))}"], None)
    if name == "custom_message_02":
        k = rng.randint(1, 5)
        vals = [(i + 1, rng.randint(0, 255)) for i in range(k)]
        return ({"*#18*52*511#10#7##": "".join(f"*#18*52*511#10#7*{a}*{b}##" for a, b in vals) + ack}, ["*#18*52*511#10#7##"],
                [f"Month: 10, Day: 7, Number of the measure: {a}, Value: {b}" for a, b in vals], None)
    if name == "energy_management_01":
        v = rng.choice([0, 1, rng.randint(2, 9000)])
        return {"*#18*51*113##": f"*#18*51*113*{v}##" + ack}, ["*#18*51*113##"], [f"Active power: {float(v)}"], None
    if name == "gateway_01":
        ip = [rng.randint(0, 255) for _ in range(4)]
        model = rng.choice([("6", "F452"), ("7", "F452V"), ("11", "MHServer2"), ("13", "H4684")])
        y, mo, d, h, mi, s, tz = 2000 + rng.randint(0, 99), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 12)
        sign = rng.choice("01") if tz else "0"
        k = [rng.randint(0, 99) for _ in range(3)]
        return ({"*#13**10##": f"*#13**10*{'*'.join(map(str, ip))}##" + ack, "*#13**15##": f"*#13**15*{model[0]}##" + ack,
                 "*#13**22##": f"*#13**22*{h:02d}*{mi:02d}*{s:02d}*{sign}{tz:02d}*00*{d:02d}*{mo:02d}*{y}##" + ack,
                 "*#13**23##": f"*#13**23*{k[0]}*{k[1]}*{k[2]}##" + ack},
                ["*#13**10##", "*#13**15##", "*#13**22##", "*#13**23##"],
                [".".join(map(str, ip)), model[1], f"{y}-{mo:02d}-{d:02d} {h:02d}:{mi:02d}:{s:02d}{'-' if sign == '1' else '+'}{tz:02d}:00", ".".join(map(str, k))], None)
    ev, lines = [], []
    noise = ["*9*1*1##", "*#*1##", "*1001*1*1##", "*22*1*3##"]
    for _ in range(rng.randint(1, 12)):
        w = str(rng.randint(11, 99))
        if name == "automation_02":
            x = rng.randint(0, 2)
            ev.append(f"*2*{x}*{w}##")
            lines.append(f"Shutter at {w} is now {['stopped', 'up', 'down'][x]}")
        elif name == "light_02":
            x = rng.randint(0, 1)
            ev.append(f"*1*{x}*{w}##")
            lines.append(f"Light at {w} is now {['off', 'on'][x]}")
        elif name == "energy_management_02":
            x = rng.randint(0, 9000)
            ev.append(f"*#18*51*113*{x}##")
            lines.append(f"Power consumption changed to {float(x)} W for 51")
        elif name == "gateway_02":
            h, mi, s, tz = rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 12)
            ev.append(f"*#13**0*{h:02d}*{mi:02d}*{s:02d}*0{tz:02d}##")
            lines.append(f"Time of the gateway is now {h:02d}:{mi:02d}:{s:02d}+{tz:02d}:00")
        if rng.random() < .3:
            ev.append(rng.choice(noise))
    return {}, [], lines, ev


async def attempt(case, mon):
    import pyown
    repo = os.path.dirname(os.path.dirname(os.path.abspath(pyown.__file__)))
    rng = random.Random(case["seed"])
    replies, frames, lines, events = plan(case["ex"], rng)
    auth = scen.auth_of(case["mode"], rng, password=str(rng.randint(1, 10 ** rng.randint(1, 9))))
    loop = asyncio.get_running_loop()
    loop.now = 0
    conns, failed = [], []

    async def send(conn, text):
        cuts = [i for i in range(1, len(text)) if rng.random() < rng.choice([0, .1, .4])][:12]
        await conn.write_cuts(text, cuts, rng.choice([0, 0.001, 0.003]))

    async def script(conn):
        conn.ok = await gateway.handshake(conn, auth)
        conn.base = gateway.LENGTH[case["mode"]]
        if not conn.ok:
            return
        if events is not None:
            await asyncio.sleep(0.2)
            await send(conn, "".join(events))
            await asyncio.sleep(0.3)
            conn.close()
            return
        while True:
            f = await conn.recv()
            if f is None:
                return
            await send(conn, replies.get(f, "*#*1##"))

    def factory():
        conn = gateway.Conn(loop, len(conns))
        conns.append(conn)
        real = conn.connection_made

        def made(transport):
            real(transport)
            transport.get_extra_info("socket").setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            conn.task = loop.create_task(script(conn))
        conn.connection_made = made
        return conn
    server = await loop.create_server(factory, "127.0.0.1", 0)
    port = server.sockets[0].getsockname()[1]
    host = rng.choice(["127.0.0.1", "127.0.0.1", "localhost"])
    try:
        if all(a[4][0] != "127.0.0.1" for a in socket.getaddrinfo(host, port, socket.AF_INET)):
            host = "127.0.0.1"
    except OSError:
        host = "127.0.0.1"
    mon.obs("host_" + host)
    lines = [x.replace("//127.0.0.1/", f"//{host}/") for x in lines]
    env = {"PATH": "/usr/bin:/bin", "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUNBUFFERED": "1"}
    p = await asyncio.create_subprocess_exec(sys.executable, os.path.join(repo, "examples", case["ex"], "main.py"), "--host", host, "--port", str(port),
                                             "--password", auth["password"], stdin=asyncio.subprocess.DEVNULL, stdout=asyncio.subprocess.PIPE,
                                             stderr=asyncio.subprocess.STDOUT, cwd="/", env=env)
    try:
        out, _ = await asyncio.wait_for(p.communicate(), 22)
        for _ in range(100):
            if all(c.lost_at is not None for c in conns):
                break
            await asyncio.sleep(0.02)
    except asyncio.TimeoutError:
        p.kill()
        await p.wait()
        return "the program does not end", {"frames": conns and conns[-1].texts}
    finally:
        server.close()
        for c in conns:
            c.transport.abort()
        for c in conns:
            c.task.cancel()
    out = out.decode("utf8", "replace")
    detail = {"program": case["ex"], "mode": case["mode"], "output": out[-1500:]}
    if p.returncode:
        return f"the program ended with {p.returncode}", detail
    if len(conns) != 1 or not conns[0].ok:
        return f"{len(conns)} connections, accepted: {[c.ok for c in conns]}", detail
    if conns[0].lost_at is None or conns[0].lost_exc is not None:
        return f"the connection did not end orderly: {conns[0].lost_exc!r}", detail
    got = conns[0].texts[conns[0].base:]
    if got != frames:
        return "the gateway received other frames", {"got": got, "expected": frames, **detail}
    # log records are prefixed, printed lines are not
    texts = [re.sub(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[\w+\] [\w.]+: ", "", x) for x in out.splitlines()]
    it = iter(texts)
    for x in lines:
        if not any(x == y for y in it):
            return f"the program did not show {x!r} in its turn", {"expected": lines, **detail}
    for x in set(lines):
        if texts.count(x) != lines.count(x):
            return f"the program showed {x!r} {texts.count(x)} times instead of {lines.count(x)}", detail
    mon.obs("runs")
    mon.obs("frames", len(conns[0].frames))
    mon.obs("lines", len(lines) + 1)
    mon.obs("p_" + case["ex"])
    mon.sig(case["ex"], case["mode"], frames, lines, events)
    return None, None


def run(case, mon):
    for k in range(3):      # real time: a loaded machine may exceed a timeout of the library once, not always
        why, detail = asyncio.run(attempt(case, mon))
        if why is None:
            mon.obs("assertions", 4)
            return
        mon.obs("retries")
    mon.fail(why, **detail)


def finish(mon):
    mon.counters["programs"] = sum(1 for n in NAMES if mon.counters.get("p_" + n))
