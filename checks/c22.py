"""C22: flow control: writes stop while paused, resume whole and in order, never hang."""
import asyncio
import random
import socket

from harness import gateway, scen

RULE = ("1..12 concurrent senders (raw messages of 7 B..200 kB and item commands) on a connection that is paused and resumed by a real slow peer (small socket "
        "buffers, gateway stops reading) or by direct pause_writing/resume_writing signals, at random times, also during the handshake, with cancellations, "
        "connection loss or close() while paused; monitored: every transport.write against the pause state, the bytes at the gateway, termination of all "
        "senders; distinct = (pause kind, schedule of writes and pauses)")
LEVEL = "fault_enumeration"
N = {"quick": 6000, "thorough": 80000}
REQUIRE = {"pauses": 1500, "resumes": 1000, "writes": 8000, "blocked_senders": 1500, "lost_while_paused": 200, "real_pauses": 200, "commands": 300,
           "cancelled_senders": 50, "handshake_paused": 30, "other_paused": 300, "tcp_closed": 8}
ENDS = ["none", "eof", "reset", "abort", "close"]


def fixed(tier):
    s = 0
    for kind in ("direct", "real"):
        for end in ENDS:
            for senders in (1, 2, 5):
                for size in (1, 3000, 90000):
                    s += 1
                    yield {"seed": s, "kind": kind, "end": end, "senders": senders, "each": 3, "size": size, "cycles": 2, "cancel": 0, "cmds": 0, "hs": False}
    for kind in ("direct", "real"):
        for end in ENDS:
            yield {"seed": s, "kind": kind, "end": end, "senders": 250, "each": 2, "size": 200, "cycles": 3, "cancel": 0, "cmds": 0, "hs": False}
    for kind in ("direct", "real"):
        for senders in (1, 3):
            yield {"seed": s + senders, "kind": kind, "end": "none", "senders": senders, "each": 3600 // senders, "size": 1, "cycles": 6, "cancel": 0, "cmds": 0, "hs": False}
        for k in range(3):
            yield {"seed": s + k, "kind": kind, "end": "none", "senders": 2, "each": 150, "size": [1, 3000, 200][k], "cycles": 70, "cancel": 0, "cmds": k, "hs": False}
    for hs in (0.01, 0.3, 3, 4.5, 20):
        for mode in ("none", "open", "hmac1", "hmac2"):
            for end in ("none", "reset", "eof"):
                yield {"seed": 7, "hs": hs, "mode": mode, "end": end}


    for k in range(8):
        yield {"seed": k, "tcp": ["cmd", "oldcmd"][k % 2], "size": [1, 3000, 90000, 200][k // 2], "hs": False}
    for n in (2, 3):
        for end in ("none", "eof", "reset", "close"):
            for same in (False, True):
                yield {"seed": 11 * n, "multi": n, "end": end, "same": same, "hs": False}


def rand(rng, tier):
    if rng.random() < .12:
        return {"seed": rng.randint(0, 1 << 30), "multi": rng.randint(2, 4), "end": rng.choice(["none", "none", "eof", "reset", "close"]), "same": rng.random() < .3, "hs": False}
    if rng.random() < .06:
        return {"seed": rng.randint(0, 1 << 30), "hs": rng.uniform(0, 10), "mode": rng.choice(["none", "open", "hmac1", "hmac2"]), "end": rng.choice(["none", "reset", "eof"])}
    return {"seed": rng.randint(0, 1 << 30), "kind": rng.choice(["direct", "real"]), "end": rng.choice(["none", "none"] + ENDS), "senders": rng.choice([1, 1, 2, 4, 12]),
            "each": rng.choice([1, 2, 5, 15]), "size": rng.choice([1, 1, 200, 5000, 70000]), "cycles": rng.randint(1, 6), "cancel": rng.choice([0, 0, .2]),
            "cmds": rng.choice([0, 0, 2]), "hs": False}


class Watch:
    """Hooks the transport and the protocol of the client: every write is judged against the pause state."""

    def __init__(self, mon, loop, conn):
        self.mon, self.loop = mon, loop
        self.paused = False
        self.lost = False
        self.early = []
        self.writes = []
        self.log = []
        t, p = conn.client_transport, conn.client_protocol
        real_write, real_lines = t.write, t.writelines
        real_pause, real_resume, real_lost = p.pause_writing, p.resume_writing, p.connection_lost

        def write(data):
            data = bytes(data)
            mon.obs("writes")
            self.log.append("w")
            if self.paused and not self.lost and not t.is_closing():
                self.early.append(data[:80])
            self.writes.append(data)
            return real_write(data)

        def writelines(chunks):
            return write(b"".join(chunks))

        def pause():
            mon.obs("pauses")
            self.log.append("p")
            self.paused = True
            return real_pause()

        def resume():
            mon.obs("resumes")
            self.log.append("r")
            self.paused = False
            return real_resume()

        def connection_lost(exc):
            self.lost = True
            self.log.append("l")
            if self.paused:
                mon.obs("lost_while_paused")
            return real_lost(exc)

        t.write, t.writelines = write, writelines
        p.pause_writing, p.resume_writing, p.connection_lost = pause, resume, connection_lost


def message(i, j, size, rng):
    from pyown.messages import GenericMessage, NormalMessage
    from pyown.tags import What, Where, Who
    if size == 1:
        return NormalMessage((Who.LIGHTING, What(str(i)), Where(str(10000 + j))))
    n = max(1, int(rng.uniform(.5, 1) * size) // 10)
    return GenericMessage(["99", str(i), str(j)] + [f"{rng.randrange(10 ** 9):09d}"] * n)


def run(case, mon):
    if "multi" in case:
        return several(case, mon)
    if case["hs"] is not False:
        return handshake(case, mon)
    if "tcp" in case:
        return tcp(case, mon)
    rng = random.Random(case["seed"])
    real = case["kind"] == "real"

    async def main(loop):
        async def responder(conn, f):
            if f.startswith("*2*"):
                conn.write("*#*1##")
        c, conn, ep = await scen.connected(loop, "cmd", responder=responder, sndbuf=4096 if real else None)
        watch = Watch(mon, loop, conn)
        proto, transport = conn.client_protocol, conn.client_transport
        if real:
            transport.set_write_buffer_limits(high=rng.choice([0, 100, 4000, 65536]))
        else:
            transport.set_write_buffer_limits(high=1 << 30)     # only our signals count
        base = len(conn.raw)
        done, waiting, plan, must = [], [0], {}, {}

        async def sender(i):
            for j in range(case["each"]):
                m = message(i, j, case["size"], rng)
                plan.setdefault(i, []).append(str(m).encode())
                blocked = watch.paused
                if blocked:
                    mon.obs("blocked_senders")
                k, v = await scen.outcome(c.send_message(m))
                if k == "exc" and not (watch.lost or transport.is_closing()):
                    mon.fail("send_message failed on an open connection", error=repr(v), paused=blocked)
                if k == "ok":
                    must.setdefault(i, []).append(plan[i][-1])
                if rng.random() < .5:
                    await asyncio.sleep(rng.choice([0, 0, 0.05, 0.3]))

        async def commands(i):
            from pyown.items import Automation
            for j in range(2):
                w = str(100 + 10 * i + j)
                plan.setdefault(i, []).append(f"*2*1*{w}##".encode())
                k, v = await scen.outcome(Automation(c, w).up())
                if not (watch.lost or transport.is_closing()):
                    # the peer may be stopped for longer than the reply timeout
                    mon.check(k == "ok" or isinstance(v, TimeoutError), "a command failed because of flow control", error=repr(v))
                if k == "ok":
                    mon.obs("commands")
                    must.setdefault(i, []).append(plan[i][-1])

        def pause():
            if real:
                conn.transport.pause_reading()
            elif not watch.paused:
                proto.pause_writing()

        def resume():
            if real:
                conn.transport.resume_reading()
            elif watch.paused and not watch.lost:
                proto.resume_writing()

        if rng.random() < .6:
            pause()
        tasks = {i: asyncio.ensure_future(sender(i)) for i in range(case["senders"])}
        for i in range(case["cmds"]):
            tasks[50 + i] = asyncio.ensure_future(commands(50 + i))
        cancelled = set()
        for k in range(case["cycles"]):
            await asyncio.sleep(rng.choice([0, 0.02, 0.15, 1, 4]))
            pause()
            await asyncio.sleep(rng.choice([0, 0.05, 0.5, 3, 30]))
            if real and watch.paused:
                mon.obs("real_pauses")
            for i, t in tasks.items():
                if rng.random() < case["cancel"] and not t.done():
                    t.cancel()
                    cancelled.add(i)
                    mon.obs("cancelled_senders")
            if watch.early:
                mon.fail("a message was handed to the transport while it was paused", messages=watch.early, log="".join(watch.log))
            if k < case["cycles"] - 1 or case["end"] == "none":
                resume()
        end = case["end"]
        if end == "eof":
            conn.close()
        elif end == "reset":
            conn.reset()
        elif end == "abort":
            transport.abort()
        elif end == "close":
            accepted = b"".join(watch.writes)
            await c.close()
            if real:
                await asyncio.sleep(rng.choice([0, 1]))
                if rng.random() < .5:
                    conn.reset()
                    accepted = b""
                else:
                    resume()
        if real and end != "none":
            await asyncio.sleep(0.01)
            if not conn.client_gone and conn.transport is not None and not conn.transport.is_closing():
                resume()
        if tasks:
            finished, left = await asyncio.wait(tasks.values(), timeout=120 + 0.3 * case["each"])
        mon.check(not left, f"{len(left)} senders still wait long after {'the connection ended' if end != 'none' else 'writing was resumed'}",
                  end=end, log="".join(watch.log[-40:]), paused=watch.paused)
        for i, t in tasks.items():
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()
        # a cancelled command may still be written: its exchange goes on in the background
        await asyncio.sleep(15)
        mon.check(not watch.early, "a message was handed to the transport while it was paused", messages=watch.early, log="".join(watch.log))
        # each write is one whole frame, or several
        for w in watch.writes:
            mon.check(w.startswith(b"*") and w.endswith(b"##"), "a partial frame was handed to the transport", data=w[:200])
        frames = b"".join(watch.writes)
        got = [f + b"##" for f in frames.split(b"##")[:-1]]
        left = list(got)
        for i, msgs in plan.items():
            mine = [f for f in got if f in set(msgs)]
            for f in mine:
                left.remove(f)
            expected = must.get(i, [])
            lax = i in cancelled or end != "none"
            mon.check(len(set(mine)) == len(mine), "a message was written twice", sender=i, got=[m[:60] for m in mine])
            order = [msgs.index(m) for m in mine]
            mon.check(order == sorted(order), "messages sent one after the other were reordered", sender=i, got=[m[:60] for m in mine])
            if not lax:
                mon.check([m for m in mine if m in expected] == expected, "a message was lost", sender=i, missing=[m[:60] for m in expected if m not in mine])
            elif end == "none":
                mon.check(all(m in mine for m in expected), "a message was lost", sender=i, missing=[m[:60] for m in expected if m not in mine])
        mon.check(not left, "something else was written", got=[x[:80] for x in left])
        if end == "close":
            mon.check(conn.raw[base:base + len(accepted)] == accepted, "close() discarded messages that were already accepted",
                      received=len(conn.raw) - base, accepted=len(accepted))
            if len(accepted):
                mon.obs("closed_with_data")
        if end == "none":
            mon.check(conn.raw[base:] == frames, "the gateway received something else than what was written", n=len(conn.raw) - base, expected=len(frames))
            # and the connection still works
            k, v = await scen.outcome(c.send_message(message(99, 1, 1, rng)))
            await asyncio.sleep(1)
            mon.check(k == "ok" and conn.texts[-1] == "*1*99*10001##", "the connection does not work after it was resumed", error=repr(v), last=conn.texts[-1][:80])
        mon.obs("scenarios")
        mon.sig(case["kind"], end, case["senders"], case["size"], "".join(watch.log)[:200])
    scen.run(main, horizon=20000)


def handshake(case, mon):
    """The transport is paused before the first write of the handshake."""
    auth = scen.auth_of(case["mode"])

    async def main(loop):
        watches = []

        async def script(conn):
            w = Watch(mon, loop, conn)
            watches.append(w)
            conn.client_protocol.pause_writing()

            def go():
                if case["end"] == "none":
                    if not w.lost:
                        conn.client_protocol.resume_writing()
                elif case["end"] == "eof":
                    conn.close()
                else:
                    conn.reset()
            loop.call_later(case["hs"], go)
            conn.ok = await gateway.handshake(conn, auth)
        loop.endpoints[(scen.HOST, scen.PORT)] = ep = gateway.Endpoint(script)
        c = scen.client("cmd")
        t0 = loop.now
        k, v = await scen.outcome(c.start())
        took = loop.now - t0
        w = watches[0]
        mon.check(not w.early, "a message was handed to the transport while it was paused", messages=w.early)
        if case["end"] == "none":
            mon.check(k == "ok", "start() failed although writing was resumed", error=repr(v), took=took)
        else:
            mon.check(k == "exc" and not isinstance(v, (AttributeError, TypeError)), "start() on a connection lost while paused", got=repr(v))
            mon.check(took <= case["hs"] + 6, "start() did not end when the connection was lost", took=took)
        mon.obs("handshake_paused")
        mon.sig("hs", case["mode"], case["end"], round(case["hs"], 2))
    scen.run(main)


def several(case, mon):
    """Several connections (one client each, or successive connections of a client): the flow control of one says nothing about the others."""
    rng = random.Random(case["seed"])

    async def main(loop):
        clients, conns, watches = [], [], []
        for i in range(case["multi"]):
            ep = scen.endpoint(loop, host="gw" if case["same"] else f"gw{i}")
            c = scen.client(rng.choice(["cmd", "cmd", "oldcmd"]), host="gw" if case["same"] else f"gw{i}")
            await c.start()
            await asyncio.sleep(0.01)
            clients.append(c)
            conns.append(ep.conn)
            watches.append(Watch(mon, loop, ep.conn))
        expected = [[] for _ in clients]
        pending = [[] for _ in clients]
        gone = set()
        for step in range(rng.choice([6, 15, 30])):
            i = rng.randrange(len(clients))
            r = rng.random()
            w, p = watches[i], conns[i].client_protocol
            if i in gone:
                continue
            if r < .25 and not w.paused:
                p.pause_writing()
            elif r < .5 and w.paused:
                p.resume_writing()
                await asyncio.sleep(3)
                for t, f in pending[i]:
                    mon.check(t.done(), "a sender still waits although its connection was resumed", connection=i, paused=[x.paused for x in watches])
                    t.result()
                pending[i].clear()
            elif r < .55 and case["end"] != "none":
                {"eof": conns[i].close, "reset": conns[i].reset, "close": lambda: None}[case["end"]]()
                if case["end"] == "close":
                    await clients[i].close()
                gone.add(i)
                await asyncio.sleep(3)
                for t, f in pending[i]:
                    mon.check(t.done(), "a sender still waits although its connection ended", connection=i, paused=[x.paused for x in watches])
                    t.exception()
                pending[i].clear()
            else:
                m = message(i, step, 1, rng)
                t = asyncio.ensure_future(clients[i].send_message(m))
                await asyncio.sleep(rng.choice([0, 0.01, 0.4]))
                expected[i].append(str(m))
                if w.paused:
                    mon.obs("blocked_senders")
                    pending[i].append((t, str(m)))
                else:
                    if any(x.paused for j, x in enumerate(watches) if j != i):
                        mon.obs("other_paused")
                    await asyncio.sleep(2)
                    mon.check(t.done(), "a sender waits although its own connection is not paused", connection=i, paused=[x.paused for x in watches])
                    t.result()
            for x in watches:
                mon.check(not x.early, "a message was handed to a paused transport", messages=x.early)
        for i, p in enumerate(conns):
            if i not in gone and watches[i].paused:
                p.client_protocol.resume_writing()
        await asyncio.sleep(5)
        for i, c in enumerate(conns):
            for t, f in pending[i]:
                mon.check(t.done(), "a sender still waits although its connection was resumed", connection=i)
                t.result()
            if i not in gone:
                # the order of concurrent senders is free
                mon.check(sorted(scen.sent_after_handshake(c)) == sorted(expected[i]), "wrong messages on a connection", got=scen.sent_after_handshake(c), expected=expected[i])
        mon.obs("scenarios")
        mon.sig("multi", case["end"], ["".join(w.log) for w in watches])
    scen.run(main)


def tcp(case, mon):
    """Real TCP on the loopback: the client sends and closes while the gateway is not reading yet."""
    for _ in range(3):      # real time: a loaded machine may exceed a timeout once, not always
        why, detail = asyncio.run(tcp_once(case))
        if why is None:
            mon.obs("tcp_closed")
            mon.sig("tcp", case["tcp"], case["size"], case["seed"])
            mon.obs("assertions", 2)
            return
    mon.fail(why, **detail)


async def tcp_once(case):
    rng = random.Random(case["seed"])
    loop = asyncio.get_running_loop()
    raw, ended, conns = bytearray(), loop.create_future(), []
    go = asyncio.Event()

    async def serve(reader, writer):
        conns.append(writer)
        try:
            writer.write(b"*#*1##")
            await reader.readuntil(b"##")
            writer.write(b"*#*1##")
            await go.wait()
            while True:
                data = await reader.read(20000)
                if not data:
                    break
                raw.extend(data)
                await asyncio.sleep(0.001)
        except OSError as e:
            ended.set_result(repr(e))
        else:
            ended.set_result("eof")
        writer.close()

    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)
    s.bind(("127.0.0.1", 0))
    server = await asyncio.start_server(serve, sock=s, limit=4096)
    try:
        c = scen.Client("127.0.0.1", s.getsockname()[1], "12345", scen.SESSIONS[case["tcp"]])
        await c.start()
        sent = []
        try:
            async with asyncio.timeout(1):      # as much as is accepted while nobody reads
                for i in range(60):
                    m = message(1, i, case["size"], rng)
                    await c.send_message(m)
                    sent.append(str(m).encode())
        except TimeoutError:
            pass
        await c.close()
        await asyncio.sleep(0.05)
        go.set()
        try:
            how = await asyncio.wait_for(ended, 20)
        except TimeoutError:
            return "the connection does not end after close()", {"received": len(raw), "sent": sum(map(len, sent))}
        expected = b"".join(sent)
        if bytes(raw[:len(expected)]) != expected:
            return "close() discarded messages that were already accepted", {"received": len(raw), "sent": len(expected), "end": how}
        return None, None
    finally:
        go.set()
        server.close()
        for w in conns:
            w.transport.abort()
