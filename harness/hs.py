"""Handshake scenarios: a gateway that follows the documented exchange up to a step and then deviates."""
import asyncio

from . import gateway, ref, scen

STEPS = {"none": 2, "open": 3, "hmac1": 4, "hmac2": 4}
# what the gateway can do instead of the right reply
REACTIONS = ["nack", "silence", "close", "reset", "garbage", "event", "status", "dim", "dimreq", "generic", "partial",
             "partial_close", "session", "number", "algo", "badalgo", "whitespace", "trickle",
             "params", "params2", "longer", "algo_param", "other_algo"]
ODD = {"params": "*1#2##", "params2": "*#12#3##", "longer": "*#123456*5##", "algo_param": "*98*1#2##", "other_algo": "*97*1##"}
SUCCESS_ACK_LAST = {"none": 1, "open": 2}


class Rec:
    """What was observed of one start()."""
    gave_up = False     # the caller cancelled it
    result = None       # 'ok' | 'exc' | 'cancelled'
    exc = None
    t_end = None
    good_steps = 0      # replies sent correctly
    last_good = 0.0     # when the last right reply was completely sent
    expected = ()       # frames the client has to have sent by then
    rb = None


def right_frames(mode, auth, session):
    return [scen.SESSION_FRAME[session]]


async def script(conn, case, rec):
    """case: session, auth, step, reaction, delays[], cuts ('whole'|'bytes')"""
    loop = conn.loop
    auth = case["auth"]
    mode = auth["mode"]
    step, reaction = case.get("step"), case.get("reaction")
    delays = case.get("delays") or []
    rec.expected = []

    async def send(k, text):
        """Returns False when the gateway deviates here."""
        if k < len(delays) and delays[k]:
            await asyncio.sleep(delays[k])
        if step == k:
            await react(conn, reaction, text, case)
            return False
        if case.get("cuts") == "bytes":
            await conn.write_cuts(text, range(1, len(text)), 0.001)
        else:
            conn.write(text)
        rec.good_steps += 1
        rec.last_good = loop.now
        return True

    async def get():
        return await conn.recv()

    if not await send(0, gateway.ACK):
        return
    rec.expected.append(scen.SESSION_FRAME[case["session"]])
    if await get() is None:
        return
    if mode == "none":
        await send(1, gateway.ACK)
        return
    if mode == "open":
        if not await send(1, f"*#{auth['nonce']}##"):
            return
        rec.expected.append(f"*#{ref.open_pass(int(auth['password']), auth['nonce'])}##")
        f = await get()
        if f is None:
            return
        if f != rec.expected[-1]:
            conn.write(gateway.NACK)
            conn.close()
            return
        await send(2, gateway.ACK)
        return
    algo = {"hmac1": 1, "hmac2": 2}[mode]
    if not await send(1, f"*98*{algo}##"):
        return
    rec.expected.append(gateway.ACK)
    if await get() is None:
        return
    if not await send(2, f"*#{ref.to_digits(auth['ra'])}##"):
        return
    f = await get()
    if f is None:
        return
    rec.rb = ref.check_hmac_answer(f, algo, auth["ra"], auth["password"])
    rec.answer = f
    rec.expected.append(f if rec.rb is not None else "<the right *#Rb*HMAC##>")
    if rec.rb is None:
        conn.write(gateway.NACK)
        conn.close()
        return
    right = f"*#{ref.to_digits(ref.hmac_server(algo, auth['ra'], rec.rb, auth['password']))}##"
    if "confirm" in case:
        text = case["confirm"](algo, auth, rec.rb, f, right)
        if text is not None:
            conn.write(text)
            rec.last_good = loop.now
        return
    if await send(3, right):
        rec.expected.append(gateway.ACK)


async def react(conn, reaction, right, case):
    if reaction == "nack":
        conn.write(gateway.NACK)
    elif reaction == "ack":
        conn.write(gateway.ACK)
    elif reaction == "silence":
        pass
    elif reaction == "close":
        conn.close()
    elif reaction == "reset":
        conn.reset()
    elif reaction == "garbage":
        conn.write(b"\xff\xfehello\x80##")
    elif reaction == "event":
        conn.write("*1*1*12##")
    elif reaction == "status":
        conn.write("*#1*12##")
    elif reaction == "dim":
        conn.write("*#13**0*12*30*00*001##")
    elif reaction == "dimreq":
        conn.write("*#13**0##")
    elif reaction == "generic":
        conn.write("*9*8*7*6*5##")
    elif reaction == "partial":
        conn.write(right[:-1])
    elif reaction == "partial_close":
        conn.write(right[:-1])
        await asyncio.sleep(0.1)
        conn.close()
    elif reaction == "session":
        conn.write("*99*9##")
    elif reaction == "number":
        conn.write("*#*123456##")
    elif reaction == "algo":
        conn.write("*98*1*2##")
    elif reaction == "badalgo":
        conn.write("*98*7##")
    elif reaction in ODD:
        conn.write(ODD[reaction])
    elif reaction == "whitespace":
        conn.write("\r\n \n")
    elif reaction == "trickle":
        for i in range(6):
            conn.write("*#1234567"[i:i + 1])
            await asyncio.sleep(3)
    elif reaction == "late":
        await asyncio.sleep(6.5)
        conn.write(right)
    elif callable(reaction):
        conn.write(reaction(right))
    else:
        raise RuntimeError(reaction)


async def attempt(loop, case, client=None, *, refuse=None, cancel=None, connect_delay=0.0):
    """Runs one start() against the scripted gateway. cancel: virtual seconds after which the caller gives up."""
    rec = Rec()

    async def s(conn):
        conn.rec = rec
        await script(conn, case, rec)

    ep = gateway.Endpoint(s, refuse=refuse, connect_delay=connect_delay)
    if refuse != "nobody":
        loop.endpoints[(scen.HOST, scen.PORT)] = ep
    else:
        ep.refuse = None
    if client is None:
        client = scen.client(case["session"], password=case.get("client_password", case["auth"].get("password", "12345")))
    rec.client, rec.ep, rec.t0 = client, ep, loop.now
    rec.last_good = loop.now
    task = asyncio.ensure_future(client.start())
    if cancel is not None:
        await asyncio.wait([task], timeout=cancel)
        if not task.done():
            task.cancel()
            rec.gave_up = True
    try:
        await task
        rec.result = "ok"
    except asyncio.CancelledError:
        rec.result = "cancelled"
    except Exception as e:
        rec.result, rec.exc = "exc", e
    rec.t_end = loop.now
    await asyncio.sleep(0.05)     # let what was written arrive
    rec.conn = ep.conns[-1] if ep.conns else None
    rec.frames = rec.conn.texts if rec.conn else []
    return rec
