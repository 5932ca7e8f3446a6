"""C03: parse and serialise are mutually inverse."""
from harness import ref

RULE = "random legal frames of every kind, and messages built by the public constructors; distinct = frame text"
N = {"quick": 24000, "thorough": 600000}
REQUIRE = {"frames": 5000, "constructed": 2000}


def fixed(tier):
    yield {"frames": ["*#*1##", "*#*0##", "*1*1*12##", "*1*1*0##", "*1*1*#3##", "*1*1*12#4#01##", "*1*0#255*12##", "*1*30#5#20*12##",
                      "*#1*12##", "*#1*0#4#01##", "*#13**0##", "*#13**#0*12*30*00*001##", "*#13**#1*00*05*06*2024##",
                      "*#1*12*2*1*2*3##", "*#18*51*511#1#2*25*100##", "*#18*71#0*72#1*100*1*2*2024*3*4##", "*#18*57*1200#1*5##",
                      "*#18*51*#1200#1*5##", "*#18*51*52#24#1##", "*18*57#1#2*51##", "*7*120##", "*98*1##", "*98*2##", "*99*9##",
                      "*99*1##", "*99*0##", "*#603356072##", "*9*1*12##", "*#1*12*#1##", "*#1*12*#1*##", "*#1*12*1*##", "*1**##",
                      "*1*1*##", "*#1*##", "*#1**1##", "*1*1*12*3##", "*1##", "*#1##", "*1*1##", "*1000##"]}
    n, p = "123456789" * 400, "12#" * 900 + "5"
    yield {"frames": [f for x in (n, p) for f in (f"*1*{x}*12##", f"*1*1*{x}##", f"*#1*{x}##", f"*#1*12*{x}##", f"*#1*12*#{x}*5##", f"*#1*12*{x}*5##", f"*#1*12*1*{x}*5##",
                                                  f"*9999*{x}##", f"*#{x}##")]
           + ["*#1*12*1*" + "*".join(["5"] * 1500) + "##", "*#1*12*#1*" + "*".join(["57"] * 1500) + "##", "*98*" * 500 + "##"]}


def rand(rng, tier):
    c = {"frames": [ref.rnd_frame(rng) for _ in range(6)], "cons": []}
    for _ in range(3):
        kind = rng.choice(["ACK", "NACK", "NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING",
                           "DIMENSION RESPONSE", "GENERIC"])
        c["cons"].append(ref.rnd_frame(rng, kind))
    return c


def build(frame):
    """The message of a frame, through the constructors."""
    from pyown import messages as M
    from pyown.tags import Dimension, Value, What, Where, Who
    kind, f = ref.classify(frame)
    if kind == "ACK":
        return M.ACK()
    if kind == "NACK":
        return M.NACK()
    if kind == "GENERIC":
        return M.GenericMessage(list(f["tags"]))
    who, where = Who(f["who"]), Where(f.get("where", ""))
    if kind == "NORMAL":
        return M.NormalMessage((who, What(f["what"]), where))
    if kind == "STATUS REQUEST":
        return M.StatusRequest((who, where))
    dim = Dimension(f["dimension"])
    if kind == "DIMENSION REQUEST":
        return M.DimensionRequest((who, where, dim))
    cls = M.DimensionWriting if kind == "DIMENSION WRITING" else M.DimensionResponse
    return cls((who, where, dim, *[Value(v) for v in f["values"]]))


def same_fields(mon, m, n, frame):
    for a in ("who", "what", "where", "dimension"):
        x, y = getattr(m, a, None), getattr(n, a, None)
        mon.check((x is None) == (y is None) and (x is None or str(x) == str(y)), f"{a} is not preserved", frame=frame, a=x, b=y)
    x, y = getattr(m, "values", ()), getattr(n, "values", ())
    mon.check([str(v) for v in x] == [str(v) for v in y], "values are not preserved", frame=frame, a=x, b=y)


def run(case, mon):
    from pyown.messages import parse_message
    for f in case["frames"]:
        mon.obs("frames")
        mon.sig(f)
        m = parse_message(f)
        mon.check(str(m) == f, "str(parse_message(f)) != f", frame=f, got=str(m))
        mon.check(m.message == f, "message is not the frame", frame=f, got=m.message)
        mon.check(m.bytes == f.encode("ascii"), "bytes is not the frame", frame=f, got=m.bytes)
        n = parse_message(str(m))
        mon.check(type(n) is type(m) and n == m and not (n != m) and m == n, "parsing again gives a different message", frame=f)
        mon.check(hash(n) == hash(m), "equal messages with different hashes", frame=f)
        w = parse_message(" " + f + "\r\n")
        mon.check(w == m and str(w) == f, "surrounding whitespace changes the message", frame=f, got=str(w))
    for f in case.get("cons", ()):
        mon.obs("constructed")
        m = build(f)
        mon.check(str(m) == f and m.bytes == f.encode(), "a constructed message has the wrong text", expected=f, got=str(m))
        n = parse_message(str(m))
        mon.check(type(n) is type(m), "a constructed message parses back to another class", frame=f, built=type(m), parsed=type(n))
        mon.check(n == m and m == n and hash(n) == hash(m), "a constructed message parses back to a different one", frame=f)
        mon.check(n.type == m.type, "types differ", frame=f)
        same_fields(mon, m, n, f)
        mon.check([str(t) for t in m.tags] == [str(t) for t in n.tags], "tags differ", frame=f, a=m.tags, b=n.tags)
