"""C04: frames are classified by the documented grammar."""
from harness import ref

RULE = "random and systematic legal frames against an independent grammar; distinct = (kind, shape, frame)"
N = {"quick": 32000, "thorough": 600000}
REQUIRE = {"kind_NORMAL": 500, "kind_STATUS REQUEST": 300, "kind_DIMENSION REQUEST": 300, "kind_DIMENSION WRITING": 300,
           "kind_DIMENSION RESPONSE": 300, "kind_GENERIC": 300, "kind_ACK": 2, "kind_NACK": 2}
EXHAUSTIVE = ["every known WHO and every number 0..1100 as WHO, in each of the shapes"]


def fixed(tier):
    wheres = ["", "12", "0", "0312#4#01", "#3", "71#0", "#0#4#01"]
    for start in range(0, 1101, 25):
        fr = []
        for n in range(start, min(start + 25, 1101)):
            w = wheres[n % len(wheres)]
            for u in (str(n),) + (("0" + str(n),) if n % 7 == 0 else ()):
                fr += [f"*{u}*1*{w}##", f"*{u}*1000#2*{w}##", f"*#{u}*{w}##", f"*#{u}*{w}*5##", f"*#{u}*{w}*5#1#2##",
                       f"*#{u}*{w}*#5##", f"*#{u}*{w}*#5*1##", f"*#{u}*{w}*#5#6*1*2##", f"*#{u}*{w}*5*1##",
                       f"*#{u}*{w}*5#6*1*2*3##", f"*{u}##", f"*{u}*1##", f"*{u}*1*2*3##", f"*#{u}##"]
        yield {"frames": [f for f in fr if ref.verdict(f) == "legal"]}
    yield {"frames": ["*#*1##", "*#*0##", "*#*2##", "*#*11##", "*#*10##", "*#*01##", "*#*1*1##", "*#*0*1##", "*#*1##", "*1*#*1##"]}
    # empty parameters, in every position where the terminator stays unambiguous
    yield {"frames": ["*#18*51*513#*1*5##", "*#18*51*#1200#*5##", "*#18*51*#1200#1#*5##", "*#18*51*513#1#2#*5##",
                      "*#1*12#*1##", "*#1*12#*#1*5##", "*#1*12#*1*5##", "*1*1#*12##", "*1*1000#1#*12##", "*#4*1*0*0215#*1##",
                      "*#4*1*0*0215#1*1##", "*#4*1*#14*0215#*3##", "*#13**0*21#*10*00*01##", "*#1*#3#*1##", "*#1*#3#*8*1##",
                      "*#2*#3#4#*10*1*2##", "*1*#1#*12##", "*1*#1*12##", "*1*#*12##", "*1**12##", "*1*1*##", "*1***##"]}


def rand(rng, tier):
    return {"frames": [ref.rnd_frame(rng) for _ in range(6)]}


def run(case, mon):
    from pyown import messages as M
    for f in case["frames"]:
        kind, fields = ref.classify(f)
        # '*#1*12*' : empty dimension, the grammar does not say
        if kind == "DIMENSION REQUEST" and fields["dimension"] == "":
            continue
        if kind in ("DIMENSION WRITING", "DIMENSION RESPONSE") and fields["dimension"].split("#")[0] == "":
            continue
        m = M.parse_message(f)
        mon.obs("kind_" + kind)
        mon.sig(kind, f)
        mon.check(type(m) is getattr(M, ref.CLASS_OF[kind]), "wrong class", frame=f, expected=ref.CLASS_OF[kind],
                  got=type(m).__name__)
        mon.check(m.type == M.MessageType[kind.replace(" ", "_")], "wrong type", frame=f, expected=kind, got=m.type)
        if kind == "GENERIC":
            mon.check(list(m.tags) == fields["tags"], "wrong tags", frame=f, got=m.tags)
            mon.check(m.who is None and m.where is None, "a generic message has no who/where", frame=f)
            continue
        for a in ("who", "what", "where", "dimension"):
            if a in fields:
                v = getattr(m, a)
                mon.check(str(v) == fields[a] and v == fields[a], f"wrong {a}", frame=f, got=v, expected=fields[a])
        if "values" in fields:
            mon.check([str(v) for v in m.values] == fields["values"], "wrong values", frame=f, got=m.values,
                      expected=fields["values"])
        for a in ("what", "where", "dimension"):
            if a in fields and fields[a]:
                v = getattr(m, a)
                head, *params = fields[a].split("#")
                mon.check(v.tag == head and list(v.parameters) == params, f"wrong tag/parameters of {a}", frame=f,
                          got=(v.tag, v.parameters))
        if "who" in fields:
            from pyown.tags import Who
            mon.check(isinstance(m.who, Who), "who is not a Who", frame=f, got=type(m.who))
