"""C23: addresses and systems are classified totally and as documented."""
import random

from harness import ref

RULE = ("every documented WHERE address (general, areas, points, groups, local bus; private riser and every local bus interface), built directly, through "
        "with_parameter and out of parsed frames, against the table of docs/original/who1.md; every WHO 0..2000; random texts over 0-9 and # for totality; "
        "distinct = text")
N = {"quick": 12000, "thorough": 400000}
REQUIRE = {"documented": 4000, "documented_frames": 4000, "undocumented": 20000, "who_members": 22, "who_unknown": 1900}
EXHAUSTIVE = ["all documented WHERE addresses x all interfaces", "all WHO 0..2000", "all texts over {0,1,9,#} up to length 6 (totality)"]
INTS = [f"0{i}" for i in range(1, 10)] + [f"1{i}" for i in range(6)]


def table():
    """(text without interface, type on the private riser, type on a local bus)"""
    yield "0", "GENERAL", "LOCAL_BUS"
    for a in ["00", "100"] + [str(i) for i in range(1, 10)]:
        yield a, "AMBIENT", "AMBIENT"
    for g in range(1, 256):
        yield f"#{g}", "GROUP", "GROUP"
    for pl in range(1, 16):
        yield f"00{pl:02d}", "LIGHT_POINT", "LIGHT_POINT"
        yield f"10{pl:02d}", "LIGHT_POINT", "LIGHT_POINT"
    for a in range(1, 10):
        for pl in range(1, 10):
            yield f"{a}{pl}", "LIGHT_POINT", "LIGHT_POINT"
        for pl in range(10, 16):
            yield f"{a:02d}{pl}", "LIGHT_POINT", "LIGHT_POINT"


def documented():
    for t, private, local in table():
        yield t, private
        for i in INTS:
            yield f"{t}#4#{i}", local
    for i in INTS:
        yield f"#4#{i}", "LOCAL_BUS"


def fixed(tier):
    docs = list(documented())
    for k in range(0, len(docs), 50):
        yield {"doc": docs[k:k + 50]}
    for k in range(0, 2001, 100):
        yield {"who": [k, k + 100]}
    yield {"who": ["members"]}
    short = [""]
    for _ in range(6):
        layer = [x + c for x in short if len(x) == len(short[-1]) for c in "019#"]
        short += layer
    for k in range(0, len(short), 400):
        yield {"any": short[k:k + 400]}


def rand(rng, tier):
    out = []
    for _ in range(12):
        r = rng.random()
        if r < .4:
            out.append("".join(rng.choice("0123456789#") for _ in range(rng.randint(0, 12))))
        elif r < .7:
            out.append("#".join(str(rng.choice([0, 1, 4, 15, 99, rng.randint(0, 10 ** 6)])) for _ in range(rng.randint(1, 6))))
        else:
            out.append("#" + "#".join(f"{rng.randint(0, 300):02d}" for _ in range(rng.randint(1, 6))))
    return {"any": out}


def kind(where):
    from pyown.tags.where import WhereType
    try:
        t = where.type
    except ValueError as e:
        return "ValueError"
    assert isinstance(t, WhereType), t
    return t.name


def run(case, mon):
    from pyown.messages import parse_message
    from pyown.tags import Where, Who
    if "doc" in case:
        for text, expected in case["doc"]:
            w = Where(text)
            mon.check(kind(w) == expected, f"Where({text!r}).type", got=kind(w), expected=expected)
            mon.check(kind(w) == expected, f"Where({text!r}).type the second time", got=kind(w), expected=expected)
            base = w.tag
            if base:
                x = Where(base)
                for p in w.parameters:
                    x = x.with_parameter(p)
                mon.check(str(x) == text and kind(x) == expected, f"{text!r} built with with_parameter", text=str(x), got=kind(x), expected=expected)
            for f in (f"*1*1*{text}##", f"*#1*{text}##", f"*#1*{text}*8##", f"*#1*{text}*8*5##", f"*#1*{text}*#8*5##", f"*2*1*{text}##"):
                m = parse_message(f)
                mon.check(str(m.where) == text and kind(m.where) == expected, f"the address of {f}", got=(str(m.where), kind(m.where)), expected=expected)
                mon.obs("documented_frames")
            mon.obs("documented")
            mon.sig(text)
        return
    if "who" in case:
        if case["who"] == ["members"]:
            names = {}
            for w in Who:
                n = w.name
                mon.check(isinstance(n, str) and n.strip() != "", f"Who({w.value!r}) has no name", name=n)
                mon.check(n not in names, "two systems have the same name", name=n, whos=(w.value, names.get(n)))
                names[n] = w.value
                mon.check(Who(str(w)) is w and Who(w.value) is w, f"Who({w.value!r}) does not round trip", s=str(w))
                m = parse_message(f"*{w}*1*11##")
                mon.check(m.who is w and m.who.name == n, f"the system of a frame of WHO {w}", got=m.who)
                mon.obs("who_members")
            mon.check({w.value for w in Who} == set(ref.WHOS), "the systems", got=sorted(w.value for w in Who))
            return
        for i in range(*case["who"]):
            s = str(i)
            try:
                w = Who(s)
            except ValueError:
                mon.check(s not in ref.WHOS, f"WHO {s} is refused")
                mon.obs("who_unknown")
            else:
                mon.check(s in ref.WHOS and str(w) == s and w.string == s and w.value == s, f"WHO {s}", got=w)
                mon.check(isinstance(w.name, str) and w.name, f"WHO {s} has no name")
        return
    for text in case["any"]:
        from pyown.exceptions import InvalidTag
        try:
            w = Where(text)
        except InvalidTag:
            mon.obs("not_a_tag")
            continue
        try:
            k = kind(w)
        except Exception as e:
            mon.fail(f"Where({text!r}).type raises {type(e).__name__}", error=repr(e))
        mon.check(k == kind(Where("".join(list(text)))), f"Where({text!r}).type is not a function of the text")
        if text == "" or text.startswith("#") and text.count("#") > 3:
            mon.check(k == "ValueError", f"Where({text!r}) is no address but is classified", got=k)
        if k in ("GENERAL", "LOCAL_BUS", "GROUP"):
            # never the address of a device taken for the whole system or a group
            mon.check(text.split("#")[0] in ("", "0"), f"Where({text!r}).type", got=k)
        mon.obs("undocumented")
        mon.obs("type_" + k)
        mon.sig(text)
