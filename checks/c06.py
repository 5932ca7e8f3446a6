"""C06: tags and messages are validated, immutable values with coherent equality."""
from harness import ref

RULE = ("strings over 0-9 # and intruders given to every tag class; pools of messages/tags compared pairwise and in triples; "
        "distinct = tag text / pool")
N = {"quick": 12000, "thorough": 240000}
REQUIRE = {"tags_valid": 2000, "tags_invalid": 1000, "pairs": 2000}
INTRUDERS = "a*A .,-+\n\t²٣１Ⅷé\x00_x/"


def fixed(tier):
    yield {"texts": ["", "0", "00", "1", "#", "##", "###", "1#", "#1", "1#2", "1##2", "#1#2", "1#2#3", "#1#", "1#2##", "a", "1a", " 1",
                     "1 ", "-1", "+1", "1.0", "*", "1*2", "1\n", "\n", "٣", "²", "１", "12#4#01", "#0#4#01", "0312#4#01", "71#0",
                     "1" * 500, "7" * 6000, "12#" * 900 + "5", "1" * 3000 + "##", "1#" * 200 + "1", "#".join("123456789")], "params": ["1", "0", "255", "", "#", "1#2", "a", "#1"],
           "frames": ["*1*1*12##", "*1*1*12##", "*1*0*12##", "*#1*12##", "*#1*12*1##", "*#1*12*#1##", "*#1*12*1*5##", "*#1*12*#1*5##",
                      "*#*1##", "*#*0##", "*99*1##", "*9*1*12##", "*9*1*12##", "*#18*51*511#1#2*1*2##"]}


def rnd_text(rng):
    t = "".join(rng.choice("0123456789##") for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10])))
    if rng.random() < .3:
        i = rng.randint(0, len(t))
        t = t[:i] + rng.choice(INTRUDERS) + t[i:]
    return t


def rand(rng, tier):
    base = [ref.rnd_frame(rng) for _ in range(3)]
    return {"texts": [rnd_text(rng) for _ in range(5)] + [ref.rnd_tag(rng) for _ in range(3)],
            "params": [str(rng.randint(0, 300)), rnd_text(rng)],
            "frames": base + [rng.choice(base), rng.choice(base)] + [ref.rnd_frame(rng, "GENERIC")]}


def run(case, mon):
    from pyown.exceptions import InvalidTag, ParseError
    from pyown.messages import GenericMessage, parse_message
    from pyown.tags import Dimension, Value, What, Where
    from pyown.tags.base import Tag, TagWithParameters
    tags = []
    for t in case["texts"]:
        ok = ref.tag_ok(t)
        mon.sig("t", t)
        for cls in (Tag, TagWithParameters, Value, What, Where, Dimension):
            try:
                x = cls(t)
            except InvalidTag:
                x = None
            mon.check((x is not None) == ok, f"{cls.__name__}({t!r}) is {'rejected' if x is None else 'accepted'}")
            mon.obs("tags_valid" if ok else "tags_invalid")
            if x is None:
                continue
            tags.append((t, x))
            mon.check(str(x) == t and x.string == t, "the text of a tag changed", text=t, got=str(x))
            mon.check(x == t and not (x != t) and hash(x) == hash(t), "a tag differs from its own text", text=t, cls=cls)
            if issubclass(cls, TagWithParameters):
                head, *params = t.split("#")
                p = x.parameters
                mon.check(x.tag == head and list(p) == params, "wrong tag/parameters", text=t, got=(x.tag, p))
                re = x.tag + "".join("#" + q for q in p)
                mon.check(re == t, "tag and parameters do not reproduce the text", text=t, got=re)
                p.append("9")
                p[:] = p[1:]
                mon.check(str(x) == t and list(x.parameters) == params, "mutating parameters changed the tag", text=t)
            else:
                mon.check(x.tag == t.removeprefix("#"), "wrong tag of a tag without parameters", text=t, got=x.tag)
            for q in case["params"]:
                new = t + "#" + q
                try:
                    y = x.with_parameter(q)
                except InvalidTag:
                    y = None
                mon.check((y is not None) == ref.tag_ok(new), "with_parameter accepted/rejected the wrong text", text=t, param=q)
                if y is not None:
                    mon.check(str(y) == new and list(y.parameters) == new.split("#")[1:], "with_parameter gave the wrong tag",
                              text=t, param=q, got=str(y))
                    mon.check(str(x) == t, "with_parameter changed the original", text=t)
                    if q.isascii() and q.isdecimal() and str(int(q)) == q:
                        mon.check(str(x.with_parameter(int(q))) == new, "with_parameter(int) differs", text=t, param=q)
    # numbers
    for cls in (Value, What, Where, Dimension):
        for n in (0, 7, 65535):
            mon.check(str(cls(n)) == str(n), "a tag built from an int has the wrong text", n=n)
            mon.check(cls(n) == n and not (cls(n) != n) and cls(str(n)) == n and cls(n) != n + 1 and cls(f"0{n}") != n,
                      "a tag does not compare with a number as with its text", n=n, cls=cls)
        try:
            cls(-1)
        except InvalidTag:
            pass
        else:
            mon.fail("a negative number was accepted as a tag")
    # equality of tags
    for a, x in tags[:24]:
        for b, y in tags[:24]:
            mon.obs("pairs")
            mon.check((x == y) == (a == b) and (x != y) == (a != b), "equality of tags does not follow their text", a=x, b=y)
            if x == y:
                mon.check(hash(x) == hash(y), "equal tags with different hashes", a=x, b=y)
    mon.check(len({x for _, x in tags}) == len({t for t, _ in tags}), "a set of tags has the wrong size")
    # messages
    pool, same = [], []
    for f in case["frames"]:
        m = parse_message(f)
        pool.append((f, m))
        kind, fields = ref.classify(f)
        if kind == "GENERIC":
            pool.append((f, GenericMessage(list(fields["tags"]))))
        else:
            same.append((f, GenericMessage(f[1:-2].split("*"))))    # the same text in another class
        hash(m)
        got = m.tags
        if isinstance(got, list):
            got.append("77")
            got[0] = "5"
            got.reverse()
        mon.check(str(m) == f and m.bytes == f.encode(), "mutating .tags changed the message", frame=f, got=str(m))
        if kind == "GENERIC":
            mon.check(list(m.tags) == fields["tags"], "mutating .tags changed the tags", frame=f, got=m.tags)
        for a in ("where", "what", "dimension"):
            v = getattr(m, a, None)
            if v is not None and isinstance(v, TagWithParameters):
                v.parameters.append("9")
        mon.check(str(m) == f and m == parse_message(f), "mutating parameters changed the message", frame=f, got=str(m))
    mon.sig("m", case["frames"])
    single = {m for _, m in pool}
    pool += same
    for a, x in pool:
        mon.check(x == x and not (x != x), "a message differs from itself", frame=a)
        mon.check(not (x == a) and not (x == None) and (x != 3), "a message equals something that is not a message", frame=a)  # noqa
        for b, y in pool:
            mon.obs("pairs")
            e = x == y
            mon.check(e == (y == x), "equality of messages is not symmetric", a=x, b=y)
            mon.check((x != y) == (not e), "!= is not the negation of ==", a=x, b=y)
            if type(x) is type(y):
                mon.check(e == (a == b), "equality of messages does not follow their text", a=x, b=y)
            if e:
                mon.check(hash(x) == hash(y), "equal messages with different hashes", a=x, b=y)
                mon.check(str(x) == str(y), "equal messages with different text", a=x, b=y)
            for c, z in pool:
                if e and y == z:
                    mon.check(x == z, "equality of messages is not transitive", a=x, b=y, c=z)
    mon.check(len(single) == len({f for f, _ in pool}), "a set of messages has the wrong size",
              pool=[f for f, _ in pool])
