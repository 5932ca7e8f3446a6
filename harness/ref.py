"""Independent reference of the OpenWebNet protocol as documented in docs/original (shares no code with pyown)."""
import hashlib

WHOS = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22", "24", "25",
        "1001", "1004", "1013", "1018"}
DIGITS = set("0123456789")
LEGAL = set("0123456789#*")


# -- frames ------------------------------------------------------------------
def verdict(text):
    """'legal', 'illegal' or 'either' (the documentation does not settle it)."""
    t = text.strip(" \t\r\n")
    if t != text.strip():
        return "either"
    if not t.startswith("*") or not t.endswith("##") or len(t) < 3:
        return "illegal"
    body = t[1:-2]
    if body == "":
        return "either"
    if any(c not in LEGAL for c in body):
        return "illegal"
    if "##" in body:
        return "illegal"
    if body.endswith("#"):
        return "either"       # '*1*1*1###': where the terminator starts is ambiguous
    return "legal"


def classify(frame):
    """(kind, fields) of a legal frame."""
    tags = frame.strip()[1:-2].split("*")
    if tags == ["#", "1"]:
        return "ACK", {}
    if tags == ["#", "0"]:
        return "NACK", {}
    if tags[0].startswith("#") and tags[0][1:] in WHOS:
        who = tags[0][1:]
        if len(tags) == 2:
            return "STATUS REQUEST", {"who": who, "where": tags[1]}
        if len(tags) >= 3:
            if tags[2].startswith("#"):
                return "DIMENSION WRITING", {"who": who, "where": tags[1], "dimension": tags[2][1:],
                                             "values": tags[3:]}
            if len(tags) == 3:
                return "DIMENSION REQUEST", {"who": who, "where": tags[1], "dimension": tags[2]}
            return "DIMENSION RESPONSE", {"who": who, "where": tags[1], "dimension": tags[2], "values": tags[3:]}
    if tags[0] in WHOS and len(tags) == 3:
        return "NORMAL", {"who": tags[0], "what": tags[1], "where": tags[2]}
    return "GENERIC", {"tags": tags}


CLASS_OF = {
    "ACK": "ACK", "NACK": "NACK", "NORMAL": "NormalMessage", "STATUS REQUEST": "StatusRequest",
    "DIMENSION REQUEST": "DimensionRequest", "DIMENSION WRITING": "DimensionWriting",
    "DIMENSION RESPONSE": "DimensionResponse", "GENERIC": "GenericMessage",
}


def tag_ok(s):
    return all(c in "0123456789#" for c in s) and "##" not in s


# -- random frames -------------------------------------------------------------
def rnd_num(rng, lo=0, hi=3):
    n = rng.randint(lo, hi)
    if rng.random() < .004:
        n = rng.choice([hi + 1, 9, 10, 16, 17, 19, 20, 33, 65, 130, 300])
    return "".join(rng.choice("0123456789") for _ in range(n))


def rnd_tag(rng, *, first=(0, 4), params=None, last=False, prefix=False):
    """digits(#digits)*; never contains ##; does not end with # when it is the last tag of a frame."""
    if params is None:
        params = rng.choice([0, 0, 0, 1, 1, 2, 3]) if rng.random() < .99 else rng.choice([4, 5, 8, 9, 16, 17, 40, 100, 800])
    s = rnd_num(rng, *first)
    if prefix and rng.random() < 0.15:
        s = "#" + rnd_num(rng, 1, 3)
    for _ in range(params):
        s += "#" + rnd_num(rng, 1, 3)
    if not last and rng.random() < 0.06 and not s.endswith("#"):
        s += "#"
    return s


def rnd_frame(rng, kind=None):
    kind = kind or rng.choice(["ACK", "NACK", "NORMAL", "NORMAL", "STATUS REQUEST", "DIMENSION REQUEST",
                               "DIMENSION WRITING", "DIMENSION RESPONSE", "DIMENSION RESPONSE", "GENERIC"])
    who = rng.choice(sorted(WHOS))
    if kind == "ACK":
        return "*#*1##"
    if kind == "NACK":
        return "*#*0##"
    for _ in range(50):
        if kind == "NORMAL":
            f = f"*{who}*{rnd_tag(rng)}*{rnd_tag(rng, last=True, prefix=True)}##"
        elif kind == "STATUS REQUEST":
            f = f"*#{who}*{rnd_tag(rng, last=True, prefix=True)}##"
        elif kind == "DIMENSION REQUEST":
            f = f"*#{who}*{rnd_tag(rng, prefix=True)}*{rnd_tag(rng, first=(1, 4), last=True)}##"
        elif kind in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
            h = "#" if kind == "DIMENSION WRITING" else ""
            n = rng.randint(0 if h else 1, 6) if rng.random() < .95 else rng.choice([7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 700])
            vals = [rnd_tag(rng, params=rng.choice([0, 0, 0, 1]), last=i == n - 1) for i in range(n)]
            f = f"*#{who}*{rnd_tag(rng, prefix=True)}*{h}{rnd_tag(rng, first=(1, 4), last=n == 0)}" + "".join(
                "*" + v for v in vals) + "##"
        else:
            m = rng.randint(0, 5)
            if m == 0:    # unknown WHO, known shape
                u = rng.choice(["9", "10", "11", "12", "19", "99", "98", "01", "1000", "1002", "007", ""])
                f = rng.choice([f"*{u}*1*12##", f"*#{u}*12##", f"*#{u}*12*1##", f"*#{u}*12*#1*5##",
                                f"*#{u}*12*1*5*6##"])
            elif m == 1:  # known WHO, unknown shape
                f = f"*{who}*{rnd_tag(rng, last=True)}##"
            elif m == 2:
                f = "*" + "*".join(rnd_tag(rng, first=(1, 4)) for _ in range(rng.choice([3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]))) + "*" + rnd_tag(rng, last=True) + "##"
            elif m == 3:
                f = f"*#{rnd_num(rng, 1, 12)}##"
            elif m == 4:
                f = "*" + "*".join(rnd_tag(rng, last=True, prefix=True) for _ in range(rng.randint(1, 4))) + "##"
            else:
                f = f"*#*{rnd_num(rng, 1, 3)}##"
        if verdict(f) == "legal" and classify(f)[0] == kind:
            return f
    return "*1*1*12##"


# -- OPEN password ------------------------------------------------------------
def _ror(x, n):
    return ((x >> n) | (x << (32 - n))) & 0xFFFFFFFF


def open_pass(password, nonce):
    x = None
    for c in str(nonce):
        if c == "0":
            continue
        if x is None:
            x = int(password) & 0xFFFFFFFF
        b = [(x >> s) & 0xFF for s in (24, 16, 8, 0)]     # b0 is the most significant byte
        if c == "1":
            x = _ror(x, 7)
        elif c == "2":
            x = _ror(x, 4)
        elif c == "3":
            x = _ror(x, 3)
        elif c == "4":
            x = _ror(x, 31)
        elif c == "5":
            x = _ror(x, 27)
        elif c == "6":
            x = _ror(x, 20)
        elif c == "7":
            x = (b[3] << 24) | (b[0] << 16) | (b[2] << 8) | b[1]
        elif c == "8":
            x = (b[2] << 24) | (b[3] << 16) | (b[1] << 8) | b[0]
        elif c == "9":
            x = x ^ 0xFFFFFFFF
    return str(x or 0)


VECTORS = [("12345", "603356072", "25280520"), ("12345", "410501656", "119537670"),
           ("12345", "630292165", "4269684735"), ("12345", "523781130", "537331200"),
           ("12345", "844308954", "4294506975")]
for _p, _n, _r in VECTORS:
    assert open_pass(int(_p), _n) == _r, (_p, _n, _r, open_pass(int(_p), _n))


# -- HMAC ------------------------------------------------------------------------
def _h(algo, text):
    return (hashlib.sha1 if algo == 1 else hashlib.sha256)(text.encode()).hexdigest()


A, B = "736F70653E", "636F70653E"
HEXLEN = {1: 40, 2: 64}


def to_digits(hexs):
    return "".join(f"{int(c, 16):02d}" for c in hexs)


def from_digits(d):
    if len(d) % 2 or not d.isdecimal():
        return None
    out = ""
    for i in range(0, len(d), 2):
        v = int(d[i:i + 2])
        if v > 15:
            return None
        out += "0123456789abcdef"[v]
    return out


def hmac_client(algo, ra, rb, password):
    return _h(algo, ra + rb + A + B + _h(algo, password))


def hmac_server(algo, ra, rb, password):
    return _h(algo, ra + rb + _h(algo, password))


def check_hmac_answer(frame, algo, ra, password):
    """Rb when the client's *#Rb*HMAC## is right, else None."""
    if not frame or not frame.startswith("*#") or not frame.endswith("##"):
        return None
    parts = frame[2:-2].split("*")
    if len(parts) != 2:
        return None
    rb, mac = from_digits(parts[0]), from_digits(parts[1])
    if rb is None or mac is None or len(rb) != HEXLEN[algo]:
        return None
    return rb if mac == hmac_client(algo, ra, rb, password) else None
