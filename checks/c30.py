"""C30: the background work of the library never fails internally."""
import asyncio
import gc
import importlib
import inspect
import logging
import os
import sys
import traceback
import warnings

from harness import scen, vloop

RULE = ("the scenarios of the other checks (handshakes, commands, queries, events, faults, cancellations, restarts, flow control, several clients) "
        "run on an event loop in debug mode with every warning on; monitored: what reaches the exception handler of the loop, coroutines never awaited, "
        "tasks destroyed while pending, unraisable exceptions; distinct = (scenario kind, case)")
N = {"quick": 4500, "thorough": 150000}
SOURCES = ["c01", "c02", "c07", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c18", "c19", "c20", "c21", "c22", "c24", "c25", "c26", "c28"]
REQUIRE = {"scenarios": 2000, "contexts": 300, "loops": 2000, "sources": len(SOURCES)}
ISOLATE = True
MODS = {}
FIXED = {}


def source(name):
    if name not in MODS:
        MODS[name] = importlib.import_module("checks." + name)
        FIXED[name] = list(MODS[name].fixed("quick"))
    return MODS[name], FIXED[name]


def fixed(tier):
    for i in range(len(SHAPES)):
        yield {"src": "handler", "shape": i}
    for s in SOURCES:
        _, f = source(s)
        step = max(1, len(f) // 12)
        for i in range(0, len(f), step):
            if "frames" not in str(f[i]) or f[i].get("frames", 0) in (0, 20):
                yield {"src": s, "fixed": i}


def rand(rng, tier):
    if rng.random() < .02:
        return {"src": "handler", "shape": rng.randrange(len(SHAPES))}
    s = rng.choice(SOURCES)
    mod, f = source(s)
    if rng.random() < .3:
        return {"src": s, "fixed": rng.randrange(len(f))}
    return {"src": s, "case": mod.rand(rng, tier)}


class Quiet:
    """What the scenario itself judges belongs to another property."""
    prop = "C30"

    def __init__(self):
        self.counters = {}

    def obs(self, *a, **k):
        pass
    sig = sample = note = finding = obs

    def fail(self, *a, **k):
        raise Done

    def check(self, cond, *a, **k):
        if not cond:
            raise Done


class Done(Exception):
    pass


def where():
    import pyown
    return os.path.dirname(os.path.abspath(pyown.__file__)) + os.sep


def coroutine_names(root):
    names = set()
    for name, m in list(sys.modules.items()):
        if name == "pyown" or name.startswith("pyown."):
            for o in vars(m).values():
                if inspect.isfunction(o):
                    names.add(o.__qualname__)
                elif inspect.isclass(o) and o.__module__.startswith("pyown"):
                    names |= {getattr(inspect.unwrap(getattr(v, "__func__", v)), "__qualname__", None) for v in vars(o).values()}
    return names - {None}


def blame(exc, root):
    """The innermost frame outside of the standard library, if it is in pyown."""
    frames = [f for f in traceback.extract_tb(exc.__traceback__) if not f.filename.startswith(("/usr/lib", sys.base_prefix + "/lib"))]
    if frames and os.path.abspath(frames[-1].filename).startswith(root):
        return f"{os.path.basename(frames[-1].filename)} {frames[-1].name}: {frames[-1].line}"
    return None


# what asyncio and applications pass to the exception handler of the loop, which pyown replaces by its own
SHAPES = ["bare", "text", "noargs", "chained", "group", "task", "future", "handle", "protocol", "transport", "both", "own_task", "base", "unicode"]


class Handler:
    """The exception handler pyown installs is given each kind of context."""
    bad = []

    @staticmethod
    def run(case, mon):
        shape = case["shape"]

        async def main(loop):
            c, conn, ep = await scen.connected(loop, "cmd")
            name = SHAPES[shape]

            async def failing():
                raise ValueError

            async def good():
                pass
            e = {"noargs": RuntimeError(), "group": ExceptionGroup("g", [KeyError("a"), OSError()]), "base": KeyboardInterrupt("b"),
                 "unicode": ValueError("\u20ac\ud800 %s {} %d"), "chained": None}.get(name, RuntimeError("x"))
            if name == "chained":
                try:
                    try:
                        {}["a"]
                    except KeyError as k:
                        raise ValueError("b") from k
                except ValueError as v:
                    e = v
            if name == "own_task":
                t = asyncio.ensure_future(failing())
                await asyncio.wait([t])
                del t
                gc.collect()
                await asyncio.sleep(1)
                return
            ctx = {"message": "something happened"}
            records = []

            class Keep(logging.Handler):
                def emit(self, record):
                    records.append(record.getMessage() + repr(record.exc_info))
            logging.disable(logging.INFO)
            keep = Keep(logging.WARNING)
            logging.getLogger("pyown").addHandler(keep)
            if name not in ("bare",):
                ctx["exception"] = e
            if name in ("task", "both"):
                ctx["task"] = asyncio.ensure_future(good())
                await asyncio.sleep(1)
            if name in ("protocol", "both"):
                ctx["protocol"] = conn.client_protocol
            if name in ("transport", "both"):
                ctx["transport"] = conn.client_transport
            if name == "future":
                ctx["future"] = loop.create_future()
            if name == "handle":
                ctx["handle"] = loop.call_later(1, print)
                ctx["handle"].cancel()
            for _ in range(3):
                loop.call_exception_handler(dict(ctx))
            logging.getLogger("pyown").removeHandler(keep)
            logging.disable(logging.CRITICAL)
            if "exception" in ctx and sum(str(e) in r for r in records) < 3:
                Handler.bad.append(f"an exception given to the exception handler was not logged ({name})")
            await asyncio.sleep(1)
            k, v = await scen.outcome(c.send_message(_ack()))
            mon.check(k == "ok", "the client is unusable", error=repr(v))
        scen.run(main)


def _ack():
    from pyown.messages import ACK
    return ACK()


def run(case, mon):
    from pyown.exceptions import OWNException
    if case["src"] == "handler":
        mod, inner = Handler, case
    else:
        mod, f = source(case["src"])
        inner = f[case["fixed"]] if "fixed" in case else case["case"]
    root = where()
    names = coroutine_names(root)
    bad = Handler.bad = []

    def on_context(context):
        mon.obs("contexts")
        e, task = context.get("exception"), context.get("task") or context.get("future")
        coro = task.get_coro() if isinstance(task, asyncio.Task) else None
        code = getattr(coro, "cr_code", None) or getattr(coro, "ag_code", None)
        own = code is not None and os.path.abspath(code.co_filename).startswith(root)
        if e is None:
            if own:
                bad.append(f"{context.get('message')} {coro.__qualname__}")
            return
        if "context" not in context and isinstance(e, (OSError, OWNException, UnicodeError, asyncio.CancelledError)):
            mon.obs("reported_" + type(e).__name__)
            return
        at = blame(e, root) or (own and coro.__qualname__)
        if at:
            bad.append(f"{context.get('message')} {type(e).__name__}: {e} at {at}")

    def on_unraisable(u):
        if isinstance(u.exc_value, Exception) and blame(u.exc_value, root):
            bad.append(f"unraisable {u.exc_value!r}")

    old = vloop.ON_CONTEXT, vloop.DEBUG, sys.unraisablehook
    vloop.ON_CONTEXT, vloop.DEBUG, sys.unraisablehook = on_context, True, on_unraisable
    gc.collect()
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            n = vloop.COUNT[0]
            try:
                mod.run(inner, Quiet())
            except Exception:       # judged by the check of that property
                mon.obs("scenario_ended_early")
            gc.collect()
            mon.obs("loops", vloop.COUNT[0] - n)
    finally:
        vloop.ON_CONTEXT, vloop.DEBUG, sys.unraisablehook = old
    for w in seen:
        text = str(w.message)
        if issubclass(w.category, RuntimeWarning) and "never awaited" in text and text.split("'")[1] in names:
            bad.append(text.splitlines()[0])
    mon.obs("scenarios")
    mon.obs("src_" + case["src"])
    mon.check(not bad, f"the library failed internally: {bad[0] if bad else ''}", all=bad[:5], source=case["src"])
    mon.sig(case["src"], inner)


def finish(mon):
    mon.counters["sources"] = sum(1 for s in SOURCES if mon.counters.get("src_" + s))
