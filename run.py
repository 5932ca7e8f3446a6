#!/usr/bin/env python3
"""Runs the monitors of one property against the pyown working tree.

    run.py <ID> [quick|thorough] [--seed N] [--jobs N]      run the check
    run.py --replay <file>                                  run again the case of a reported violation

exit 0: the property held on everything executed; exit 1: violated (a VIOLATION line is printed);
exit 2: inconclusive (an error of the harness, or the monitors observed too little).
"""
import argparse
import hashlib
import importlib
import json
import logging
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
from harness import clock  # noqa: E402  before pyown

CPU_CASE = 30.0        # CPU seconds a single case may use
BLOCK_PERIOD = 25.0    # a case that uses (almost) no CPU for that long is blocked outside of asyncio
MEM = 3 << 30
WALL = {"quick": 240.0, "thorough": 3000.0}     # stop starting new cases after that (recorded in the evidence)


class CpuExceeded(KeyboardInterrupt):
    """KeyboardInterrupt is the only kind of exception that asyncio never swallows."""


class Blocked(KeyboardInterrupt):
    pass


class CaseFailed(Exception):
    pass


class Mon:
    """Collects what the monitors observe."""

    def __init__(self, prop, findings):
        self.prop = prop
        self.findings = findings
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.case_violations = []

    def obs(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.blake2b(repr(parts).encode("utf8", "backslashreplace"), digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def note(self, msg, **detail):
        """Records a violation and goes on with the case."""
        if len(self.case_violations) < 5:
            self.case_violations.append({"message": msg, "detail": {k: repr(v)[:2000] for k, v in detail.items()}})

    def fail(self, msg, **detail):
        self.note(msg, **detail)
        raise CaseFailed(msg)

    def check(self, cond, msg, **detail):
        self.obs("assertions")
        if not cond:
            self.fail(msg, **detail)

    def finding(self, fid, msg, **detail):
        """A violation that is the listed known finding `fid` (by mechanism), or a violation if it isn't listed."""
        f = self.findings.get(fid)
        if f is None or f["property"] != self.prop:
            self.fail(msg, **detail)
        self.known[fid] = self.known.get(fid, 0) + 1


def load_findings():
    with open(os.path.join(HERE, "known_findings.json")) as fh:
        return {f["id"]: f for f in json.load(fh)["known"]}


def load_check(prop):
    import pyown
    where = os.path.abspath(pyown.__file__)
    if not where.startswith(REPO + os.sep):
        raise SystemExit(f"pyown was imported from {where}, not from {REPO}")
    return importlib.import_module("checks." + prop.lower())


_now_case = {"t": 0.0, "cpu": 0.0}


def _on_prof(signum, frame):
    raise CpuExceeded(f"more than {CPU_CASE} CPU seconds")


def _on_alarm(signum, frame):
    wall = clock.REAL_MONOTONIC() - _now_case["t"]
    cpu = time.process_time() - _now_case["cpu"]
    if cpu < 0.04 * wall:
        raise Blocked(f"blocked for {wall:.0f} s outside of the event loop")


def _arm(on):
    if on:
        _now_case["t"] = clock.REAL_MONOTONIC()
        _now_case["cpu"] = time.process_time()
        signal.setitimer(signal.ITIMER_PROF, CPU_CASE, 2.0)
        signal.setitimer(signal.ITIMER_REAL, BLOCK_PERIOD, BLOCK_PERIOD)
    else:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _in_pyown(tb):
    for f in traceback.extract_tb(tb):
        if os.path.abspath(f.filename).startswith(os.path.join(REPO, "pyown") + os.sep):
            return True
    return False


def run_one(mod, case, mon):
    """Runs one case, returns (violations, harness error or None)."""
    from harness import vloop
    mon.case_violations = []
    error = None
    blocked = 0
    while True:
        try:
            _arm(True)
            try:
                mod.run(case, mon)
            finally:
                _arm(False)
        except CaseFailed:
            pass
        except CpuExceeded as e:
            mon.note(f"the code does not finish: {e}", traceback=traceback.format_exc(limit=-6))
        except Blocked as e:
            blocked += 1
            if blocked < 2:
                mon.case_violations = []
                continue
            mon.note(f"the code blocks the whole event loop: {e}", traceback=traceback.format_exc(limit=-6))
        except (vloop.Quiescent, vloop.Horizon) as e:
            mon.note(f"the scenario never ends: {e}")
        except MemoryError:
            mon.note("out of memory", traceback=traceback.format_exc(limit=-6))
        except vloop.HarnessError as e:
            error = str(e)
        except BaseException as e:
            if isinstance(e, SystemExit) or _in_pyown(e.__traceback__):
                mon.note(f"unexpected {type(e).__name__}: {e}", traceback=traceback.format_exc())
            elif isinstance(e, (TypeError, AttributeError, ValueError, LookupError)):
                # the oracle expects certain values and got others (e.g. None for a message)
                mon.note(f"the library gave something that can't be interpreted: {type(e).__name__}: {e}", traceback=traceback.format_exc())
            else:
                error = traceback.format_exc()
        break
    return mon.case_violations, error


def build_case(mod, fixed, prop, seed, tier, idx):
    if idx < len(fixed):
        return fixed[idx]
    i = idx - len(fixed)
    return mod.rand(random.Random(f"{prop}:{seed}:{i}"), tier)


def isolated(mod, case, mon):
    """One fork per case: the callbacks registered on the item classes of pyown are global and can't be removed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            sub = Mon(mon.prop, mon.findings)
            v, e = run_one(mod, case, sub)
            with os.fdopen(w, "wb") as fh:
                pickle.dump((v, e, sub.counters, sub.sigs, sub.samples, sub.known), fh)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if not data or status:
        return [], f"the isolated case died with status {status}"
    v, e, counters, sigs, samples, known = pickle.loads(data)
    for k, n in counters.items():
        mon.obs(k, n)
    mon.sigs |= sigs
    for s in samples:
        mon.sample(s)
    for k, n in known.items():
        mon.known[k] = mon.known.get(k, 0) + n
    return v, e


def worker(prop, tier, seed, j, jobs, total, fixed, mod, findings, out, deadline, current):
    logging.disable(logging.CRITICAL)
    null = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(null, fd)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)
    mon = Mon(prop, findings)
    res = {"done": 0, "violations": [], "errors": [], "truncated": False}
    for idx in range(j, total, jobs):
        if time.monotonic() > deadline and idx >= len(fixed):
            res["truncated"] = True
            break
        with open(current, "w") as fh:
            fh.write(str(idx))
        case = build_case(mod, fixed, prop, seed, tier, idx)
        f = isolated if getattr(mod, "ISOLATE", False) else run_one
        v, e = f(mod, case, mon)
        res["done"] += 1
        if e:
            res["errors"].append({"index": idx, "case": repr(case)[:2000], "error": e})
        if v:
            res["violations"].append({"index": idx, "case": repr(case)[:6000], "violations": v})
            if len(res["violations"]) >= 2:
                break
        elif not e and idx % 97 == j % 97 or len(mon.samples) < 2:
            mon.sample({"case": repr(case)[:600]})
    if hasattr(mod, "finish"):
        mod.finish(mon)
    res.update(counters=mon.counters, sigs=mon.sigs, samples=mon.samples, known=mon.known)
    with open(out, "wb") as fh:
        pickle.dump(res, fh)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--n", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier, seed = a.prop.upper(), a.tier, a.seed
    if tier not in ("quick", "thorough"):
        raise SystemExit("tier is quick or thorough")
    t0 = time.monotonic()
    try:
        mod = load_check(prop)
    except ImportError:
        traceback.print_exc()
        return 2
    findings = load_findings()
    fixed = list(mod.fixed(tier))
    n = a.n if a.n is not None else mod.N[tier]
    total = len(fixed) + n
    jobs = a.jobs or min(8, os.cpu_count() or 1, max(1, total // 8))
    deadline = t0 + WALL[tier]
    tmp = tempfile.mkdtemp(prefix="verif-")
    results, dead = [], []
    try:
        pids = {}
        for j in range(jobs):
            out, cur = os.path.join(tmp, f"{j}.pkl"), os.path.join(tmp, f"{j}.cur")
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(prop, tier, seed, j, jobs, total, fixed, mod, findings, out, deadline, cur)
                except BaseException:
                    code = 3
                    try:
                        with open(os.path.join(tmp, f"{j}.err"), "w") as fh:
                            traceback.print_exc(file=fh)
                    except BaseException:
                        pass
                os._exit(code)
            pids[pid] = j
        while pids:
            pid, status = os.wait()
            j = pids.pop(pid, None)
            if j is None:
                continue
            out = os.path.join(tmp, f"{j}.pkl")
            if status == 0 and os.path.exists(out):
                with open(out, "rb") as fh:
                    results.append(pickle.load(fh))
            else:
                err = os.path.join(tmp, f"{j}.err")
                cur = os.path.join(tmp, f"{j}.cur")
                dead.append((status, open(cur).read() if os.path.exists(cur) else "?",
                             open(err).read() if os.path.exists(err) else ""))
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)

    counters, sigs, samples, known, violations, errors = {}, set(), [], {}, [], []
    done, truncated = 0, False
    for r in results:
        done += r["done"]
        truncated |= r["truncated"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs |= r["sigs"]
        samples += r["samples"][:2]
        violations += r["violations"]
        errors += r["errors"]
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    for status, cur, err in dead:
        errors.append({"index": cur, "case": "?", "error": f"worker died, status {status}: {err}"})
    violations.sort(key=lambda v: v["index"])

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    lines = []
    for v in violations[:3]:
        path = os.path.join(evdir, "replay", f"{prop}-{seed}-{tier}-{v['index']}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "seed": seed, "tier": tier, **v}, fh, indent=1)
        for x in v["violations"][:2]:
            print(f"{prop} case {v['index']}: {x['message']}")
            for k, d in x["detail"].items():
                print(f"    {k}: {d[:800]}")
        print(f"    case: {v['case'][:1200]}")
        lines.append(f"VIOLATION property={prop} replay={path}")

    short = {k: m for k, m in getattr(mod, "REQUIRE", {}).items() if counters.get(k, 0) < m}
    wall = time.monotonic() - t0
    coverage = {
        "evaluations": done, "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples[:8],
        "fixed_cases": len(fixed), "random_cases": max(0, done - len(fixed)), "observed": dict(sorted(counters.items())),
        "truncated_by_time": truncated, "known_findings_seen": known,
        "repo": REPO, "jobs": jobs,
    }
    if getattr(mod, "EXHAUSTIVE", None):
        coverage["exhaustive_parts"] = mod.EXHAUSTIVE
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": coverage, "wall_s": round(wall, 3), "violations": len(violations),
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for fid in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {findings[fid]['what']}")
    print(f"{prop} {tier} seed={seed}: {done} cases ({len(fixed)} fixed), {len(sigs)} distinct, "
          f"{counters.get('assertions', 0)} assertions, {len(violations)} violating, {wall:.1f} s")
    for line in lines:
        print(line)
    if violations:
        return 1
    if errors:
        print(f"HARNESS ERROR ({len(errors)}): {errors[0]['error']}\n{errors[0]['case']}", file=sys.stderr)
        return 2
    if short:
        print(f"INCONCLUSIVE: the monitors observed too little: "
              f"{ {k: (counters.get(k, 0), m) for k, m in short.items()} }", file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    mod = load_check(r["property"])
    fixed = list(mod.fixed(r["tier"]))
    case = build_case(mod, fixed, r["property"], r["seed"], r["tier"], r["index"])
    print("case:", repr(case)[:4000])
    if not os.environ.get("VERIF_LOG"):
        logging.disable(logging.CRITICAL)
    else:
        logging.basicConfig(level=logging.DEBUG)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)
    v, e = run_one(mod, case, Mon(r["property"], load_findings()))
    for x in v:
        print("violated:", x["message"])
        for k, d in x["detail"].items():
            print(f"    {k}: {d}")
    if e:
        print(e)
    print("reproduced" if v else "held")
    return 1 if v else 0


if __name__ == "__main__":
    sys.exit(main())
