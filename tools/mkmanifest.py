#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
TECH = {
    "C01": "stream monitor: delivered messages vs sent frames over cut byte streams on a real transport",
    "C02": "totality and containment monitor under injected garbage",
    "C03": "round-trip oracle over generated frames and constructed messages",
    "C04": "differential oracle: independent classifier of the documented grammar",
    "C05": "CPU-time monitor under hostile inputs of growing size",
    "C06": "algebraic oracle on tags and messages (validation, equality, hash, immutability)",
    "C07": "protocol monitor of the handshake at a scripted gateway with step x fault injection",
    "C08": "differential oracle: bit-vector reference of the OPEN algorithm",
    "C09": "protocol monitor with an independent HMAC implementation and forged confirmations",
    "C10": "resource and time monitor under fault and cancellation injection",
    "C11": "wire monitor: bytes written by every public method in every session state",
    "C12": "trace checker: command outcome vs gateway log under outcome sequences",
    "C13": "trace checker: per-request replies under concurrent schedules, cancellation, delays",
    "C14": "trace checker: yielded values vs gateway log under faults",
    "C15": "wire monitor vs documented frame table, in- and out-of-range arguments",
    "C16": "round-trip oracle of gateway values on the wire",
    "C17": "decoding oracle over generated documented responses",
    "C18": "exactly-once/order trace checker of callbacks vs event stream",
    "C19": "delivery monitor under bad events and failing callbacks",
    "C20": "termination and delivery monitor under connection-end injection",
    "C21": "model-based identity monitor over get_item/event histories",
    "C22": "hooked transport monitor of writes vs pause state, with slow peer and loss",
    "C23": "classification oracle, exhaustive over documented addresses",
    "C24": "history monitor of reconnecting clients with per-connection markers",
    "C25": "exactly-once trace checker of reads under racing timeouts, cancellations and readers",
    "C26": "isolation monitor: healthy clients next to faulty ones, results and latencies per client",
    "C27": "leak sanitizer: live objects, memory, tasks, timers and descriptors after repeated activities",
    "C28": "wire and reply monitor of generic items of every WHO",
    "C31": "end-to-end monitor: example programs as processes against a scripted gateway over loopback TCP",
    "C30": "asyncio debug-mode sanitizer: loop exception contexts, unawaited coroutines, destroyed tasks over the scenarios of all checks",
    "C29": "taint search for the password in wire, logs, exceptions, reprs under fault injection",
}
NOTE = ("Runs the real pyown code of /repo on a deterministic virtual-time asyncio loop over real socket transports; {ex}"
        "randomised beyond that, so it gives evidence for what was executed, not a proof. Trusted: the independent reference "
        "written from docs/original, CPython's asyncio.")
checks = []
for i in range(1, len(TECH) + 1):
    p = f"C{i:02d}"
    m = importlib.import_module("checks." + p.lower())
    ex = "complete over: " + "; ".join(m.EXHAUSTIVE) + "; " if getattr(m, "EXHAUSTIVE", None) else ""
    cmd = "PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python run.py " + p
    checks.append({"property": p, "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough", "technique": "runtime monitoring: " + TECH[p],
                   "level": getattr(m, "LEVEL", "exploration"), "level_note": NOTE.format(ex=ex)})
man = {"version": 1, "setup_cmd": "PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: the monitors wrap transports, protocols and callbacks from outside. Repairs are the fix: commits listed in known_findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
