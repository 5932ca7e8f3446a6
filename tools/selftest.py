#!/usr/bin/env python3
"""Setup: nothing to build (pure Python, imported from /repo at each run); checks that the interpreter and the harness load."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
from harness import ref, vloop  # noqa: E402
import asyncio  # noqa: E402


async def main(loop):
    t = loop.now
    await asyncio.sleep(1000)
    return loop.now - t

assert vloop.run(main)[0] == 1000
assert str(ref.open_pass(12345, "603356072")) == "25280520"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok")
