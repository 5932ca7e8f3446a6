"""Wall clocks that follow the virtual loop while one runs. Imported before pyown, so `from time import monotonic` gets them too."""
import time

loop = None             # the virtual loop that runs
REAL_MONOTONIC, REAL_TIME, REAL_SLEEP = time.monotonic, time.time, time.sleep
EPOCH = REAL_TIME()


def monotonic():
    return REAL_MONOTONIC() if loop is None else loop.time()


def wall():
    return REAL_TIME() if loop is None else EPOCH + loop.now


def sleep(seconds):
    """A blocking sleep costs virtual time."""
    if loop is None:
        REAL_SLEEP(seconds)
    else:
        loop._vnow += max(0.0, seconds)


REAL_NS = time.monotonic_ns, time.time_ns, time.perf_counter, time.perf_counter_ns


def _of(i, scale):
    return lambda: REAL_NS[i]() if loop is None else scale()


time.monotonic, time.time, time.sleep = monotonic, wall, sleep
time.monotonic_ns, time.time_ns = _of(0, lambda: int(loop.time() * 1e9)), _of(1, lambda: int(wall() * 1e9))
time.perf_counter, time.perf_counter_ns = _of(2, lambda: loop.time()), _of(3, lambda: int(loop.time() * 1e9))
