"""Dispatchers in front of every source of nondeterminism the library can reach.

`SIM` is the active simulation (sim.Sim) or None; with None everything is the real thing.
"""
import sys
import time
import random

SIM = None
real = {}
REAL_TIME = time.time
REAL_MONO = time.monotonic


def _clock(name):
    f = getattr(time, name)
    real[name] = f
    ns = name.endswith("_ns")

    def clock():
        s = SIM
        if s is None or not s.in_library_call:
            return f()
        t = s.clock_read()
        return int(t * 1e9) if ns else t
    clock.__name__ = name
    return clock


def _in_repo(frame):
    import boot
    return frame.f_code in boot.CODES


def install():
    for name in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns"):
        setattr(time, name, _clock(name))
    real["sleep"] = time.sleep

    def sleep(dt):
        s = SIM
        if s is None or not s.in_library_call:
            return real["sleep"](dt)
        s.clock_now += max(0.0, dt)
        s.yield_point("sleep")
    time.sleep = sleep

    # Entropy: random, secrets and unseeded NumPy generators all end in random._urandom
    real["urandom"] = random._urandom

    def urandom(n):
        s = SIM
        if s is None or not s.in_library_call:
            return real["urandom"](n)
        s.count("entropy_read")
        return s.entropy.randbytes(n)
    random._urandom = urandom

    # Locks created by library code (none today) are scheduled by the simulator
    import threading
    import simlock
    for name, cls in (("Lock", simlock.SimLock), ("RLock", simlock.SimRLock)):
        orig = getattr(threading, name)
        real[name] = orig

        def factory(*a, _orig=orig, _cls=cls, **k):
            if _in_repo(sys._getframe(1)):
                return _cls()
            return _orig(*a, **k)
        setattr(threading, name, factory)

    # LP solver behind the stacking
    import scipy.optimize
    real["linprog"] = scipy.optimize.linprog

    def linprog(*a, **k):
        s = SIM
        if s is not None and s.lp is not None:
            return s.lp(real["linprog"], a, k)
        return real["linprog"](*a, **k)
    linprog.__doc__ = real["linprog"].__doc__
    scipy.optimize.linprog = linprog


def after_import():
    import tqdm
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0        # no monitor thread
    # tqdm.std bound `time` at import: it was imported after install(), so it is our dispatcher already;
    # make sure of it whatever the import order was.
    tqdm.std.time = time.time
