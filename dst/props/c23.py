"""C23: results do not depend on how the host program is configured."""
import asyncio
import contextlib
import gc
import io
import locale
import os
import pickle
import random
import subprocess
import sys
import threading
import time
import warnings

import numpy as np
import pandas as pd

import boot
import session
from common import *
from props import c04
from sim import StepBudget

ID = "C23"
LEVEL = "exploration"
HOW = "seeded sessions under generated host configurations that change between and inside operations, in worker threads, event loops and differently started interpreters; compared with the plain configuration"
RUNS = {"quick": 480, "thorough": 20000}
RULE = ("a generated session (generate, edit, connect, stack, mesh, assemble, pack, export ...) runs under 1-4 host configurations drawn from "
        "NumPy error handling, pandas options (copy-on-write among them), warning filters, random state, print options, garbage collection, "
        "tracing, streams, environment, locale, working directory, scikit-learn and Matplotlib settings; another part of the host switches "
        "process-wide settings at seeded steps inside operations; some sessions run in a worker thread, an event loop or an interpreter started "
        "with -O, -OO, -bb, -X dev, another hash seed; every result is compared with the same session in the plain configuration; non-trivial: "
        "at least 2 settings differed and 3 operations returned; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["host program (its settings, threads, streams)"] + STUB_BASE}
ASSUMPTIONS = ASSUME + ["floating-point traps and warnings turned into errors concern the library's own steps; warnings that the linear solver "
                        "raises on singular systems (UserWarning) are left as warnings", "NumPy error handling belongs to a thread: it changes between operations only"]

# settings that are process-wide: (name, values)
SHARED = {"seed": [0, 1, 99], "cow": [True], "chained": ["raise", None, "warn"], "inferstr": [True], "silent": [True],
          "numexpr": [False], "bottleneck": [False], "display": [1, 3], "npprint": [1, 3], "legacy": ["1.13"],
          "filters": ["always", "default", "once", "error-future", "error-deprecation", "error-runtime", "error-pandas"],
          "gc": ["off", "eager"], "env": ["C", "tr_TR.UTF-8", "TZ"], "cwd": ["/", "gone"], "out": ["none", "ascii"], "sklearn": ["finite", "memory"],
          "mpl": ["rc", "style"], "tracer": ["trace", "profile"], "switch": [1e-6, 1.0], "digits": [640], "special": ["raise"], "rlimit": [900, 100000]}
LOCAL = {"err": ["raise", "warn", "ignore", "call", "log", "print", "divide", "invalid", "over", "under"], "decimal": [2], "buffer": [16, 100000]}
FLAGS = [["-O"], ["-OO"], ["-bb"], ["-X", "dev"], ["-X", "utf8=0"], ["-W", "error::FutureWarning:fibermat"], ["-O", "-bb"], []]


HOME = os.getcwd()


def gen_conf(r, local=True):
    c = {}
    pool = dict(SHARED, **(LOCAL if local else {}))
    for k in r.sample(sorted(pool), r.choice([1, 2, 3, 5, 8])):
        c[k] = r.choice(pool[k])
    for k, p in (("err", 0.3), ("cow", 0.3), ("filters", 0.2)):
        if k in pool and r.random() < p:
            c[k] = r.choice(pool[k])
    return c


def generate(r, i, tier):
    sc = c04.generate(r, i, tier)
    ops = sc["ops"]
    for op in ops:
        if op["op"] == "solve" and r.random() < 0.2:
            op["kw"]["backend"] = r.choice(["dense", "lu"])
    confs = [[k, gen_conf(r)] for k in sorted(r.sample(range(len(ops)), min(len(ops), r.choice([1, 1, 2, 3]))))]
    confs[0][0] = 0
    switches = []
    for _ in range(r.choice([0, 1, 2, 4])):
        switches.append({"op": r.randrange(len(ops)), "pick": [r.random(), r.random()], "conf": gen_conf(r, False)})
    where = r.choice(["main"] * 5 + ["thread"] * 3 + ["loop"] * 2)
    start = None
    if r.random() < 0.06:
        start = {"flags": r.choice(FLAGS), "hash": r.randrange(1, 1000), "strict": r.random() < 0.5}
    return {"ops": ops, "confs": confs, "switches": switches, "where": where, "start": start, "gran": "line"}


# -- the host ---------------------------------------------------------------------------------------------------------

@contextlib.contextmanager
def setting(name, v):
    if name == "seed":
        a, b = np.random.get_state(), random.getstate()
        np.random.seed(v)
        random.seed(v)
        try:
            yield
        finally:
            np.random.set_state(a)
            random.setstate(b)
    elif name in ("cow", "chained", "inferstr", "silent", "numexpr", "bottleneck", "display"):
        opts = {"cow": ["mode.copy_on_write", v], "chained": ["mode.chained_assignment", v], "inferstr": ["future.infer_string", v],
                "silent": ["future.no_silent_downcasting", v], "numexpr": ["compute.use_numexpr", v],
                "bottleneck": ["compute.use_bottleneck", v], "display": ["display.precision", v, "display.max_rows", v]}[name]
        with pd.option_context(*opts):
            yield
    elif name == "npprint":
        with np.printoptions(precision=v, suppress=True, threshold=3):
            yield
    elif name == "legacy":
        with np.printoptions(legacy=v):
            yield
    elif name == "filters":
        with warnings.catch_warnings():
            if v.startswith("error"):
                warnings.simplefilter("error", {"future": FutureWarning, "deprecation": DeprecationWarning, "runtime": RuntimeWarning,
                                                "pandas": pd.errors.PerformanceWarning}[v[6:]])
            else:
                warnings.simplefilter(v)
            yield
    elif name == "gc":
        on, th = gc.isenabled(), gc.get_threshold()
        gc.disable() if v == "off" else gc.set_threshold(20, 2, 2)
        try:
            yield
        finally:
            gc.set_threshold(*th)
            gc.enable() if on else gc.disable()
    elif name == "env":
        old = dict(os.environ)
        if v == "TZ":
            os.environ["TZ"] = "Asia/Kolkata"
            time.tzset()
        else:
            os.environ.update(LANG=v, LC_ALL=v, LC_NUMERIC=v, OMP_NUM_THREADS="7", FIBERMAT="1", PYTHONOPTIMIZE="2", DEBUG="1")
            old_l = locale.setlocale(locale.LC_ALL)
            try:
                locale.setlocale(locale.LC_ALL, "C.UTF-8")
            except locale.Error:
                pass
        try:
            yield
        finally:
            os.environ.clear()
            os.environ.update(old)
            locale.setlocale(locale.LC_ALL, old_l) if v != "TZ" else time.tzset()
    elif name == "cwd":
        old, d = HOME, "/"
        if v == "gone":
            d = os.path.join(os.environ["DST_SCRATCH"], "gone%d" % os.getpid())
            os.makedirs(d, exist_ok=True)
        os.chdir(d)
        if v == "gone":
            os.rmdir(d)
        try:
            yield
        finally:
            os.chdir(old)                               # switches nest: every part of the host returns to where it started
    elif name == "out":
        old = sys.stdout, sys.stderr
        new = None if v == "none" else io.TextIOWrapper(io.BytesIO(), encoding="ascii")
        sys.stdout = sys.stderr = new
        try:
            yield
        finally:
            sys.stdout, sys.stderr = old
    elif name == "sklearn":
        import sklearn
        with sklearn.config_context(**({"assume_finite": True} if v == "finite" else {"working_memory": 1})):
            yield
    elif name == "mpl":
        import matplotlib
        with matplotlib.rc_context({"figure.max_open_warning": 1, "axes.grid": True, "font.size": 20} if v == "rc" else {"figure.figsize": (2, 2), "lines.linewidth": 9}):
            yield
    elif name == "tracer":
        if v == "trace":
            old = sys.gettrace()
            sys.settrace(lambda *a: None)
        else:
            old = sys.getprofile()
            sys.setprofile(lambda *a: None)
        try:
            yield
        finally:
            sys.settrace(old) if v == "trace" else sys.setprofile(old)
    elif name == "switch":
        old = sys.getswitchinterval()
        sys.setswitchinterval(v)
        try:
            yield
        finally:
            sys.setswitchinterval(old)
    elif name == "digits":
        old = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(v)
        try:
            yield
        finally:
            sys.set_int_max_str_digits(old)
    elif name == "rlimit":
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(v)
        try:
            yield
        finally:
            sys.setrecursionlimit(old)
    elif name == "special":
        import scipy.special
        with scipy.special.errstate(singular="raise", domain="raise", overflow="raise"):
            yield
    elif name == "err":
        kw = {"all": v} if v in ("raise", "warn", "ignore", "call", "log", "print") else {v: "raise"}
        old = np.geterrcall()
        if v == "call":
            np.seterrcall(lambda *a: None)
        elif v == "log":
            np.seterrcall(type("Log", (), {"write": staticmethod(lambda s: None)})())
        try:
            with np.errstate(**kw):
                yield
        finally:
            np.seterrcall(old)
    elif name == "decimal":
        import decimal
        with decimal.localcontext() as c:
            c.prec = v
            yield
    elif name == "buffer":
        old = np.setbufsize(v)
        try:
            yield
        finally:
            np.setbufsize(old)


def quiet(conf, op):
    """What a setting is documented to do to third-party code the operation consists of is not asked for."""
    conf = dict(conf)
    if op["op"] == "plot":                              # Matplotlib itself warns, traps and draws
        for k in ("err", "filters", "special", "out"):
            conf.pop(k, None)
    return conf


# -- the session ------------------------------------------------------------------------------------------------------

def configured(sc, ords):
    """The session under the host's settings."""
    boot_filters = list(warnings.filters)
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install()
    real_call = session.call
    state = {"conf": {}, "later": contextlib.ExitStack()}

    def call(world, op):
        conf = quiet(state["conf"], op)
        with contextlib.ExitStack() as stack:
            state["stack"] = stack
            for k in sorted(conf):
                stack.enter_context(setting(k, conf[k]))
                sim.fired["set_" + k] += 1
            return real_call(world, op)

    world, recs = {}, []

    def body():
        for k, op in enumerate(sc["ops"]):
            for at, conf in sc["confs"]:
                if at == k:
                    state["conf"] = conf
                    sim.log("configure", k, sorted(conf.items(), key=str))
            inj = None
            mine = [s for s in sc["switches"] if s["op"] == k]
            o = [o for o in ords.get(k, []) if o is not None]
            if mine and o:
                def turn(conf=quiet(mine[0]["conf"], op)):
                    for name in sorted(conf):
                        state["stack"].enter_context(setting(name, conf[name]))
                        sim.fired["inside_" + name] += 1
                inj = (o[0], "host_switches", turn)
            recs.append(session.run_op(sim, sim.main, world, op, inject=inj))
            if recs[-1]["status"] == "stuck":
                return

    async def main():
        await asyncio.sleep(0)
        body()
        await asyncio.sleep(0)

    session.call = call
    errors = []
    try:
        if sc["where"] == "main":
            body()
        elif sc["where"] == "loop":
            asyncio.run(main())
        else:
            def guarded():
                try:
                    body()
                except BaseException as e:
                    errors.append(e)
            t = threading.Thread(target=guarded)
            t.start()
            t.join()
    finally:
        session.call = real_call
    if errors:
        raise errors[0]
    out = {"recs": strip(recs), "summary": sim.summary()}
    sim.uninstall()
    return out


def spawned(sc, ords):
    """The same in an interpreter started in another way."""
    st = sc["start"]
    r1, w1 = os.pipe()
    env = dict(os.environ, PYTHONHASHSEED=str(st["hash"]), DST_HASHSEED=str(st["hash"]))
    if st["strict"]:
        env["DST_STRICT"] = "1"
    p = subprocess.Popen([sys.executable] + st["flags"] + [os.path.join(boot.HERE, "spawned.py"), "c23", "configured", str(w1)],
                         stdin=subprocess.PIPE, pass_fds=(w1,), env=env)
    os.close(w1)
    try:
        p.stdin.write(pickle.dumps((sc, ords)))
        p.stdin.close()
    except BrokenPipeError:
        pass
    with os.fdopen(r1, "rb") as f:
        data = f.read()
    p.wait()
    if not data:
        raise RuntimeError("the interpreter gave no result (%s)" % p.returncode)
    ok, val = pickle.loads(data)
    if not ok:
        if "SyntaxError" in val.split("\n")[-2]:
            return {"unusable": val}
        raise RuntimeError(val)
    return val


def run(sc):
    picks = {}
    for s in sc["switches"]:
        if s["op"] < len(sc["ops"]):
            picks.setdefault(s["op"], []).append(s["pick"])
    ref = isolated(serial, "ref", sc["id"], sc["ops"], True, picks, sc["gran"])
    got = isolated(spawned if sc["start"] else configured, sc, ref["ordinals"])
    viol = []
    if "unusable" in got:
        msg = got["unusable"].strip().split("\n")[-1]
        return {"violations": [{"kind": "import", "detail": "the library cannot be imported when warnings are errors: " + msg}], "stats": ref["summary"],
                "nontrivial": False, "key": None, "digest": ref["summary"]["digest"], "trace": []}
    for k, rec in enumerate(got["recs"]):
        if k >= len(ref["recs"]):
            break
        conf = [c for at, c in sc["confs"] if at <= k][-1:]
        v = compare(ref["recs"][k], rec, "op %d under %s%s" % (k, conf, " in a %s" % sc["where"] if sc["where"] != "main" else ""))
        if v:
            viol.append(v)
            break
    s = got["summary"]
    st = merge(ref["summary"], s)
    st["sig"] = s["digest"]
    done = sum(r["status"] == "ok" for r in got["recs"])
    return {"violations": viol, "stats": st, "nontrivial": len(s["fired"]) >= 2 and done >= 3, "key": s["digest"], "digest": s["digest"], "trace": s["trace"]}
