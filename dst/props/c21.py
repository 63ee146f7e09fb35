"""C21: dropped results are released; a long session does not accumulate."""
import copy
import gc
import os
import shutil
import sys
import tempfile
import threading
import types
import weakref
from collections import Counter

import numpy as np
import pandas as pd

import boot
import fibermat
import session
from common import *
from props import c04

ID = "C21"
LEVEL = "exploration"
HOW = "seeded sessions repeated round after round in one process with varying parameters, interrupts, cancellations and failing seams; live objects, library-owned state, descriptors, threads and files are counted after every round"
RUNS = {"quick": 320, "thorough": 12000}
RULE = ("a generated session is repeated 6 times in one process, each round with other seeds and sizes and (in most runs) 1-3 faults; after every "
        "round the client drops what it holds: every object it was given or had passed in must be gone (weak references), and neither the "
        "library's own state nor the population of any type of object, open descriptors, threads, figures or files may grow from round to "
        "round; non-trivial: at least 12 operations executed; distinct by event-log digest")
COMPONENTS = c04.COMPONENTS
ASSUMPTIONS = c04.ASSUMPTIONS + ["reference cycles are collected before counting (gc.collect)",
                                 "a panel is excluded: ipywidgets registers every widget until it is closed"]
ROUNDS = 6


def generate(r, i, tier):
    sc = c04.generate(r, i, tier)
    sc["ops"] = [op for op in sc["ops"] if op["op"] not in ("settings", "settings_mat")]
    for op in sc["ops"]:
        if op["op"] == "net" and r.random() < 0.2:
            op["kw"]["pairs"] = r.choice(["all", str(r.randrange(100))])
        if op["op"] == "solve" and r.random() < 0.2:
            op["kw"]["perm"] = r.choice(["rcm", "reverse", str(r.randrange(100))])
        if op["op"] == "solve" and r.random() < 0.3:
            op["kw"]["verbose"] = True
    sc["faults"] = [f for f in sc["faults"] if "sweep" not in f][:3]
    if r.random() < 0.25:
        sc["faults"] = []
    sc["gran"] = "line"
    sc["vary"] = r.choice(["seed", "seed", "all", "none"])
    sc["keep"] = r.random() < 0.25                             # the fibre sets stay, everything is recomputed from them
    for f in sc["faults"]:
        if f["kind"] == "backend":
            f["answer"] = r.choice(["raise", "garbage", "nan"])
    sc["catch"] = r.choice(["drop", "drop", "hold"])           # what the client does with the exceptions it catches
    return sc


def varied(sc, k):
    ops = copy.deepcopy(sc["ops"])
    for op in ops:
        if op["op"] == "mat" and sc["vary"] != "none":
            op["kw"]["seed"] = op["kw"].get("seed", 0) + 1000 * k
            if sc["vary"] == "all":
                op["kw"]["size"] = op["kw"]["size"] * (1 + 0.03 * k)
                op["kw"]["length"] = round(op["kw"]["length"] * (1 + 0.01 * k), 3)
    return ops


def parts(x, depth=0):
    """The objects a client holds through one result."""
    if isinstance(x, (pd.DataFrame, np.ndarray)):
        yield x
        if isinstance(x, pd.DataFrame) and type(x).__module__.startswith("fibermat"):
            yield from ()
    elif isinstance(x, (tuple, list)) and depth < 3:
        for y in x:
            yield from parts(y, depth + 1)
    elif isinstance(x, dict) and depth < 3:
        for y in x.values():
            yield from parts(y, depth + 1)
    elif hasattr(x, "tocsr") and hasattr(x, "data"):
        yield x
        if isinstance(x.data, np.ndarray):
            yield x.data
    elif hasattr(x, "points") or (callable(x) and hasattr(x, "y")):
        yield x


def refs_of(world):
    out = []
    for name, v in world.items():
        for y in parts(v):
            try:
                out.append((name.split("!")[-1] if "!" in name else type(y).__name__, weakref.ref(y)))
            except TypeError:
                pass
    return out


MODS = [m for n, m in sorted(sys.modules.items()) if n == "fibermat" or n.startswith("fibermat.")]


def owned():
    """Objects reachable from the library's own modules, functions and classes (not through other modules)."""
    names = {m.__name__ for m in MODS}
    seen, todo = set(), []
    for m in MODS:
        for k, v in vars(m).items():
            if k.startswith("__") and k not in ("__warningregistry__",):
                continue
            if isinstance(v, types.ModuleType):
                continue
            if isinstance(v, (type, types.FunctionType)) and getattr(v, "__module__", "") not in names:
                continue
            todo.append(v)
    count = Counter()
    while todo and len(seen) < 200_000:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        t = type(x)
        if isinstance(x, types.ModuleType):
            continue
        if isinstance(x, (type, types.FunctionType)) and getattr(x, "__module__", "") not in names:
            continue
        if isinstance(x, types.CodeType) or x is sys.modules or (isinstance(x, dict) and "__builtins__" in x):
            continue
        if isinstance(x, type):
            todo += [v for k, v in vars(x).items() if k not in ("__dict__", "__weakref__", "__doc__", "__mro__", "__subclasshook__")]
            continue
        count[t.__name__] += 1
        if isinstance(x, (str, bytes, int, float, bool, type(None), np.generic)):
            continue
        more = gc.get_referents(x)
        count["references"] += len(more)
        todo += more
    return count


def census():
    gc.collect()
    c = Counter()
    for x in gc.get_objects():
        t = type(x)
        if t is not weakref.ref:                           # pandas' own book-keeping of views: cleared from time to time
            c["%s.%s" % (t.__module__, t.__qualname__)] += 1
    from matplotlib import pyplot as plt
    own = owned()
    out = {"owned " + k: v for k, v in own.items()}
    out.update({"live " + k: v for k, v in c.items()})
    out["descriptors"] = len(os.listdir("/proc/self/fd"))
    out["threads"] = threading.active_count()
    out["figures"] = len(plt.get_fignums())
    return out


def body(sc, ords):
    sim = Sim("run", sc["id"], sc["gran"], budget=12_000_000)
    scratch = tempfile.mkdtemp(prefix="dst-c21-")
    os.chdir(scratch)
    os.environ["TMPDIR"] = tempfile.tempdir = scratch
    sim.install()
    out = {"viol": [], "ops": 0}
    held, kept = [], {}
    real_backend = session.backend
    from matplotlib import pyplot as plt

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        return out

    def one_round(k, world, given):
        for j, op in enumerate(varied(sc, 0 if sc["keep"] else k)):
            if op["op"] in ("mat", "edit") and sc["keep"] and k:
                continue
            for f in [f for f in sc["faults"] if f["op"] == j]:
                inject = None
                if f["kind"] == "lp":
                    if op["op"] != "stack":
                        continue
                    sim.lp = c04.lp_failure(f["how"])
                    sim.fire("lp_" + f["how"])
                    rec = session.run_op(sim, sim.main, world, op, keep=False)
                    sim.lp = None
                elif f["kind"] == "backend":
                    if op["op"] != "solve":
                        continue
                    calls = [0]

                    def failing(A, b, calls=calls, at=f["call"], how=f["answer"]):
                        calls[0] += 1
                        given.append(weakref.ref(b))
                        if calls[0] == at + 1:
                            sim.fire("backend_raise", at)
                            if how == "raise":
                                raise c04.SolverDown("linear solver unavailable")
                            return np.full(len(b), 1e3 if how == "garbage" else np.nan)
                        return real_backend("spsolve")(A, b)
                    session.backend = lambda name: failing
                    given.append(weakref.ref(failing))
                    rec = session.run_op(sim, sim.main, world, dict(op, kw=dict(op.get("kw", {}), backend="x")), keep=False)
                    session.backend = real_backend
                    del failing
                else:
                    if ords.get(j) is None:
                        continue
                    rec = session.run_op(sim, sim.main, world, op, keep=False, inject=(ords[j], f["kind"]))
                out["ops"] += 1
                if sc["catch"] == "hold" and rec.get("exc_obj") is not None:
                    held.append(rec["exc_obj"])
                rec.clear()
            rec = session.run_op(sim, sim.main, world, op, keep=False)
            out["ops"] += rec["status"] != "skipped"
            stuck = rec["status"] == "stuck"
            rec.clear()
            if stuck:
                return "an operation does not finish"

    counts, late = [], Counter()
    import io
    sys.stderr = io.StringIO()
    gc.collect()
    gc.freeze()
    for k in range(ROUNDS):
        world, given = dict(kept), []
        bad = one_round(k, world, given)
        if bad:
            return done("stuck", bad)
        if sc["keep"] and not k:
            kept.update({op["out"]: world[op["out"]] for op in sc["ops"] if op["op"] == "mat" and op["out"] in world})
        mine = {id(y) for y in parts(kept)}
        refs = [x for x in refs_of(world) if id(x[1]()) not in mine] + [("argument", g) for g in given]
        made = world.get("!figures", 0)
        figs = len(plt.get_fignums())
        if figs != made:
            return done("figures", "round %d: %d figures open, the client opened %d" % (k, figs, made))
        plt.close("all")
        world.clear()
        held.clear()
        sim.main.profile = sim.main.inject = None
        sys.stderr = io.StringIO()
        c = census()
        alive = Counter(n for n, x in refs if x() is not None)
        del refs, given
        sim.count("released", 1)
        sim.log("round", k, sorted(alive.items()))
        if alive and k:
            late.update(alive)
            if k == ROUNDS - 1:
                return done("retained", "round %d: objects still alive after the client dropped everything: %s" % (k, dict(alive)))
        if os.listdir(scratch):
            return done("files", "round %d: files left behind: %s" % (k, sorted(os.listdir(scratch))[:5]))
        counts.append(c)
    for name in sorted(set().union(*counts)):
        v = [c.get(name, 0) for c in counts]
        if all(b > a for a, b in zip(v[1:], v[2:])):
            return done("growth", "%s grows every round: %s" % (name, v))
    return done()


def run(sc):
    sc = dict(sc)
    picks = {}
    for f in sc["faults"]:
        if f["op"] < len(sc["ops"]) and "pick" in f:
            picks.setdefault(f["op"], []).append(f["pick"])
    ords = {}
    if picks:
        ords = {k: v[0] for k, v in isolated(serial, "ref", sc["id"], sc["ops"], False, picks, sc["gran"])["ordinals"].items()}
    got = isolated(body, sc, ords)
    s = got["summary"]
    s["probes"]["operations"] = got["ops"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["ops"] >= 12, "key": s["digest"], "digest": s["digest"], "trace": s["trace"]}
