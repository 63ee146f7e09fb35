"""C03: operations do not alter their inputs."""
import numpy as np
import pandas as pd
import scipy.sparse as sps

import session
from common import *
from obs import observe
from props import c04

ID = "C03"
LEVEL = "exploration"
HOW = "snapshots of every argument around each operation of seeded sessions with interrupts and failing seams, then poisoning of results"
RUNS = {"quick": 480, "thorough": 25000}
RULE = ("generated sessions on shared objects, undisturbed or with 1-3 faults; every argument of every attempt is compared byte for byte "
        "before/after, and results are overwritten in place to reveal aliasing; non-trivial: at least 3 attempts with arguments compared; "
        "distinct by the digest of the session's event log")
COMPONENTS = c04.COMPONENTS
ASSUMPTIONS = c04.ASSUMPTIONS


def generate(r, i, tier):
    sc = c04.generate(r, i, tier)
    if r.random() < 0.35:
        sc["faults"] = []
    for op in sc["ops"]:
        if op["op"] == "net" and r.random() < 0.3:
            op["kw"]["pairs"] = r.choice(["all", str(r.randrange(100))])
        if op["op"] == "solve" and r.random() < 0.4:
            op["kw"]["perm"] = r.choice(["rcm", "reverse", str(r.randrange(100))])
    sc["poison"] = r.random() < 0.6
    sc["attrs"] = r.random() < 0.5                      # extra attributes and columns set by the user
    return sc


def poison(x, depth=0):
    """Overwrite a result in place, through its public surface."""
    if isinstance(x, pd.DataFrame):
        for k in range(x.shape[1]):
            a = x.iloc[:, k].to_numpy()
            if a.flags.writeable and a.dtype.kind in "fi":
                a += 1
        x.attrs["n"] = -7
        x.attrs["poison"] = 1
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fi":
            x += 1
    elif sps.issparse(x):
        x.data[...] = 1e9
    elif isinstance(x, tuple) and depth < 2:
        for y in x:
            poison(y, depth + 1)
    elif hasattr(x, "t") and hasattr(x, "y") and callable(x):
        a = np.asarray(x())
        if a.flags.writeable and a.dtype.kind == "f":
            a += 1


def disturbed(sc, ords):
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install()
    world, viol, n_att = {}, [], 0
    struck = []
    heights = {}                                        # object -> complete sets of heights it may have
    real_backend = session.backend
    stop = False

    def judge(op, rec, before_mat):
        for name, d in (rec.get("changed") or {}).items():
            if op["op"] == "stack" and name == "mat":
                m = world[op["mat"]]
                now = observe(m)
                a, b = dict(before_mat), dict(now)
                za = [k for k in a["data"] if k.startswith("z@")]
                zb = [k for k in b["data"] if k.startswith("z@")]
                rest = diff({"d": {k: v for k, v in a["data"].items() if k not in za}, "x": [a["columns"], a["index"], a["attrs"], a["type"]]},
                            {"d": {k: v for k, v in b["data"].items() if k not in zb}, "x": [b["columns"], b["index"], b["attrs"], b["type"]]},
                            rtol=0, atol=0)
                if rest:
                    viol.append({"kind": "input", "detail": "stack changed more than heights: %s" % rest})
                elif rec["status"] == "exc":
                    heights.setdefault(op["mat"], []).append((now["data"][zb[0]], rec.get("exc")))
                continue
            viol.append({"kind": "input", "detail": "%s (%s) changed its argument %s" % (op["op"], rec["status"], d)})

    def attempt(op, **k):
        nonlocal n_att
        bm = observe(world[op["mat"]]) if op["op"] == "stack" and op.get("mat") in world else None
        rec = session.run_op(sim, sim.main, world, op, check_inputs=True, keep=False, **k)
        if rec["status"] != "skipped":
            n_att += bool(session.REFS[op["op"]])
            if rec["status"] != "stuck":
                judge(op, rec, bm)
        return rec

    for k, op in enumerate(sc["ops"]):
        for j, f in enumerate([f for f in sc["faults"] if f["op"] == k]):
            if f["kind"] == "lp":
                if op["op"] != "stack":
                    continue
                sim.lp = c04.lp_failure(f["how"])
                attempt(op)
                sim.lp = None
                sim.fire("lp_" + f["how"])
            elif f["kind"] == "backend":
                if op["op"] != "solve":
                    continue
                calls = [0]

                def failing(A, b, calls=calls, at=f["call"]):
                    calls[0] += 1
                    if calls[0] == at + 1:
                        sim.fire("backend_raise", at)
                        raise c04.SolverDown("linear solver unavailable")
                    return real_backend("spsolve")(A, b)
                session.backend = lambda name: failing
                attempt(dict(op, kw=dict(op.get("kw", {}), backend="x")))
                session.backend = real_backend
            else:
                n = ords.get(k, [])
                n = n[j] if j < len(n) else None
                if n is not None:
                    rec = attempt(op, inject=(n, f["kind"]))
                    if rec.get("injected"):
                        struck.append([op["op"], f["kind"]])
        rec = attempt(op)
        if rec["status"] == "stuck":
            stop = True
            break
        if op["op"] == "stack" and rec["status"] == "ok":
            z = observe(world[op["mat"]])["data"]
            z = z[[c for c in z if c.startswith("z@")][0]]
            for got, exc in heights.pop(op["mat"], []):
                if diff(got, z):
                    viol.append({"kind": "partial-heights", "detail": "stack failing with %s left heights that are neither the old nor the complete new ones: %s" % (exc, diff(got, z))})
        if rec["status"] == "ok" and sc["attrs"] and op["op"] in ("mat", "net", "mesh", "stack") and op.get("out"):
            o = world[op["out"]]
            o.attrs["note"] = "user"
            if op["op"] != "mat":
                o["user"] = 1.0
    if sc["poison"] and not stop:
        for op in reversed(sc["ops"]):                  # overwrite results, latest first; their inputs must not move
            if op.get("out") in world and op["op"] not in ("wrap", "mat", "interp"):
                refs = {r: world[op[r]] for r in session.REFS[op["op"]] if op.get(r) in world and op[r] != op["out"]}
                if op["op"] == "stack" and not len(world[op["mat"]]):
                    continue
                before = {r: observe(v) for r, v in refs.items()}
                poison(world[op["out"]])
                for r, v in refs.items():
                    d = diff(before[r], observe(v), r, rtol=0, atol=0)
                    if d:
                        viol.append({"kind": "alias", "detail": "overwriting the result of %s changed %s" % (op["op"], d)})
                sim.count("poisoned_" + op["op"])
                del world[op["out"]]
    s = sim.summary()
    s["probes"]["attempts"] = n_att
    sim.uninstall()
    return {"violations": viol, "summary": s, "attempts": n_att, "stuck": stop}


def run(sc):
    sc = expand(sc)
    picks = {}
    for f in sc["faults"]:
        if f["op"] < len(sc["ops"]):
            picks.setdefault(f["op"], []).append(f.get("pick", [0, 0]))
    ords = isolated(serial, "ref", sc["id"], sc["ops"], False, picks, sc["gran"])["ordinals"] if picks else {}
    got = isolated(disturbed, sc, ords)
    viol = got["violations"]
    if got["stuck"]:
        viol.append({"kind": "stuck", "detail": "an operation does not finish"})
    s = got["summary"]
    st = merge(s)
    return {"violations": viol, "stats": st, "nontrivial": got["attempts"] >= 3, "key": s["digest"], "digest": s["digest"], "trace": s["trace"]}
