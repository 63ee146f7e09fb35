"""C20: a session driven from the settings panel computes what the panel shows."""
import math
import random

import numpy as np

import fibermat as fm
from common import *
from props import c13
from props.c13 import ALL, Model, OFF, PLAIN, SWITCH
from sim import Deadlock, StepBudget

ID = "C20"
LEVEL = "exploration"
HOW = "seeded notebook sessions: panel messages delivered (late, twice, rejected) between and inside operations that take the panel, compared with a session written with the values of a reference panel"
RUNS = {"quick": 480, "thorough": 30000}
RULE = ("one panel, 6-30 front-end messages and assignments with seeded delays and duplicates, interleaved with 4-12 operations called with the "
        "panel (generation, network, stacking, mesh, stiffness, constraints, packing, one fibre), some of them interrupted or overtaken by a "
        "message half-way; every result is compared bit for bit with a fresh process that gets the documented parameters of each operation as "
        "plain values from a reference model of the panel; after every event the panel is compared with the model; non-trivial: at least 3 "
        "operations returned; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["notebook front end and its message channel (seeded delays, duplicates, deliveries inside operations)"] + STUB_BASE}
ASSUMPTIONS = ["a call with ** reads the panel before the operation starts (Python's own rule)"] + ASSUME

# parameters each operation is documented to take
TAKES = {"mat": "n length width thickness size theta shear tensile seed", "net": "periodic", "stack": "threshold", "mesh": "",
         "stiffness": "lmin lmax coupling", "constraint": "", "solve": "packing itermax tol lmin lmax coupling interp_size verbose",
         "fiber": "length width thickness shear tensile"}
SANE = {"n": [0, 1, 2, 3, 5, 8, 8, 10, 12], "length": [8.0, 12.5, 20, 25.0, 40.0], "width": [0.5, 1.0, 2.0], "thickness": [0.2, 0.3, 0.5, 1.0],
        "size": [15.0, 20.0, 30, 50.0], "theta": [0.0, 0.3, 0.5, 1.0, 1.0], "shear": [0.5, 1.0, 3.0], "tensile": [10.0, 200.0, 625, 5000.0],
        "seed": [0, 1, 2, 7, 100], "periodic": [True, False], "threshold": [0.0, 0.5, 1.0, 2.0, 10.0], "packing": [1.0, 1.3, 2.0, 4.0],
        "itermax": [1.0, 10.0, 10, 100.0, 31.6], "tol": [1e-6, 1e-4, 1e-2, 1e-9], "lmin": [0.01, 0.5, 3.0], "lmax": [2.0, 5.0, 15.0],
        "coupling": [1.0, 0.99, 0.5], "interp_size": [2, 5, 20], "verbose": [True, False]}
BAD = {"length": [-1.0, 0.0], "width": [-1.0, 0.0], "thickness": [0.0, -0.5], "size": [0.0, -3.0], "shear": [0.0, -1.0], "tensile": [-1.0, 0.0],
       "coupling": [-0.5, 2.0], "packing": [0.5, -1.0], "threshold": [-1.0], "lmin": [0.0], "n": [-3], "seed": [-1], "interp_size": [0, 1],
       "lmax": [0.0, -1.0]}


def gen_value(r, p):
    if p in BAD and r.random() < 0.06:
        return r.choice(BAD[p])
    return r.choice(SANE[p])


def generate(r, i, tier):
    init = {}
    for k in ALL:
        v = {"n": r.choice([5, 8, 10]), "packing": 3.0, "itermax": r.choice([10, 10, 100]), "lmin": 0.01, "coupling": 0.99,
             "thickness": r.choice([0.3, 0.5]), "size": r.choice([15.0, 20.0, 30.0])}.get(k)
        if v is not None and r.random() < 0.85:
            init[k] = v
        elif r.random() < 0.2:
            init[k] = r.choice(SANE[k])
        elif k in SWITCH and r.random() < 0.2:
            init[k] = "inf" if k in OFF else None
    names = ["mat", "net", "stack", "mesh", r.choice(["stiffness", "constraint"]), "solve"]
    stages = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        k = 0 if not stages else r.choice([0, 0, 1, 2, 3, 4, 5])
        stages += names[k:max(k + 1, r.choice([4, 5, 6, 6, 6]))]
    for _ in range(r.choice([0, 0, 1])):
        stages.insert(r.randrange(len(stages) + 1), "fiber")
    steps, t = [], 0.0
    for op in stages:
        t += 1.0
        st = {"t": t, "op": op}
        k = r.random()
        if k < 0.2:
            st["mid"] = [r.random(), r.random()]
        elif k < 0.3:
            st["fault"] = [r.choice(["interrupt", "interrupt", "nomem", "cancel"]), r.random(), r.random()]
        steps.append(st)
    end = t
    hot = [r.choice(ALL) for _ in range(4)]
    ev = []
    for _ in range(r.randint(6, 30)):
        p = r.choice(hot) if r.random() < 0.4 else r.choice(ALL)
        e = {"t": round(r.uniform(0, end), 3), "p": p, "panel": 0}
        k = r.random()
        if k < 0.6:
            e["do"] = "switch" if p in SWITCH and r.random() < 0.45 else "edit"
            e["v"] = r.random() < 0.6 if e["do"] == "switch" else gen_value(r, p)
            if e["do"] == "edit" and r.random() < 0.05:
                e["v"] = r.choice(["abc", None, {}])
            e["delay"] = r.choice([0.0, 0.0, round(r.random() * 2, 2), 4.0])
            e["dup"] = r.choice([0, 0, 0, 1, 2])
        elif k < 0.9:
            e["do"] = r.choice(["set", "call", "call"])
            e["v"] = gen_value(r, p)
            if p in SWITCH and r.random() < 0.3:
                e["v"] = "inf" if p in OFF else None
            elif r.random() < 0.05:
                e["v"] = "abc"
        else:
            e["do"], e["v"] = r.choice([("display", None), ("star", None), ("twostar", None), ("noise", "custom")])
        ev.append(e)
    return {"init": init, "steps": steps, "events": ev}


def run_stage(op, w, kw):
    if op == "mat":
        return fm.Mat(**kw)
    if op == "net":
        return fm.Net(w["mat"], **kw)
    if op == "stack":
        return fm.Stack(w["mat"], w["net"], **kw)
    if op == "mesh":
        return fm.Mesh(w["stack"], **kw)
    if op == "stiffness":
        return fm.stiffness(w["mat"], w["mesh"], **kw)
    if op == "constraint":
        return fm.constraint(w["mat"], w["mesh"], **kw)
    if op == "solve":
        return fm.solve(w["mat"], w["mesh"], **kw)
    return fm.vtk_fiber(**kw)


NEEDS = {"mat": (), "net": ("mat",), "stack": ("mat", "net"), "mesh": ("stack",), "stiffness": ("mat", "mesh"), "constraint": ("mat", "mesh"),
         "solve": ("mat", "mesh"), "fiber": ()}
DROPS = {"mat": ("net", "stack", "mesh"), "net": ("stack", "mesh"), "stack": ("mesh",)}      # a notebook re-runs the cells below


def attempt(sim, op, w, kw, n, inject=None, profile=False):
    """One call; returns (status, observation or exception, profile)."""
    th = sim.main
    sim.entropy = random.Random("entropy/%d" % n)       # what an unseeded generation draws from, the same with and without the panel
    th.op_events, th.inject = 0, inject
    th.profile = [] if profile else None
    try:
        val = run_stage(op, w, kw)
        st = ["ok", val]
    except (StepBudget, Deadlock) as e:
        st = ["stuck", repr(e)]
    except BaseException as e:
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        st = ["exc", [type(e).__name__, str(e)[:300]]]
    prof, th.profile, th.inject = th.profile, None, None
    if st[0] == "ok":
        w["last"] = val
        if op not in ("stiffness", "constraint", "solve", "fiber"):
            w[op] = val
            for k in DROPS.get(op, ()):
                w.pop(k, None)
    return st[0], (observe(val) if st[0] == "ok" else st[1]), prof


def quiet_streams():
    import io
    import sys
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()


def reference(sc_id, plan):
    """The same session written with plain values.  plan: [op, documented values, place to find or None]."""
    sim = Sim("ref", sc_id)
    sim.install()
    quiet_streams()
    w, out = {}, []
    for n, (op, kw, pick) in enumerate(plan):
        if any(k not in w for k in NEEDS[op]):
            out.append(None)
            continue
        st, obs, prof = attempt(sim, op, w, kw, n, profile=pick is not None)
        heights = observe(w["mat"]) if op == "stack" and st == "ok" else None
        out.append((st, obs, resolve(prof or [], pick) if pick is not None else None, heights))
    s = sim.summary()
    sim.uninstall()
    return out, s


def effects(op, shown, w, got):
    """What each documented parameter is seen to do (independent of any second run)."""
    if op == "mat":
        m = w["mat"]
        if len(m) != shown["n"] or m.attrs.get("n") != shown["n"] or m.attrs.get("size") != shown["size"]:
            return "%d fibres, attributes %s; the panel shows n=%r, size=%r" % (len(m), m.attrs, shown["n"], shown["size"])
        for c, k in (("l", "length"), ("b", "width"), ("h", "thickness"), ("G", "shear"), ("E", "tensile")):
            if not np.all(m[c].values == shown[k]):
                return "column %s is %s; the panel shows %s=%r" % (c, m[c].values[:3], k, shown[k])
        if len(m) and (np.any(np.abs(m.x) > shown["size"] / 2) or np.any(np.abs(np.arctan2(m.v, m.u)) > shown["theta"] / 2 + 1e-12)):
            return "positions or angles outside what the panel shows"
    elif op == "net":
        if bool(w["net"].attrs.get("periodic")) != shown["periodic"]:
            return "periodic=%r; the panel shows %r" % (w["net"].attrs.get("periodic"), shown["periodic"])
    elif op == "stack" and shown["threshold"] is not None:
        s = w["stack"]
        far = (s.A != s.B) & (np.abs(s.zA - s.zB) > shown["threshold"] * (1 + 1e-9) + 1e-9)
        if far.any():
            return "connection at distance %r; the panel shows threshold=%r" % (float(np.abs(s.zA - s.zB)[far].iloc[0]), shown["threshold"])
    elif op == "solve" and shown["interp_size"] is not None and len(w["last"][2]()) != shown["interp_size"]:
        return "%d samples; the panel shows interp_size=%r" % (len(w["last"][2]()), shown["interp_size"])
    return None


def body(sc, marks):
    """The panel session.  marks: stage number -> step (within the operation) at which the mid-way event strikes."""
    sim = Sim("run", sc["id"])
    sim.install()
    quiet_streams()
    import logging
    logging.disable(logging.CRITICAL)
    out = {"viol": [], "accepted": 0, "plan": [], "got": [], "ok": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"].append({"kind": kind, "detail": detail})
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    init = {k: (math.inf if v == "inf" else v) for k, v in sc["init"].items()}
    s, m = fm.Settings(**init), Model(init)
    queue = [(st["t"], 1, n, st) for n, st in enumerate(sc["steps"])]
    for n, e in enumerate(sc["events"]):
        if e["do"] in ("edit", "switch"):
            for d in range(1 + e["dup"]):
                queue.append((e["t"] + e["delay"] + d * 1.7, 0, n, e))
                if d:
                    sim.fired["duplicate"] += 1
            if e["delay"]:
                sim.fired["delayed"] += 1
        else:
            queue.append((e["t"], 0, n, e))
    queue.sort(key=lambda q: q[:3])
    queue = [q[1:] for q in queue]
    w = {}

    def happen(n, e):
        v = math.inf if e.get("v") == "inf" else e.get("v")
        what = "event %d: %s %s=%r" % (n, e["do"], e["p"], v)
        return c13.event(sim, s, m, e, v, n, what, out) or [("value", x) for x in [c13.compare_all([(s, m)], what)] if x][:1]

    bad = c13.compare_all([(s, m)], "initially")
    if bad:
        return done("initial", bad)
    k = 0
    while k < len(queue):
        stage, n, e = queue[k]
        k += 1
        if not stage:
            bad = happen(n, e)
            if bad:
                return done(*(bad if isinstance(bad, tuple) else bad[0]))
            continue
        op = e["op"]
        what = "operation %d (%s)" % (n, op)
        if any(x not in w for x in NEEDS[op]):
            out["plan"].append((op, {}, None))
            out["got"].append(None)
            continue
        shown = {p: m.read(p) for p in TAKES[op].split()}
        inject = None
        mid = []
        if n in marks and marks[n] is not None:
            if "mid" in e and k < len(queue) and not queue[k][0]:
                j = k
                while j < len(queue) and not queue[j][0]:
                    j += 1
                due, k = queue[k:j], j                  # the messages that come next arrive while the operation runs

                def arrive():
                    for _, n2, e2 in due:
                        mid.append(happen(n2, e2))
                inject = (marks[n], "message_inside", arrive)
            elif "fault" in e:
                inject = (marks[n], e["fault"][0])
        late = inject is not None and len(inject) > 2
        before = {k2: observe(v) for k2, v in w.items() if k2 != "last"} if inject and not late else None
        st, got, _ = attempt(sim, op, w, dict(**s), n, inject)
        if late and sim.main.inject is None and not mid:       # never reached: the messages arrive afterwards
            arrive()
        for bad in mid:
            if bad:
                return done(*(bad if isinstance(bad, tuple) else bad[0]))
        sim.log("op", n, op, st, digest(got) if st == "ok" else got)
        if st == "stuck":
            return done("stuck", "%s: %s" % (what, got))
        bad = c13.compare_all([(s, m)], what)
        if bad:
            return done("panel", bad)
        if inject and not late and st == "exc":               # interrupted: run the cell again
            sim.count("interrupted_" + op)
            if op != "stack":
                for x, v in before.items():
                    d = diff(v, observe(w[x]), x, rtol=0, atol=0)
                    if d:
                        return done("state", "%s interrupted: %s" % (what, d))
            st, got, _ = attempt(sim, op, w, dict(**s), n)
            sim.log("op again", n, op, st, digest(got) if st == "ok" else got)
        heights = observe(w["mat"]) if op == "stack" and st == "ok" else None
        if st == "ok":
            out["ok"] += 1
            bad = effects(op, shown, w, got)
            if bad:
                return done("effect", "%s: %s" % (what, bad))
        out["plan"].append((op, shown, None))
        out["got"].append((st, got, heights))
    return done()


def values(sc):
    """First look: the operations of the session undisturbed, to place what strikes inside them."""
    sc = dict(sc, steps=[{k: v for k, v in st.items() if k in ("t", "op")} for st in sc["steps"]])
    return isolated(body, sc, {})


def run(sc):
    marks = {}
    want = [n for n, st in enumerate(sc["steps"]) if "mid" in st or "fault" in st]
    if want:
        plain = values(sc)
        if not plain["viol"]:
            at = {n: sc["steps"][n].get("mid") or sc["steps"][n]["fault"][1:] for n in want}
            plan = [(op, kw, at.get(n)) for n, (op, kw, _) in enumerate(plain["plan"])]
            ref, _ = isolated(reference, sc["id"], plan)
            marks = {n: ref[n][2] for n in want if n < len(ref) and ref[n]}
    got = isolated(body, sc, marks)
    viol = got["viol"]
    s = got["summary"]
    if not viol:
        ref, s2 = isolated(reference, sc["id"], got["plan"])
        for n, (g, r) in enumerate(zip(got["got"], ref)):
            op, kw, _ = got["plan"][n]
            if (g is None) != (r is None):
                viol.append({"kind": "outcome", "detail": "operation %d (%s): %s" % (n, op, g or r)})
                break
            if g is None:
                continue
            where = "operation %d (%s with %s)" % (n, op, {k: kw[k] for k in kw})
            if r[0] == "stuck" or g[0] != r[0] or (g[0] == "exc" and g[1] != r[1]):
                viol.append({"kind": "outcome", "detail": "%s: with the panel %s, with these values %s" % (
                    where, g[1] if g[0] == "exc" else g[0], r[1] if r[0] != "ok" else "ok")})
                break
            if g[0] == "exc":
                continue
            a, b = g[1], r[1]
            d = diff(a, b, rtol=0, atol=0) or (diff(g[2], r[3], "heights", rtol=0, atol=0) if g[2] is not None else None)
            if d:
                viol.append({"kind": "result", "detail": "%s: with the panel / with these values: %s" % (where, d)})
                break
    s["probes"]["operations"] = got["ok"]
    s["probes"]["accepted_changes"] = got["accepted"]
    st = merge(s)
    return {"violations": viol, "stats": dict(st, sig=s["digest"]), "nontrivial": got["ok"] >= 3, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
