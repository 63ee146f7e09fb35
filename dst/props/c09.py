"""C09: stacking gives the lowest non-penetrating heights, or fails and changes nothing."""
import numpy as np

import geometry
import session
import fibermat as fm
from common import *
from sim import StepBudget

ID = "C09"
LEVEL = "fault_enumeration"
HOW = "seeded sequences of stacking attempts with failing, lying-by-status or interrupted optimisers, judged by an independent longest-path model of the heights"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("generated fibre sets (uniform or mixed dimensions) are stacked in a sequence of 2-7 attempts with thresholds, faults of the "
        "optimiser, heights disturbed by the user in between; non-trivial: at least two fibres and one completed attempt on a connected "
        "network; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["LP entry point scipy.optimize.linprog (passes through to HiGHS unless it fails)", "clocks"]}
ASSUMPTIONS = ASSUME + ["planar fibre sets (psi = 0, documented default) in label order", "heights compared to 1e-6 mm",
                        "rows within 1e-6 mm of the distance threshold are not judged", "pairs within 1e-7 of touching or 1e-5 of parallel are not judged"]

FAULTS = ["status1", "status1_x", "status2", "status3", "status4", "status4_x", "raise", "memory", "interrupt", "late_interrupt", "valueerror"]


def generate(r, i, tier):
    m = session.gen_mat(r, 12 if tier == "quick" else 30, thin=0.5)
    if r.random() < 0.06:
        m["n"] = r.randint(20, 45)
    steps = []
    for _ in range(r.randint(2, 7)):
        k = r.choice(["stack", "stack", "fail", "fail", "move", "solve", "solve_fail", "other"])
        s = {"do": k}
        if k in ("stack", "fail"):
            s["threshold"] = r.choice([None, None, 0.0, 0.5, 1.0, 2.0, 10.0])
            s["twice"] = r.random() < 0.2
        if k in ("fail", "solve_fail"):
            s["how"] = r.choice(FAULTS)
        if k == "move":
            s["seed"] = r.randrange(1000)
        steps.append(s)
    return {"mat": m, "mixed": r.randrange(1000) if r.random() < 0.6 else None, "periodic": r.random() < 0.5, "steps": steps}


class OptimiserDown(Exception):
    pass


def failing(how, sim):
    def lp(real, a, k):
        from scipy.optimize import OptimizeResult
        sim.fire("lp_" + how)
        if how == "raise":
            raise OptimiserDown("optimiser unavailable")
        if how == "memory":
            raise MemoryError("optimiser out of memory")
        if how == "interrupt":
            raise KeyboardInterrupt("interrupted before the optimiser ran")
        if how == "valueerror":
            raise ValueError("optimiser rejected the problem")
        if how == "late_interrupt":
            real(*a, **k)
            raise KeyboardInterrupt("interrupted when the optimiser returned")
        status = int(how[6])
        x = None
        if how.endswith("_x"):                          # a feasible or infeasible point that is not the optimum
            good = real(*a, **k)
            if good.x is not None:
                x = np.asarray(good.x) + np.linspace(0.5, 2.0, len(good.x))
        return OptimizeResult(x=x, fun=None if x is None else 0.0, status=status, success=False, nit=3,
                              message="injected: no optimal solution (status %d)" % status, slack=None, con=None)
    return lp


def lowest(h, A, B):
    """Longest path over the crossings, from the floor up."""
    z = 0.5 * h.copy()
    order = np.argsort(A, kind="stable")
    below = {}
    for a, b in zip(A, B):
        if a != b:
            below.setdefault(max(a, b), set()).add(min(a, b))
    for j in range(len(h)):
        for i in below.get(j, ()):
            z[j] = max(z[j], z[i] + 0.5 * (h[i] + h[j]))
    return z


def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "n": 0, "ok": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    kw = dict(sc["mat"])
    for k in ("tensile", "shear"):
        if kw.get(k) == "inf":
            kw[k] = float("inf")
    mat = fm.Mat(**kw)
    n = len(mat)
    if sc["mixed"] is not None and n:
        rng = np.random.RandomState(sc["mixed"])
        mat["h"] = rng.choice([0.2, 0.35, 1.0, 1.7], n)
        mat["b"] = rng.choice([0.5, 1.0, 20.0], n)
        mat["l"] = mat.l.values * rng.choice([0.3, 0.8, 1.0], n)
    net = fm.Net(mat, periodic=sc["periodic"])
    other = fm.Mat(**dict(kw, seed=kw["seed"] + 1))
    z_other = other.z.values.copy()
    A, B = net.A.values.copy(), net.B.values.copy()
    rows = {(int(a), int(b)): net.iloc[k][["sA", "sB", "xA", "yA", "xB", "yB"]].values.astype(float) for k, (a, b) in enumerate(zip(A, B))}
    d = geometry.connections(mat, sc["periodic"], rows)
    if d:
        return done("network", d)
    want = lowest(mat.h.values.astype(float), A, B)
    eps = 1e-6 * max(1.0, float(want.max()) if n else 1.0)
    out["n"] = len(rows) - n

    def others(but=("z",)):
        o = observe(mat)
        o["data"] = {k: v for k, v in o["data"].items() if k.split("@")[0] not in but}
        return o

    def attempt(fn):
        try:
            with np.errstate(all="ignore"):
                return fn(), None
        except StepBudget:
            raise
        except BaseException as e:
            return None, e

    for k, s in enumerate(sc["steps"]):
        what = "step %d (%s)" % (k, " ".join("%s=%s" % x for x in sorted(s.items())))
        if s["do"] == "move":
            rng = np.random.RandomState(s["seed"])
            mat["z"] = rng.uniform(0, 30, n)
            continue
        if s["do"] == "other":
            _, exc = attempt(lambda: fm.Stack(other, fm.Net(other)))
            if exc is not None:
                return done("raised", "%s: raised %r" % (what, exc))
            continue
        before_z, before = mat.z.values.copy(), others()
        keep_net = observe(net)
        sim.lp = failing(s["how"], sim) if "how" in s else None
        for rep in range(2 if s.get("twice") else 1):
            if s["do"] in ("stack", "fail"):
                val, exc = attempt(lambda: fm.Stack(mat, net, **({} if s["threshold"] is None else {"threshold": s["threshold"]})))
            else:
                val, exc = attempt(lambda: fm.Stack.solve(mat, net))
        sim.lp = None
        sim.log(k, s["do"], type(exc).__name__, digest(mat.z.values))
        d = diff(before, others(), "fibres", rtol=0, atol=0) or diff(keep_net, observe(net), "network", rtol=0, atol=0)
        if d:
            return done("changed", "%s: changed more than the heights: %s" % (what, d))
        if "how" in s:
            sim.count("failed_attempts")
            if n and mat.z.values.tobytes() != before_z.tobytes():
                return done("heights", "%s: heights changed by a failed attempt" % what)
            if s["do"] == "fail" and exc is None and n:
                return done("silent", "%s: returned a stack although the optimiser failed" % what)
            if s["how"] in ("interrupt", "late_interrupt") and n and not isinstance(exc, KeyboardInterrupt):
                return done("silent", "%s: the interrupt became %r" % (what, exc))
            continue
        if exc is not None:
            return done("raised", "%s: raised %r" % (what, exc))
        if s["do"] == "solve":
            if n and mat.z.values.tobytes() != before_z.tobytes():
                return done("heights", "%s: Stack.solve changed the heights" % what)
            if n and np.abs(np.asarray(val.x) - want).max() > eps:
                j = int(np.abs(np.asarray(val.x) - want).argmax())
                return done("not-lowest", "%s: fibre %d at %r, lowest height %r" % (what, j, float(val.x[j]), want[j]))
            continue
        sim.count("completed_attempts")
        out["ok"] += 1
        z = mat.z.values.astype(float)
        if n and not np.abs(z - want).max() <= eps:
            j = int(np.nanargmax(np.abs(z - want))) if np.isfinite(z).any() else 0
            return done("not-lowest", "%s: fibre %d at %r, lowest height %r" % (what, j, z[j], want[j]))
        t = s["threshold"]
        seen = set()
        if type(val) is not fm.Stack:
            return done("table", "%s: returned a %s" % (what, type(val).__name__))
        vals = val[["A", "B", "sA", "sB", "xA", "yA", "xB", "yB", "zA", "zB"]].values
        for row in vals:
            key = (int(row[0]), int(row[1]))
            if key not in rows or key in seen:
                return done("rows", "%s: connection %s %s" % (what, key, "repeated" if key in seen else "is not in the network"))
            seen.add(key)
            if not np.allclose(row[2:8], rows[key], rtol=1e-9, atol=1e-9):
                return done("rows", "%s: connection %s moved along its fibres" % (what, key))
            if abs(row[8] - z[key[0]]) > 1e-9 * max(1, z.max()) or abs(row[9] - z[key[1]]) > 1e-9 * max(1, z.max()):
                return done("rows", "%s: connection %s at heights %r, %r, its fibres at %r, %r" % (what, key, row[8], row[9], z[key[0]], z[key[1]]))
        for key in rows:
            gap = abs(z[key[0]] - z[key[1]])
            if key[0] == key[1] or t is None or gap < t - eps:
                if key not in seen:
                    return done("rows", "%s: connection %s (distance %.6g) is missing" % (what, key, gap))
            elif gap > t + eps and key in seen:
                return done("rows", "%s: connection %s (distance %.6g) is kept" % (what, key, gap))
        if list(val.index) != list(range(len(val))):
            return done("table", "%s: rows are not labelled in order" % what)
        if val.attrs.get("n") != n or val.attrs.get("size") != kw["size"] or val.attrs.get("periodic") != sc["periodic"]:
            return done("table", "%s: attributes %s" % (what, dict(val.attrs)))
    if not any(s["do"] == "other" for s in sc["steps"]) and other.z.values.tobytes() != z_other.tobytes():
        return done("changed", "the heights of another fibre set changed")
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["n"] >= 1 and got["ok"] >= 1, "key": s["digest"],
            "digest": s["digest"], "trace": s["trace"]}
