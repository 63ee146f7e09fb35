"""C07: cutting a packing short yields an exact prefix, and every packing terminates."""
import sys
import io

import numpy as np
import scipy as sp

import packing
import session
import fibermat as fm
from common import *
from sim import StepBudget

ID = "C07"
LEVEL = "exploration"
HOW = "seeded cut-offs (budgets, targets at and around recorded stretches, solver signals at every step, hostile clocks) compared with the same packing run for longer, under a step budget"
RUNS = {"quick": 700, "thorough": 25000}
RULE = ("a generated stack is packed for long, then 4-10 times cut short by an iteration budget, a target stretch (at, just above or just "
        "below recorded ones), a singular or NaN signal of the linear solver at a seeded step, with display, clock and resampling "
        "varied; non-trivial: the long packing recorded at least 2 states; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["linear-solver seam (forwards to a real backend, signals a singular system on demand)", "clocks", "standard error stream"]}
ASSUMPTIONS = ASSUME + ["targets within 1e-12 of a recorded stretch are not judged", "bounded liveness: 3 million library steps per run"]


def generate(r, i, tier):
    pb = packing.gen_problem(r, 8 if tier == "quick" else 14, big=0.015)
    pb["kw"]["packing"] = r.choice([2.0, 4.0, 10.0, 1e6])
    pb["kw"]["itermax"] = r.choice([12, 20, 30])
    cuts = []
    for _ in range(r.randint(4, 10)):
        c = {"itermax": None, "packing": None, "signal": None, "verbose": r.random() < 0.25, "interp": None,
             "clock": r.choice(["steady", "stall", "slow", "jumps"])}
        k = r.choice(["budget", "budget", "target", "target", "both", "signal", "signal", "none", "zero", "defaults"])
        if k in ("budget", "both"):
            c["itermax"] = r.random()
        if k in ("target", "both"):
            c["packing"] = [r.random(), r.choice(["above", "below", "below", "between", "between"])]
        if k == "zero":
            if r.random() < 0.5:
                c["itermax"] = r.choice([0, 1, -1])
            else:
                c["floor"] = r.choice([1.0, 0.5, 0.0])
        if k == "signal":
            c["signal"] = [r.random(), r.choice(["RuntimeError", "nan", "MatrixRankWarning"])]
        if r.random() < 0.3:
            c["interp"] = r.choice([2, 2, 3, 7, 50])
        cuts.append(c)
    return {"problem": pb, "backend": r.choice(["spsolve", "spsolve", "spsolve", "lu", "dense"]),
            "perm": r.choice([None, None, str(r.randrange(1000))]), "stages": cuts}


def pick(x, n):
    """A step number from a fraction (or the number itself)."""
    return x if isinstance(x, int) else min(n, int(x * (n + 1)))


def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "states": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    try:
        mat, mesh = packing.build(sc["problem"])
    except Exception:
        return done()
    kw0 = dict(sc["problem"]["kw"])
    tol, errtol = kw0.get("tol", 1e-6), kw0.get("errtol", 1e-6)
    perm = None if sc["perm"] is None else session.make_perm(sc["perm"], mat, mesh, kw0)
    if perm is not None:
        kw0["perm"] = perm

    def pack(policy=None, verbose=False, clock="steady", **kw):
        be = packing.Backend(sim, session.backend(sc["backend"]), policy)
        err, sys.stderr = sys.stderr, io.StringIO()
        sim.clock_mode = clock
        try:
            with np.errstate(all="ignore"):
                return be, fm.solve(mat, mesh, solve=be, verbose=verbose, **dict(kw0, **kw)), None
        except BaseException as e:
            return be, None, e
        finally:
            sim.clock_mode = "steady"
            sys.stderr = err

    be, res, exc = pack()
    if isinstance(exc, StepBudget):
        return done("stuck", "the packing does not terminate: %s" % exc)
    if exc is not None:
        return done("raised", "packing raised %r" % exc)
    ref = packing.samples(res)
    N = len(ref["Z"])
    out["states"] = N
    sim.log("ref", N, be.calls, digest(ref["Z"]))
    what = usable(res, ref, be, kw0["itermax"])
    if what:
        return done("history", "long packing: " + what)
    rl = ref["rlambda"]
    if any(x >= kw0["packing"] * (1 + 1e-12) for x in rl[:-1]):
        return done("overrun", "stretch %r at state %d of %d, target %r" % (float(rl[-2]), N - 2, N - 1, kw0["packing"]))
    if N - 1 < kw0["itermax"] and rl[-1] < kw0["packing"] * (1 - 1e-12):
        sim.count("jammed")
        what = premature(mat, mesh, res, ref, be, kw0, perm, tol, errtol, sim)
        if what:
            return done("premature", "stopped at state %d: %s" % (N - 1, what))

    for n, c in enumerate(sc["stages"]):
        kw, policy, sig = {}, None, None
        limit = N - 1
        if c["itermax"] is not None:
            kw["itermax"] = min(pick(c["itermax"], N + 1), kw0["itermax"])
            limit = min(limit, max(0, kw["itermax"]))
            sim.fired["cut_budget"] += 1
        p = kw0["packing"]
        if c.get("floor") is not None:
            p = c["floor"]
        elif c["packing"] is not None:
            j = pick(c["packing"][0], N - 1)
            p = float(rl[j])
            p = {"above": p * (1 + 1e-9), "below": p * (1 - 1e-9), "between": 0.5 * (p + float(rl[min(j + 1, N - 1)]))}[c["packing"][1]]
            p = min(p, kw0["packing"])
        if p != kw0["packing"]:
            kw["packing"] = p
            sim.fired["cut_target"] += 1
        if any(abs(float(x) - p) < 1e-12 * p for x in rl):
            if p != 1.0 or any(abs(float(x) - p) < 1e-12 for x in rl[1:]):
                sim.count("ambiguous_target")
                continue
        reach = next((j for j, x in enumerate(rl) if x >= p), None)
        if reach is not None:
            limit = min(limit, reach)
        budget = kw.get("itermax", kw0["itermax"])
        if c["signal"] is not None and be.calls:
            sig = pick(c["signal"][0], max(0, be.calls - 1))
            limit = min(limit, sig)

            def policy(b_, k, A, b, sig=sig, how=c["signal"][1]):
                if k == sig:
                    sim.fire("singular_" + how, k)
                    if how == "RuntimeError":
                        raise RuntimeError("Factor is exactly singular")
                    if how == "MatrixRankWarning":
                        import warnings
                        warnings.warn("Matrix is exactly singular", sp.sparse.linalg.MatrixRankWarning)
                    return np.full(len(b), np.nan)
                return b_.inner(A, b)
        if c["interp"] is not None:
            kw["interp_size"] = c["interp"]
        if c["verbose"]:
            sim.fired["display_on"] += 1
        got_be, got, exc = pack(policy, c["verbose"], c["clock"], **kw)
        what = "cut %d (%s)" % (n, ", ".join("%s=%r" % (k, v) for k, v in sorted(dict(kw, signal=c["signal"] and [sig, c["signal"][1]]).items()) if v is not None and k != "perm"))
        if isinstance(exc, StepBudget):
            return done("stuck", "%s: does not terminate" % what)
        if exc is not None:
            return done("raised", "%s: raised %r" % (what, exc))
        if got_be.calls > max(0, budget):
            return done("budget", "%s: %d linear solves" % (what, got_be.calls))
        m = len(got[7]())
        sim.log(n, m, got_be.calls)
        if m - 1 != limit:
            return done("length", "%s: %d steps, expected %d (of %d in the long packing)" % (what, m - 1, limit, N - 1))
        if got_be.calls > m:
            return done("budget", "%s: %d linear solves for %d steps" % (what, got_be.calls, m - 1))
        want = packing.prefix(ref, m)
        if c["interp"] is None:
            hist = packing.samples(got)
            d = packing.differ(hist, want)
            if d:
                return done("prefix", "%s: %s" % (what, d))
            w = usable(got, hist, got_be, budget)
        else:
            sim.count("resampled")
            d = packing.differ({k: v() for k, v in zip(("rlambda", "mask", "err"), got[7:])}, want, ("rlambda", "mask", "err"))
            if d:
                return done("prefix", "%s: %s" % (what, d))
            w = resampled(got, want, c["interp"])
        if w:
            return done("history", "%s: %s" % (what, w))
        d = diff(observe(got[:2]), observe(res[:2]))
        if d:
            return done("prefix", "%s: matrices differ: %s" % (what, d))
    return done()


def usable(res, hist, be, itermax):
    n = len(hist["Z"])
    if n < 1:
        return "no initial state"
    if any(len(hist[k]) != n for k in packing.FIELDS):
        return "fields of different lengths %s" % {k: len(hist[k]) for k in packing.FIELDS}
    if be.calls > max(0, itermax):
        return "%d linear solves, budget %d" % (be.calls, itermax)
    if n - 1 > be.calls:
        return "%d steps from %d linear solves" % (n - 1, be.calls)
    for k, v in zip(packing.FIELDS, res[2:]):
        for t in (0, 0.25, 0.5, 1):
            with np.errstate(all="ignore"):
                x = np.asarray(v(t))
            if k != "H" and x.dtype.kind == "f" and not np.all(np.isfinite(x)):
                return "%s(%g) is not finite" % (k, t)
            if t in (0, 1) and k != "H":
                y = hist[k][0 if t == 0 else -1]
                if x.shape != y.shape or not np.allclose(x.astype(float), y.astype(float), rtol=1e-9, atol=1e-12):
                    return "%s(%d) is not the %s state" % (k, t, "first" if t == 0 else "last")
    return None


def resampled(res, want, size):
    n = len(want["Z"])
    for k, v in zip(("u", "f", "F", "H", "Z"), res[2:7]):
        with np.errstate(all="ignore"):
            got = np.asarray(v())
        if len(got) != size:
            return "%s has %d samples, %d requested" % (k, len(got), size)
        if k == "H":
            continue
        y = want[k].reshape(n, -1)
        t = np.linspace(0, 1, size)
        exp = np.array([np.interp(t, np.linspace(0, 1, n), y[:, j]) if n > 1 else np.full(size, y[0, j]) for j in range(y.shape[1])]).T
        scale = np.abs(y).max() if y.size else 1.0
        if not np.allclose(got.reshape(size, -1), exp, rtol=1e-9, atol=1e-9 * max(scale, 1e-12)):
            return "%s resampled to %d points leaves the recorded states" % (k, size)
    return None


def premature(mat, mesh, res, ref, be, kw, perm, tol, errtol, sim):
    """Why the packing should have gone on after its last state (None: it is jammed, or this cannot be told)."""
    n = len(ref["Z"])
    if be.calls < n:
        return "no linear solve was tried"
    if be.calls > n:
        return "%d linear solves after the last state" % (be.calls - n + 1)
    if not hasattr(be, "args_last") or be.args_last is None:
        return None                                       # the backend signalled a singular system
    A, b, x_ = be.args_last
    if not be.res[-1] <= 0.9 * errtol:
        return None
    K, C = sp.sparse.csr_matrix(res[0]), sp.sparse.csr_matrix(res[1])
    P = sp.sparse.bmat([[K, C.T], [C, None]], format="csc")
    mk = {k: v for k, v in kw.items() if k in ("lmin", "lmax", "coupling")}
    with np.errstate(all="ignore"):
        dq = np.r_[fm.stiffness(mat, mesh, **mk)[4], fm.constraint(mat, mesh, **mk)[4]]
        q0 = np.r_[fm.stiffness(mat, mesh, **mk)[2], fm.constraint(mat, mesh, **mk)[2]]
        x = np.r_[ref["u"][-1], ref["f"][-1]]
        q = q0 + dq * (float(ref["Z"][-1]) - float(ref["Z"][0]))
        d = q - P @ x
        mask = (d <= tol) & (np.asarray(np.abs(P).sum(axis=0)).ravel() > 0)
        order = np.arange(len(q)) if perm is None else perm
        idx = order[mask[order]]
        if len(idx) != len(x_) or not np.allclose(dq[idx], b):
            sim.count("jam_not_judged")
            return None
        dx = np.zeros(len(q))
        dx[idx] = x_
        v = dq - P @ dx
        go = (d > tol * 1.01 + 1e-9) & (v > 1e-7) & np.isfinite(d) & np.isfinite(v)
    sim.count("jam_judged")
    if go.any():
        return "contact row %d closes after %.6g more" % (np.nonzero(go)[0][0], (d[go] / v[go]).min())
    return None


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["states"] >= 2, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
