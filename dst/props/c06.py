"""C06: a faulty linear solver can stop a packing but never corrupts its history."""
import struct

import numpy as np

import packing
import session
import fibermat as fm
from common import *
from sim import StepBudget

ID = "C06"
LEVEL = "fault_enumeration"
HOW = "seeded faults of the linear-solver seam at every kind of step (wrong, stale, non-finite, borderline answers, errors), history compared byte for byte with the fault-free packing"
RUNS = {"quick": 900, "thorough": 25000}
RULE = ("a generated stack is packed once without faults and 3-8 times with 1-2 faults of the linear solver at seeded steps; non-trivial: "
        "at least one fault struck a step; distinct by event-log digest (fault kind, step, outcome, history)")
COMPONENTS = {"real": REAL, "stub": ["linear-solver seam (forwards to SuperLU spsolve, dense LU or dense least squares unless it fails)", "clocks"]}
ASSUMPTIONS = ASSUME + ["answers whose residual is within 0.1 % of the tolerance are not judged", "answers below the tolerance may steer later steps"]

VALUE = ["nan_all", "nan_one", "inf_one", "ninf_one", "inf_all", "zero", "scale_up", "scale_tiny", "noise", "stale", "older", "sign", "rotate",
         "swap", "bitflip", "just_above", "just_below", "float32", "complex", "scribble", "buffer", "huge", "truncate", "one_off", "list", "minus_inf_rhs"]
RAISE = ["SolverDown", "MemoryError", "KeyboardInterrupt", "ValueError", "LinAlgError", "RuntimeError", "IndexError", "ZeroDivisionError",
         "StopIteration", "FloatingPointError", "TimeoutError"]


class SolverDown(Exception):
    pass


def make_exc(name):
    cls = {"SolverDown": SolverDown, "LinAlgError": np.linalg.LinAlgError}.get(name) or __builtins__[name]
    return cls("injected: linear solver failed")


def generate(r, i, tier):
    pb = packing.gen_problem(r, 7 if tier == "quick" else 12)
    kw = pb["kw"]
    if r.random() < 0.4:
        kw["errtol"] = r.choice([1e-3, 1e-4, 1e-9, 1e-2])
    runs = []
    for _ in range(r.randint(3, 8)):
        faults = []
        for _ in range(r.choice([1, 1, 1, 2])):
            kind = r.choice(VALUE) if r.random() < 0.7 else "raise:" + r.choice(RAISE)
            faults.append({"kind": kind, "at": r.random(), "persist": r.random() < 0.25, "seed": r.randrange(1 << 30)})
        runs.append({"faults": faults, "perm": r.random() < 0.3, "verbose": r.random() < 0.1})
    return {"problem": pb, "backend": r.choice(["spsolve", "spsolve", "lu", "dense"]), "perm": str(r.randrange(1000)), "runs": runs}


def alter(kind, x, A, b, errtol, rng, mem):
    """A wrong (or merely unusual) answer made from the right one."""
    n = len(x)
    x = np.array(x, dtype=float)
    if n == 0:
        return x
    k = rng.randint(n)
    if kind == "nan_all":
        return np.full(n, np.nan)
    if kind == "inf_all":
        return np.full(n, np.inf)
    if kind in ("nan_one", "inf_one", "ninf_one"):
        x[k] = {"nan_one": np.nan, "inf_one": np.inf, "ninf_one": -np.inf}[kind]
        return x
    if kind == "zero":
        return np.zeros(n)
    if kind == "minus_inf_rhs":
        return np.where(b != 0, -np.inf, x)
    if kind == "scale_up":
        return x * (1 + 10 ** rng.uniform(-4, 1))
    if kind == "scale_tiny":
        return x * (1 + 10 ** rng.uniform(-13, -7))
    if kind == "noise":
        return x + rng.standard_normal(n) * 10 ** rng.uniform(-9, 0)
    if kind in ("stale", "older"):
        old = [y for y in mem if len(y) == n]
        return np.array(old[-1 if kind == "stale" else 0]) if old else np.zeros(n)
    if kind == "sign":
        return -x
    if kind == "rotate":
        return np.roll(x, 1)
    if kind == "swap":
        j = rng.randint(n)
        x[[k, j]] = x[[j, k]]
        return x
    if kind == "bitflip":
        i, = struct.unpack("<Q", struct.pack("<d", x[k]))
        x[k], = struct.unpack("<d", struct.pack("<Q", i ^ (1 << int(rng.randint(64)))))
        return x
    if kind in ("just_above", "just_below"):
        e = rng.standard_normal(n)
        with np.errstate(all="ignore"):
            ne = np.linalg.norm(A @ e)
        f = 1 + 10 ** rng.uniform(-2.5, 0.5) if kind == "just_above" else rng.uniform(0.3, 0.99)
        return x + e * (errtol * f / ne) if ne > 0 and np.isfinite(ne) else x
    if kind == "float32":
        with np.errstate(all="ignore"):
            return x.astype(np.float32)
    if kind == "complex":
        return x + 1j * rng.standard_normal(n)
    if kind == "huge":
        return x * 1e200
    if kind == "truncate":
        return x[:-1]
    if kind == "one_off":
        x[k] += 10 ** rng.uniform(-9, 1)
        return x
    if kind == "list":
        return x.tolist()
    return x


class Faulty:
    """Fault policy of packing.Backend."""

    def __init__(self, sim, faults, calls, errtol):
        self.sim, self.errtol = sim, errtol
        self.at = [(min(max(0, calls - 1), int(f["at"] * calls)), f) for f in faults]
        self.mem = []
        self.first = None                       # first step whose answer was altered or which failed
        self.raised = None
        self.buf = {}

    def __call__(self, be, k, A, b):
        hit = [f for at, f in self.at if k == at or (f["persist"] and k > at)]
        if not hit:
            x = be.inner(A, b)
            self.mem.append(np.array(x, dtype=float))
            return x
        f = hit[0]
        if self.first is None:
            self.first = k
        self.sim.fire(f["kind"], k)
        if f["kind"].startswith("raise:"):
            self.raised = make_exc(f["kind"][6:])
            be.res.append(float("nan"))
            be.rnd.append(0.0)
            raise self.raised
        x = np.array(be.inner(A, b), dtype=float)
        self.mem.append(x.copy())
        if f["kind"] == "scribble":             # overwrites its own arguments
            b_ = np.asarray(be.args[1])
            if b_.flags.writeable:
                b_[:] = np.nan
            be.args[0].data[:] = np.nan
            return x
        if f["kind"] == "buffer":               # hands out its work array and keeps overwriting it
            y = self.buf.setdefault("y", np.empty(1 << 16))
            y[:] = np.nan
            y[:len(x)] = x
            return y[:len(x)]
        rng = np.random.RandomState((f["seed"] + k) % (1 << 31))
        with np.errstate(all="ignore"):
            return alter(f["kind"], x, A, b, self.errtol, rng, self.mem[:-1])


class Seam(packing.Backend):
    def __call__(self, A, b):
        self.args = (A, b)
        return super().__call__(A, b)


def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "struck": 0}

    def done():
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    try:
        mat, mesh = packing.build(sc["problem"])
    except Exception:
        return done()
    kw0 = dict(sc["problem"]["kw"])
    errtol = kw0.get("errtol", 1e-6)
    perm = session.make_perm(sc["perm"], mat, mesh, kw0)
    healthy = {}

    def pack(policy, use_perm, verbose=False):
        be = Seam(sim, session.backend(sc["backend"]), policy)
        kw = dict(kw0, perm=perm) if use_perm else dict(kw0)
        before = sim.events
        try:
            with np.errstate(all="ignore"):
                res = fm.solve(mat, mesh, solve=be, verbose=verbose, **kw)
            return be, packing.samples(res), None
        except StepBudget:
            raise
        except BaseException as e:
            return be, None, e
        finally:
            sim.count("steps_of_packing", sim.events - before)

    for n, run_ in enumerate(sc["runs"]):
        p = bool(run_["perm"])
        if p not in healthy:
            be, hist, exc = pack(None, p)
            if exc is not None:
                out["viol"] = [{"kind": "raised", "detail": "fault-free packing raised %r" % exc}]
                return done()
            v = judge_err(be, hist, errtol)
            if v:
                out["viol"] = [v]
                return done()
            healthy[p] = (be.calls, hist)
        calls, ref = healthy[p]
        pol = Faulty(sim, run_["faults"], calls, errtol)
        be, hist, exc = pack(pol, p, run_["verbose"])
        out["struck"] += pol.first is not None
        what = "run %d (%s at step %s of %d)" % (n, "+".join(f["kind"] for f in run_["faults"]), pol.first, calls)

        def bad(kind, d):
            out["viol"] = [{"kind": kind, "detail": "%s: %s" % (what, d)}]
        # the first step whose answer was not good enough
        stop = next((k for k, r in enumerate(be.res) if not r <= errtol), None)
        unsure = any(abs(r - errtol) < 1e-3 * errtol + e for r, e in zip(be.res, be.rnd))
        if exc is not None:
            sim.count("outcome_raised")
            sim.log(n, "raised", type(exc).__name__)
            if stop is None and not unsure:
                bad("raised", "%r although every answer was good" % exc)
            elif exc is not pol.raised and not (isinstance(exc, (ValueError, TypeError, UserWarning)) and pol.raised is None):
                bad("other-error", "raised %r instead of %r" % (exc, pol.raised))
            elif stop is not None and be.calls > stop + 1 and not unsure:
                bad("continues", "%d more linear solves after a bad answer" % (be.calls - stop - 1))
        elif hist is not None:
            N = len(hist["Z"])
            sim.log(n, N, digest(hist["Z"]), digest(hist["u"]))
            v = judge_err(be, hist, errtol)
            if v:
                out["viol"] = [dict(v, detail="%s: %s" % (what, v["detail"]))]
                return done()
            altered = pol.first
            if altered is None:
                d = packing.differ(hist, ref)
                if d:
                    bad("history", "no fault struck, but " + d)
            elif not unsure:
                if stop is not None:
                    sim.count("outcome_stopped")
                    if be.calls > stop + 1:
                        bad("continues", "%d more linear solves after a bad answer" % (be.calls - stop - 1))
                    elif N > stop + 1:
                        bad("recorded", "%d states recorded, the answer of step %d was bad" % (N, stop))
                m = min(N, altered + 1)
                d = packing.differ(packing.prefix(hist, m), packing.prefix(ref, m))
                if d and not out["viol"]:
                    bad("history", "states before the fault changed: " + d)
                if stop == altered and N != altered + 1 and not out["viol"]:
                    bad("history", "%d states returned, %d were computed before the fault" % (N, altered + 1))
                if stop is None and all(f["kind"] in ("complex", "scribble", "buffer", "list") for f in run_["faults"]):
                    sim.count("outcome_harmless")
                    d = packing.differ(hist, ref)
                    if d and not out["viol"]:
                        bad("history", "a correct answer in an unusual form changed the result: " + d)
        if out["viol"]:
            return done()
    return done()


def judge_err(be, hist, errtol):
    N = len(hist["Z"])
    if any(len(hist[k]) != N for k in packing.FIELDS):
        return {"kind": "history", "detail": "fields of different lengths %s" % {k: len(hist[k]) for k in packing.FIELDS}}
    if N > be.calls + 1:
        return {"kind": "recorded", "detail": "%d states from %d linear solves" % (N, be.calls)}
    for j in range(1, N):
        r, e = be.res[j - 1], float(hist["err"][j])
        if not r <= errtol * 1.001 + be.rnd[j - 1]:
            return {"kind": "recorded", "detail": "state %d recorded with residual %r (tolerance %r)" % (j, r, errtol)}
        if not abs(e - r) <= 1e-11 + 1e-5 * r + be.rnd[j - 1]:
            return {"kind": "err", "detail": "state %d reports the error %r, its residual is %r" % (j, e, r)}
        if not (np.all(np.isfinite(hist["u"][j])) and np.all(np.isfinite(hist["f"][j])) and np.isfinite(hist["Z"][j])):
            return {"kind": "non-finite", "detail": "state %d is not finite" % j}
    return None


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["struck"] >= 1, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
