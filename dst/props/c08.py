"""C08: recorded packing states obey the contact laws for any ordering and backend."""
import numpy as np

import packing
import session
import fibermat as fm
from common import *

ID = "C08"
LEVEL = "exploration"
HOW = "seeded packing sessions under permuted unknowns, exchanged linear backends and sub-tolerance solver noise; every recorded state checked against an independent contact model"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("a generated stack is packed in 1-3 stages (deform, pack again), each with its own ordering of unknowns, linear backend and "
        "residual noise below the tolerance; every recorded state is checked; non-trivial: at least 3 states recorded; distinct by "
        "event-log digest")
COMPONENTS = {"real": REAL, "stub": ["linear-solver seam (forwards to SuperLU spsolve, dense LU or dense least squares, adds noise)", "clocks"]}
ASSUMPTIONS = ASSUME + ["tolerances: 2*tol + 4*errtol*(lid travel) for distances, errtol-scaled for forces",
                        "contact forces may be tensile (contacts are never released by the solver): their sign is not checked"]


def generate(r, i, tier):
    pb = packing.gen_problem(r, 8 if tier == "quick" else 14, big=0.03)
    stages = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kw = dict(pb["kw"])
        if stages:
            kw["packing"] = r.choice([1.2, 1.5, 2.0])
        if r.random() < 0.2:
            kw["errtol"] = r.choice([1e-8, 1e-4])
        if r.random() < 0.15:
            kw["tol"] = r.choice([1e-8, 1e-5])
        stages.append({"kw": kw, "perm": r.choice([None, None, "rcm", "reverse", str(r.randrange(1000)), str(r.randrange(1000))]),
                       "backend": r.choice(["spsolve", "spsolve", "lu", "dense"]),
                       "noise": r.choice([0.0, 0.0, 0.0, 1e-3, 0.3, 0.9]), "noise_seed": r.randrange(1 << 30)})
    return {"problem": pb, "stages": stages}


def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "states": 0}
    try:
        mat, stack, mesh = packing.build(sc["problem"], full=True)
    except Exception as e:
        return {"viol": [], "states": 0, "summary": sim.summary(), "why": repr(e)}
    pairs, why = packing.contacts(mat, stack, mesh)
    if why:
        sim.uninstall()
        return {"viol": [{"kind": "contacts", "detail": why}], "states": 0, "summary": sim.summary()}
    carry = 0.0
    for k, st in enumerate(sc["stages"]):
        kw = dict(st["kw"])
        top = float((mesh.z.values + 0.5 * mat.h.values[mesh.fiber.values]).max())
        tol, errtol = kw.get("tol", 1e-6), kw.get("errtol", 1e-6)
        rng = np.random.RandomState(st["noise_seed"] % (1 << 31))

        # residuals whose accumulated effect over the whole lid travel stays below the contact tolerance
        amp = st["noise"] * min(0.9 * errtol, 0.3 * tol / max(top, 1.0))

        def policy(be, call, A, b, amp=amp, errtol=errtol, rng=rng):
            x = np.array(be.inner(A, b), dtype=float)
            if amp and np.all(np.isfinite(x)) and len(x):
                e = rng.standard_normal(len(x))
                ne = np.linalg.norm(A @ e)
                nr = np.linalg.norm(A @ x - b)
                if ne > 0 and nr < amp:
                    x = x + e * (amp / ne) * rng.random_sample()
                    sim.fired["solver_noise"] += 1
            return x
        be = packing.Backend(sim, session.backend(st["backend"]), policy)
        if st["perm"] is not None:
            kw["perm"] = session.make_perm(st["perm"], mat, mesh, kw)
            sim.fired["permuted_unknowns"] += 1
        sim.fired["backend_" + st["backend"]] += 1
        try:
            res = fm.solve(mat, mesh, solve=be, verbose=False, **kw)
        except Exception as e:
            sim.log("stage", k, "raised", repr(e))
            sim.count("stage_raised_%s" % type(e).__name__)
            break
        hist = packing.samples(res)
        n = len(hist["Z"])
        sim.log("stage", k, n, digest(hist["Z"]), digest(hist["u"]))
        sim.count("states", n)
        sim.count("stages")
        out["states"] = max(out["states"], n)
        v = packing.invariants(mat, mesh, res, hist, tol, errtol, carry, pairs)
        for x in v:
            x["detail"] = "stage %d: %s" % (k, x["detail"])
        if v:
            out["viol"] = v
            break
        if k + 1 < len(sc["stages"]):
            carry += 2 * tol + 4 * errtol * (top - float(hist["Z"][-1])) + 1e-9 * max(1.0, top)
            mesh = fm.Mesh(mesh.copy())
            mesh.z += hist["u"][-1][::2]
    out["summary"] = sim.summary()
    sim.uninstall()
    return out


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["states"] >= 3, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
