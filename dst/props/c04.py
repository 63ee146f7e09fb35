"""C04: an interrupted or failed operation can be retried with the same result."""
import session
from common import *
import fibermat as fm

ID = "C04"
LEVEL = "fault_enumeration"
HOW = "interrupts, cancellations and allocation failures at seeded library steps, failing seams, then retry; compared with an undisturbed session"
RUNS = {"quick": 560, "thorough": 30000}
RULE = ("a generated session (generate, connect, stack, mesh, assemble, solve, export) is disturbed at 1-4 points (uniform over "
        "distinct code locations, first/last hit favoured) by interrupt, cancellation, MemoryError or a failing LP/linear solver, each "
        "failed operation is retried on the same objects; non-trivial: at least one fault struck inside a library call; distinct by "
        "(operation, code location, fault kind) set")
COMPONENTS = {"real": REAL, "stub": ["clocks", "entropy of unseeded generators", "LP and linear solver entry points (pass through unless failing)"]}
ASSUMPTIONS = ASSUME + ["faults strike between steps of the library's own code or inside a seam, never inside third-party C code"]


SWEEP = 0.15


def generate(r, i, tier):
    ops = session.gen_chain(r, "x", n_max=8, depth=r.choice([1, 2, 3, 4, 5, 5, 5, 5, 5, 5]), vtk=0.3, solve=0.75)
    for _ in range(r.choice([0, 0, 1, 2])):             # more work after the chain, on the same objects
        have = {o["out"]: o["op"] for o in ops if "out" in o}
        k = r.choice(["net", "mesh", "solve", "lp", "stack", "vtk_mat", "stiffness", "constraint", "mat", "interp", "plot"])
        out = "y%d" % len(ops)
        if k == "net" and "xm" in have:
            ops.append({"op": "net", "mat": "xm", "out": out, "kw": {"periodic": r.random() < 0.5}})
        elif k == "mesh" and "xn" in have:
            ops.append({"op": "mesh", "net": "xn", "out": out})
        elif k == "solve" and "xh" in have:
            ops.append({"op": "solve", "mat": "xm", "mesh": "xh", "out": out, "kw": session.gen_solve(r)})
        elif k in ("lp", "stack") and "xn" in have and "xs" in have:
            ops.append({"op": k, "mat": "xm", "net": "xn", "out": out, "kw": {}})
        elif k == "vtk_mat" and "xm" in have:
            ops.append({"op": "vtk_mat", "mat": "xm", "out": out, "kw": {}})
        elif k in ("stiffness", "constraint") and "xh" in have:
            ops.append({"op": k, "mat": "xm", "mesh": "xh", "out": out, "kw": {}})
        elif k == "plot" and "xh" in have:
            ops.append({"op": k, "mat": "xm", "mesh": "xh", "out": out})
        elif k == "mat":
            ops.append({"op": "mat", "out": out, "kw": session.mutate_mat(r, ops[0]["kw"])})
        elif k == "interp":
            ops.append({"op": "interp", "out": out, "kw": {"seed": r.randrange(9), "rows": r.randint(1, 6), "size": r.choice([None, 7])}})
    faults = []
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        k = max(r.randrange(len(ops)), r.randrange(len(ops)))
        f = {"op": k, "kind": r.choice(["interrupt", "interrupt", "nomem", "cancel"]), "pick": [r.random(), r.random()]}
        if ops[k]["op"] == "stack" and r.random() < 0.3:
            f = {"op": k, "kind": "lp", "how": r.choice(["raise", "infeasible", "limit", "memory"])}
        elif ops[k]["op"] == "solve" and r.random() < 0.3:
            f = {"op": k, "kind": "backend", "call": r.choice([0, 0, 1, 1, 2, 3])}
        faults.append(f)
    gran = "instr" if r.random() < 0.3 else "line"
    if r.random() < SWEEP:
        faults, gran = faults[:1] + [gen_sweep(r, ops)], "line"
    return {"ops": ops, "faults": faults, "gran": gran}


class SolverDown(Exception):
    pass


def lp_failure(how):
    def lp(real, a, k):
        if how == "raise":
            raise SolverDown("LP solver unavailable")
        if how == "memory":
            raise MemoryError("LP solver out of memory")
        from scipy.optimize import OptimizeResult
        return OptimizeResult(x=None, fun=None, status=2 if how == "infeasible" else 1, success=False,
                              message="injected: " + how, slack=None, con=None, nit=0)
    return lp


def disturbed(sc, ords):
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install()
    world, recs, att = {}, [], []
    stop = False
    real_backend = session.backend
    for k, op in enumerate(sc["ops"]):
        for j, f in enumerate([f for f in sc["faults"] if f["op"] == k]):
            if f["kind"] == "lp":
                if op["op"] != "stack":
                    continue
                sim.lp = lp_failure(f["how"])
                rec = session.run_op(sim, sim.main, world, op, keep=False)
                sim.lp = None
                sim.fire("lp_" + f["how"])
                rec["injected"] = True
            elif f["kind"] == "backend":
                if op["op"] != "solve":
                    continue
                calls = [0]

                def failing(A, b, calls=calls, at=f["call"]):
                    calls[0] += 1
                    if calls[0] == at + 1:
                        sim.fire("backend_raise", at)
                        raise SolverDown("linear solver unavailable")
                    return real_backend("spsolve")(A, b)
                session.backend = lambda name: failing
                op2 = dict(op, kw=dict(op.get("kw", {}), backend="x"))
                rec = session.run_op(sim, sim.main, world, op2, keep=False)
                session.backend = real_backend
                rec["injected"] = calls[0] > f["call"]
            else:
                n = ords.get(k, [])
                n = n[j] if j < len(n) else None
                if n is None:
                    continue
                rec = session.run_op(sim, sim.main, world, op, inject=(n, f["kind"]), keep=False)
            att.append({"op": k, "kind": f["kind"], "status": rec["status"], "exc": rec.get("exc"), "injected": rec.get("injected")})
            if rec["status"] == "stuck":
                stop = True
                recs.append(rec)
                break
        if stop:
            break
        recs.append(session.run_op(sim, sim.main, world, op))
        if recs[-1]["status"] == "stuck":
            break
    out = {"recs": strip(recs), "attempts": att, "summary": sim.summary()}
    sim.uninstall()
    return out


NAMES = {"interrupt": "KeyboardInterrupt", "nomem": "MemoryError", "cancel": "SimCancel", "backend": "SolverDown"}


def run(sc):
    sc = expand(sc)
    picks = {}
    for f in sc["faults"]:
        if f["op"] < len(sc["ops"]):
            picks.setdefault(f["op"], []).append(f.get("pick", [0, 0]))
    ref = isolated(serial, "ref", sc["id"], sc["ops"], True, picks, sc["gran"])
    got = isolated(disturbed, sc, ref["ordinals"])
    viol = []
    struck = [a for a in got["attempts"] if a["injected"]]
    for a in struck:
        where = "op %d %s" % (a["op"], sc["ops"][a["op"]]["op"])
        if a["status"] == "ok":
            if a["kind"] == "lp" and ref["recs"][a["op"]]["status"] == "ok":
                viol.append({"kind": "swallowed", "detail": "%s returned normally although the LP solver failed" % where})
            elif a["kind"] != "lp":
                viol.append({"kind": "swallowed", "detail": "%s returned normally although %s struck" % (where, a["kind"])})
        elif a["status"] == "exc" and a["kind"] in NAMES and a["exc"][0] != NAMES[a["kind"]]:
            viol.append({"kind": "swallowed", "detail": "%s raised %s although %s struck" % (where, a["exc"], a["kind"])})
    for k, rec in enumerate(got["recs"]):
        v = compare(ref["recs"][k], rec, "after faults, op %d" % k) if k < len(ref["recs"]) else None
        if v:
            viol.append(v)
            break
    s = got["summary"]
    for a in struck:
        s["probes"]["struck_" + sc["ops"][a["op"]]["op"]] = s["probes"].get("struck_" + sc["ops"][a["op"]]["op"], 0) + 1
    st = merge(s)
    key = digest([[a["op"], sc["ops"][a["op"]]["op"], a["kind"], str(a["exc"])] for a in struck])
    st["sig"] = key
    return {"violations": viol, "stats": st, "nontrivial": bool(struck), "key": key, "digest": s["digest"], "trace": s["trace"]}
