"""C05: concurrent callers get exactly the results of serial execution."""
import copy

import session
from common import *
from obs import observe

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 400, "thorough": 20000}
HOW = "seeded pre-emptive schedules over concurrent clients, results compared with runs alone"
RULE = ("2-4 clients with generated sessions (own objects, near-identical parameters, or one shared set of input objects) run "
        "under a seeded pre-emptive schedule over library lines or bytecode instructions; non-trivial: at least two pre-emptions "
        "inside library code and results of at least two clients compared with runs alone; distinct by switch signature")
COMPONENTS = {"real": REAL, "stub": STUB_BASE}
ASSUMPTIONS = ASSUME


def duel_op(r, kind, k):
    op = {"op": kind, "out": "q"}
    if kind == "mat":
        op["kw"] = session.gen_mat(r, 6)
    elif kind == "net":
        op.update(mat="xm", kw={"periodic": r.random() < 0.5})
    elif kind == "stack":
        op.update(mat="xm", net="xn", kw={} if r.random() < 0.5 else {"threshold": 2.0})
    elif kind == "mesh":
        op.update(net="xs")
    elif kind in ("stiffness", "constraint"):
        op.update(mat="xm", mesh="xh", kw={"lmin": 0.01})
    elif kind == "solve":
        op.update(mat="xm", mesh="xh", kw={"packing": 3.0, "itermax": 2, "lmin": 0.01, "coupling": 0.99, "verbose": r.random() < 0.2})
    elif kind in ("check", "wrap"):
        op.update(obj=r.choice(["xm", "xn", "xs", "xh"]))
    elif kind in ("lp", "stackc"):
        op.update(mat="xm", net="xn")
    elif kind == "vtk_mat":
        op.update(mat="xm", kw={"theta_resolution": 4, "z_resolution": 3})
    elif kind == "vtk_mesh":
        op.update(mat="xm", mesh="xh")
    elif kind == "interp":
        op["kw"] = {"seed": r.randrange(9), "rows": r.randint(2, 6), "size": r.choice([None, 7])}
    elif kind == "settings":
        op["kw"] = {"n": r.randint(0, 9), "packing": 2.0}
    return op


def gen_duel(r):
    """One client repeats an operation and is held at many places of it while the other completes the same (or another)
    operation on its own objects."""
    kind = r.choice(["mat", "net", "net", "stack", "stack", "mesh", "stiffness", "constraint", "constraint", "solve", "solve", "solve", "check", "wrap",
                     "lp", "stackc", "vtk_mat", "vtk_mesh", "interp", "settings"])
    other = kind if r.random() < 0.75 else r.choice(["mat", "net", "stack", "mesh", "constraint", "solve", "check"])
    clients = []
    for c, k in enumerate((kind, other)):
        ops = session.gen_chain(r, "x", n_max=5, depth=4)
        if c and r.random() < 0.4:
            ops = copy.deepcopy(clients[0]["ops"][:-1])
            ops[0]["kw"] = session.mutate_mat(r, ops[0]["kw"])
        if not any(o["op"] == "stack" for o in ops):
            ops.insert(-1, {"op": "stack", "mat": "xm", "net": "xn", "out": "xs", "kw": {}})
        clients.append({"ops": ops + [duel_op(r, k, c)]})
    reps = {"solve": 2, "vtk_mesh": 2, "vtk_mat": 2, "stack": 3}.get(kind, 4)
    return {"mode": "duel", "shared": [], "clients": clients, "slices": [], "gran": "instr" if r.random() < 0.2 else "line",
            "duel": [[[r.random(), r.random()] for _ in range(12 if kind not in ("stack", "vtk_mesh") else 8)] for _ in range(reps)]}


def generate(r, i, tier):
    if i % 2:
        return gen_duel(r)
    n = r.choice([2, 2, 2, 3, 3, 4])
    shared = []
    mode = r.choice(["own", "own", "near", "near", "shared"])
    clients = []
    if mode == "shared":
        shared = session.gen_chain(r, "S", n_max=6, depth=4)
        for c in range(n):
            ops = []
            for k in range(r.randint(1, 4)):
                out = "c%d_%d" % (c, k)
                kind = r.choice(["net", "mesh", "solve", "solve", "stiffness", "constraint", "check", "lp", "vtk_mat", "stackc", "wrap"])
                op = {"op": kind, "out": out}
                if kind == "net":
                    op.update(mat="Sm", kw={"periodic": r.random() < 0.5})
                elif kind == "mesh":
                    op.update(net=r.choice(["Sn", "Ss"]))
                elif kind == "solve":
                    op.update(mat="Sm", mesh="Sh", kw=session.gen_solve(r))
                elif kind in ("stiffness", "constraint"):
                    op.update(mat="Sm", mesh="Sh", kw={"lmin": 0.01})
                elif kind in ("check", "wrap"):
                    op.update(obj=r.choice(["Sm", "Sn", "Sh", "Ss"]))
                elif kind in ("lp", "stackc"):
                    op.update(mat="Sm", net="Sn")
                elif kind == "vtk_mat":
                    op.update(mat="Sm", kw={})
                ops.append(op)
            clients.append({"ops": ops})
    else:
        base = session.gen_chain(r, "x", n_max=6)
        for c in range(n):
            if mode == "own":
                ops = session.gen_chain(r, "x", n_max=6)
            else:
                ops = copy.deepcopy(base)
                if c:
                    ops[0]["kw"] = session.mutate_mat(r, ops[0]["kw"])
                    for o in ops:
                        if o["op"] == "net" and r.random() < 0.3:
                            o["kw"]["periodic"] = not o["kw"].get("periodic", True)
                        elif o["op"] == "edit" and r.random() < 0.5:
                            o["kw"]["seed"] = r.randrange(1000)
            if r.random() < 0.3:
                ops = ops + [{"op": "default", "out": "z", "kw": {"cls": r.choice(["Mat", "Net", "Mesh"])}}]
            if r.random() < 0.2:
                ops = ops + [{"op": "interp", "out": "i", "kw": {"seed": r.randrange(9), "rows": r.randint(2, 6), "size": r.choice([None, 7])}}]
            if r.random() < 0.15:
                ops = ops + [{"op": "settings", "out": "w", "kw": {"n": r.randint(0, 9), "packing": 2.0}}]
            clients.append({"ops": ops})
    sc = {"mode": mode, "shared": shared, "clients": clients, "slices": gen_slices(r, n),
          "gran": "instr" if r.random() < 0.3 else "line"}
    if r.random() < 0.6:
        sc["focus"] = gen_focus(r, clients)
    return sc


def threads(sc):
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install()
    world = {}
    pre = [session.run_op(sim, sim.main, world, op) for op in sc["shared"]]
    before = {k: observe(v) for k, v in world.items()}
    out = []
    fns = []
    for c, cl in enumerate(sc["clients"]):
        recs = []
        out.append(recs)

        def client(t, ops=cl["ops"], recs=recs, w=dict(world)):
            for op in ops:
                recs.append(session.run_op(sim, t, w, op))
                if recs[-1]["status"] == "stuck":
                    return
        fns.append(client)
    ts = sim.run_threads(fns, [[s[0], s[1] * (6 if sc["gran"] == "instr" and not sc.get("exact") else 1)] for s in sc["slices"]])
    errs = [repr(t.error) for t in ts if t.error is not None]
    changed = []
    for k, v in world.items():
        d = diff(before[k], observe(v), k)
        if d:
            changed.append(d)
    res = {"recs": [strip(r) for r in out], "errors": errs, "changed": changed, "summary": sim.summary()}
    sim.uninstall()
    return res


def duel(sc):
    """Clients and slices of a duel, and each client's reference."""
    picks = [p for rep in sc["duel"] for p in rep]
    nA, nB = len(sc["clients"][0]["ops"]), len(sc["clients"][1]["ops"])
    A = isolated(serial, "ref0", sc["id"], sc["clients"][0]["ops"], True, {nA - 1: picks}, sc["gran"])
    B = isolated(serial, "ref1", sc["id"], sc["clients"][1]["ops"], True, None, sc["gran"])
    ords, k = A["ordinals"].get(nA - 1) or [], 0
    evA = [x.get("events", 0) for x in A["recs"]]
    evB = [x.get("events", 0) for x in B["recs"]]
    ref = [list(A["recs"]), list(B["recs"])]
    ops = [list(sc["clients"][0]["ops"]), list(sc["clients"][1]["ops"][:-1])]
    ref[1].pop()
    slices = [[0, sum(evA[:-1])], [1, sum(evB[:-1])]]
    for rep in sc["duel"]:
        at = 0
        mine = sorted({o for o in ords[k:k + len(rep)] if o})
        k += len(rep)
        for o in mine:
            slices += [[0, o - at], [1, evB[-1]]]
            at = o
            ops[1].append(sc["clients"][1]["ops"][-1])
            ref[1].append(B["recs"][-1])
        slices.append([0, evA[-1] - at])
        if rep is not sc["duel"][-1]:
            ops[0].append(sc["clients"][0]["ops"][-1])
            ref[0].append(A["recs"][-1])
    slices = [x for x in slices if x[1] > 0]
    return dict(sc, clients=[{"ops": o} for o in ops], slices=slices, exact=True), ref


def run(sc):
    refs = []
    pre = len(sc["shared"])
    if "duel" in sc:
        sc, refs = duel(sc)
        refs = [{"recs": x} for x in refs]
    for c, cl in enumerate(sc["clients"] if not refs else []):
        picks = {pre + k: [x[2:4] for x in sc["focus"][k] if x[0] == c] for k in range(len(cl["ops"])) if k < len(sc["focus"])} if "focus" in sc else None
        refs.append(isolated(serial, "ref%d" % c, sc["id"], sc["shared"] + cl["ops"], True, picks, sc["gran"]))
    if "focus" in sc:
        sc = dict(sc, slices=focus_slices(sc["focus"], [r["recs"][pre:] for r in refs],
                                          [{k - pre: v for k, v in r["ordinals"].items()} for r in refs]), exact=True)
    got = isolated(threads, sc)
    viol = [{"kind": "stuck", "detail": e} for e in got["errors"]]
    viol += [{"kind": "shared-input", "detail": d} for d in got["changed"]]
    ok = 0
    for c, cl in enumerate(sc["clients"]):
        ref = refs[c]["recs"][pre:]
        for k, rec in enumerate(got["recs"][c]):
            if k >= len(ref):
                viol.append({"kind": "stuck", "detail": "client %d alone does not finish" % c})
                break
            v = compare(ref[k], rec, "client %d op %d" % (c, k))
            if v:
                viol.append(v)
        ok += any(r["status"] == "ok" for r in got["recs"][c])
    s = got["summary"]
    s["probes"]["mode_" + sc["mode"]] = 1
    s["probes"]["gran_" + sc["gran"]] = 1
    s["probes"]["focused_schedule"] = int("focus" in sc)
    for recs in got["recs"]:
        for r in recs:
            s["probes"]["op_%s_%s" % (r["op"], r["status"])] = s["probes"].get("op_%s_%s" % (r["op"], r["status"]), 0) + 1
    return {"violations": viol, "stats": merge(s), "nontrivial": s["switches"] >= 2 and ok >= 2, "key": s["sig"],
            "digest": s["digest"], "trace": s["trace"]}
