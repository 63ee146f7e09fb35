"""Client sessions: a small op vocabulary over the library's public surface, and its interpreter."""
import copy
import random

import numpy as np
import scipy as sp

import boot
import seams
from obs import observe, diff, digest, globals_snapshot

import fibermat as fm

# op -> (names of arguments that refer to objects of the session)
REFS = {"mat": (), "net": ("mat",), "stack": ("mat", "net"), "mesh": ("net",), "stiffness": ("mat", "mesh"),
        "constraint": ("mat", "mesh"), "solve": ("mat", "mesh"), "lp": ("mat", "net"), "stackc": ("mat", "net"),
        "vtk_fiber": (), "vtk_mat": ("mat",), "vtk_mesh": ("mat", "mesh"), "vtk_sol": ("mat", "mesh", "sol"),
        "interp": (), "check": ("obj",), "wrap": ("obj",), "deform": ("mesh", "sol"), "host_draw": (),
        "edit": ("mat",), "host_seed": (), "settings": (), "default": (), "plot": ("mat", "mesh"), "settings_mat": ()}


def dense_solver(A, b):
    """A second linear backend (dense, minimum norm)."""
    if A.shape[0] == 0:
        return np.zeros(0)
    return np.linalg.lstsq(A.toarray(), np.asarray(b, float), rcond=None)[0]


def lu_solver(A, b):
    """A third linear backend: dense LU, which reports a singular system the way SuperLU's factorisation does (SuperLU's
    own splu crashes the interpreter on some singular systems)."""
    if A.shape[0] == 0:
        return np.zeros(0)
    try:
        return np.linalg.solve(A.toarray(), np.asarray(b, float))
    except np.linalg.LinAlgError:
        raise RuntimeError("Factor is exactly singular")


def backend(name):
    return {"spsolve": sp.sparse.linalg.spsolve, "dense": dense_solver, "lu": lu_solver}[name]


def make_perm(kind, mat, mesh, kw):
    """Ordering of the unknowns of the packing problem."""
    K = fm.stiffness(mat, mesh, **{k: v for k, v in kw.items() if k in ("lmin", "lmax", "coupling")})[0]
    C = fm.constraint(mat, mesh)[0]
    n = K.shape[0] + C.shape[0]
    if kind == "rcm":
        P = sp.sparse.bmat([[K, C.T], [C, None]], format="csc")
        return sp.sparse.csgraph.reverse_cuthill_mckee(P, symmetric_mode=True)
    if kind == "reverse":
        return np.arange(n)[::-1].copy()
    return np.random.RandomState(int(kind)).permutation(n)


def edit(mat, seed):
    """The host adapts its fibres in place, row by row or column by column (valid values; idempotent)."""
    r = np.random.RandomState(int(seed))
    n = len(mat)
    for col, vals in (("h", [0.15, 0.3, 0.5]), ("b", [0.5, 1.0, 2.0]), ("G", [0.5, 1.0, 3.0]), ("E", [10.0, 200.0, 3000.0]), ("l", None)):
        if r.random_sample() < (0.7 if col in "hE" else 0.35) and n:
            v = r.choice(vals, n) if vals else np.round(r.uniform(0.5, 1.0, n) * 0.9 * mat.attrs["size"], 2)
            if r.random_sample() < 0.5:
                mat[col] = np.maximum(1, np.round(v)).astype(int) if r.random_sample() < 0.5 and col != "h" else v
            else:
                for i in range(n):
                    mat.loc[i, col] = v[i]


def call(world, op):
    """Execute one op; returns (value, inputs) — inputs are the argument objects the op was given."""
    kind = op["op"]
    kw = dict(op.get("kw", {}))
    for k in ("tensile", "shear"):
        if kw.get(k) == "inf":
            kw[k] = float("inf")
    a = {r: world.get(op[r]) for r in REFS[kind] if r in op}
    if kind == "mat":
        return fm.Mat(**kw)
    if kind == "net":
        if "pairs" in kw:
            kw["pairs"] = world[op["out"] + "!pairs"]
        return fm.Net(a["mat"], **kw)
    if kind == "stack":
        return fm.Stack(a["mat"], a["net"], **kw)
    if kind == "mesh":
        return fm.Mesh(a["net"])
    if kind == "lp":
        return fm.Stack.solve(a["mat"], a["net"])
    if kind == "stackc":
        return fm.Stack.constraint(a["mat"], a["net"])
    if kind == "stiffness":
        return fm.stiffness(a["mat"], a["mesh"], **kw)
    if kind == "constraint":
        return fm.constraint(a["mat"], a["mesh"], **kw)
    if kind == "solve":
        kw.setdefault("verbose", False)
        b = kw.pop("backend", None)
        if b is not None:
            kw["solve"] = backend(b)
        if kw.pop("perm", None) is not None:
            kw["perm"] = world[op["out"] + "!perm"]
        return fm.solve(a["mat"], a["mesh"], **kw)
    if kind == "vtk_fiber":
        return fm.vtk_fiber(**kw)
    if kind == "vtk_mat":
        return fm.vtk_mat(a["mat"], verbose=kw.pop("verbose", False), **kw)
    if kind == "vtk_mesh":
        return fm.vtk_mesh(a["mat"], a["mesh"], verbose=False)
    if kind == "vtk_sol":
        return fm.vtk_mesh(a["mat"], a["mesh"], **world[op["out"] + "!fields"], verbose=False)
    if kind == "interp":
        y = world[op["out"] + "!y"]
        return fm.Interpolate(y, size=kw.get("size"), kind=kw.get("kind", "linear"))
    if kind == "check":
        return type(a["obj"]).check(a["obj"])
    if kind == "wrap":
        return type(a["obj"])(a["obj"])
    if kind == "deform":
        m = fm.Mesh(a["mesh"].copy())
        m.z += a["sol"][2](1)[::2]
        return m
    if kind == "edit":
        return edit(a["mat"], kw["seed"])
    if kind == "default":
        return {"Mat": fm.Mat, "Net": fm.Net, "Stack": fm.Stack, "Mesh": fm.Mesh}[kw["cls"]]()
    if kind == "plot":
        ax = world[op["out"] + "!ax"]
        K = world[op["out"] + "!K"]
        C = world[op["out"] + "!C"]
        fm.plot_system(*K, *C, ax=ax)
        return None
    if kind == "settings":
        s = fm.Settings(**kw)
        return {k: s[k] for k in dict.keys(s)}
    if kind == "settings_mat":
        s = fm.Settings(**kw)
        return fm.Mat(**s)
    if kind == "host_seed":
        np.random.seed(kw["seed"])
        random.seed(kw["seed"])
        return None
    if kind == "host_draw":
        return (np.random.random(kw.get("k", 3)), np.random.randint(0, 1 << 30, 2), random.random())
    raise KeyError(kind)


def prepare(world, op):
    """Harness-side preparation of arguments that are not session objects (arrays); not part of the op itself."""
    kind, kw, out = op["op"], op.get("kw", {}), op.get("out", "_")
    if kind == "net" and "pairs" in kw:
        n = len(world[op["mat"]])
        if kw["pairs"] == "all":
            p = np.c_[np.triu_indices(n)]
        else:                                    # seeded subset (all the diagonal, some of the others)
            r = np.random.RandomState(int(kw["pairs"]))
            p = np.c_[np.triu_indices(n)]
            p = p[(p[:, 0] == p[:, 1]) | (r.random_sample(len(p)) < 0.6)]
            if r.random_sample() < 0.7:          # in any order, either fibre first
                p = p[r.permutation(len(p))]
                swap = r.random_sample(len(p)) < 0.5
                p[swap] = p[swap][:, ::-1]
        world[out + "!pairs"] = p
    if kind == "solve" and kw.get("perm") is not None:
        world[out + "!perm"] = make_perm(kw["perm"], world[op["mat"]], world[op["mesh"]], kw)
    if kind == "vtk_sol":                        # the fields are the user's arrays
        K, C, u, f = world[op["sol"]][:4]
        t = kw.get("t", 1.0)
        d = dict(zip(("displacement", "rotation"), u(t).reshape(-1, 2).T.copy()))
        d.update(zip(("force", "moment"), (f(t) @ C).reshape(-1, 2).T.copy()))
        for x in d.values():
            x *= kw.get("amp", 1.0)
        if kw.get("locked"):                     # e.g. read from a memory-mapped file
            for x in d.values():
                x.setflags(write=False)
        world[out + "!fields"] = {k: x for k, x in d.items() if k not in kw.get("without", [])}
    if kind == "interp":
        r = np.random.RandomState(int(kw.get("seed", 0)))
        world[out + "!y"] = r.random_sample((int(kw.get("rows", 5)), 2)) if kw.get("rows", 5) != 1 else r.random_sample((1, 2))
    if kind == "plot":
        from matplotlib import pyplot as plt
        world[out + "!ax"] = plt.figure().add_subplot()
        world["!figures"] = world.get("!figures", 0) + 1
        world[out + "!K"] = fm.stiffness(world[op["mat"]], world[op["mesh"]])
        world[out + "!C"] = fm.constraint(world[op["mat"]], world[op["mesh"]])


def inputs_of(world, op):
    out = op.get("out", "_")
    d = {r: world[op[r]] for r in REFS[op["op"]] if op.get(r) in world}
    for k in ("!pairs", "!perm", "!y", "!K", "!C", "!fields"):
        if out + k in world:
            d[k] = world[out + k]
    return d


def ready(world, op):
    return all(op.get(r) in world for r in REFS[op["op"]])


class Record(dict):
    pass


def run_op(sim, thread, world, op, inject=None, check_inputs=False, check_globals=False, keep=True, profile=False):
    """Run one op in the current client; returns a Record (status, observation, exception, side effects)."""
    rec = Record(op=op["op"], out=op.get("out"))
    if not ready(world, op):
        rec["status"] = "skipped"
        return rec
    saved_thread_inject = thread.inject
    thread.inject = None
    quota, sim.quota = sim.quota, None                 # harness-side preparation is not preempted
    try:
        with np.errstate(all="ignore"):
            prepare(world, op)
    except Exception as e:                             # e.g. the set is empty: nothing to run
        rec["status"] = "skipped"
        rec["why"] = repr(e)
        return rec
    finally:
        sim.quota = quota
    ins = inputs_of(world, op) if op["op"] != "edit" else {}
    before = {k: observe(v) for k, v in ins.items()} if check_inputs else None
    gl = globals_snapshot() if check_globals else None
    thread.op_events = 0
    thread.inject = inject
    thread.profile = [] if profile else None
    try:
        val = call(world, op)
        rec["status"] = "ok"
    except (SystemExit, GeneratorExit):
        raise
    except BaseException as e:
        import sim as simmod
        if isinstance(e, (simmod.StepBudget, simmod.Deadlock)):
            rec["status"] = "stuck"
            rec["exc"] = [type(e).__name__, str(e)]
            rec["events"] = thread.op_events
            thread.inject = None
            return rec
        rec["status"] = "exc"
        rec["exc"] = [type(e).__name__, str(e)[:300]]
        rec["exc_obj"] = e
        val = None
    rec["injected"] = inject is not None and thread.inject is None
    thread.inject = None
    rec["events"] = thread.op_events
    rec["profile"] = thread.profile
    thread.profile = None
    sim.quota, quota = None, sim.quota                 # observation is not preempted either
    try:
        if check_globals:
            d = diff(gl, globals_snapshot())
            if d and op["op"] not in ("host_seed", "host_draw"):
                rec["globals"] = d
        if check_inputs:
            changed = {}
            for k, v in ins.items():
                d = diff(before[k], observe(v), k, rtol=0, atol=0)
                if d:
                    changed[k] = d
            rec["changed"] = changed
        if rec["status"] == "ok":
            if op.get("out") is not None:
                world[op["out"]] = val
            rec["obs"] = observe(val)
            rec["dig"] = digest(rec["obs"])
            if not keep:
                del rec["obs"]
        if op["op"] == "stack" and op.get("mat") in world:
            rec["mat_after"] = observe(world[op["mat"]])
        sim.log("op", op["op"], rec["status"], rec.get("dig") or rec.get("exc"))
    finally:
        sim.quota = quota
    return rec


# ---------------------------------------------------------------------------------------------------------------------
# Generation

def gen_mat(r, n_max=10, thin=0.7, planar=True, wide=0.025):
    n = r.choice([1, 2, 3]) if r.random() < 0.12 else r.randint(3, n_max)
    if r.random() < wide:                              # well beyond the usual size
        n = r.randint(16, 32)
    size = r.choice([15.0, 20.0, 30.0, 50.0])
    kw = dict(n=n, size=size, length=round(r.uniform(0.4, 1.1) * size, 1), seed=r.randrange(0, 50))
    if r.random() < thin:
        kw["thickness"] = r.choice([0.2, 0.3, 0.5])
    if r.random() < 0.3:
        kw["width"] = r.choice([0.5, 2.0])
    if r.random() < 0.25:
        kw["theta"] = r.choice([0.5, 1.5, 3.0])
    if not planar and r.random() < 0.5:
        kw["psi"] = r.choice([0.2, 1.0])
    if r.random() < 0.65:
        kw["tensile"] = r.choice([10.0, 200.0, 5000.0])
    elif r.random() < 0.3:
        kw["tensile"] = "inf"
    if r.random() < 0.3:
        kw["shear"] = r.choice([0.5, 3.0])
    return kw


def mutate_mat(r, kw):
    """A configuration that collides with `kw` in most parameters (catches under-keyed reuse of results)."""
    kw = dict(kw)
    k = r.choice(["size", "length", "theta", "thickness", "seed", "n", "tensile", "width", "shear"])
    if k == "n":
        kw["n"] = max(1, kw["n"] + r.choice([-1, 1]))
    elif k == "seed":
        kw["seed"] = kw.get("seed", 0) + 1
    elif k == "theta":
        kw["theta"] = 1.1
    elif k == "size":
        kw["size"] = kw["size"] * 1.25
    elif k == "length":
        kw["length"] = round(kw["length"] * 0.8, 2)
    else:
        kw[k] = {"thickness": 0.4, "tensile": 77.0, "width": 0.8, "shear": 1.7}[k]
    return kw


def gen_solve(r, quick=True):
    kw = dict(packing=r.choice([1.3, 2.0, 3.0, 4.0]), itermax=r.choice([3, 8, 15, 25]), coupling=0.99, lmin=0.01)
    if r.random() < 0.3:
        kw["interp_size"] = r.choice([5, 20])
    if r.random() < 0.2:
        kw["lmax"] = r.choice([5.0, 15.0])
    if r.random() < 0.15:
        del kw["lmin"]
    return kw


def gen_fields(r):
    return {"t": r.choice([1.0, 1.0, 0.0, 0.37]), "amp": r.choice([1.0, 1.0, 30.0, -30.0]), "locked": r.random() < 0.3,
            "without": r.choice([[], [], ["rotation"], ["moment"], ["force", "moment"], ["displacement", "rotation"], ["rotation", "force", "moment"]])}


def gen_chain(r, p, n_max=8, solve=0.6, vtk=0.15, depth=None):
    """A pipeline with object names prefixed by p."""
    m = gen_mat(r, n_max)
    ops = [{"op": "mat", "out": p + "m", "kw": m}]
    depth = depth if depth is not None else r.choice([1, 2, 3, 4, 4, 5, 5, 5])
    periodic = r.random() < 0.6
    if r.random() < 0.35:
        ops.append({"op": "edit", "mat": p + "m", "kw": {"seed": r.randrange(1000)}})
    if depth >= 2:
        ops.append({"op": "net", "mat": p + "m", "out": p + "n", "kw": {"periodic": periodic}})
    src = p + "n"
    if depth >= 3 and r.random() < 0.85:
        kw = {} if r.random() < 0.6 else {"threshold": r.choice([0.5, 2.0, 10.0])}
        ops.append({"op": "stack", "mat": p + "m", "net": p + "n", "out": p + "s", "kw": kw})
        src = p + "s"
    if depth >= 4:
        ops.append({"op": "mesh", "net": src, "out": p + "h"})
    if depth >= 5:
        if r.random() < solve:
            ops.append({"op": "solve", "mat": p + "m", "mesh": p + "h", "out": p + "r", "kw": gen_solve(r)})
            if r.random() < vtk:
                ops.append({"op": "vtk_sol", "mat": p + "m", "mesh": p + "h", "sol": p + "r", "out": p + "v", "kw": gen_fields(r)})
            elif r.random() < 0.3:
                ops.append({"op": "deform", "mesh": p + "h", "sol": p + "r", "out": p + "d"})
        else:
            ops.append(r.choice([
                {"op": "stiffness", "mat": p + "m", "mesh": p + "h", "out": p + "k", "kw": {"lmin": 0.01, "coupling": 0.99}},
                {"op": "constraint", "mat": p + "m", "mesh": p + "h", "out": p + "c", "kw": {}},
                {"op": "vtk_mat", "mat": p + "m", "out": p + "v", "kw": {}},
                {"op": "vtk_mesh", "mat": p + "m", "mesh": p + "h", "out": p + "v"}]))
    return ops
