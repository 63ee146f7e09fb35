"""C15: exports visit every fibre once, keep inputs intact and survive failing callbacks."""
import functools

import numpy as np

import packing
import session
import fibermat as fm
from common import *
from obs import _short
from sim import FAULTS, StepBudget

ID = "C15"
LEVEL = "fault_enumeration"
HOW = "seeded export histories in which the callback fails at a chosen fibre or the export is interrupted at a chosen library step, each checked against the fibre table and against the same export repeated undisturbed"
RUNS = {"quick": 640, "thorough": 40000}
RULE = ("a generated set (0-12 fibres; half of them stacked and meshed) is exported 3-8 times with callbacks that add fields, move points, "
        "export again, or fail at a seeded fibre, and interrupts at a seeded library step; every undisturbed grid is compared with the "
        "table fibre by fibre; non-trivial: at least one failing or interrupted export and one complete one; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["the user's callback", "clocks"]}
ASSUMPTIONS = ["points are compared with the fibre's own axis and cross-section to single precision"]

EXC = {"KeyError": KeyError, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration,
       "MemoryError": MemoryError, "RuntimeError": RuntimeError, "GeneratorExit": GeneratorExit, "AttributeError": AttributeError,
       "IndexError": IndexError, "TypeError": TypeError, "AssertionError": AssertionError, "SystemExit": SystemExit}
CALLBACKS = ["tag", "tag", "move", "nested", "drop", "spy", "none"]
RES = [{}, {}, {"theta_resolution": 5}, {"z_resolution": 4}, {"r_resolution": 2, "theta_resolution": 4, "z_resolution": 3}]


def generate(r, i, tier):
    big = 9 if tier == "quick" else 16
    meshed = r.random() < 0.45
    if meshed:
        pb = packing.gen_problem(r, big, big=0.02)
    else:
        pb = {"mat": session.gen_mat(r, big)}
        if r.random() < 0.06:
            pb["mat"]["n"] = 0
    n = pb["mat"]["n"]
    edits = []
    for _ in range(r.choice([0, 0, 1, 3])):                      # a set put together by hand: fibres differ in every column
        edits.append([r.randrange(max(1, n)), r.choice(list("lbhGEwzzx")), round(r.uniform(0.2, 9.0), 3)])
    ev = []
    for _ in range(r.randint(3, 8)):
        e = {"op": "vtk_mesh" if meshed and r.random() < 0.5 else "vtk_mat", "verbose": r.random() < 0.2, "kw": r.choice(RES)}
        if e["op"] == "vtk_mat":
            e["cb"] = r.choice(CALLBACKS)
            e["form"] = r.choice(["function", "function", "method", "object", "partial", "star"])
        else:
            e["fields"] = r.choice([[], ["d"], ["d", "r"], ["f"], ["d", "r", "f", "m"]])
            e["kw"] = {}
        k = r.random()
        if k < 0.35 and e["op"] == "vtk_mat" and e["cb"] != "none":
            e["fail"] = [r.choice(sorted(EXC)), r.choice([0, 1, max(0, n - 1), r.randrange(max(1, n))])]
            e["after"] = r.random() < 0.5
        elif k < 0.75:
            e["fault"] = [r.choice(sorted(FAULTS)), r.random(), r.random()]
        ev.append(e)
    return {"problem": pb, "meshed": meshed, "edits_": edits, "steps": ev,
            "amp": r.choice([0.3, 0.3, 0.01, 4.0, 60.0]), "locked": r.random() < 0.3,
            "heights": r.choice([None, None, None, "reverse", "shuffle", "flat"])}


def frame_of(row):
    d = np.array([row.u, row.v, row.w], dtype=float)
    return np.array([row.x, row.y, row.z], dtype=float), d / np.linalg.norm(d)


def check_block(row, i, pts, fields, moved=0.0):
    """One fibre's part of the grid against its row of the table; None or what is wrong."""
    want = {"fiber": i, "lbh": row[[*"lbh"]].values, "uvw": row[[*"uvw"]].values, "G": row.G, "E": row.E}
    for k, v in want.items():
        if k not in fields:
            return "field %s is missing" % k
        a = np.asarray(fields[k], dtype=float)
        v = np.asarray(v, dtype=float)
        with np.errstate(all="ignore"):
            ok = (a == v) | (np.abs(a - v) <= 1e-6 * np.abs(v))
        if not np.all(ok):
            return "field %s is %s, table %s" % (k, _short(a[~np.broadcast_to(ok, a.shape)][:3]), v)
    if "xyz" not in fields:
        return "field xyz is missing"
    c, ax = frame_of(row)
    loc = np.asarray(fields["xyz"], dtype=float)
    half = 0.5 * np.array([row.l, row.b, row.h], dtype=float)
    tol = 1e-4 * (half[0] + np.abs(c).max() + abs(moved) + 1)
    lo, hi = loc.min(0), loc.max(0)
    if np.any(lo < -half - tol) or np.any(hi > half + tol):
        return "local coordinates %s..%s exceed the fibre's half-size %s" % (lo, hi, half)
    if abs(hi[0] - half[0]) > tol or abs(lo[0] + half[0]) > tol:
        return "local coordinates %g..%g do not span the fibre's length %g" % (lo[0], hi[0], 2 * half[0])
    if np.any(hi[1:] - lo[1:] < 0.5 * 2 * half[1:] - tol):
        return "local coordinates %s..%s do not span the cross-section %s" % (lo, hi, 2 * half)
    rel = np.asarray(pts, dtype=float) - c - [0, 0, moved]
    if np.abs(rel @ ax - loc[:, 0]).max() > tol:
        return "points are off the fibre's axis by %g" % np.abs(rel @ ax - loc[:, 0]).max()
    if np.abs(np.linalg.norm(rel, axis=1) - np.linalg.norm(loc, axis=1)).max() > tol:
        return "points are not at their local distance from the fibre's centre"
    if abs(ax[2]) < 1e-9 and np.abs(np.abs(rel[:, 2]) - np.abs(loc[:, 2])).max() > tol:
        return "points are not at their local height"
    return None


def images(i, row, pts, loc, X, moved):
    """The periodic images of one (planar or tilted) fibre in the drawing box; None or what is wrong."""
    c, ax = frame_of(row)
    half = 0.5 * np.array([row.l, row.b, row.h], dtype=float)
    tol = 1e-4 * (row.l + 2 * X + np.abs(c).max() + 1)
    rel = pts - c - moved
    at = rel[:, :2] - loc[:, [0]] * ax[:2]                    # what is left across the fibre, plus the shift
    shift = np.rint(at / X)
    rel[:, :2] -= X * shift
    if np.abs(shift).max() > 1:
        return "fibre %d of the grid: points more than one box away" % i
    if np.abs(rel @ ax - loc[:, 0]).max() > tol or np.linalg.norm(rel, axis=1).max() > np.linalg.norm(half) + tol:
        return "fibre %d of the grid is not where the table puts it (images of the box considered)" % i
    seen = {(int(a), int(b)) for a, b in shift}
    ts = np.linspace(-half[0], half[0], 41)
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            p = c[:2] + X * np.array([a, b]) + ts[:, None] * ax[:2]
            inside = np.all(np.abs(p) < X * (1 - 1e-3), axis=1)
            if inside.sum() >= 3 and (a, b) not in seen:
                return "fibre %d of the grid: its image in box (%d, %d) is missing" % (i, a, b)
            if inside.sum() >= 3:
                mine = loc[(shift[:, 0] == a) & (shift[:, 1] == b), 0]
                if mine.min() > ts[inside][0] + tol or mine.max() < ts[inside][-1] - tol:
                    return "fibre %d of the grid: its image in box (%d, %d) is incomplete" % (i, a, b)
    return None


def body(sc):
    sim = Sim("run", sc["id"], budget=2_000_000)
    sim.install()
    out = {"viol": [], "complete": 0, "disturbed": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    try:
        if sc["meshed"]:
            mat, mesh = packing.build(sc["problem"])
        else:
            m = dict(sc["problem"]["mat"])
            if m.get("tensile") == "inf":
                m["tensile"] = float("inf")
            mat, mesh = fm.Mat(**m), None
    except Exception:
        return done()
    if len(mat):
        if sc.get("heights"):                                       # put together in any order of height
            z = mat.z.values
            mat["z"] = {"reverse": z[::-1].copy(), "flat": np.full(len(z), z[0]),
                        "shuffle": z[np.random.RandomState(len(z)).permutation(len(z))]}[sc["heights"]]
        for row, col, val in sc["edits_"]:
            if col == "w":
                j = row % len(mat)                                  # tilt, keeping unit length
                s = 1 / np.sqrt(1 + (val / 10) ** 2)
                mat.loc[j, "u"] *= s
                mat.loc[j, "v"] *= s
                mat.loc[j, "w"] = np.sqrt(max(0.0, 1 - mat.loc[j, "u"] ** 2 - mat.loc[j, "v"] ** 2))
            elif not (col in "lbhx" and sc["meshed"]):
                mat.loc[row % len(mat), col] = val
    try:
        fm.Mat.check(mat)
    except Exception:
        return done()
    n = len(mat)
    inputs = [observe(mat), observe(mesh)]
    rng = np.random.RandomState(sum(map(ord, sc["id"])))
    amp = sc["amp"]
    unit = max(1.0, amp)
    arrays = {k: None for k in "drfm"}
    if mesh is not None:                                            # views of one array, as `u(1).reshape(-1, 2).T` gives them
        arrays["d"], arrays["r"] = rng.uniform(-amp, amp, (len(mesh), 2)).T
        arrays["f"], arrays["m"] = rng.uniform(-amp, amp, (len(mesh), 2)).T
        for v in arrays.values():
            v.setflags(write=not sc["locked"])
    arrays0 = {k: None if v is None else v.copy() for k, v in arrays.items()}
    NAMES = {"d": "displacement", "r": "rotation", "f": "force", "m": "moment"}

    def make_callback(e, calls, box, errors):
        cb = e.get("cb", "none")
        if cb == "none":
            return None

        def func(msh, i):
            calls.append(i)
            k = len(calls) - 1
            fail = e.get("fail") if box["armed"] else None
            if fail and fail[1] == k and not e["after"]:
                err = EXC[fail[0]]("callback")
                errors.append(err)
                raise err
            if msh is None or not hasattr(msh, "points"):
                errors.append("no mesh")
            else:
                box["blocks"].append((i, np.array(msh.points, copy=True), {f: np.array(msh[f], copy=True) for f in msh.point_data.keys()}))
                box["ids"].append(msh)
                if cb == "tag":
                    msh["tag"] = np.full(len(msh.points), 7.0 * k + 1)
                elif cb == "move":
                    msh.points += np.array([0.0, 0.0, 10.0 + k])
                elif cb == "nested" and k in (0, 1) and not box["depth"]:
                    box["depth"] = 1
                    try:
                        inner = fm.vtk_mat(mat, verbose=False)
                        if n and len(np.unique(inner["fiber"])) != n:
                            errors.append("nested export incomplete")
                    finally:
                        box["depth"] = 0
                elif cb == "drop":
                    msh["spare"] = np.arange(len(msh.points), dtype=float)
                    del msh.point_data["spare"]
            if fail and fail[1] == k and e["after"]:
                err = EXC[fail[0]]("callback")
                errors.append(err)
                raise err
            return box                                     # whatever it returns is ignored

        class User:
            def __call__(self, *args):
                return func(*args)

            def act(self, msh, i):
                return func(msh, i)
        return {"method": User().act, "object": User(), "partial": functools.partial(lambda tag, msh, i: func(msh, i), "tag"),
                "star": lambda *args: func(*args)}.get(e.get("form"), func)

    def call(e, armed):
        calls, errors = [], []
        box = {"blocks": [], "ids": [], "armed": armed, "depth": 0}
        func = make_callback(e, calls, box, errors)
        res = exc = None
        try:
            with np.errstate(all="ignore"):
                if e["op"] == "vtk_mat":
                    res = fm.vtk_mat(mat, func=func, verbose=e["verbose"], **e["kw"]) if func is not None else \
                        fm.vtk_mat(mat, verbose=e["verbose"], **e["kw"])
                else:
                    res = fm.vtk_mesh(mat, mesh, verbose=e["verbose"], **{NAMES[k]: arrays[k] for k in e["fields"]})
        except StepBudget:
            raise
        except BaseException as x:
            exc = x
        return res, exc, calls, box, errors

    def grid_vs_table(e, res, calls, box):
        """A complete export against the table."""
        if e["op"] == "vtk_mat":
            if e["cb"] != "none":
                if calls != list(mat.index):
                    return "callbacks for %s, fibres %s" % (calls, list(mat.index))
                if len({id(x) for x in box["ids"]}) != n:
                    return "two fibres share a mesh object"
                for i, pts, fields in box["blocks"]:
                    w = check_block(mat.loc[i].astype(float), i, pts, fields)
                    if w:
                        return "mesh handed to the callback for fibre %d: %s" % (i, w)
            if n == 0:
                return None if res.n_points == 0 else "%d points without fibres" % res.n_points
            if res.n_points % n:
                return "%d points for %d fibres" % (res.n_points, n)
            m = res.n_points // n
            fields = {k: np.asarray(res[k]) for k in res.point_data.keys()}
            for j, i in enumerate(mat.index):
                sl = slice(j * m, (j + 1) * m)
                w = check_block(mat.loc[i].astype(float), i, res.points[sl], {k: v[sl] for k, v in fields.items()},
                                10.0 + j if e["cb"] == "move" else 0.0)
                if w:
                    return "fibre %d of the grid: %s" % (i, w)
                if e["cb"] == "tag" and not ("tag" in fields and np.all(fields["tag"][sl] == 7.0 * j + 1)):
                    return "fibre %d of the grid does not carry the callback's field" % i
            return None
        if n == 0:
            return None
        s_at = mesh.s.values.astype(float)
        lab = np.asarray(res["fiber"])
        for i in mat.index:
            sel = lab == i
            row = mat.loc[i].astype(float)
            if not sel.any():
                return "fibre %d is missing in the grid" % i
            for k, v in {"lbh": row[[*"lbh"]].values, "uvw": row[[*"uvw"]].values, "G": row.G, "E": row.E}.items():
                a = np.asarray(res[k], dtype=float)[sel]
                with np.errstate(all="ignore"):
                    ok = (a == v) | (np.abs(a - v) <= 1e-6 * np.abs(v))
                if not np.all(ok):
                    return "fibre %d of the grid: field %s is %s, table %s" % (i, k, _short(a[~(ok if ok.ndim == 1 else ok.all(1))][:1]), v)
            if not mesh.attrs["periodic"]:
                c, ax = frame_of(row)
                loc = np.asarray(res["xyz"], dtype=float)[sel]
                rel = np.asarray(res.points, dtype=float)[sel] - c
                if "d" in e["fields"]:
                    dd = np.asarray(res["displacement"], dtype=float)[sel]
                    if np.abs(dd[:, :2]).max() > 0:
                        return "fibre %d: horizontal displacements" % i
                    rel = rel - dd
                tol = 1e-4 * (row.l + np.abs(c).max() + unit)
                if np.abs(rel @ ax - loc[:, 0]).max() > tol or np.abs(np.linalg.norm(rel, axis=1) - np.linalg.norm(loc, axis=1)).max() > tol:
                    return "fibre %d of the grid is not where the table puts it" % i
                # every point refers to the beam of its own fibre that carries it
                node = np.asarray(res["node"], dtype=float)[sel]
                mine = mesh.index[mesh.fiber.values == i]
                if node.min() < mine[0] - 1e-9 or node.max() > mine[-1] + 1e-9:
                    return "fibre %d: nodes %g..%g, its own are %d..%d" % (i, node.min(), node.max(), mine[0], mine[-1])
                s_of = np.interp(node, mine, mesh.s.values[mesh.fiber.values == i])
                if np.abs(s_of - 0.9999 * loc[:, 0]).max() > tol:
                    return "fibre %d: a point at %g along the fibre refers to the mesh position %g" % (
                        i, loc[np.argmax(np.abs(s_of - 0.9999 * loc[:, 0])), 0], s_of[np.argmax(np.abs(s_of - 0.9999 * loc[:, 0]))])
                # what a point carries comes from the ends of that beam
                for name, val, slope in (("displacement", "d", "r"), ("force", "f", "m")):
                    if val not in e["fields"]:
                        continue
                    got = np.asarray(res[name], dtype=float)[sel]
                    got = got[:, 2] if got.ndim == 2 else got
                    k = np.clip(np.floor(node).astype(int), mine[0], mine[-1] - 1)
                    w = node - k
                    a, b = arrays[val][k], arrays[val][k + 1]
                    zero = np.zeros(len(mesh))
                    m0, m1 = [(arrays[slope] if slope in e["fields"] else zero)[x] for x in (k, k + 1)]
                    off = None
                    for c in (1.0, s_at[k + 1] - s_at[k]):       # slopes per beam or per millimetre
                        h = [(1 + 2 * w) * (1 - w) ** 2 * a + w * (1 - w) ** 2 * c * m0 + w * w * (3 - 2 * w) * b - w * w * (1 - w) * c * m1,
                             (6 * w * w - 6 * w) * (a - b) / c + (3 * w * w - 4 * w + 1) * m0 + (3 * w * w - 2 * w) * m1]
                        bad = np.abs(got - h[0]).max() > 1e-5 * unit * (1 + np.max(np.abs(c)))
                        if not bad and val == "d":
                            bad = np.abs(np.asarray(res["rotation"], dtype=float)[sel] - h[1]).max() > 1e-4 * unit
                        off = bad if off is None else off and bad
                    if off:
                        return "fibre %d: %s of a point is not that of the beam that carries it" % (i, name)
            else:
                w = images(i, row, np.asarray(res.points, dtype=float)[sel], np.asarray(res["xyz"], dtype=float)[sel], float(mat.attrs["size"]),
                           np.asarray(res["displacement"], dtype=float)[sel] if "d" in e["fields"] else 0.0)
                if w:
                    return w
        return None

    def unchanged():
        d = diff(inputs, [observe(mat), observe(mesh)], "inputs", rtol=0, atol=0)
        if d:
            return d
        for k, v in arrays.items():
            if v is not None and not np.array_equal(v, arrays0[k]):
                return "%s array changed" % NAMES[k]
        return None

    for name, fn in (("vtk_mat", lambda: fm.vtk_mat(verbose=False)), ("vtk_mesh", lambda: fm.vtk_mesh(verbose=False))):
        try:                                                        # nothing given stands for no fibre
            res = fn()
        except Exception as x:
            return done("raised", "%s of nothing raised %r" % (name, x))
        if res.n_points:
            return done("grid", "%s of nothing has %d points" % (name, res.n_points))
    t = sim.main
    for k, e in enumerate(sc["steps"]):
        what = "export %d (%s)" % (k, {a: b for a, b in e.items() if b not in (None, False, {})})
        try:
            # undisturbed reference, with the steps it takes
            t.op_events, t.profile = 0, []
            res, exc, calls, box, errors = call(e, False)
            prof, t.profile = t.profile, None
            if exc is not None:
                return done("raised", "%s undisturbed: raised %r" % (what, exc))
            if errors:
                return done("callback", "%s: %s" % (what, errors))
            w = grid_vs_table(e, res, calls, box) or unchanged()
            if w:
                return done("grid", "%s: %s" % (what, w))
            ref = observe(res)
            out["complete"] += 1
            sim.log(k, e["op"], len(calls), digest({a: v for a, v in ref.items() if a in ("n_cells", "type")}))
            if e.get("fail") and e["fail"][1] < n:
                sim.fire("callback_" + e["fail"][0], e["fail"][1])
                res, exc, calls, box, errors = call(e, True)
                out["disturbed"] += 1
                if not errors:
                    return done("callback", "%s: the callback was not called for fibre %d" % (what, e["fail"][1]))
                chain, x = [], exc
                while x is not None and x not in chain:
                    chain.append(x)
                    x = x.__cause__ or x.__context__
                if exc is None or not any(c is errors[0] for c in chain) or (exc is not errors[0] and not isinstance(exc, type(errors[0]))):
                    return done("error", "%s: the callback's %r reached the caller as %r" % (what, errors[0], exc))
                if len(calls) != e["fail"][1] + 1 or calls != list(mat.index)[:len(calls)]:
                    return done("callback", "%s: callbacks for %s after a failure at fibre %d" % (what, calls, e["fail"][1]))
            elif e.get("fault"):
                o = resolve(prof, e["fault"][1:])
                if o is None:
                    continue
                t.op_events, t.inject = 0, (o, e["fault"][0])
                res, exc, calls, box, errors = call(e, False)
                hit = t.inject is None
                t.inject = None
                out["disturbed"] += 1
                if hit and exc is None:
                    d = diff(observe(res), ref)
                    if d:
                        return done("swallowed", "%s: %s at step %d was swallowed and the grid differs: %s" % (what, e["fault"][0], o, d))
                    return done("swallowed", "%s: %s at step %d did not reach the caller" % (what, e["fault"][0], o))
                if exc is not None and not isinstance(exc, FAULTS[e["fault"][0]]):
                    return done("error", "%s: %s reached the caller as %r" % (what, e["fault"][0], exc))
                if e["op"] == "vtk_mat" and e["cb"] != "none" and calls != list(mat.index)[:len(calls)]:
                    return done("callback", "%s: callbacks for %s" % (what, calls))
            else:
                continue
            w = unchanged()
            if w:
                return done("inputs", "%s: %s" % (what, w))
            res, exc, calls, box, errors = call(e, False)
            if exc is not None or errors:
                return done("retry", "%s repeated: raised %r %s" % (what, exc, errors))
            if e["op"] == "vtk_mat" and e["cb"] != "none" and calls != list(mat.index):
                return done("retry", "%s repeated: callbacks for %s" % (what, calls))
            d = diff(observe(res), ref) or unchanged()
            if d:
                return done("retry", "%s repeated: %s" % (what, d))
        except StepBudget as x:
            return done("stuck", "%s: %s" % (what, x))
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    s["probes"]["complete_exports"] = got["complete"]
    s["probes"]["disturbed_exports"] = got["disturbed"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["complete"] >= 1 and got["disturbed"] >= 1, "key": s["digest"],
            "digest": s["digest"], "trace": s["trace"]}
