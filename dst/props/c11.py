"""C11: damaged tables are refused with the documented error; sound ones are accepted."""
import io
import math

import warnings

import numpy as np
import pandas as pd

import session
import fibermat as fm
from common import *
from props import c10
from sim import StepBudget

ID = "C11"
LEVEL = "fault_enumeration"
HOW = "seeded damage to stored and live tables (lost, repeated, reordered rows and labels, lost columns and attributes, corrupted cells and bytes), judged by an independent model of the documented conditions at every operation that takes them"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("fibre set, network, stack and mesh of a generated session receive 4-10 damages each of 1-3 edits (in the file, in a loaded frame, "
        "or in place after a successful use), each is offered to the check, the constructor and the operations; non-trivial: at least one "
        "damage that violates a condition and was judged; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["storage faults (edits of rows, cells and bytes of stored tables)", "clocks"]}
ASSUMPTIONS = ASSUME + ["values for which no condition is documented (heights, abscissae that are NaN, non-numeric cells, sizes that are not numbers) are not generated or not judged",
                        "any of the documented classes of the violated conditions may be raised, in any order"]

MAT = list("lbhxyzuvwGE")
NET = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
MESH = ["fiber", "s", "x", "y", "z", "beam", "constraint"]
COLS = {"mat": MAT, "net": NET, "stack": NET, "mesh": MESH}
CLS = {"mat": "Mat", "net": "Net", "stack": "Stack", "mesh": "Mesh"}
USES = {"mat": ["net", "stack", "lp", "stackc", "stiffness", "constraint", "solve", "vtk_mat", "vtk_mesh"],
        "net": ["stack", "lp", "stackc", "mesh"], "stack": ["mesh", "stack"], "mesh": ["stiffness", "constraint", "solve", "vtk_mesh"]}


# -- generation -------------------------------------------------------------------------------------------------------

def gen_edit(r, t):
    k = r.choice(["drop_row", "dup_row", "relabel", "swap_rows", "swap_labels", "drop_col", "drop_attr", "attr", "cell", "cell", "cell",
                  "dtype", "benign", "copy_cell", "swap_cells", "reverse"])
    e = {"e": k, "a": r.random(), "b": r.random()}
    if k in ("drop_row", "dup_row"):
        e["reset"] = r.random() < 0.5
        e["fix_n"] = r.random() < 0.5
        e["where"] = r.choice(["first", "last", "any"])
        if k == "dup_row" and r.random() < 0.5:      # a repeated row that is also damaged, next to it or at the end
            e["touch"] = r.choice(COLS[t] if r.random() < 0.3 else {"mat": ["z"], "mesh": ["x", "y", "z"]}.get(t, NET[4:]))
            e["far"] = r.random() < 0.5
    if k == "relabel":
        e["how"] = r.choice(["one", "dup", "negative", "gap"])
    if k in ("drop_col", "copy_cell", "swap_cells"):
        e["col"] = r.choice(COLS[t])
    if k == "cell":
        if t == "mat":
            e["col"] = r.choice([c for c in MAT if c != "z"])
            e["val"] = r.choice([0.0, -1.0, "nan", "inf", "-inf", "*1.01", "*-1", "+1e3", "*0.5", "-0.0", "tiny"])
        elif t == "mesh":
            e["col"] = r.choice(["fiber", "beam", "constraint", "s", "beam", "constraint"])
            e["val"] = r.choice(["+1", "-1", "neg", "len", "+2", "zero", "*-1"])
        else:
            e["col"] = r.choice(["A", "B", "A", "B", "sA", "sB"])
            e["val"] = r.choice(["+1", "-1", "neg", "n", "zero", "*-1"])
    if k == "dtype":
        e["col"] = r.choice({"mat": ["l", "G"], "mesh": ["fiber", "beam", "constraint"]}.get(t, ["A", "B"]))
        e["to"] = r.choice(["float64", "int32"]) if t != "mat" else "float32"
    if k == "drop_attr":
        e["key"] = r.choice(["n", "size"] + (["periodic"] if t != "mat" else []))
    if k == "attr":
        e["key"] = r.choice(["n", "size"])
        e["val"] = r.choice(["+1", "-1", "*0.5", "zero", "float", "*3"])
    if k == "benign":
        e["how"] = r.choice(["column", "attr", "reorder", "z"])
    return e


def generate(r, i, tier):
    m = session.gen_mat(r, 8)
    steps = []
    for _ in range(r.randint(4, 10)):
        t = r.choice(["mat", "net", "stack", "mesh", "mesh"])
        via = r.choice(["frame", "frame", "inplace", "inplace", "bytes"])
        s = {"t": t, "via": via, "uses": [r.choice(USES[t]) for _ in range(r.randint(1, 3))]}
        if via == "bytes":
            s["bytes"] = [r.choice(["truncate", "flip", "drop_line", "dup_line", "swap_lines", "none"]), r.random(), r.random(), r.randrange(8)]
        else:
            s["edits"] = [gen_edit(r, t) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        steps.append(s)
    return {"mat": m, "periodic": r.random() < 0.5, "threshold": r.choice([None, 2.0]), "steps": steps}


# -- damage -----------------------------------------------------------------------------------------------------------

def at(x, n):
    return min(n - 1, int(x * n)) if n else 0


def value(old, v, n_rows, n):
    if v == "nan":
        return float("nan")
    if v in ("inf", "-inf"):
        return float(v)
    if v == "tiny":
        return 5e-324
    if v == "neg":
        return -1
    if v == "len":
        return n_rows
    if v == "n":
        return n
    if v == "zero":
        return 0
    if isinstance(v, str) and v[0] == "*":
        x = old * float(v[1:])
        return int(x) if isinstance(old, (int, np.integer)) else x
    if isinstance(v, str):
        return old + (int(v) if isinstance(old, (int, np.integer)) else float(v))
    return v


def edit(df, e, t):
    """Apply one edit; returns the table (the same object when the edit can be done in place) or None."""
    k, n = e["e"], len(df)
    inplace = isinstance(df, (fm.Mat, fm.Net, fm.Mesh))
    if k in ("drop_row", "dup_row", "swap_rows", "reverse", "cell", "copy_cell", "swap_cells", "relabel", "swap_labels") and n == 0:
        return df
    p, q = at(e["a"], n), at(e["b"], n)
    if k == "drop_row":
        p = {"first": 0, "last": n - 1}.get(e["where"], p)
        if inplace:
            df.drop(df.index[p], inplace=True)
            if e["reset"]:
                df.reset_index(drop=True, inplace=True)
        else:
            a = dict(df.attrs)
            df = df.iloc[[j for j in range(n) if j != p]].copy()
            if e["reset"]:
                df = df.reset_index(drop=True)
            df.attrs = a
        if e["fix_n"] and t == "mat" and "n" in df.attrs:
            df.attrs["n"] = len(df)
    elif k in ("dup_row", "swap_rows", "reverse"):
        if inplace:
            return None
        p = {"first": 0, "last": n - 1}.get(e.get("where"), p)
        idx = list(range(n))
        new = n if e.get("far") else p + 1
        if k == "dup_row":
            idx.insert(new, p)
        elif k == "reverse":
            idx = idx[::-1]
        else:
            idx[p], idx[q] = idx[q], idx[p]
        a = dict(df.attrs)
        df = df.iloc[idx].copy()
        if k == "dup_row" and e["reset"] or k != "dup_row" and e["b"] < 0.5:
            df = df.reset_index(drop=True)
        df.attrs = a
        if k == "dup_row" and e.get("touch") in df.columns:
            col = df[e["touch"]].to_numpy().copy()
            col[new] = col[new] + (1 if col.dtype.kind == "i" else 0.25)
            df[e["touch"]] = col
        if k == "dup_row" and e["fix_n"] and t == "mat" and "n" in df.attrs:
            df.attrs["n"] = len(df)
    elif k in ("relabel", "swap_labels"):
        idx = np.array(df.index)
        if k == "swap_labels":
            idx[p], idx[q] = idx[q], idx[p]
        else:
            idx[p] = {"one": idx[p] + 1, "dup": idx[q], "negative": -1, "gap": n + 3}[e["how"]]
        df.index = idx
    elif k == "drop_col":
        if e["col"] in df.columns:
            del df[e["col"]]
    elif k == "drop_attr":
        df.attrs.pop(e["key"], None)
    elif k == "attr":
        if e["key"] in df.attrs:
            old = df.attrs[e["key"]]
            v = e["val"]
            new = {"+1": old + 1, "-1": old - 1, "*0.5": old * 0.5, "zero": 0 * old, "float": float(old), "*3": old * 3}[v]
            df.attrs[e["key"]] = new
    elif k in ("cell", "copy_cell", "swap_cells"):
        c = e["col"]
        if c not in df.columns:
            return df
        col = df[c].to_numpy().copy()
        if k == "cell":
            x = value(col[p].item(), e["val"], n, df.attrs.get("n", n))
            if col.dtype.kind == "i" and not isinstance(x, int):
                x = int(x) if math.isfinite(x) else 0
            col[p] = x
        elif k == "copy_cell":
            col[p] = col[q]
        else:
            col[p], col[q] = col[q], col[p]
        df[c] = col
    elif k == "dtype":
        if e["col"] in df.columns:
            try:
                df[e["col"]] = df[e["col"]].astype(e["to"])
            except (ValueError, TypeError):
                pass
    elif k == "benign":
        if e["how"] == "column":
            df["note"] = 1.5
        elif e["how"] == "attr":
            df.attrs["note"] = "x"
        elif e["how"] == "z" and "z" in df.columns:
            df["z"] = df["z"] + 1.0
        elif e["how"] == "reorder" and not inplace:
            a = dict(df.attrs)
            df = df[list(df.columns)[::-1]]
            df.attrs = a
    return df


def damage_bytes(data, spec):
    kind, x, y, bit = spec
    head, body = data[1:].split(b"\n", 1)
    if kind == "truncate":
        body = body[:int(x * len(body))]
    elif kind == "flip" and body:
        p = at(x, len(body))
        body = body[:p] + bytes([body[p] ^ (1 << bit)]) + body[p + 1:]
    elif kind in ("drop_line", "dup_line", "swap_lines"):
        lines = body.split(b"\n")
        p, q = at(x, len(lines)), at(y, len(lines))
        if kind == "drop_line":
            lines.pop(p)
        elif kind == "dup_line":
            lines.insert(p, lines[p])
        else:
            lines[p], lines[q] = lines[q], lines[p]
        body = b"\n".join(lines)
    import json
    df = pd.read_csv(io.BytesIO(body), index_col=0, float_precision="round_trip")
    df.attrs = json.loads(head)
    return df


# -- the documented conditions ---------------------------------------------------------------------------------------

def conditions(df, t):
    """Documented error classes of the violated conditions (a set), or None when this cannot be told."""
    out = set()
    a = df.attrs
    if len(set(df.columns)) != len(df.columns):
        return None
    if a.get("skip_check"):
        return None
    cols = COLS[t]
    miss = [c for c in cols if c not in df.columns]
    if miss:
        out.add(KeyError)
    for k in ("n", "size") + (() if t == "mat" else ("periodic",)):
        if k not in a:
            out.add(AttributeError)
        elif k != "periodic" and not isinstance(a[k], (int, float, np.number)):
            return None
    idx = np.array(df.index)
    if idx.dtype.kind != "i" and len(idx):
        if idx.dtype.kind not in "f":
            return None if idx.dtype.kind == "O" else out | {IndexError}
        if len(idx) == len(np.unique(idx)) and np.array_equal(idx, np.arange(len(idx))):
            return None
    if not np.array_equal(idx, np.arange(len(df))):
        out.add(IndexError)
    v = {}
    for c in cols:
        if c in df.columns:
            x = df[c].to_numpy()
            if x.dtype.kind not in "fi":
                return None
            v[c] = x
    n = a.get("n")
    if t == "mat":
        if n is not None and n != len(df):
            out |= {ValueError, IndexError}
        for c in "lbhGE":
            if c in v and not np.all(v[c] > 0):
                out.add(ValueError)
        s = a.get("size")
        if s is not None:
            for c in "xy":
                if c in v and len(df):
                    if np.any(np.abs(np.abs(v[c]) - 0.5 * s) == 0):
                        return None
                    if not np.all(np.abs(v[c]) < 0.5 * s):
                        out.add(ValueError)
        if all(c in v for c in "uvw") and len(df):
            with np.errstate(all="ignore"):
                norm = np.sqrt(v["u"] ** 2.0 + v["v"] ** 2.0 + v["w"] ** 2.0)
            off = np.abs(norm - 1)
            if np.any((off > 1e-6) & (off < 1e-3)):
                return None
            if not np.all(off <= 1e-6):
                out.add(ValueError)
    elif t in ("net", "stack"):
        for c in ("sA", "sB"):
            if c in v and np.isnan(v[c].astype(float)).any():
                return None
        if "A" in v and "B" in v:
            d = {v["A"].dtype, v["B"].dtype}
            if d != {np.dtype("int64")}:
                if len(d) > 1 and all(x.kind == "i" for x in d):
                    return None
                out.add(TypeError)
            if np.isnan(v["A"].astype(float)).any() or np.isnan(v["B"].astype(float)).any():
                return out | {ValueError} if TypeError in out else None
            if len(df):
                if n is not None and not (min(v["A"].min(), v["B"].min()) >= 0 and max(v["A"].max(), v["B"].max()) < n):
                    out.add(ValueError)
                if not np.all(v["A"] <= v["B"]):
                    out.add(ValueError)
                if "sA" in v and "sB" in v:
                    rows = set(zip((v["A"] + 0.0).tolist(), (v["B"] + 0.0).tolist(), (v["sA"] + 0.0).tolist(), (v["sB"] + 0.0).tolist()))
                    if len(rows) != len(df):
                        out.add(ValueError)
    else:
        if "s" in v and np.isnan(v["s"].astype(float)).any():
            return None
        if "fiber" in v and v["fiber"].dtype != np.dtype("int64"):
            out.add(TypeError)
        if "beam" in v and "constraint" in v:
            d = {v["beam"].dtype, v["constraint"].dtype}
            if d != {np.dtype("int64")}:
                if len(d) > 1 and all(x.kind == "i" for x in d):
                    return None
                out.add(TypeError)
        if any(c in v and np.isnan(v[c].astype(float)).any() for c in ("fiber", "beam", "constraint")):
            return out | {ValueError} if TypeError in out else None
        m = len(df)
        if m and not miss:
            f, b, c, s = v["fiber"], v["beam"], v["constraint"], v["s"]
            pos = np.arange(m)
            if n is not None and not (f.min() >= 0 and f.max() < n):
                out.add(ValueError)
            if not (b.min() >= 0 and b.max() < m) or not (c.min() >= 0 and c.max() < m):
                out.add(ValueError)
            elif np.any(c != np.round(c)):
                out.add(ValueError)
            else:
                ci = c.astype(int)
                if not np.array_equal(ci[ci], pos):
                    out.add(ValueError)
            if np.any(np.diff(f) < 0):
                out.add(ValueError)
            else:
                same = np.diff(f) == 0
                if np.any(np.diff(s)[same] < 0):
                    out.add(ValueError)
                first = np.r_[True, ~same]
                last = np.r_[~same, True]
                start = pos[first][np.cumsum(first) - 1]
                want = np.where(last, start, pos + 1)
                if not np.array_equal(b, want):
                    out.add(ValueError)
                if np.any(c[first] != pos[first]) or np.any(c[last] != pos[last]):
                    out.add(ValueError)
        elif m:
            # parts of the conditions can still be violated: any of the classes may come first
            out.add(ValueError)
    return out


# -- the run ----------------------------------------------------------------------------------------------------------

def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "judged": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    kw = dict(sc["mat"])
    for k in ("tensile", "shear"):
        if kw.get(k) == "inf":
            kw[k] = float("inf")
    w = {}
    w["mat"] = fm.Mat(**kw)
    w["net"] = fm.Net(w["mat"], periodic=sc["periodic"])
    w["stack"] = fm.Stack(w["mat"], w["net"], **({} if sc["threshold"] is None else {"threshold": sc["threshold"]}))
    w["mesh"] = fm.Mesh(w["stack"])
    # the stored tables are sound, by the model and by the library
    for t in CLS:
        if conditions(w[t], t):
            return done("model", "harness: generated %s violates %s" % (t, conditions(w[t], t)))

    def use(op, t, obj):
        """One operation with the object in the role t, everything else sound."""
        v = dict(w)
        v[t] = obj
        net = v["stack"] if t == "stack" else v["net"]
        if op == "net":
            return fm.Net(v["mat"])
        if op == "stack":
            return fm.Stack(v["mat"], net)
        if op == "lp":
            return fm.Stack.solve(v["mat"], net)
        if op == "stackc":
            return fm.Stack.constraint(v["mat"], net)
        if op == "mesh":
            return fm.Mesh(net)
        if op == "stiffness":
            return fm.stiffness(v["mat"], v["mesh"], lmin=0.01)
        if op == "constraint":
            return fm.constraint(v["mat"], v["mesh"])
        if op == "solve":
            return fm.solve(v["mat"], v["mesh"], itermax=1, packing=2.0, lmin=0.01, coupling=0.99, verbose=False)
        if op == "vtk_mat":
            return fm.vtk_mat(v["mat"], verbose=False)
        return fm.vtk_mesh(v["mat"], v["mesh"], verbose=False)

    def attempt(fn):
        try:
            with np.errstate(all="ignore"):
                return fn(), None
        except StepBudget:
            raise
        except BaseException as e:
            return None, e

    for k, s in enumerate(sc["steps"]):
        t = s["t"]
        cls = getattr(fm, CLS[t])
        good = w[t]
        sim.fired["via_" + s["via"]] += 1
        what = "step %d (%s %s %s)" % (k, t, s["via"], s.get("edits") or s.get("bytes"))
        if s["via"] == "inplace":
            live = cls(good.copy())
            if len(w["mat"]):
                _, exc = attempt(lambda: use(s["uses"][0], t, live)) if s["uses"][0] not in ("vtk_mesh",) else (None, None)
                if exc is not None:
                    # e.g. an empty mesh: the operation has no result even on sound tables
                    sim.count("sound_use_failed")
            attempt(lambda: cls.check(live))
            bad = live
            for e in s["edits"]:
                if edit(bad, e, t) is None:
                    sim.count("edit_skipped")
        elif s["via"] == "frame":
            bad = pd.DataFrame(good.copy())
            bad.attrs = dict(good.attrs)
            for e in s["edits"]:
                bad = edit(bad, e, t)
        else:
            data = c10.dump(t if t != "stack" else "stack", good, "csv")
            try:
                bad = damage_bytes(data, s["bytes"])
            except Exception:
                sim.count("unreadable_file")
                continue
        for e in s.get("edits", ()):
            sim.fired["damage_" + e["e"]] += 1
        if "bytes" in s:
            sim.fired["bytes_" + s["bytes"][0]] += 1
        want = conditions(bad, t)
        sim.log(k, t, s["via"], None if want is None else sorted(c.__name__ for c in want))
        if want is None:
            sim.count("not_judged")
            continue
        before = observe(bad)
        calls = [("check", lambda: cls.check(bad)), ("construct", lambda: cls(bad))]
        names = "/".join(sorted(c.__name__ for c in want))
        if want:
            out["judged"] += 1
            sim.count("judged_damaged")
            # operations need an object of the right class holding the damaged table
            if s["via"] == "inplace":
                obj = bad
            else:
                tmp = bad.copy()
                tmp.attrs = dict(bad.attrs, skip_check=True)
                b4 = observe(tmp)
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always")
                    val, exc = attempt(lambda: cls.check(tmp))
                if exc is not None or val is not True or not any(issubclass(x.category, UserWarning) for x in seen):
                    return done("flag", "%s: the check of a flagged table gave %r, %d warnings" % (what, exc or val, len(seen)))
                obj, exc = attempt(lambda: cls(tmp))
                if exc is not None:
                    return done("flag", "%s: a flagged table was refused: %r" % (what, exc))
                d = diff(b4, observe(tmp), "table", rtol=0, atol=0)
                if d:
                    return done("altered", "%s: flagged table changed: %s" % (what, d))
                sim.count("flagged")
                obj.attrs = dict(bad.attrs)
            if obj is not None:
                calls += [(u, lambda u=u: use(u, t, obj)) for u in s["uses"]]
            keep = {n: observe(w[n]) for n in w}
            for name, fn in calls:
                _, exc = attempt(fn)
                sim.log(k, name, type(exc).__name__)
                if exc is None:
                    return done("accepted", "%s: %s accepted a table that violates a %s condition" % (what, name, names))
                if type(exc) not in want:
                    return done("wrong-error", "%s: %s raised %r, documented: %s" % (what, name, exc, names))
                d = diff(before, observe(bad), "table", rtol=0, atol=0)
                if d:
                    return done("altered", "%s: refused by %s, but the table changed: %s" % (what, name, d))
            for n in w:
                d = diff(keep[n], observe(w[n]), n, rtol=0, atol=0)
                if d:
                    return done("altered", "%s: refused, but another argument changed: %s" % (what, d))
        else:
            sim.count("judged_sound")
            val, exc = attempt(lambda: cls.check(bad))
            if exc is not None or val is not True:
                return done("refused", "%s: the check refused a sound table: %r" % (what, exc or val))
            val, exc = attempt(lambda: cls(bad))
            if exc is not None:
                return done("refused", "%s: a sound table was refused: %r" % (what, exc))
            a, b = dict(before), dict(observe(val))
            a.pop("type")
            if b.pop("type") != CLS[t]:
                return done("refused", "%s: constructing gave a %s" % (what, type(val).__name__))
            d = diff(a, b, "table", rtol=0, atol=0) or diff(before, observe(bad), "table", rtol=0, atol=0)
            if d:
                return done("altered", "%s: accepted, but changed: %s" % (what, d))
        val, exc = attempt(lambda: cls.check(None))           # nothing given stands for an empty object
        if exc is not None or val is not True:
            return done("refused", "%s: the check of None gave %r" % (what, exc or val))
        # nothing sticks: the sound table is still accepted
        _, exc = attempt(lambda: cls.check(good))
        if exc is not None:
            return done("refused", "%s: afterwards the sound table is refused: %r" % (what, exc))
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["judged"] >= 1, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
