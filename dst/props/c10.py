"""C10: a session can crash at any point and resume from its last saved tables."""
import hashlib
import io
import json
import pickle
import random

import numpy as np
import pandas as pd

import iso
import session
import fibermat as fm
from common import *
from simdisk import SimDisk
from sim import StepBudget

ID = "C10"
LEVEL = "fault_enumeration"
HOW = "seeded crashes at any library step or in the middle of a save (torn, lost, unsynced writes, full disk), restart in a fresh process from durable state only, final results compared with an uninterrupted session"
RUNS = {"quick": 400, "thorough": 16000}
RULE = ("a generated session of 8 stages (generate, connect, stack, mesh, pack, deform, pack again, export) saves its tables after some "
        "stages, crashes 1-4 times (any library step or any disk operation) and resumes in a fresh process; non-trivial: at least one "
        "crash that was followed by a resume from a save; distinct by event-log digests of all its processes")
COMPONENTS = {"real": REAL + ["pandas pickle and CSV writers and readers"],
              "stub": ["disk (SimDisk: unsynced data and names may be lost or torn)", "process crash (the process ends without unwinding)", "clocks"]}
ASSUMPTIONS = ASSUME + ["the program saves with write-temporary, fsync, rename and verifies a checksum on loading",
                        "text tables are written with shortest round-trip floats and read with float_precision='round_trip'"]

STAGES = ["mat", "net", "stack", "mesh", "sol", "mesh2", "sol2", "vtk"]
NEEDS = {"mat": [], "net": ["mat"], "stack": ["mat", "net"], "mesh": ["stack"], "sol": ["mat", "mesh"], "mesh2": ["mesh", "sol"],
         "sol2": ["mat", "mesh2"], "vtk": ["mat", "mesh", "mesh2", "sol"]}
CLS = {"mat": "Mat", "net": "Net", "stack": "Stack", "mesh": "Mesh", "mesh2": "Mesh"}


def generate(r, i, tier):
    m = session.gen_mat(r, 7 if tier == "quick" else 12, thin=0.9)
    m["n"] = max(2, m["n"])
    return {"mat": m, "mixed": r.randrange(1000) if r.random() < 0.3 else None, "periodic": r.random() < 0.6,
            "threshold": r.choice([None, None, 2.0, 10.0]),
            "solve": dict(packing=r.choice([1.3, 2.0, 3.0]), itermax=r.choice([3, 8, 12]), lmin=0.01, coupling=0.99),
            "solve2": dict(packing=r.choice([1.2, 1.5]), itermax=r.choice([2, 5]), lmin=0.01, coupling=0.99),
            "save": [r.random() < 0.75 for _ in STAGES], "format": r.choice(["pickle", "csv", "csv", "archive", "mixed"]), "plain": r.random() < 0.3,
            "full": r.random() < 0.5, "wrap": r.random() < 0.5, "recompute": [r.random() < 0.25 for _ in STAGES],
            "faults": [{"kind": r.choice(["step", "step", "step", "disk"]), "at": r.random()} for _ in range(r.choice([1, 1, 2, 3, 4]))],
            "disk_faults": [[r.randint(1, 60), r.choice(["enospc", "eio", "short"])] for _ in range(r.choice([0, 0, 1, 2]))],
            "seed": r.randrange(1 << 30)}


# -- the program ------------------------------------------------------------------------------------------------------

def dump(name, obj, fmt):
    """Bytes of one saved object."""
    if name not in CLS:
        return b"P" + pickle.dumps(obj)
    if fmt == "pickle":
        return b"P" + pickle.dumps(obj)
    if fmt == "archive":                                 # attributes come back as NumPy scalars
        return b"A" + pickle.dumps((obj.to_csv(), {k: np.asarray(v)[()] for k, v in obj.attrs.items()}))
    if fmt == "table":
        return b"T" + pickle.dumps((pd.DataFrame(obj), dict(obj.attrs)))
    head = json.dumps({k: (v.item() if isinstance(v, np.generic) else v) for k, v in obj.attrs.items()})
    return b"C" + head.encode() + b"\n" + obj.to_csv().encode()


def restore(name, data, wrap):
    kind, data = data[:1], data[1:]
    if kind == b"P":
        obj = pickle.loads(data)
        if name in CLS and wrap:
            obj = getattr(fm, CLS[name])(obj)
        return obj
    if kind == b"T":
        df, attrs = pickle.loads(data)
        df = pd.DataFrame(df)
    elif kind == b"A":
        text, attrs = pickle.loads(data)
        df = pd.read_csv(io.StringIO(text), index_col=0, float_precision="round_trip")
    else:
        head, data = data.split(b"\n", 1)
        df = pd.read_csv(io.BytesIO(data), index_col=0, float_precision="round_trip")
        attrs = json.loads(head)
    df.attrs = attrs
    return getattr(fm, CLS[name])(df)


def samples(res):
    out = {}
    with np.errstate(all="ignore"):
        for k, v in zip("u f F Z rlambda mask err".split(), [res[2], res[3], res[4], res[6], res[7], res[8], res[9]]):
            out[k] = np.array(v(), copy=True)
    out["C"] = res[1].tocsr()
    return out


def plain(obj):
    """The same table without its class, as `pd.read_*` returns it."""
    df = pd.DataFrame({c: obj[c].to_numpy() for c in obj.columns}, index=obj.index)
    df.attrs = dict(obj.attrs)
    return df


def python_attrs(o):
    """Whether an attribute is a Python or a NumPy scalar is not compared."""
    if isinstance(o, dict) and isinstance(o.get("attrs"), dict):
        o["attrs"] = {k: v[2] if isinstance(v, tuple) and len(v) == 3 and v[0] == "np" else v for k, v in o["attrs"].items()}
    return o


def compute(name, w, sc):
    if sc["plain"] and name in ("sol", "sol2", "vtk"):
        w = {k: plain(v) if k in CLS else v for k, v in w.items()}
    if name == "mat":
        kw = dict(sc["mat"])
        for k in ("tensile", "shear"):
            if kw.get(k) == "inf":
                kw[k] = float("inf")
        mat = fm.Mat(**kw)
        if sc["mixed"] is not None:
            rng = np.random.RandomState(sc["mixed"])
            mat["h"] = rng.choice([0.2, 0.35, 0.5], len(mat))
            mat["G"] = rng.choice([1.0, 3.0], len(mat))
        return mat
    if name == "net":
        return fm.Net(w["mat"], periodic=sc["periodic"])
    if name == "stack":
        return fm.Stack(w["mat"], w["net"], **({} if sc["threshold"] is None else {"threshold": sc["threshold"]}))
    if name == "mesh":
        return fm.Mesh(w["stack"])
    if name == "sol":
        return samples(fm.solve(w["mat"], w["mesh"], verbose=False, **sc["solve"]))
    if name == "mesh2":
        m = fm.Mesh(w["mesh"].copy())
        m.z += w["sol"]["u"][-1][::2]
        return m
    if name == "sol2":
        return samples(fm.solve(w["mat"], w["mesh2"], verbose=False, **sc["solve2"]))
    s = w["sol"]
    return [observe(fm.vtk_mat(w["mat"], verbose=False)),
            observe(fm.vtk_mesh(w["mat"], w["mesh"], *s["u"][-1].reshape(-1, 2).T, *(s["f"][-1] @ s["C"]).reshape(-1, 2).T, verbose=False))]


def save(disk, seq, w, sc, rng):
    """Save the tables computed so far as one bundle; atomic with respect to crashes."""
    parts = {}
    names = [s for s in STAGES if s in w]
    if not sc["full"]:
        names = [s for s in names if any(s in NEEDS[t] for t in STAGES if t not in w) or s in ("mat", "stack", "mesh", "sol", "mesh2", "sol2", "vtk")]
    for s in names:
        fmt = {"pickle": "pickle", "csv": "csv", "archive": "archive", "mixed": rng.choice(["pickle", "csv", "table", "archive"])}[sc["format"]]
        parts[s] = dump(s, w[s], fmt)
    body = pickle.dumps(parts)
    data = hashlib.sha256(body).digest() + body
    for attempt in range(3):
        tmp = "tmp%d" % seq
        try:
            k = max(1, len(data) // 3)
            pos = 0
            while pos < len(data):
                pos += disk.write(tmp, data[pos:pos + k])
            disk.fsync(tmp)
            disk.rename(tmp, "save%03d" % seq)
            disk.syncdir()
            return True
        except OSError:
            disk.unlink(tmp)
    return False


def load(disk):
    """The last complete save, or nothing."""
    last = None
    for name in sorted(disk.names):
        if not name.startswith("save"):
            continue
        data = disk.read(name)
        if len(data) >= 32 and hashlib.sha256(data[32:]).digest() == data[:32]:
            last = (int(name[4:]), pickle.loads(data[32:]))
    return last


def program(sc, role, durable, crash):
    sim = Sim("run", "%s/%s" % (sc["id"], role))
    rng = random.Random("%s/%s/prog" % (sc["seed"], role))
    disk_rng = random.Random("%s/%s/disk" % (sc["seed"], role))

    def die(where):
        sim.fired["crash_" + ("disk" if crash["kind"] == "disk" else "step")] += 1
        iso.exit_with({"end": "crash", "at": where, "disk": disk.after_crash(), "summary": sim.summary(), "resumed": resumed})

    def on_step(d, what):
        if crash and crash["kind"] == "disk" and d.step == crash["n"]:
            sim.log("crash", "disk", what)
            die("disk:" + what)

    resumed = None
    disk = SimDisk(disk_rng, durable, sc["disk_faults"] if durable is not None else (), on_step)
    if crash and crash["kind"] == "step":
        sim.crash = (crash["n"], die)
    sim.install()
    w, seq = {}, 0
    got = load(disk)
    try:
        if got is not None:
            seq, parts = got
            resumed = sorted(parts)
            for s in STAGES:
                if s in parts and not (durable is not None and sc["recompute"][STAGES.index(s)] and s in ("net", "mesh", "stack", "vtk", "sol2")):
                    w[s] = restore(s, parts[s], sc["wrap"])
            sim.log("resume", sorted(w))
        for k, s in enumerate(STAGES):
            if s in w:
                continue
            for need in NEEDS[s]:
                if need not in w:
                    w[need] = compute(need, w, sc)
            w[s] = compute(s, w, sc)
            if sc["save"][k]:
                seq += 1
                ok = save(disk, seq, w, sc, rng)
                sim.count("saves" if ok else "saves_failed")
    except StepBudget:
        return {"end": "stuck", "summary": sim.summary(), "resumed": resumed}
    except Exception as e:
        import traceback
        return {"end": "error", "exc": repr(e), "tb": traceback.format_exc()[-1500:], "summary": sim.summary(), "resumed": resumed, "events": sim.events}
    for kind, what in disk.fired:
        sim.fired["disk_" + kind] += 1
    events = sim.events
    sim.uninstall()
    final = {s: python_attrs(observe(w[s])) for s in STAGES}
    sim.log("final", digest(final))
    return {"end": "done", "final": final, "types": {s: type(w[s]).__name__ for s in CLS}, "summary": sim.summary(), "events": events,
            "disk_steps": disk.step, "resumed": resumed}


def run(sc):
    ref = isolated(program, sc, "ref", None, None)
    viol, trace = [], []
    if ref["end"] != "done":
        # a session that cannot be completed even without crashes: nothing to compare, but it must fail the same way
        st = merge(ref["summary"])
        if ref["end"] == "stuck":
            viol.append({"kind": "stuck", "detail": "the uninterrupted session does not finish"})
        return {"violations": viol, "stats": st, "nontrivial": False, "key": "", "digest": ref["summary"]["digest"], "trace": []}
    durable, sums, digs, resumes = {}, [], [], 0
    got = None
    for k, f in enumerate(sc["faults"] + [None]):
        crash = None
        if f is not None:
            n = ref["events"] if f["kind"] == "step" else max(1, ref["disk_steps"])
            crash = {"kind": f["kind"], "n": 1 + int(f["at"] * n)}
        got = isolated(program, sc, "p%d" % k, durable, crash)
        sums.append(got["summary"])
        digs.append(got["summary"]["digest"])
        trace += ["process %d: %s %s" % (k, got["end"], got.get("at", ""))] + got["summary"]["trace"]
        resumes += bool(got["resumed"]) and k > 0
        if got["end"] == "crash":
            durable = got["disk"]
            continue
        break
    if got["end"] == "error":
        viol.append({"kind": "resume-error", "detail": "process %d (resumed from %s): %s\n%s" % (k, got["resumed"], got["exc"], got["tb"])})
    elif got["end"] == "stuck":
        viol.append({"kind": "stuck", "detail": "process %d does not finish" % k})
    elif got["end"] == "done":
        for s in STAGES:
            a, b = got["final"][s], ref["final"][s]
            if s == "net" and (sc["recompute"][1] or not sc["full"]):
                # connected again after stacking: same connections at the current heights
                for o in (a, b):
                    for c in [c for c in o["data"] if c.startswith("z")]:
                        o["data"].pop(c)
            d = diff(a, b, s)
            if d:
                viol.append({"kind": "result", "detail": "after %d crash(es), resumed from %s: final / uninterrupted: %s" % (k, got["resumed"], d)})
                break
        if not viol and got["types"] != ref["types"]:
            viol.append({"kind": "type", "detail": "%s / %s" % (got["types"], ref["types"])})
    st = merge(*sums)
    st["probes"]["resumes"] = resumes
    dig = hashlib.sha256(" ".join(digs).encode()).hexdigest()[:24]
    st["sig"] = dig
    return {"violations": viol, "stats": st, "nontrivial": resumes > 0, "key": dig, "digest": dig, "trace": trace}
