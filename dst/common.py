"""Pieces shared by the property modules: reference runs, schedules, comparison of client histories."""
from collections import Counter

import numpy as np

import session
from iso import isolated
from obs import observe, diff, digest
from sim import Sim

REAL = ["fibermat (mat, net, mesh, model, solver, interpolation, render, widgets) unmodified from the working tree",
        "NumPy, SciPy (SuperLU, HiGHS), pandas, scikit-learn, pyvista/VTK, tqdm, ipywidgets"]
STUB_BASE = ["thread scheduling (seeded scheduler over library steps)", "clocks", "entropy of unseeded generators"]
ASSUME = ["third-party calls are atomic for scheduling: a client is pre-empted between steps of the library's own code",
          "BLAS runs single-threaded"]


def strip(recs):
    """Make records picklable and small."""
    for r in recs:
        r.pop("exc_obj", None)
        r.pop("profile", None)
    return recs


def resolve(profile, pick):
    """Place a fault: pick = [r1, r2] chooses a location uniformly among the distinct ones, then one of its hits."""
    seen = {}
    for k, loc in enumerate(profile):
        seen.setdefault(loc, []).append(k + 1)
    if not seen:
        return None
    locs = list(seen)
    hits = seen[locs[min(len(locs) - 1, int(pick[0] * len(locs)))]]
    if len(hits) > 2 and pick[1] < 0.5:                 # first and last hit are favoured
        return hits[0] if pick[1] < 0.25 else hits[-1]
    return hits[min(len(hits) - 1, int(((pick[1] - 0.5) * 2 if len(hits) > 2 else pick[1]) * len(hits)))]


def expand(sc):
    """A sweep is one fault tried at many places of the same operation (its `sweep`: fractions of the distinct locations)."""
    out = []
    for f in sc["faults"]:
        if "sweep" in f:
            out += [dict({k: v for k, v in f.items() if k != "sweep"}, kind=k, pick=[x, f["hit"]]) for x, k in f["sweep"]]
        else:
            out.append(f)
    return dict(sc, faults=out)


def gen_sweep(r, ops, kinds=("interrupt", "interrupt", "interrupt", "nomem", "nomem", "cancel"), m=240):
    """One operation struck at every distinct library line it executes, in random order."""
    x = [round((j + r.random()) / m, 5) for j in range(m)]
    r.shuffle(x)
    k = r.choice([k for k, op in enumerate(ops) for _ in range(HEAVY.get(op["op"], 1))])
    return {"op": k, "sweep": [[f, r.choice(kinds)] for f in x], "hit": r.choice([0.1, 0.1, 0.3, r.random()])}


HEAVY = {"solve": 5, "vtk_sol": 3, "vtk_mesh": 2, "vtk_mat": 2, "net": 2, "stack": 3, "mesh": 2}


def serial(role, seed, ops, keep=True, picks=None, gran="line", check_inputs=False, check_globals=False, budget=3_000_000,
           setup=None):
    """Child body: run ops one after the other, undisturbed.  picks = {op index: [pick, ...]} -> ordinals."""
    sim = Sim(role, seed, gran, budget)
    sim.install()
    if setup:
        setup(sim)
    world, recs, ords = {}, [], {}
    for k, op in enumerate(ops):
        want = picks.get(k) if picks else None
        rec = session.run_op(sim, sim.main, world, op, keep=keep, profile=want is not None,
                             check_inputs=check_inputs, check_globals=check_globals)
        if want is not None:
            ords[k] = [resolve(rec.get("profile") or [], p) for p in want]
            if len(want) > 20:                          # a sweep: every place once
                seen = set()
                ords[k] = [None if o in seen else (seen.add(o), o)[1] for o in ords[k]]
        recs.append(rec)
        if rec["status"] == "stuck":
            break
    out = {"recs": strip(recs), "ordinals": ords, "summary": sim.summary()}
    sim.uninstall()
    return out


def gen_slices(r, clients, style=None):
    """A schedule: sparse pre-emptions (few, anywhere), dense alternation, or heavy-tailed."""
    style = style or r.choice(["sparse", "dense", "tail", "mixed"])
    out = []
    n = {"sparse": r.randint(2, 8), "dense": r.randint(40, 150), "tail": r.randint(10, 60), "mixed": r.randint(10, 80)}[style]
    for _ in range(n):
        if style == "sparse":
            k = int(10 ** r.uniform(0, 3))
        elif style == "dense":
            k = r.randint(1, 12)
        else:
            k = int(2 ** r.uniform(0, 9)) if r.random() < 0.85 else r.randint(1, 3)
        out.append([r.randrange(clients), max(1, k)])
    return out


def gen_focus(r, clients):
    """A schedule that meets every operation of every client half-way: per stage a list of [client, stop?, r1, r2]; a client
    that stops is held at a location of that operation chosen as resolve() does while the next clients run theirs."""
    out = []
    for k in range(max(len(c["ops"]) for c in clients)):
        order = list(range(len(clients)))
        r.shuffle(order)
        out.append([[c, 1 if j == 0 or r.random() < 0.4 else 0, r.random(), r.random()] for j, c in enumerate(order)])
    return out


def focus_slices(focus, recs, ords):
    """Slices (client, steps) for a gen_focus() schedule, from the clients' runs alone."""
    pos = [0] * len(recs)
    start = [[0] for _ in recs]
    for c, rs in enumerate(recs):
        for x in rs:
            start[c].append(start[c][-1] + x.get("events", 0))
    out = []

    def to(c, target):
        if target > pos[c]:
            out.append([c, target - pos[c]])
            pos[c] = target
    for k, stage in enumerate(focus):
        live = [x for x in stage if k < len(recs[x[0]])]
        for c, stop, *_ in live:
            o = (ords[c].get(k) or [None])[0]
            to(c, start[c][k] + o if stop and o else start[c][k + 1])
        for c, *_ in live:
            to(c, start[c][k + 1])
    return out


def compare(ref, got, where):
    """Compare two records of the same op; returns a violation or None."""
    if got["status"] == "stuck":
        return {"kind": "stuck", "detail": "%s %s: %s" % (where, got["op"], got["exc"])}
    if ref["status"] == "stuck":
        return {"kind": "stuck", "detail": "%s %s alone: %s" % (where, ref["op"], ref["exc"])}
    if ref["status"] != got["status"]:
        return {"kind": "outcome", "detail": "%s %s: %s, alone: %s" % (
            where, got["op"], got.get("exc", got["status"]), ref.get("exc", ref["status"]))}
    if ref["status"] == "exc" and ref["exc"] != got["exc"]:
        return {"kind": "outcome", "detail": "%s %s: raised %s, alone: %s" % (where, got["op"], got["exc"], ref["exc"])}
    if "obs" in ref and "obs" in got:
        d = diff(got["obs"], ref["obs"])
        if d:
            return {"kind": "result", "detail": "%s %s: got / alone: %s" % (where, got["op"], d)}
    if "mat_after" in ref and "mat_after" in got:
        d = diff(got["mat_after"], ref["mat_after"])
        if d:
            return {"kind": "heights", "detail": "%s %s: fibres after, got / alone: %s" % (where, got["op"], d)}
    return None


def merge(*summaries):
    fired, probes = Counter(), Counter()
    ev = sw = 0
    t = 0.0
    for s in summaries:
        fired.update(s.get("fired", {}))
        probes.update(s.get("probes", {}))
        ev += s.get("events", 0)
        sw += s.get("switches", 0)
        t += s.get("sim_time", 0.0)
    return {"fired": dict(fired), "probes": dict(probes), "events": ev, "switches": sw, "sim_time": t,
            "sig": summaries[-1].get("sig")}
