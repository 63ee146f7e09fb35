"""Coordinator: seeded search over scenarios in forked workers, minimisation, replay files, evidence."""
import copy
import hashlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import traceback
from collections import Counter

import boot
import seams
from iso import ChildFailure, die_with_parent, from_library

EVID = os.path.join(boot.VERIF, "evidence")


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def scenario(prop, seed, i, tier):
    r = random.Random("%s/%s/%d" % (prop.ID, seed, i))
    sc = prop.generate(r, i, tier)
    sc["id"] = "%s/%s/%d" % (prop.ID, seed, i)
    return json.loads(json.dumps(jsonable(sc)))


def execute(prop, sc):
    """One simulated run (with its references) -> result dict; harness trouble is reported as 'error', never as a
    violation and never as a pass (unless it was the library that failed: see iso.from_library)."""
    try:
        res = prop.run(copy.deepcopy(sc))
        res.setdefault("violations", [])
        return res
    except Exception as e:
        lib = e.library if isinstance(e, ChildFailure) else from_library(e)
        if lib:
            return {"violations": [{"kind": lib[0], "detail": lib[1]}]}
        return {"error": str(e) if isinstance(e, ChildFailure) else traceback.format_exc(), "violations": []}


# ---------------------------------------------------------------------------------------------------------------------
# Minimisation: generic structural shrinking of the scenario, keeping the violation class

LISTS = ("clients", "events", "ops", "shared", "slices", "faults", "steps", "msgs", "edits", "duel", "gens", "runs", "stages", "clicks", "sweep", "jobs", "want", "confs", "switches")


def _paths(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield path + (k,), v
            yield from _paths(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield path + (k,), v
            yield from _paths(v, path + (k,))


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _with(x, path, val):
    x = copy.deepcopy(x)
    y = x
    for k in path[:-1]:
        y = y[k]
    y[path[-1]] = val
    return x


def shrinks(sc):
    # drop parts of lists, large chunks first
    for path, v in list(_paths(sc)):
        if isinstance(v, list) and path[-1] in LISTS and v:
            n = len(v)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    if n - size < (1 if path[-1] in ("clients", "runs") else 0):
                        continue
                    yield _with(sc, path, v[:a] + v[a + size:])
                size //= 2
    # optional keys of keyword dictionaries
    for path, v in list(_paths(sc)):
        if isinstance(v, dict) and path[-1] in ("kw",):
            for k in list(v):
                if k not in ("n", "seed", "cls"):
                    yield _with(sc, path, {a: b for a, b in v.items() if a != k})
    # smaller numbers
    for path, v in list(_paths(sc)):
        if path[-1] in ("n", "itermax") and isinstance(v, int) and v > 1:
            for w in sorted({1, v // 2, v - 1}):
                if 0 < w < v:
                    yield _with(sc, path, w)
        if len(path) >= 2 and path[-2] != "kw" and len(path) >= 3 and path[-3] == "slices" and path[-1] == 1 and isinstance(v, int) and v > 1:
            yield _with(sc, path, v // 2)
    if sc.get("gran") == "instr":
        yield dict(copy.deepcopy(sc), gran="line")


def minimise(prop, sc, kinds, wall=60.0, tries=250):
    t0 = seams.REAL_MONO()
    best, n, changed = sc, 0, True
    bestres = None
    while changed and n < tries and seams.REAL_MONO() - t0 < wall:
        changed = False
        for cand in shrinks(best):
            if n >= tries or seams.REAL_MONO() - t0 > wall:
                break
            n += 1
            res = execute(prop, cand)
            if any(v["kind"] in kinds for v in res["violations"]):
                best, bestres, changed = cand, res, True
                break
    return best, bestres, n


# ---------------------------------------------------------------------------------------------------------------------

def _worker(prop, seed, tier, idx, fd):
    out = os.fdopen(fd, "w", buffering=1)
    for i in idx:
        sc = scenario(prop, seed, i, tier)
        res = execute(prop, sc)
        if res.get("error"):                     # once more: a starved machine can time a child out
            res = execute(prop, sc)
        rec = {"i": i, "violations": jsonable(res["violations"]), "error": res.get("error"),
               "nontrivial": bool(res.get("nontrivial")), "key": res.get("key", ""), "digest": res.get("digest"),
               "stats": jsonable(res.get("stats", {}))}
        out.write(json.dumps(rec) + "\n")
        if rec["violations"] and not only_crashed(rec):
            break
    out.close()


def only_crashed(rec):
    return bool(rec["violations"]) and all(v["kind"] == "crashed" for v in rec["violations"])


def tolerated(recs, total):
    """SuperLU can crash the interpreter on singular systems, on any tree: a few such runs decide nothing."""
    lost = [r for r in recs if only_crashed(r)]
    return lost if len(lost) <= max(4, total // 50) else []


def search(prop, seed, tier, total, workers, soft, progress=False):
    """Run scenarios 0..total-1; returns (records, stopped_early)."""
    t0 = seams.REAL_MONO()
    children = {}
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                die_with_parent()
                os.close(r)
                for other in children:
                    os.close(other)
                _worker(prop, seed, tier, range(w, total, workers), wfd)
                code = 0
            finally:
                os._exit(code)
        os.close(wfd)
        children[r] = [pid, b"", w - workers]
    recs, hit, bad, grace = [], False, [], 0.0
    while children:
        left = soft - (seams.REAL_MONO() - t0)
        if left <= 0:
            break
        ready = select.select(list(children), [], [], min(left, 5.0))[0]
        for r in ready:
            data = os.read(r, 1 << 16)
            if not data:
                pid = children.pop(r)[0]
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if st != 0:
                    bad.append("worker ended with status %d" % st)
                continue
            children[r][1] += data
            *lines, rest = children[r][1].split(b"\n")
            children[r][1] = rest
            for ln in lines:
                rec = json.loads(ln)
                recs.append(rec)
                children[r][2] = rec["i"]
                if rec["violations"] and (not only_crashed(rec) or len(tolerated(recs, total)) < sum(map(only_crashed, recs))):
                    hit = True
        if hit and not grace:
            grace = seams.REAL_MONO() + 45.0
        if hit:
            # the violation with the lowest run number is reported: let the others come up to it (within reason)
            first = min(x["i"] for x in recs if x["violations"] and not (only_crashed(x) and tolerated(recs, total)))
            if all(children[r][2] + workers > first for r in children) or seams.REAL_MONO() > grace:
                break
    late = bool(children) and not hit
    for r, (pid, _, _) in children.items():
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        os.close(r)
    return recs, late, bad


def known_findings():
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln and not ln.startswith("#") and not ln.startswith("fixed:"):
                out.append(json.loads(ln))
    return out


def check(prop, seed, tier, workers=None, total=None, soft=None):
    t0 = seams.REAL_MONO()
    workers = workers or int(os.environ.get("DST_WORKERS", "8"))
    total = total or int(os.environ.get("DST_RUNS", 0)) or prop.RUNS[tier]
    soft = soft or {"quick": 420.0, "thorough": 6 * 3600.0}[tier]
    print("%s seed=%d tier=%s runs=%d workers=%d" % (prop.ID, seed, tier, total, workers), flush=True)
    recs, late, bad = search(prop, seed, tier, total, workers, soft)
    recs.sort(key=lambda x: x["i"])
    errors = [r for r in recs if r["error"]] + [{"i": -1, "error": b} for b in bad]
    lost = tolerated(recs, total)
    viol = [r for r in recs if r["violations"] and r not in lost]
    known, fresh = [], []
    kf = [k for k in known_findings() if k.get("property") == prop.ID]
    for r in viol:
        (known if any(all(v["kind"] == k["kind"] for v in r["violations"]) for k in kf) else fresh).append(r)
    code = 0
    wall = seams.REAL_MONO() - t0
    write_evidence(prop, seed, tier, recs, wall, late, len(fresh), errors, len(lost))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop.ID, k["what"]))
    if fresh:
        r = fresh[0]
        path = report(prop, seed, tier, r)
        for v in r["violations"][:3]:
            print("  %s: %s" % (v["kind"], v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop.ID, path), flush=True)
        return 1
    if errors:
        print("HARNESS ERROR in %d run(s):\n%s" % (len(errors), errors[0]["error"]))
        return 2
    if len(recs) < max(1, total // 10):
        print("HARNESS ERROR: only %d of %d runs within %.0f s" % (len(recs), total, soft))
        return 2
    if os.environ.get("DST_DIGESTS"):
        with open(os.environ["DST_DIGESTS"], "w") as f:
            json.dump({r["i"]: [r["digest"], r["stats"]] for r in recs}, f)
    print("ok: %d runs in %.1f s%s, history digest %s" % (len(recs), wall, " (time limit)" if late else "", history(recs)))
    return code


def report(prop, seed, tier, rec):
    sc = scenario(prop, seed, rec["i"], tier)
    kinds = {v["kind"] for v in rec["violations"]}
    small, res, n = minimise(prop, sc, kinds)
    if res is None:
        res = execute(prop, small)
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (prop.ID, seed, rec["i"]))
    doc = {"property": prop.ID, "seed": seed, "run": rec["i"], "violations": jsonable(res["violations"]),
           "scenario": small, "digest": res.get("digest"), "trace": jsonable(res.get("trace", [])),
           "minimisation": {"executions": n, "original": sc}}
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    ok = False
    try:
        p = subprocess.run([sys.executable, os.path.join(boot.HERE, "replay.py"), path], timeout=240,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = p.returncode == 1
    except subprocess.TimeoutExpired:
        pass
    doc["reproduced_in_fresh_process"] = ok
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def history(recs):
    """One digest over every run's event log: equal for equal seeds whatever the worker count or the machine's timing."""
    return hashlib.sha256(repr(sorted((r["i"], r["digest"]) for r in recs)).encode()).hexdigest()[:16]


def write_evidence(prop, seed, tier, recs, wall, late, nviol, errors, lost=0):
    os.makedirs(EVID, exist_ok=True)
    fired, probes, sigs, keys = Counter(), Counter(), set(), set()
    ev = sw = 0
    simt = 0.0
    for r in recs:
        s = r["stats"]
        fired.update(s.get("fired", {}))
        probes.update(s.get("probes", {}))
        ev += s.get("events", 0)
        sw += s.get("switches", 0)
        simt += s.get("sim_time", 0.0)
        if s.get("sig"):
            sigs.add(s["sig"])
        if r["nontrivial"]:
            keys.add(r["key"])
    samples = []
    for r in [x for x in recs if x["nontrivial"]][:3]:
        samples.append({"run": r["i"], "scenario": scenario(prop, seed, r["i"], tier), "digest": r["digest"]})
    cov = {"evaluations": len(recs), "distinct_nontrivial": len(keys), "rule": prop.RULE, "samples": samples,
           "simulated_runs": len(recs), "seeds": {"base": seed, "runs": [0, max([r["i"] for r in recs], default=0)]},
           "runs_per_hour": round(len(recs) / wall * 3600) if wall else 0,
           "simulated_time_s": round(simt, 3), "library_steps_observed": ev, "context_switches": sw,
           "fault_kinds": dict(sorted(fired.items())), "probes": dict(sorted(probes.items())),
           "history_digest": history(recs),
           "distinct_interleavings": len(sigs),
           "interleaving_measure": "hash of the sequence of (client, function, line or bytecode offset) at every switch or fault",
           "components": prop.COMPONENTS, "stopped_by_time_limit": late, "harness_errors": len(errors), "runs_lost_to_native_crash": lost}
    doc = {"property": prop.ID, "tier": tier, "seed": seed, "level": prop.LEVEL, "coverage": cov,
           "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(EVID, prop.ID + ".json"), "w") as f:
        json.dump(jsonable(doc), f, indent=1)
