"""C02: the host program's process-wide state is left as it was found."""
import io
import sys
import warnings

import numpy as np

import session
from common import *
from obs import globals_snapshot
from props import c04

ID = "C02"
LEVEL = "exploration"
HOW = "snapshots of process-wide state around each call of seeded sessions with interrupts and failing seams, and overlapping clients with a host thread drawing random numbers"
RUNS = {"quick": 560, "thorough": 30000}
RULE = ("serial mode: a session with 0-4 faults under a generated host configuration (random state, warning filters, error handling, "
        "options), process-wide state compared around every attempt; overlap mode: 2-3 clients and a host thread that re-seeds and draws "
        "under a seeded schedule, the host's draws and the final state compared with a run without the library; non-trivial: at least 2 "
        "library calls compared; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": STUB_BASE + ["LP and linear solver entry points (pass through unless failing)"]}
ASSUMPTIONS = ASSUME


def gen_host(r):
    return {"seed": r.randrange(1000), "filters": r.choice(["default", "always", "ignore", "error-user", "once", "mixed"]),
            "err": r.choice([None, {"all": "ignore"}, {"divide": "warn", "invalid": "ignore"}, {"over": "warn", "under": "ignore"}]),
            "print": r.choice([None, 3, 12])}


def generate(r, i, tier):
    if r.random() < 0.55:
        sc = c04.generate(r, i, tier)
        if r.random() < 0.3:
            sc["faults"] = []
        for op in sc["ops"]:
            if op["op"] == "solve" and r.random() < 0.3:
                op["kw"]["verbose"] = True
        sc.update(mode="serial", host=gen_host(r))
        return sc
    n = r.choice([2, 2, 3])
    clients = [{"ops": session.gen_chain(r, "x", n_max=6, depth=r.choice([1, 2, 4, 5, 5, 5]), solve=0.8)} for _ in range(n)]
    host = []
    for _ in range(r.randint(3, 12)):
        host.append({"op": "host_seed", "kw": {"seed": r.randrange(100)}} if r.random() < 0.3 else {"op": "host_draw", "kw": {"k": r.randint(1, 4)}})
    # the host thread has no library steps to be pre-empted at: its turns are spread by one-step slices
    sl = gen_slices(r, n + 1)
    for _ in range(r.randint(4, 20)):
        sl.insert(r.randrange(len(sl) + 1), [n, 1])
    return {"mode": "overlap", "clients": clients, "host_ops": host, "slices": sl, "gran": "instr" if r.random() < 0.25 else "line",
            "host": gen_host(r)}


def setup_host(h):
    import random
    sys.stderr = io.StringIO()
    np.random.seed(h["seed"])
    random.seed(h["seed"])
    f = h["filters"]
    warnings.resetwarnings()
    if f == "mixed":
        warnings.simplefilter("ignore")
        warnings.filterwarnings("always", category=UserWarning, message="Stopping.*")
        warnings.filterwarnings("ignore", module="pandas")
    elif f == "error-user":
        warnings.simplefilter("ignore")
        warnings.filterwarnings("error", category=UserWarning)
    elif f == "default":
        warnings.simplefilter("default")
    else:
        warnings.simplefilter(f)
    if h["err"]:
        np.seterr(**h["err"])
    if h["print"]:
        np.set_printoptions(precision=h["print"])


def serial_mode(sc, ords):
    setup_host(sc["host"])
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install(seed_host=False)
    world, viol, n = {}, [], 0
    real_backend = session.backend

    def attempt(op, **k):
        nonlocal n
        rec = session.run_op(sim, sim.main, world, op, check_globals=True, keep=False, **k)
        if rec["status"] != "skipped":
            n += 1
        if rec.get("globals"):
            viol.append({"kind": "global", "detail": "%s (%s): process-wide state before / after: %s" % (op["op"], rec.get("exc", rec["status"]), rec["globals"])})
        return rec

    for k, op in enumerate(sc["ops"]):
        for j, f in enumerate([f for f in sc["faults"] if f["op"] == k]):
            if f["kind"] == "lp":
                if op["op"] == "stack":
                    sim.lp = c04.lp_failure(f["how"])
                    attempt(op)
                    sim.lp = None
                    sim.fire("lp_" + f["how"])
            elif f["kind"] == "backend":
                if op["op"] == "solve":
                    calls = [0]

                    def failing(A, b, calls=calls, at=f["call"]):
                        calls[0] += 1
                        if calls[0] == at + 1:
                            sim.fire("backend_raise", at)
                            raise c04.SolverDown("linear solver unavailable")
                        return real_backend("spsolve")(A, b)
                    session.backend = lambda name: failing
                    attempt(dict(op, kw=dict(op.get("kw", {}), backend="x")))
                    session.backend = real_backend
            else:
                o = ords.get(k, [])
                o = o[j] if j < len(o) else None
                if o is not None:
                    attempt(op, inject=(o, f["kind"]))
        if attempt(op)["status"] == "stuck":
            viol.append({"kind": "stuck", "detail": "%s does not finish" % op["op"]})
            break
    s = sim.summary()
    sim.uninstall()
    return {"violations": viol, "summary": s, "calls": n}


def host_only(sc):
    """What the host thread would see without the library."""
    setup_host(sc["host"])
    sim = Sim("host", sc["id"])
    world = {}
    draws = [session.run_op(sim, sim.main, world, op)["obs"] for op in sc["host_ops"]]
    return {"draws": draws, "globals": globals_snapshot()}


IDS = ("stdout", "stderr", "files")


def overlap_mode(sc):
    setup_host(sc["host"])
    sim = Sim("run", sc["id"], sc["gran"])
    before = globals_snapshot()
    sim.install(seed_host=False)
    n = len(sc["clients"])
    outs, fns, draws, viol = [], [], [], []
    for cl in sc["clients"]:
        recs = []
        outs.append(recs)

        def client(t, ops=cl["ops"], recs=recs):
            w = {}
            err = np.geterr()
            for op in ops:
                recs.append(session.run_op(sim, t, w, op, keep=False))
                if np.geterr() != err:
                    viol.append({"kind": "global", "detail": "%s left floating-point error handling at %s" % (op["op"], np.geterr())})
                    err = np.geterr()
                if recs[-1]["status"] == "stuck":
                    return
        fns.append(client)

    def host(t):
        w = {}
        for op in sc["host_ops"]:
            sim.yield_point("host")
            draws.append(session.run_op(sim, t, w, op)["obs"])
        sim.count("host_ops", len(draws))
    fns.append(host)
    ts = sim.run_threads(fns, [[s[0], s[1] * (6 if sc["gran"] == "instr" else 1)] for s in sc["slices"]])
    s = sim.summary()
    sim.uninstall()
    after = globals_snapshot()
    for t in ts:
        if t.error is not None:
            viol.append({"kind": "stuck", "detail": repr(t.error)})
    for recs in outs:
        viol += [{"kind": "stuck", "detail": "%s does not finish" % r["op"]} for r in recs if r["status"] == "stuck"]
    return {"violations": viol, "summary": s, "draws": draws, "before": before, "after": after,
            "calls": sum(r["status"] != "skipped" for recs in outs for r in recs)}


def run(sc):
    if sc["mode"] == "serial":
        sc = expand(sc)
        picks = {}
        for f in sc["faults"]:
            if f["op"] < len(sc["ops"]):
                picks.setdefault(f["op"], []).append(f.get("pick", [0, 0]))
        ords = isolated(serial, "ref", sc["id"], sc["ops"], False, picks, sc["gran"])["ordinals"] if picks else {}
        got = isolated(serial_mode, sc, ords)
        viol = got["violations"][:5]
    else:
        ref = isolated(host_only, sc)
        got = isolated(overlap_mode, sc)
        viol = got["violations"][:5]
        d = diff(got["draws"], ref["draws"], "host draws", rtol=0, atol=0)
        if d:
            viol.append({"kind": "host-draws", "detail": "a host thread's random draws, got / without the library: %s" % d})
        a = dict(got["after"])
        b = dict(got["before"])
        for k in ("numpy.random", "random"):
            b[k] = ref["globals"][k]
        d = diff(b, a, "state")
        if d:
            viol.append({"kind": "global", "detail": "process-wide state after overlapping calls, expected / got: %s" % d})
    s = got["summary"]
    s["probes"]["mode_" + sc["mode"]] = 1
    s["probes"]["filters_" + sc["host"]["filters"]] = 1
    st = merge(s)
    return {"violations": viol, "stats": st, "nontrivial": got["calls"] >= 2, "key": s["digest"], "digest": s["digest"], "trace": s["trace"]}
