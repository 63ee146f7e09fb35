"""C01: a seed fully determines the fibre set, whatever runs around it."""
import session
from common import *

ID = "C01"
LEVEL = "exploration"
HOW = "seeded schedules of concurrent generations, host random draws and interrupted generations; every set compared with a pristine process"
RUNS = {"quick": 700, "thorough": 40000}
RULE = ("1-4 clients generate fibre sets with colliding parameters and seeds (also through the settings panel), interleaved with host "
        "re-seeding and draws, other constructors, interrupts and retries; every set is compared with the one a pristine process "
        "generates; non-trivial: at least two generations plus a switch or fault inside one; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": STUB_BASE}
ASSUMPTIONS = ASSUME


def gen_kw(r):
    kw = dict(n=r.choice([0, 1, 2, 3, 5, 8, 20] + [r.choice([60, 130, 260, 1100])] * (r.random() < 0.15)), seed=r.choice([0, 1, 2, 3, 7, 12345, 2 ** 31, 2 ** 32 - 1]))
    if r.random() < 0.5:
        kw["size"] = r.choice([10.0, 50.0, 80.0])
    if r.random() < 0.3:
        kw["length"] = r.choice([5.0, 25.0])
    if r.random() < 0.3:
        kw["theta"] = r.choice([0.0, 0.5, 3.0])
    if r.random() < 0.3:
        kw["psi"] = r.choice([0.0, 0.4, 1.0])
    if r.random() < 0.2:
        kw["tensile"] = r.choice(["inf", 12.0])
    if r.random() < 0.15:
        kw["thickness"] = 0.3
    return kw


def generate(r, i, tier):
    n = r.choice([1, 2, 2, 3, 4])
    pool = [gen_kw(r)]
    for _ in range(r.randint(1, 4)):
        kw = dict(r.choice(pool))
        if r.random() < 0.7:
            new = gen_kw(r)
            for k in r.sample(sorted(set(new) | set(kw)), 1):
                kw.pop(k, None)
                if k in new:
                    kw[k] = new[k]
            kw.setdefault("n", 3)
            kw.setdefault("seed", 0)
        if r.random() < 0.35:                                           # seeds that collide when they are cut or folded
            s = kw["seed"]
            kw["seed"] = r.choice([s + 2 ** r.randint(1, 31), s - 2 ** r.randint(1, 31), s + 10 ** r.randint(1, 9),
                                   s + 10 ** r.randint(1, 9) - 1, s % 2 ** 31, s % 2 ** 16, s ^ (1 << r.randint(0, 31)), s * 2, s + r.randint(1, 300)]) % 2 ** 32
        pool.append(kw)
    clients = []
    for c in range(n):
        ops = []
        for k in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.62:
                op = {"op": "mat", "out": "m%d" % k, "kw": dict(r.choice(pool))}
            elif x < 0.72:
                op = {"op": "host_seed", "kw": {"seed": r.randrange(10)}}
            elif x < 0.80:
                op = {"op": "host_draw", "kw": {"k": r.randint(1, 30)}}
            elif x < 0.86:
                op = {"op": "default", "out": "d%d" % k, "kw": {"cls": r.choice(["Mat", "Net", "Mesh", "Stack"])}}
            elif x < 0.91:
                op = {"op": "mat", "out": "b%d" % k, "kw": {"n": r.choice([-1, 3]), "length": r.choice([0.0, -5.0]), "seed": r.randrange(5)}}
            elif x < 0.95:
                op = {"op": "settings_mat", "out": "s%d" % k, "kw": {"n": r.randint(0, 9), "seed": r.randrange(4), "size": 40.0}}
            elif x < 0.97:
                op = {"op": "net", "mat": "m%d" % (k - 1), "out": "n%d" % k, "kw": {"periodic": r.random() < 0.5}}
            else:
                op = {"op": "edit", "mat": "m%d" % (k - 1), "kw": {"seed": r.randrange(100)}}
            if op["op"] == "mat" and r.random() < 0.35:                  # a consumer changes what it was given
                ops.append(op)
                op = {"op": "edit", "mat": "m%d" % k, "kw": {"seed": r.randrange(100)}}
                if r.random() < 0.5:
                    ops.append(op)
                    op = {"op": "mat", "out": "r%d" % k, "kw": dict(ops[-2]["kw"])}
            ops.append(op)
        faults = []
        for k, op in enumerate(ops):
            if op["op"] in ("mat", "settings_mat") and r.random() < 0.2:
                faults.append({"op": k, "kind": r.choice(["interrupt", "nomem", "cancel"]), "pick": [r.random(), r.random()]})
        clients.append({"ops": ops, "faults": faults})
    return {"clients": clients, "slices": gen_slices(r, n), "gran": "instr" if r.random() < 0.35 else "line"}


def pristine(sc, op, pick):
    r = serial("ref", sc["id"] + repr(op.get("kw")), [op], True, {0: pick}, sc["gran"])
    return {"rec": r["recs"][0], "ords": r["ordinals"].get(0, [])}


def together(sc, ords):
    sim = Sim("run", sc["id"], sc["gran"])
    sim.install()
    outs, fns = [], []
    for c, cl in enumerate(sc["clients"]):
        recs = []
        outs.append(recs)

        def client(t, c=c, cl=cl, recs=recs):
            w = {}
            for k, op in enumerate(cl["ops"]):
                for j, f in enumerate([f for f in cl["faults"] if f["op"] == k]):
                    o = ords.get((c, k), [])
                    if j < len(o) and o[j] is not None:
                        rec = session.run_op(sim, t, w, op, inject=(o[j], f["kind"]))
                        recs.append((k, rec))
                recs.append((k, session.run_op(sim, t, w, op)))
                if recs[-1][1]["status"] == "stuck":
                    return
        fns.append(client)
    mult = 6 if sc["gran"] == "instr" else 1
    ts = sim.run_threads(fns, [[s[0], s[1] * mult] for s in sc["slices"]])
    s = sim.summary()
    sim.uninstall()
    for recs in outs:
        strip([r for _, r in recs])
    return {"recs": outs, "errors": [repr(t.error) for t in ts if t.error], "summary": s}


def run(sc):
    ords, refs = {}, {}
    for c, cl in enumerate(sc["clients"]):
        for k, op in enumerate(cl["ops"]):
            if op["op"] in ("mat", "settings_mat"):
                pick = [f.get("pick", [0, 0]) for f in cl["faults"] if f["op"] == k]
                key = repr((op["op"], sorted(op["kw"].items()), pick))
                if key not in refs:
                    refs[key] = isolated(pristine, sc, dict(op), pick)
                ords[(c, k)] = refs[key]["ords"]
                refs[(c, k)] = refs[key]["rec"]
    got = isolated(together, sc, ords)
    viol = [{"kind": "stuck", "detail": e} for e in got["errors"]]
    gens = 0
    sets = []
    for c, recs in enumerate(got["recs"]):
        for k, rec in recs:
            if (c, k) not in refs or rec.get("injected"):
                continue
            v = compare(refs[(c, k)], rec, "client %d op %d %s" % (c, k, sc["clients"][c]["ops"][k]["kw"]))
            if v:
                viol.append(v)
            gens += 1
            if rec["status"] == "ok":
                sets.append((sc["clients"][c]["ops"][k], rec["obs"]))
    # different seeds give different sets
    for a in range(len(sets)):
        for b in range(a):
            (oa, xa), (ob, xb) = sets[a], sets[b]
            if oa["op"] == ob["op"] and oa["kw"].get("n", 0) >= 1:
                ka, kb = dict(oa["kw"]), dict(ob["kw"])
                sa, sb = ka.pop("seed", 0), kb.pop("seed", 0)
                if ka == kb and sa != sb and diff(xa["data"], xb["data"], rtol=0, atol=0) is None:
                    viol.append({"kind": "seed-ignored", "detail": "seeds %s and %s give the same %d fibres" % (sa, sb, ka["n"])})
    s = got["summary"]
    inj = sum(s["fired"].values())
    s["probes"]["generations"] = gens
    return {"violations": viol[:5], "stats": merge(s), "nontrivial": gens >= 2 and (s["switches"] > 0 or inj > 0), "key": s["digest"],
            "digest": s["digest"], "trace": s["trace"]}
