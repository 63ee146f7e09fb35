"""C22: work handed to worker processes gives the results of one process."""
import heapq
import os
import pickle
import random
import struct
import subprocess
import sys

import numpy as np
import pandas as pd

import boot
import fibermat as fm
import session
from common import *
from sim import FAULTS, StepBudget

ID = "C22"
LEVEL = "exploration"
HOW = "seeded simulated cluster: a coordinator, forked worker processes, a network that loses, duplicates, delays and reorders messages, workers that crash, stall, run out of memory and restart; compared with one process per job"
RUNS = {"quick": 320, "thorough": 12000}
RULE = ("1-3 jobs (generate, edit, connect, stack, mesh, assemble, pack, deform, pack again, export) are split into tasks for 2-4 long-lived "
        "worker processes; arguments and results travel as pickles (protocols 2-5, some with read-only out-of-band buffers) over a simulated "
        "network; seeded message loss, duplication and lateness, worker crashes at library steps, stalls, failing allocations; tasks are sent "
        "again after a timeout; non-trivial: at least one fault fired and some worker served two jobs or two attempts; distinct by event-log digest")
COMPONENTS = {"real": REAL + ["worker processes (forked, real crashes)", "pickle"],
              "stub": ["network between coordinator and workers (simulated clock, loss, duplication, delay)", "clocks", "coordinator and retry policy"]}
ASSUMPTIONS = ASSUME + ["objects travel by pickle, as multiprocessing, concurrent.futures, joblib and dask send them",
                        "a worker process crash is an end without unwinding; nothing of a worker survives it"]

NEEDS = {"mat": [], "net": ["mat"], "stack": ["mat", "net"], "mesh": ["net2"], "lp": ["mat2", "net2"], "K": ["mat2", "mesh"], "C": ["mat2", "mesh"],
         "sol": ["mat2", "mesh"], "deform": ["mesh", "sol"], "sol2": ["mat2", "deform"], "vtk": ["mat2", "mesh", "sol"], "vtkm": ["mat2"],
         "interp": ["sol"], "checks": ["mat2", "net2", "mesh"], "bad": ["mat2", "net2", "mesh"], "again": ["mat2", "mesh"]}


DAMAGE = ["column", "attrs", "reversed", "order", "labels", "range", "type", "size", "pair", "index", "beam"]


def generate(r, i, tier):
    jobs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        m = session.gen_mat(r, 7) if not jobs or r.random() < 0.4 else session.mutate_mat(r, r.choice(jobs)["mat"])
        m["n"] = max(2, m["n"])
        want = [s for s in ("lp", "K", "C", "vtk", "vtkm", "interp", "checks", "bad", "again", "sol2") if r.random() < 0.45]
        sk = session.gen_solve(r)
        jobs.append({"mat": m, "edit": r.randrange(1000) if r.random() < 0.4 else None, "periodic": r.random() < 0.6, "stacked": r.random() < 0.75,
                     "threshold": r.choice([None, None, 2.0, 10.0]), "solve": sk, "want": want, "damage": r.choice(DAMAGE), "t": r.choice([0.0, 0.37, 1.0])})
    faults = []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        faults.append({"task": [r.randrange(len(jobs)), r.choice(["mat", "net", "stack", "mesh", "sol", "sol", "sol2", "vtk", "K", "C", "lp"])],
                       "attempt": r.choice([0, 0, 0, 1]), "kind": r.choice(["crash", "crash", "crash", "nomem", "cancel", "stall"]), "at": r.random()})
    msgs = [[r.randint(0, 40), r.choice(["lose", "lose", "dup", "dup", "late"]), round(10 ** r.uniform(0, 3), 1)] for _ in range(r.choice([0, 2, 5, 12]))]
    spawn = r.randrange(1, 1000) if r.random() < 0.06 else None
    return {"jobs": jobs, "spawn": spawn, "workers": r.choice([1, 2, 2, 3, 4]) if spawn is None else r.choice([1, 2]), "faults": faults, "msgs": msgs, "keep": r.random() < 0.4,
            "proto": r.choice(["mixed", "mixed", "mixed", 2, 3, 4, 5, "oob"]), "seed": r.randrange(1 << 30)}


# -- tasks ------------------------------------------------------------------------------------------------------------

def tasks_of(job):
    """Names of the job's tasks with the names of what each needs (mat2/net2: after stacking where the job stacks)."""
    names = ["mat", "net"] + ["stack"] * bool(job["stacked"]) + ["mesh"]
    want = set(job["want"])
    if want & {"vtk", "interp", "sol2"} or not want:
        names.append("sol")
    if "sol2" in want:
        names.append("deform")
    return names + [w for w in job["want"]]


def needs(job, name):
    out = []
    for x in NEEDS[name]:
        if x in ("mat2", "net2"):
            x = "stack" if job["stacked"] else x[:-1]
        if x not in out:
            out.append(x)
    return out


def compute(job, name, have):
    """One task, from the results it needs."""
    if name == "mat":
        kw = dict(job["mat"])
        for k in ("tensile", "shear"):
            if kw.get(k) == "inf":
                kw[k] = float("inf")
        mat = fm.Mat(**kw)
        if job["edit"] is not None:
            session.edit(mat, job["edit"])
        return mat
    net2, mat2 = have["stack"] if "stack" in have else (have.get("net"), have.get("mat"))
    sk = dict(job["solve"], verbose=False)
    if name == "net":
        return fm.Net(have["mat"], periodic=job["periodic"])
    if name == "stack":
        kw = {} if job["threshold"] is None else {"threshold": job["threshold"]}
        return fm.Stack(have["mat"], have["net"], **kw), have["mat"]
    if name == "mesh":
        return fm.Mesh(net2)
    if name == "lp":
        return fm.Stack.solve(mat2, net2)
    if name == "K":
        return fm.stiffness(mat2, have["mesh"], **{k: v for k, v in sk.items() if k in ("lmin", "lmax", "coupling")})
    if name == "C":
        return fm.constraint(mat2, have["mesh"])
    if name in ("sol", "again"):
        return fm.solve(mat2, have["mesh"], **sk)
    if name == "deform":
        m = fm.Mesh(have["mesh"].copy())
        m.z += have["sol"][2](1)[::2]
        return m
    if name == "sol2":
        return fm.solve(mat2, have["deform"], **dict(sk, itermax=3))
    if name == "vtk":
        K, C, u, f = have["sol"][:4]
        return fm.vtk_mesh(mat2, have["mesh"], *u(job["t"]).reshape(-1, 2).T, *(f(job["t"]) @ C).reshape(-1, 2).T, verbose=False)
    if name == "vtkm":
        return fm.vtk_mat(mat2, verbose=False)
    if name == "interp":
        return [np.array(x(job["t"])) for x in have["sol"][2:] if callable(x)] + [np.array(x()) for x in have["sol"][2:] if callable(x)]
    if name == "checks":
        return [fm.Mat.check(mat2), fm.Net.check(net2), fm.Mesh.check(have["mesh"]), type(net2)(net2), type(have["mesh"])(have["mesh"])]
    if name == "bad":
        return damaged(job["damage"], mat2, net2, have["mesh"])
    raise KeyError(name)


def damaged(kind, mat, net, mesh):
    """A table that came back damaged: refused with an error that has to reach the coordinator."""
    def table(x):
        df = pd.DataFrame({c: x[c].to_numpy().copy() for c in x.columns}, index=x.index)
        df.attrs = dict(x.attrs)
        return df
    m, n, h = table(mat), table(net), table(mesh)
    if kind == "column":
        return fm.Mesh(h.drop(columns="beam"))
    if kind == "attrs":
        h.attrs.pop("n")
        return fm.Mesh(h)
    if kind == "reversed":
        return fm.Mesh(h.iloc[::-1])
    if kind == "order":
        h2 = h.iloc[::-1].reset_index(drop=True)
        h2.attrs = h.attrs
        return fm.Mesh(h2)
    if kind == "labels":
        h["fiber"] = h["fiber"] + 1
        return fm.Mesh(h)
    if kind == "range":
        m.loc[0, "l"] = -1.0
        return fm.Mat(m)
    if kind == "type":
        n["A"] = n["A"] + 0.5
        return fm.Net(n)
    if kind == "size":
        m.attrs["n"] = len(m) + 1
        return fm.Mat(m)
    if kind == "pair":
        n["B"] = -1
        return type(net)(n)
    if kind == "index":
        m.index = m.index + 3
        return fm.Mat(m)
    h["beam"] = 0
    return fm.Mesh(h)


def alone(sc, k):
    """The job in one process, nothing sent anywhere."""
    sim = Sim("ref", "%s/%d" % (sc["id"], k))
    sim.install()
    job = sc["jobs"][k]
    have, out = {}, {}
    for name in tasks_of(job):
        req = needs(job, name)
        if any(n not in have for n in req):
            continue
        sim.main.op_events = 0
        args = {n: have[n] for n in req}
        if name == "stack":                             # stacking replaces the heights of the fibres it is given
            args["mat"] = fm.Mat(args["mat"].copy())
            args["mat"].attrs = dict(have["mat"].attrs)
        try:
            with np.errstate(all="ignore"):
                val = compute(job, name, args)
            have[name] = val
            out[name] = {"status": "ok", "obs": observe(val), "steps": sim.main.op_events}
        except StepBudget:
            return {"stuck": name, "summary": sim.summary()}
        except Exception as e:
            out[name] = {"status": "exc", "exc": [type(e).__name__, str(e)], "steps": sim.main.op_events}
    sim.uninstall()
    return {"tasks": out, "summary": sim.summary()}


# -- transport --------------------------------------------------------------------------------------------------------

def pack(obj, proto):
    """What travels: (pickle, out-of-band buffers)."""
    if proto == "oob":                                  # received as read-only memory
        bufs = []
        data = pickle.dumps(obj, protocol=5, buffer_callback=bufs.append)
        return pickle.dumps((data, [bytes(b.raw()) for b in bufs]))
    return pickle.dumps((pickle.dumps(obj, protocol=proto), None))


def unpack(data):
    data, bufs = pickle.loads(data)
    return pickle.loads(data) if bufs is None else pickle.loads(data, buffers=bufs)


def send(fd, data):
    view = memoryview(struct.pack("<Q", len(data)) + data)
    while view:
        view = view[os.write(fd, view):]


def exactly(fd, n):
    out = bytearray()
    while len(out) < n:
        chunk = os.read(fd, min(1 << 20, n - len(out)))
        if not chunk:
            return None
        out += chunk
    return bytes(out)


def receive(fd):
    head = exactly(fd, 8)
    return None if head is None else exactly(fd, struct.unpack("<Q", head)[0])


def worker(sc, role, rfd, wfd):
    """A worker process: serves tasks until its pipe closes or it crashes."""
    sim = Sim("run", "%s/%s" % (sc["id"], role), budget=6_000_000)
    sim.install()
    kept = {}
    while True:
        data = receive(rfd)
        if data is None:
            os._exit(0)
        k, name, arrived, proto, fault = pickle.loads(data)
        t = sim.main
        reply = {"steps": 0}
        before = sim.events
        try:
            have = {n: unpack(b) for n, b in arrived.items()}
            if sc["keep"]:                              # a worker keeps what it has by name
                for n in have:
                    have[n] = kept.setdefault((k, n), have[n])
                if name == "stack":
                    have["mat"] = pickle.loads(pickle.dumps(have["mat"]))
            t.op_events = 0
            t.inject = None
            if fault is not None:
                if fault[0] == "crash":
                    sim.crash = (sim.events + fault[1], lambda where: os._exit(9))
                else:
                    t.inject = (fault[1], fault[0])
            with np.errstate(all="ignore"):
                val = compute(sc["jobs"][k], name, have)
            reply.update(status="ok", value=pack(val, proto))
            if sc["keep"]:
                kept[(k, name)] = val
        except StepBudget:
            reply.update(status="stuck")
        except BaseException as e:
            hit = fault is not None and type(e) in FAULTS.values()
            reply.update(status="fault" if hit else "exc", exc=[type(e).__name__, str(e)], value=None)
            if not hit:                                 # the error itself travels back
                try:
                    reply["value"] = pickle.dumps(e, protocol=2 if proto == "oob" else proto)
                except Exception as x:
                    reply["lost"] = repr(x)
        t.inject = sim.crash = None
        reply["steps"] = sim.events - before
        send(wfd, pickle.dumps(reply))


class Worker:
    def __init__(self, sc, i, others):
        self.sc, self.i, self.life = sc, i, 0
        self.up, self.free, self.served = True, 0.0, set()
        self.others = others
        self.start()

    def start(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        if self.sc["spawn"] is not None:                # a new interpreter, other hash seed
            seed = str(self.sc["spawn"] + self.i)
            env = dict(os.environ, PYTHONHASHSEED=seed, DST_HASHSEED=seed)
            env.pop("DST_SCRATCH_OWNER", None)
            path = os.path.join(boot.HERE, "workerproc.py")
            self.proc = subprocess.Popen([sys.executable, path, "w%d.%d" % (self.i, self.life), str(r1), str(w2)], env=env, pass_fds=(r1, w2),
                                         stdin=subprocess.DEVNULL)
            self.pid = self.proc.pid
            os.close(r1)
            os.close(w2)
            send(self.w, pickle.dumps(self.sc))
            return
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                for o in self.others:
                    if o is not self and o.pid:
                        os.close(o.w)
                        os.close(o.r)
                worker(self.sc, "w%d.%d" % (self.i, self.life), r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)

    def ask(self, data):
        send(self.w, data)
        got = receive(self.r)
        if got is None:
            self.stop()
        return None if got is None else pickle.loads(got)

    def stop(self):
        if self.pid:
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)
            self.pid = 0


# -- coordinator ------------------------------------------------------------------------------------------------------

def cluster(sc, steps):
    """steps: {(job, task): library steps of it alone}."""
    sim = Sim("run", sc["id"])
    rng = random.Random("%s/net" % sc["seed"])
    queue, seq, now = [], [0], 0.0
    viol, done, failed, attempts, served = [], {}, {}, {}, {}
    msgno, execs = [0], [0]
    faults = [dict(f) for f in sc["faults"]]
    plan = {}
    for k, kind, by in sc["msgs"]:
        plan.setdefault(k, []).append((kind, by))
    workers = []
    for i in range(sc["workers"]):
        workers.append(Worker(sc, i, workers))
    todo = [(k, n) for k, job in enumerate(sc["jobs"]) for n in tasks_of(job)]

    def at(t, what, *data):
        seq[0] += 1
        heapq.heappush(queue, (t, seq[0], what, data))

    def post(what, *data):
        """A message over the network."""
        msgno[0] += 1
        delays = [1.0 + 4.0 * rng.random()]
        for kind, by in plan.get(msgno[0], []):
            sim.fire("msg_" + kind, what, msgno[0])
            if kind == "lose":
                delays = []
            elif kind == "dup":
                delays.append(1.0 + by)
            else:
                delays = [d + by for d in delays]
        for d in delays:
            at(now + d, what, *data)

    def proto():
        return rng.choice([2, 3, 4, 5, 5, "oob", "oob"]) if sc["proto"] == "mixed" else sc["proto"]

    def dispatch():
        for task in todo:
            k, name = task
            job = sc["jobs"][k]
            req = needs(job, name)
            if task in attempts or task in done or task in failed:
                continue
            if any((k, n) in failed for n in req):
                failed[task] = None
                continue
            if all((k, n) in done for n in req):
                assign(task)

    def assign(task):
        k, name = task
        attempts[task] = a = attempts.get(task, -1) + 1
        w = rng.randrange(len(workers))
        sim.log("send", k, name, a, w, round(now, 3))
        p = proto()
        post("request", w, task, a, {n: pack(done[(k, n)], p) for n in needs(sc["jobs"][k], name)}, proto())
        at(now + 60.0 * 2 ** min(a, 6), "timer", task, a)

    def fault_for(task, a):
        for f in faults:
            if tuple(f["task"]) == task and f["attempt"] <= a:
                faults.remove(f)
                return f
        return None

    def on_request(w, task, a, args, p):
        wk = workers[w]
        if not wk.up:
            sim.count("request_to_dead_worker")
            return
        f = fault_for(task, a)
        inj, slow = None, 1.0
        if f is not None:
            n = 1 + int(f["at"] * max(0, steps.get(task, 1) - 1))
            if f["kind"] == "stall":
                slow = 200.0
                sim.fire("worker_stall", *task)
            else:
                inj = (f["kind"], n)
                sim.fire("worker_" + f["kind"], task, n)
        execs[0] += 1
        reply = wk.ask(pickle.dumps((task[0], task[1], args, p, inj)))
        start = max(now, wk.free)
        if reply is None:
            if inj is None or inj[0] != "crash":
                viol.append({"kind": "worker-died", "detail": "task %s: the worker process ended by itself" % (task,)})
            wk.up = False
            sim.events += inj[1] if inj else 0
            at(start + 5.0 + 20.0 * rng.random(), "restart", w)
            return
        sim.events += reply["steps"]
        wk.served.add((task, a))
        wk.free = start + (1.0 + reply["steps"] / 2000.0) * slow
        sim.log("ran", w, wk.life, *task, a, reply["status"], reply["steps"])
        at(wk.free, "reply-out", w, wk.life, task, a, reply)

    def on_reply(task, a, reply):
        st = reply["status"]
        where = "job %d task %s (attempt %d)" % (*task, a)
        if st == "stuck":
            viol.append({"kind": "stuck", "detail": where})
            failed[task] = ["stuck", ""]
        elif st == "fault":
            if task not in done and task not in failed:
                assign(task)
        elif st == "exc":
            if "lost" not in reply:
                try:
                    e = pickle.loads(reply["value"])
                    if [type(e).__name__, str(e)] != reply["exc"]:
                        reply["lost"] = "it arrives as %r" % e
                except Exception as x:
                    reply["lost"] = repr(x)
            if "lost" in reply:
                viol.append({"kind": "error-lost", "detail": "%s: the error %s does not reach the coordinator: %s" % (where, reply["exc"], reply["lost"])})
            if task in done:
                viol.append({"kind": "outcome", "detail": "%s: raised %s, another attempt returned" % (where, reply["exc"])})
            elif failed.setdefault(task, reply["exc"]) != reply["exc"]:
                viol.append({"kind": "outcome", "detail": "%s: raised %s, another attempt %s" % (where, reply["exc"], failed[task])})
            sim.log("exc", *task, reply["exc"])
        else:
            val = unpack(reply["value"])
            obs = observe(val)
            sim.log("got", *task, digest(obs))
            if task in failed:
                viol.append({"kind": "outcome", "detail": "%s: returned, another attempt raised %s" % (where, failed[task])})
            elif task in done:
                sim.count("second_replies")
                d = diff(obs, served[task])
                if d:
                    viol.append({"kind": "attempts", "detail": "%s: two attempts at one task: %s" % (where, d)})
            else:
                done[task], served[task] = val, obs

    handled = 0
    bound = 300 + 60 * (len(todo) + len(sc["faults"]) + len(sc["msgs"]))
    dispatch()
    try:
        with np.errstate(all="ignore"):
            while queue and not viol and handled < bound:
                now, _, what, data = heapq.heappop(queue)
                handled += 1
                if what == "request":
                    on_request(*data)
                elif what == "reply-out":
                    w, life, *rest = data
                    if workers[w].life == life and workers[w].up:      # else it died before it could send
                        post("reply", *rest)
                elif what == "reply":
                    on_reply(*data)
                elif what == "restart":
                    wk = workers[data[0]]
                    wk.life += 1
                    wk.start()
                    wk.up, wk.free = True, now
                    sim.log("restart", wk.i, wk.life)
                    sim.count("restarts")
                elif what == "timer":
                    task, a = data
                    if task not in done and task not in failed and attempts[task] == a:
                        sim.count("timeouts")
                        assign(task)
                dispatch()
                if len(done) + len(failed) == len(todo) and not any(x[2] in ("reply", "request", "reply-out") for x in queue):
                    break
    finally:
        for wk in workers:
            wk.stop()
    if not viol and len(done) + len(failed) < len(todo):
        viol.append({"kind": "progress", "detail": "not done after %d events: %s" % (handled, [t for t in todo if t not in done and t not in failed])})
    sim.clock_elapsed = now
    sim.count("tasks", len(todo))
    sim.count("executions", execs[0])
    shared = any(len({t[0] for t, a in wk.served}) > 1 or len(wk.served) > len({t for t, a in wk.served}) for wk in workers)
    return {"viol": viol, "obs": served, "failed": failed, "summary": sim.summary(), "shared": shared}


def run(sc):
    refs, steps, viol, sums = [], {}, [], []
    for k in range(len(sc["jobs"])):
        ref = isolated(alone, sc, k)
        sums.append(ref["summary"])
        if "stuck" in ref:
            return {"violations": [{"kind": "stuck", "detail": "job %d alone: %s" % (k, ref["stuck"])}], "stats": merge(*sums), "digest": ""}
        refs.append(ref["tasks"])
        for n, x in ref["tasks"].items():
            steps[(k, n)] = x["steps"]
    got = isolated(cluster, sc, steps)
    viol += got["viol"]
    for k, tasks in enumerate(refs):
        for n, ref in tasks.items():
            if viol:
                break
            where = "job %d task %s" % (k, n)
            if (k, n) in got["obs"]:
                if ref["status"] != "ok":
                    viol.append({"kind": "outcome", "detail": "%s: returned by a worker, one process raises %s" % (where, ref["exc"])})
                    break
                d = diff(got["obs"][(k, n)], ref["obs"])
                if d:
                    viol.append({"kind": "result", "detail": "%s: from a worker / in one process: %s" % (where, d)})
            elif got["failed"].get((k, n)) is not None:
                if ref["status"] != "exc" or ref["exc"] != got["failed"][(k, n)]:
                    viol.append({"kind": "outcome", "detail": "%s: a worker raised %s, one process %s" % (where, got["failed"][(k, n)], ref.get("exc", "returns"))})
            elif ref["status"] == "ok":
                viol.append({"kind": "outcome", "detail": "%s: no result from the workers" % where})
    s = got["summary"]
    st = merge(*sums, s)
    st["sig"] = s["digest"]
    fired = sum(s["fired"].values())
    return {"violations": viol, "stats": st, "nontrivial": bool(fired) and got["shared"], "key": s["digest"], "digest": s["digest"], "trace": s["trace"]}
