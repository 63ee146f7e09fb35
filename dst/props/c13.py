"""C13: the settings panel always reports what the user last entered."""
import math

import numpy as np

import fibermat as fm
from common import *
from sim import StepBudget

ID = "C13"
LEVEL = "exploration"
HOW = "seeded front-end message histories (delayed, duplicated, reordered, rejected) interleaved with program assignments on one or two panels, compared with a reference model after every delivery"
RUNS = {"quick": 3000, "thorough": 200000}
RULE = ("one or two panels receive 10-60 events: front-end updates with seeded delay and duplication, program assignments, reads through "
        "brackets, double star and calls; after each event all parameters and disabled flags of all panels are compared with the model; "
        "non-trivial: at least 5 accepted changes; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["notebook front end and its message channel (seeded delays, duplicates, reordering)"]}
ASSUMPTIONS = ["messages are delivered whole and one at a time (the kernel's event loop)", "infinities are never sent by a front end (JSON)"]

PLAIN = {"n": "int", "length": "float", "width": "float", "thickness": "float", "size": "float", "theta": "unit", "periodic": "bool",
         "packing": "float", "itermax": "log6", "tol": "log10", "coupling": "float", "verbose": "bool"}
SWITCH = {"shear": "float", "tensile": "float", "seed": "int", "threshold": "float", "lmin": "float", "lmax": "float", "interp_size": "int"}
ALL = list("n length width thickness size theta shear tensile seed periodic threshold packing itermax tol lmin lmax coupling interp_size verbose".split())
OFF = {"shear": math.inf, "tensile": math.inf}


def gen_value(r, kind):
    if kind == "int":
        return r.choice([0, 1, 5, 100, r.randint(0, 1000), -3])
    if kind == "bool":
        return r.random() < 0.5
    if kind == "unit":
        return r.choice([0.0, 1.0, round(r.random(), 2), round(r.random(), 2), 1.5, -0.2])
    if kind == "log6":
        return r.choice([1.0, 10.0, 100.0, 1000.0, 1e6, 1e7, 0.5, 250.0])
    if kind == "log10":
        return r.choice([1e-10, 1e-6, 1e-3, 0.1, 1.0, 1e-12])
    return r.choice([0.0, 1.0, 0.01, round(r.uniform(0, 50), 2), round(r.uniform(0, 5), 1), 3, 1e-9, 1e12, -1.0])


def generate(r, i, tier):
    init = {}
    for k in ALL:
        if r.random() < 0.25:
            kind = PLAIN.get(k) or SWITCH[k]
            v = gen_value(r, kind)
            init[k] = ("inf" if k in OFF else None) if k in SWITCH and r.random() < 0.4 else v
    for k in ("thickness", "length"):
        if k in init and not init[k] > 0:
            init[k] = 2.0
    ev = []
    panels = r.choice([1, 1, 2])
    hot = [r.choice(ALL) for _ in range(4)] + list(SWITCH)          # conflicting edits on few parameters
    t = 0.0
    for _ in range(r.randint(10, 60)):
        t += r.random()
        p = r.choice(hot) if r.random() < 0.75 else r.choice(ALL)
        kind = PLAIN.get(p) or SWITCH[p]
        e = {"t": t, "panel": r.randrange(panels), "p": p}
        k = r.random()
        if k < 0.6:
            e["do"] = "switch" if p in SWITCH and r.random() < 0.5 else "edit"
            e["v"] = r.random() < 0.5 if e["do"] == "switch" else gen_value(r, kind)
            if e["do"] == "edit" and r.random() < 0.08:
                e["v"] = r.choice(["abc", None, {}])                    # a malformed message
            e["delay"] = r.choice([0.0, 0.0, round(r.random() * 3, 2), 10.0])
            e["dup"] = r.choice([0, 0, 0, 1, 2])
        elif k < 0.85:
            e["do"] = r.choice(["set", "set", "call", "attr"])
            e["v"] = gen_value(r, kind)
            if p in SWITCH and r.random() < 0.35:
                e["v"] = "inf" if p in OFF else None
                if e["do"] == "attr":
                    e["do"] = "set"
            elif r.random() < 0.06:
                e["v"] = "abc"
        elif k < 0.93:
            e["do"] = "noise"
            e["v"] = r.choice(["custom", "request_state"])
        else:
            e["do"] = r.choice(["star", "twostar", "display"])
        ev.append(e)
    return {"panels": panels, "init": init, "steps": ev}


class Model:
    """What the panel has to report."""

    def __init__(self, init):
        d = dict(n=0, length=25., width=1., thickness=1., size=50., theta=1., shear=1., tensile=math.inf, seed=0, periodic=True,
                 threshold=None, packing=1., itermax=1000, tol=1e-6, lmin=None, lmax=None, coupling=1.0, interp_size=None, verbose=True)
        d.update(init)
        self.on, self.v, self.known = {}, {}, {}
        for k in PLAIN:
            self.v[k] = self.norm(k, d[k])
        for k in SWITCH:
            off = d[k] is None or d[k] == math.inf
            self.on[k] = not off
            self.v[k] = None if off else self.norm(k, d[k])      # None: a suggestion of the panel, learnt when it is shown

    @staticmethod
    def norm(k, x):
        kind = PLAIN.get(k) or SWITCH[k]
        if kind == "unit":
            return min(1.0, max(0.0, float(x)))
        if kind == "log6":
            return min(1e6, max(1.0, float(x)))
        if kind == "log10":
            return min(1e-1, max(1e-10, float(x)))
        return {"int": int, "bool": bool, "float": float}[kind](x)

    def read(self, k):
        if k in SWITCH:
            if not self.on[k]:
                return OFF.get(k)
            return self.v[k]
        if k == "theta":
            return self.v[k] * math.pi
        if k == "itermax":
            return int(self.v[k])
        return self.v[k]


def same(k, got, want):
    if k in ("n", "seed", "interp_size", "itermax"):
        return want is got if want is None else isinstance(got, int) and not isinstance(got, bool) and got == want
    if k in ("periodic", "verbose"):
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if want is None:
        return got is None
    return isinstance(got, (float, np.floating)) and (float(got) == want or abs(float(got) - want) <= 1e-12 * abs(want))


def deliver(widget, value):
    """A front-end update of the widget's value."""
    widget._handle_msg({"content": {"data": {"method": "update", "state": {"value": value}, "buffer_paths": []}}, "buffers": []})


def compare_all(panels, what):
    """Every parameter and disabled flag of every panel against its model."""
    for j, (s, m) in enumerate(panels):
        for k in ALL:
            try:
                got = s[k]
            except Exception as e:
                return "panel %d: reading %s raised %r (%s)" % (j, k, e, what)
            if k in SWITCH and m.on[k] and m.v[k] is None:      # the panel's own suggestion, shown for the first time
                m.v[k] = got
                if not same(k, got, Model.norm(k, got)) or got is None:
                    return "panel %d: %s reads %r (%s)" % (j, k, got, what)
                continue
            if not same(k, got, m.read(k)):
                return "panel %d: %s reads %r, last accepted %r (%s)" % (j, k, got, m.read(k), what)
        for k in SWITCH:
            if bool(getattr(s, k).disabled) != (not m.on[k]):
                return "panel %d: field of %s disabled=%r, switch %s (%s)" % (j, k, getattr(s, k).disabled, "on" if m.on[k] else "off", what)
            if bool(getattr(s, k).switch.value) != m.on[k]:
                return "panel %d: switch of %s reads %r (%s)" % (j, k, getattr(s, k).switch.value, what)
    return None


def event(sim, s, m, e, v, n, what, out):
    """Carry out one event on panel s and model m; returns (kind, detail) of a violation or None."""
    p = e["p"]
    junk = v == "abc" or isinstance(v, dict) or (e["do"] == "edit" and v is None)
    kind = PLAIN.get(p) or SWITCH[p]
    if junk and kind == "bool":
        return None                                     # any object has a truth value
    exc = None
    try:
        if e["do"] == "edit":
            deliver(getattr(s, p), v)
        elif e["do"] == "switch":
            deliver(getattr(s, p).switch, v)
        elif e["do"] == "set":
            s[p] = v
        elif e["do"] == "call":
            s(**{p: v})
        elif e["do"] == "attr":
            getattr(s, p).value = v
        elif e["do"] == "noise":
            getattr(s, p)._handle_msg({"content": {"data": {"method": v, "content": {}}}, "buffers": []})
        elif e["do"] == "display":
            s()
        elif e["do"] == "star":
            if len([*s]) != len(ALL):
                return ("unpack", "%s: %d widgets" % (what, len([*s])))
        elif e["do"] == "twostar":
            d = dict(**s)
            w = [k for k in ALL if k not in d or not same(k, d[k], s[k])]
            if w or len(d) != len(ALL):
                return ("unpack", "%s: double star gives %s for %s" % (what, [d.get(k) for k in w], w))
    except StepBudget:
        raise
    except Exception as x:
        exc = x
    sim.log(n, e["do"], p, repr(v), type(exc).__name__)
    if junk:
        sim.fired["malformed"] += 1
        if exc is None and e["do"] in ("set", "call", "attr"):
            return ("accepted", "%s: a value of the wrong type was accepted" % what)
    elif exc is not None:
        return ("raised", "%s: raised %r" % (what, exc))
    elif e["do"] in ("edit", "set", "call", "attr"):
        if p in SWITCH and e["do"] in ("set", "call"):
            m.on[p] = not (v is None or v == math.inf)
            if m.on[p]:
                m.v[p] = Model.norm(p, v)
        else:
            m.v[p] = Model.norm(p, v)
        out["accepted"] += 1
    elif e["do"] == "switch":
        m.on[p] = bool(v)
        out["accepted"] += 1
    return None


def body(sc):
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "accepted": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    import logging
    logging.disable(logging.CRITICAL)
    init = {k: (math.inf if v == "inf" else v) for k, v in sc["init"].items()}
    panels = [(fm.Settings(**init), Model(init)) for _ in range(sc["panels"])]

    # the network: every front-end message becomes one or more deliveries
    queue = []
    for n, e in enumerate(sc["steps"]):
        if e["do"] in ("edit", "switch"):
            for d in range(1 + e["dup"]):
                queue.append((e["t"] + e["delay"] + d * 1.7, n, e))
                if d:
                    sim.fired["duplicate"] += 1
            if e["delay"]:
                sim.fired["delayed"] += 1
        else:
            queue.append((e["t"], n, e))
    queue.sort(key=lambda q: (q[0], q[1]))
    order = [q[1] for q in queue]
    sim.fired["reordered"] += sum(b < a for a, b in zip(order, order[1:]))

    bad = compare_all(panels, "initially")
    if bad:
        return done("initial", bad)
    for t, n, e in queue:
        s, m = panels[e["panel"]]
        p, v = e["p"], e.get("v")
        if v == "inf":
            v = math.inf
        what = "event %d: %s %s=%r" % (n, e["do"], p, v)
        bad = event(sim, s, m, e, v, n, what, out)
        if bad:
            return done(*bad)
        bad = compare_all(panels, what)
        if bad:
            return done("value", bad)
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    s["probes"]["accepted_changes"] = got["accepted"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["accepted"] >= 5, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
