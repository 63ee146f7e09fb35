"""The simulator: one object decides every interleaving, fault, clock reading and random draw of a run.

A run is a pure function of (scenario JSON, source tree).  Library code is observed through sys.monitoring LINE (or
INSTRUCTION) events, enabled only for the library's own code objects: every such event is a possible pre-emption,
interrupt or allocation-failure point, and the unit of the step budgets that bound liveness.
"""
import _thread
import hashlib
import random
import sys
from collections import Counter

import numpy

import boot
import seams

mon = sys.monitoring
EV = mon.events
TOOL = 3


class StepBudget(BaseException):
    """The library executed more steps than the run allows: no progress."""


class Deadlock(BaseException):
    """Every client waits for a lock."""


class SimCancel(BaseException):
    """An asynchronous cancellation (what an embedding framework raises into a worker)."""


FAULTS = {"interrupt": KeyboardInterrupt, "nomem": MemoryError, "cancel": SimCancel}


class Thread:
    __slots__ = ("id", "gate", "done", "blocked", "fn", "error", "events", "op_events", "inject", "profile", "swallow")

    def __init__(self, id, fn):
        self.id, self.fn = id, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked = None
        self.error = None
        self.events = 0
        self.op_events = 0
        self.inject = None         # (ordinal within the op, fault kind[, what happens then]) or None
        self.profile = None        # list of (code, line) of the current op when recording
        self.swallow = 0


class Sim:
    def __init__(self, role="run", seed=0, gran="line", budget=3_000_000):
        self.role = role
        self.seed_name = "%s/%s" % (role, seed)
        self.gran = gran
        self.budget = budget
        self.entropy = random.Random("%s/%s/entropy" % (role, seed))
        self.clock_rng = random.Random("%s/%s/clock" % (role, seed))
        self.clock_now = 1.7e9 + self.clock_rng.random() * 1e6
        self.clock_mode = "steady"
        self.clock_elapsed = 0.0
        self.in_library_call = False
        self.fired = Counter()
        self.probes = Counter()
        self.lp = None
        self.events = 0
        self.switches = 0
        self.switch_sig = hashlib.sha256()
        self.h = hashlib.sha256()
        self.trace = []            # human-readable, bounded
        self.main = Thread(0, None)
        self.cur = self.main
        self.threads = None
        self.quota = None
        self.blown = False
        self.crash = None          # (event number, function): the process ends there

    # -- log -----------------------------------------------------------------------------------------------------
    def log(self, *what):
        s = repr(what)
        self.h.update(s.encode())
        if len(self.trace) < 400:
            self.trace.append(s if len(s) < 300 else s[:297] + "...")

    def count(self, name, n=1):
        self.probes[name] += n

    def fire(self, kind, *detail):
        self.fired[kind] += 1
        self.log("fault", kind, *detail)

    # -- clock ---------------------------------------------------------------------------------------------------
    def clock_read(self):
        r = self.clock_rng
        m = self.clock_mode
        if m == "steady":
            dt = 0.001
        elif m == "stall":
            dt = 0.0
        elif m == "slow":
            dt = r.choice((0.05, 0.2, 5.0))
        else:                                          # "jumps"
            dt = r.choice((0.0, 0.001, 0.3, 7.0, 86400.0, -0.5, -3600.0, -1e7))
        if m != "steady":
            self.fired["clock_" + ("stall" if dt == 0 else "back" if dt < 0 else "jump" if dt > 1 else "tick")] += 1
        self.clock_now += dt
        self.clock_elapsed += abs(dt)
        return self.clock_now

    # -- events --------------------------------------------------------------------------------------------------
    def install(self, seed_host=True):
        seams.SIM = self
        if seed_host:                                  # the host's streams start from the system's entropy otherwise
            g = random.Random("%s/host" % self.seed_name)
            numpy.random.seed(g.randrange(2 ** 32))
            random.seed(g.randrange(2 ** 64))
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "dst")
        mask = EV.LINE if self.gran == "line" else EV.LINE | EV.INSTRUCTION
        mon.register_callback(TOOL, EV.LINE, self._line)
        mon.register_callback(TOOL, EV.INSTRUCTION, self._instr if self.gran == "instr" else None)
        for c in boot.CODES:
            mon.set_local_events(TOOL, c, mask)
        self.in_library_call = True

    def uninstall(self):
        for c in boot.CODES:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, EV.LINE, None)
        mon.register_callback(TOOL, EV.INSTRUCTION, None)
        seams.SIM = None

    def _line(self, code, line):
        if self.gran == "line":
            self._event(code, line)

    def _instr(self, code, offset):
        self._event(code, offset)

    def _event(self, code, where):
        t = self.cur
        self.events += 1
        t.events += 1
        t.op_events += 1
        if self.blown:
            raise StepBudget()
        if self.events > self.budget:
            self.blown = True
            raise StepBudget("no progress within %d steps" % self.budget)
        if self.crash is not None and self.events == self.crash[0]:
            self.log("crash", code.co_qualname, where)
            self.crash[1]("%s:%s" % (code.co_qualname, where))
        if t.profile is not None and len(t.profile) < 400_000:
            t.profile.append((code, where))
        inj = t.inject
        if inj is not None and t.op_events == inj[0]:
            t.inject = None
            self.fire(inj[1], code.co_qualname, where, t.op_events)
            if len(inj) > 2:                           # something else happens in the process at this point
                inj[2]()
                return
            raise FAULTS[inj[1]]("injected at %s:%d" % (code.co_qualname, where))
        if self.threads is not None:
            q = self.quota
            if q is not None:
                q -= 1
                if q > 0:
                    self.quota = q
                elif self._preemptible():
                    self._switch(code, where)
                else:
                    self.quota = 1

    def _preemptible(self):
        """Only library (and harness) frames between the client and the event: never inside pandas & co."""
        f = sys._getframe(3)                      # _preemptible <- _event <- _line/_instr <- library frame
        while f is not None:
            c = f.f_code
            if c not in boot.CODES:
                return c.co_filename.startswith(boot.HERE)
            f = f.f_back
        return True

    def yield_point(self, what):
        """A scheduling point at a seam (called by harness stubs running inside a library call)."""
        if self.threads is not None and self.quota is not None and self.cur is not self.main:
            self.quota -= 1
            if self.quota <= 0:
                self._switch(None, what)

    # -- threads -------------------------------------------------------------------------------------------------
    def current_thread(self):
        return self.cur.id

    def _switch(self, code, where):
        t = self.cur
        self.switches += 1
        name = code.co_qualname if code is not None else "seam"
        self.switch_sig.update(("%d@%s:%s;" % (t.id, name, where)).encode())
        self.log("switch", t.id, name, where)
        self.main_gate.release()
        t.gate.acquire()

    def block_on(self, lock):
        t = self.cur
        if self.threads is None or t is self.main:
            return False
        t.blocked = lock
        self.log("block", t.id)
        self.main_gate.release()
        t.gate.acquire()
        if self.dead:
            raise Deadlock("all clients wait for locks")
        return True

    def run_threads(self, fns, slices):
        """Run the client functions under the given schedule; slices = [[client, events], ...]."""
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.dead = False
        ts = self.threads = [Thread(i, fn) for i, fn in enumerate(fns)]

        def body(t):
            t.gate.acquire()
            try:
                t.fn(t)
            except BaseException as e:            # harness error or budget/deadlock
                t.error = e
            t.done = True
            self.main_gate.release()

        import threading
        real = [threading.Thread(target=body, args=(t,), daemon=True) for t in ts]
        for r in real:
            r.start()
        seq = [(int(s[0]) % len(ts), max(1, int(s[1]))) for s in slices]
        k = 0
        while not all(t.done for t in ts):
            if k < len(seq):
                i, q = seq[k]
                k += 1
            else:                                  # schedule exhausted: finish one client after the other
                i, q = next((j for j, t in enumerate(ts) if not t.done and not self._is_blocked(t)), 0), None
            t = ts[i]
            if t.done or self._is_blocked(t):
                if all(x.done or self._is_blocked(x) for x in ts) and not all(x.done for x in ts):
                    self.dead = True
                    for x in ts:
                        if not x.done:
                            self.cur = x
                            x.gate.release()
                            self.main_gate.acquire()
                    continue
                continue
            t.blocked = None
            self.quota = q
            self.cur = t
            self.log("run", i, q if q is not None else -1)
            t.gate.release()
            self.main_gate.acquire()
        self.cur = self.main
        self.threads = None
        self.quota = None
        for r in real:
            r.join()
        return ts

    @staticmethod
    def _is_blocked(t):
        return t.blocked is not None and t.blocked.owner is not None and t.blocked.owner != ("t", t.id)

    def summary(self):
        return {"digest": self.h.hexdigest()[:24], "fired": dict(self.fired), "probes": dict(self.probes),
                "events": self.events, "switches": self.switches, "sig": self.switch_sig.hexdigest()[:16],
                "sim_time": self.clock_elapsed, "trace": self.trace}
