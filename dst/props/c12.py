"""C12: progress display and clocks never influence results."""
import errno
import sys

import numpy as np
import scipy as sp

import packing
import session
import fibermat as fm
from common import *
from sim import StepBudget

ID = "C12"
LEVEL = "fault_enumeration"
HOW = "packing and export under seeded clocks (stalls, jumps, backward steps), slow and breaking output streams and overlapping displays, compared with the same calls without display on a steady clock"
RUNS = {"quick": 640, "thorough": 25000}
RULE = ("packing and export calls of a generated session are repeated 3-8 times with the display on or off, a clock mode and an output "
        "stream that works, is slow or breaks at a seeded write (also two displaying calls in interleaved threads); non-trivial: at least "
        "one call with the display on wrote to the stream; distinct by event-log digest")
COMPONENTS = {"real": REAL, "stub": ["clocks", "standard error stream", "thread scheduling"]}
ASSUMPTIONS = ASSUME + ["tqdm itself swallows some stream errors (EIO, closed file): the call then has to return the result"]

FAILS = ["OSError", "BrokenPipe", "ENOSPC", "EIO", "closed", "ValueError", "UnicodeEncodeError", "KeyboardInterrupt", "MemoryError", "RuntimeError", "flush"]


def generate(r, i, tier):
    pb = packing.gen_problem(r, 7 if tier == "quick" else 12)
    calls = []
    for _ in range(r.randint(3, 8)):
        c = {"op": r.choice(["solve", "solve", "solve", "vtk_mat", "vtk_mesh", "vtk_func"]), "verbose": r.random() < 0.85,
             "clock": r.choice(["steady", "stall", "slow", "jumps", "jumps"]), "slow": r.random() < 0.3, "tty": r.random() < 0.5,
             "interp": r.choice([None, None, 5]), "warnings": r.choice(["ignore", "always"])}
        if c["op"] == "solve" and r.random() < 0.35:     # the packing is stopped by its linear solver
            c["bad"] = [r.choice(["inaccurate", "nan", "singular"]), r.choice([0, 0, 1, 2, 5])]
        if r.random() < 0.6:
            c["fail"] = r.choice(FAILS)
            c["at"] = r.choice([0, 1, 2, r.randint(0, 30)])
            c["persist"] = r.random() < 0.5
        calls.append(c)
    sc = {"problem": pb, "calls_": None, "steps": calls}
    del sc["calls_"]
    if r.random() < 0.35:
        sc["slices"] = gen_slices(r, 2)
        for c in calls:
            c.pop("fail", None)
    return sc


class Stream:
    encoding = "utf-8"

    def __init__(self, sim, spec):
        self.sim, self.spec = sim, spec
        self.n = self.writes = 0
        self.raised = []

    def _maybe(self, what):
        s = self.spec
        k = self.n
        self.n += 1
        if s.get("slow"):
            self.sim.clock_now += 3.0
            self.sim.clock_elapsed += 3.0
            self.sim.fired["stream_slow"] += 1
        f = s.get("fail")
        if f is None or (what == "flush") != (f == "flush") or not (k == s["at"] or (s["persist"] and k > s["at"])):
            return
        e = {"OSError": lambda: OSError("stream failed"), "BrokenPipe": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
             "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device"), "EIO": lambda: OSError(errno.EIO, "Input/output error"),
             "closed": lambda: ValueError("I/O operation on closed file"), "ValueError": lambda: ValueError("stream rejected the text"),
             "UnicodeEncodeError": lambda: UnicodeEncodeError("ascii", "█", 0, 1, "ordinal not in range"),
             "KeyboardInterrupt": lambda: KeyboardInterrupt("while printing"), "MemoryError": lambda: MemoryError("while printing"),
             "RuntimeError": lambda: RuntimeError("stream is gone"), "flush": lambda: OSError(errno.EPIPE, "flush failed")}[f]()
        self.sim.fire("stream_" + f, k)
        self.raised.append(e)
        raise e

    def write(self, text):
        self.writes += 1
        self._maybe("write")
        return len(text)

    def flush(self):
        self._maybe("flush")

    def isatty(self):
        return bool(self.spec.get("tty"))

    def fileno(self):
        raise OSError("no file descriptor")


def body(sc):
    import warnings
    sim = Sim("run", sc["id"])
    sim.install()
    out = {"viol": [], "wrote": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    try:
        mat, mesh = packing.build(sc["problem"])
    except Exception:
        return done()
    kw = dict(sc["problem"]["kw"])

    def tag(msh, i):
        msh["tag"] = np.full(msh.n_points, float(i) * 0.5)

    def call(c, verbose):
        if c["op"] == "solve":
            more = {}
            if c.get("bad"):
                calls = [0]

                def stopped(A, b):
                    calls[0] += 1
                    x = session.backend("spsolve")(A, b)
                    if calls[0] - 1 == c["bad"][1]:
                        sim.fire("backend_" + c["bad"][0], calls[0])
                        if c["bad"][0] == "singular":
                            raise RuntimeError("Factor is exactly singular")
                        x = x + (np.nan if c["bad"][0] == "nan" else 1.0 + np.arange(len(x)))
                    return x
                more["solve"] = stopped
            res = fm.solve(mat, mesh, verbose=verbose, interp_size=c.get("interp"), **more, **kw)
        elif c["op"] == "vtk_mat":
            res = fm.vtk_mat(mat, verbose=verbose)
        elif c["op"] == "vtk_func":
            res = fm.vtk_mat(mat, func=tag, verbose=verbose)
        else:
            res = fm.vtk_mesh(mat, mesh, verbose=verbose)
        q, sim.quota = sim.quota, None
        try:
            with np.errstate(all="ignore"):
                return observe(res)
        finally:
            sim.quota = q

    def attempt(c, verbose):
        try:
            with np.errstate(all="ignore"):
                return call(c, verbose), None
        except StepBudget:
            raise
        except BaseException as e:
            return None, e

    def same_exc(a, b):
        return type(a) is type(b) and str(a) == str(b)

    refs = {}
    quiet = Stream(sim, {})
    real_err = sys.stderr
    sys.stdout = quiet                                  # nothing is ever printed there with the display off
    inputs = [observe(mat), observe(mesh)]

    def reference(c):
        key = (c["op"], c.get("interp") if c["op"] == "solve" else None, str(c.get("bad")))
        if key not in refs:
            sim.clock_mode = "steady"
            sys.stderr = quiet
            with warnings.catch_warnings():              # SciPy's warning on singular systems is its own
                warnings.simplefilter("always")
                warnings.simplefilter("ignore", sp.sparse.linalg.MatrixRankWarning)
                for w in (RuntimeWarning, FutureWarning, DeprecationWarning, PendingDeprecationWarning):
                    warnings.simplefilter("ignore", w)
                refs[key] = attempt(c, False)
            sys.stderr = real_err
        return refs[key]

    for c in sc["steps"]:
        reference(c)
    if quiet.writes:
        return done("display", "a call with the display off wrote to the output stream")

    def judge(c, got, exc, stream, what):
        ref, rexc = reference(c)
        if exc is not None and any(exc is e for e in stream.raised):
            sim.count("stream_error_reported")
        elif exc is not None and isinstance(exc, type(None)):
            pass
        elif exc is not None:
            if rexc is None or not same_exc(exc, rexc):
                return ("raised", "%s: raised %r; without display: %r" % (what, exc, rexc))
        elif rexc is not None:
            return ("raised", "%s: returned a result; without display it raises %r" % (what, rexc))
        else:
            d = diff(got, ref)
            if d:
                return ("result", "%s: got / without display on a steady clock: %s" % (what, d))
        d = diff(inputs, [observe(mat), observe(mesh)], "inputs", rtol=0, atol=0)
        if d:
            return ("inputs", "%s: changed its inputs: %s" % (what, d))
        return None

    if sc.get("slices") is not None:
        sim.clock_mode = sc["steps"][0]["clock"] if sc["steps"] else "steady"
        stream = Stream(sim, {"tty": True})
        sys.stderr = stream
        outs = [[], []]

        def client(t, mine, res):
            for c in mine:
                res.append((c,) + attempt(c, c["verbose"]))
        fns = [lambda t, j=j: client(t, sc["steps"][j::2], outs[j]) for j in range(2)]
        ts = sim.run_threads(fns, sc["slices"])
        sys.stderr = real_err
        sim.clock_mode = "steady"
        out["wrote"] += stream.writes
        sim.count("overlapping")
        for t in ts:
            if t.error is not None:
                return done("stuck", repr(t.error))
        for j in range(2):
            for c, got, exc in outs[j]:
                v = judge(c, got, exc, stream, "client %d %s" % (j, c))
                if v:
                    return done(*v)
        return done()

    for k, c in enumerate(sc["steps"]):
        what = "call %d (%s)" % (k, {a: b for a, b in c.items() if b not in (None, False)})
        stream = Stream(sim, c)
        sys.stderr = stream
        sim.clock_mode = c["clock"]
        with warnings.catch_warnings():
            warnings.simplefilter(c["warnings"])
            try:
                got, exc = attempt(c, c["verbose"])
            except StepBudget as e:
                sys.stderr = real_err
                return done("stuck", "%s: %s" % (what, e))
        sys.stderr = real_err
        sim.clock_mode = "steady"
        out["wrote"] += stream.writes
        said, quiet.writes = quiet.writes, 0
        if said and not c["verbose"]:
            return done("display", "%s: printed with the display off" % what)
        sim.count("stream_writes", stream.writes)
        sim.log(k, c["op"], stream.writes, type(exc).__name__, digest(got))
        if not c["verbose"] and stream.writes and c["warnings"] == "ignore":
            return done("display", "%s: wrote to the output stream with the display off" % what)
        v = judge(c, got, exc, stream, what)
        if v:
            return done(*v)
        if exc is not None and stream.raised:            # and it works when repeated
            sys.stderr = Stream(sim, {})
            got, exc = attempt(c, c["verbose"])
            sys.stderr = real_err
            v = judge(c, got, exc, Stream(sim, {}), what + " repeated")
            if v:
                return done(*v)
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["wrote"] >= 1, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
