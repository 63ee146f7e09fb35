"""C14: the notebook buttons report what really happened."""
import contextlib
import os
import random
import re
import shlex
import subprocess

import IPython
import IPython.display

import boot
import seams
from common import *
from sim import StepBudget

ID = "C14"
LEVEL = "fault_enumeration"
HOW = "seeded histories of clicks on several buttons with failing, raising and interrupted installation commands, version queries and shell cells, compared with a model of what really ran"
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("1-3 buttons with generated package lists receive 5-30 events (clicks by message or call, other messages, display) with seeded "
        "command outcomes (exit codes, signals, exceptions) and interrupts at library steps; non-trivial: at least three commands ran; "
        "distinct by event-log digest")
COMPONENTS = {"real": ["widgets.py of the repository's top level, unmodified", "ipywidgets, traitlets"],
              "stub": ["every process start (os.system, subprocess.Popen, os.spawn*, os.exec*, fork): recorded, never executed",
                       "the IPython shell", "display", "notebook front end"]}
ASSUMPTIONS = ["clicks are delivered one at a time (the kernel's event loop)",
               "package names are plain names (the documented argument), which need no shell quoting"]

NAMES = ["numpy", "pandas", "scikit-learn", "tqdm", "pyvista", "matplotlib", "scipy", "fibermat", "a", "zope.interface", "ruamel.yaml", "x_y"]
OUTCOMES = [0, 0, 0, 0, 1, 2, 256, 512, -2, 32512, 65280, "KeyboardInterrupt", "OSError", "MemoryError"]
PATCHED = False
SHOWN = None


def patch_display():
    """Before the module under test binds the name."""
    global PATCHED
    if PATCHED:
        return
    PATCHED = True
    real = IPython.display.display

    def display(*objs, **kw):
        if SHOWN is None:
            return real(*objs, **kw)
        for o in objs:
            SHOWN.append(o)
    IPython.display.display = display
    import IPython.core.display_functions as df
    df.display = display


patch_display()
W = boot.load_root_widgets()


def generate(r, i, tier):
    buttons = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.6:
            names = r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 5]))
            k = r.randint(0, len(names)) if r.random() < 0.5 else 0
            extra = set(names[:k]) | {n for n in names if "-" in n}          # not importable under its own name
            buttons.append({"kind": "pip", "packages": [n for n in names if n not in extra], "extra": [[n, "mod_" + n.replace("-", "_").replace(".", "_")] for n in names if n in extra],
                            "option": r.choice([None, "", "--upgrade", "--no-deps --user", "--pre"])})
        else:
            buttons.append({"kind": "mpl", "kw": r.choice([{}, {}, {"tooltip": "t"}, {"description": "%matplotlib inline"}, {"description": "%matplotlib qt"}])})
    ev = []
    for _ in range(r.randint(5, 30)):
        e = {"b": r.randrange(len(buttons)), "do": r.choice(["click", "msg", "msg", "msg", "noise", "show"])}
        if e["do"] in ("click", "msg"):
            e["rc"] = r.choice(OUTCOMES) if r.random() < 0.7 else 0
            e["ver"] = r.choice(["ok", "ok", "ok", "fail", "short", "OSError", "KeyboardInterrupt"])
            e["suffix"] = r.choice(["", "", "", " (build 7)", "+cpu rc 1"])
            e["cell"] = r.choice(["ok", "ok", "ok", "error", "raise", "KeyboardInterrupt"])
            if r.random() < 0.25:
                e["fault"] = [r.choice(["interrupt", "nomem", "cancel"]), r.choice([r.randint(1, 14), r.randint(1, 60)])]
        ev.append(e)
    return {"buttons": buttons, "steps": ev}


class Escaped(BaseException):
    """The code tried to start a process in a way the stand-ins do not cover."""


def raised(name):
    return {"KeyboardInterrupt": KeyboardInterrupt, "OSError": OSError, "MemoryError": MemoryError, "raise": RuntimeError}[name]("simulated")


class World:
    """The operating system and the shell, as far as the buttons see them."""

    def __init__(self, sim):
        self.sim = sim
        self.installs, self.queries, self.cells = [], [], []
        self.spec = {}
        self.watch = None

    def command(self, cmd):
        """-> (exit status, output); one simulated process."""
        words = cmd if isinstance(cmd, (list, tuple)) else shlex.split(cmd)
        words = [str(w) for w in words]
        if len(words) >= 3 and os.path.basename(words[0]) in ("sh", "bash") and words[1] == "-c":
            words = shlex.split(words[2])
        self.sim.log("command", words)
        if "pip" in " ".join(words) and "install" in words:
            rc = self.spec.get("rc", 0)
            self.installs.append({"words": words[words.index("install") + 1:], "rc": rc, "seen": self.watch() if self.watch else None})
            if rc != 0:
                self.sim.fire("install_%s" % rc)
            if isinstance(rc, str):
                raise raised(rc)
            return rc, b""
        ver = self.spec.get("ver", "ok")
        self.queries.append(words)
        if ver in ("OSError", "KeyboardInterrupt"):
            self.sim.fire("query_" + ver)
            raise raised(ver)
        mods = re.findall(r"(?:from|import)\s+([A-Za-z_][\w.]*)\s+import", " ".join(words)) or re.findall(r"import\s+([A-Za-z_][\w.]*)", " ".join(words))
        lines = ["1.%d.%s%s" % (k, m, self.spec.get("suffix", "")) for k, m in enumerate(mods)]
        if ver == "fail":
            self.sim.fire("query_fails")
            return 1, "\n".join(lines[:1]).encode()
        if ver == "short":
            self.sim.fire("query_short")
            lines = lines[:-1]
        return 0, ("\n".join(lines) + "\n").encode()

    def system(self, cmd):
        rc = self.command(cmd)[0]
        return rc

    def popen(self):
        world = self

        class Popen:
            def __init__(self, args, *a, **kw):
                self.args, self.pid = args, 4242
                self.text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
                rc, self.out = world.command(args)
                self.final = rc if abs(rc) < 256 else rc >> 8
                self.returncode = None
                self.stdin = self.stdout = self.stderr = None
                if kw.get("stdout") == subprocess.PIPE:
                    import io
                    self.stdout = io.StringIO(self.out.decode()) if self.text else io.BytesIO(self.out)

            def communicate(self, input=None, timeout=None):
                self.returncode = self.final
                out = self.out.decode() if self.text else self.out
                return (out if self.stdout is not None else None), None

            def wait(self, timeout=None):
                self.returncode = self.final
                return self.final

            poll = wait

            def kill(self):
                pass

            terminate = kill

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __class_getitem__(cls, item):
                return cls
        return Popen

    def get_ipython(self):
        world = self

        class Result:
            success, error_in_exec, error_before_exec, result = True, None, None, None

            def raise_error(self):
                if self.error_in_exec:
                    raise self.error_in_exec

        class Shell:
            def run_cell(self, text, *a, **k):
                world.cells.append(text.strip())
                world.sim.log("cell", text)
                res = Result()
                c = world.spec.get("cell", "ok")
                if c != "ok":
                    world.sim.fire("cell_" + c)
                if c in ("raise", "KeyboardInterrupt"):
                    raise raised(c)
                if c == "error":
                    res.success, res.error_in_exec = False, ImportError("no backend")
                return res

            def run_line_magic(self, name, line, *a, **k):
                return self.run_cell("%" + name + " " + line).raise_error()

            def magic(self, text):
                return self.run_cell("%" + text).raise_error()

            def showtraceback(self, *a, **k):
                pass
        return Shell()


def deliver(widget, content):
    widget._handle_msg({"content": {"data": {"method": "custom", "content": content}}, "buffers": []})


def shown(b):
    return b.button_style, b.description


def body(sc):
    global SHOWN
    import logging
    logging.disable(logging.CRITICAL)
    sim = Sim("run", sc["id"], budget=400_000)
    world = World(sim)
    os.system = world.system
    subprocess.Popen = world.popen()
    IPython.get_ipython = world.get_ipython

    def escaped(*a, **k):
        raise Escaped()
    for name in ("execv", "execve", "execvp", "execvpe", "execl", "execle", "execlp", "execlpe", "spawnv", "spawnve", "spawnvp", "spawnvpe",
                 "posix_spawn", "posix_spawnp", "fork", "forkpty"):
        if hasattr(os, name):
            setattr(os, name, escaped)
    sim.install()
    out = {"viol": [], "commands": 0}

    def done(kind=None, detail=None):
        if kind:
            out["viol"] = [{"kind": kind, "detail": detail}]
        out["commands"] = len(world.installs) + len(world.cells)
        out["summary"] = sim.summary()
        sim.uninstall()
        return out

    live = []
    for spec in sc["buttons"]:
        world.spec = {}
        n = len(world.cells)
        if spec["kind"] == "pip":
            b = W.PipButton(*spec["packages"], option=spec["option"], **dict(spec["extra"]))
            st = {"last": None}
            if "success" in shown(b) or shown(b)[1] in ("Installed", "Not Installed"):
                return done("state", "new install button shows %r" % (shown(b),))
        else:
            b = W.MatplotlibButton(**spec["kw"])
            st = {}
            if world.cells[n:] != [b.description]:
                return done("backend", "new plotting button shows %r, ran %r" % (b.description, world.cells[n:]))
        live.append((b, spec, st))
    if world.installs or world.queries:
        return done("commands", "creating the buttons ran %r %r" % (world.installs, world.queries))

    def all_shown(skip=None):
        return [shown(b) for j, (b, _, _) in enumerate(live) if j != skip]

    for n, e in enumerate(sc["steps"]):
        j = e["b"] % len(live)
        b, spec, st = live[j]
        ni, nq, nc = len(world.installs), len(world.queries), len(world.cells)
        others, before = all_shown(j), shown(b)
        what = "event %d (%s on %s button %d)" % (n, e["do"], spec["kind"], j)
        world.spec = e
        world.watch = lambda: shown(b)
        SHOWN = []
        t = sim.main
        t.op_events = 0
        t.inject = (e["fault"][1], e["fault"][0]) if e.get("fault") else None
        exc = None
        try:
            if e["do"] == "click":
                b.click()
            elif e["do"] == "msg":
                deliver(b, {"event": "click"})
            elif e["do"] == "noise":
                deliver(b, {"event": random.Random(n).choice(["hover", "dblclick", ""])})
            else:
                b()
        except (StepBudget, Escaped) as x:
            return done("stuck" if isinstance(x, StepBudget) else "escaped", "%s: %r" % (what, x))
        except BaseException as x:
            exc = x
        fault = bool(e.get("fault")) and t.inject is None
        t.inject = None
        msgs, SHOWN = SHOWN, None
        sim.log(n, e["do"], j, shown(b), type(exc).__name__)
        inst, cells = world.installs[ni:], world.cells[nc:]
        if all_shown(j) != others:
            return done("other", "%s changed another button: %r, before %r" % (what, all_shown(j), others))
        if e["do"] in ("noise", "show"):
            if inst or cells or world.queries[nq:]:
                return done("commands", "%s ran %r" % (what, inst or cells or world.queries[nq:]))
            if shown(b) != before:
                return done("state", "%s: shows %r, before %r" % (what, shown(b), before))
            if exc is not None:
                return done("raised", "%s raised %r" % (what, exc))
            continue
        if not fault and b.disabled:
            return done("disabled", "%s: the button cannot be clicked again" % what)
        if spec["kind"] == "pip":
            if len(inst) > 1 or (len(inst) != 1 and not fault):
                return done("commands", "%s ran %d installation commands" % (what, len(inst)))
            names = spec["packages"] + [p for p, _ in spec["extra"]]
            opts = shlex.split(spec["option"] or "")
            for c in inst:
                words = list(c["words"])
                for w in opts:
                    if w not in words:
                        return done("option", "%s: command %r lacks option %r" % (what, c["words"], w))
                    words.remove(w)
                words = [w for w in words if not w.startswith("-")]
                if sorted(words) != sorted(names):
                    return done("packages", "%s: command names %r, requested %r" % (what, words, names))
                if c["seen"][0] in ("success", "danger") or c["seen"][1] in ("Installed", "Not Installed"):
                    return done("running", "%s: shows %r while the command runs" % (what, c["seen"]))
                st["last"] = c["rc"]
            ok = st["last"] == 0
            style, desc = shown(b)
            if (style == "success" or desc == "Installed") and not ok:
                return done("false_success", "%s: shows %r, the last command ended with %r" % (what, shown(b), st["last"]))
            if (style == "danger" or desc == "Not Installed") and (ok or st["last"] is None):
                return done("false_failure", "%s: shows %r, the last command ended with %r" % (what, shown(b), st["last"]))
            if not fault and not isinstance(st["last"], str):
                want = ("success", "Installed") if ok else ("danger", "Not Installed")
                if shown(b) != want:
                    return done("state", "%s: shows %r after a command that ended with %r" % (what, shown(b), st["last"]))
                if not ok and (msgs or world.queries[nq:]):
                    return done("versions", "%s: versions queried or displayed after a failed command" % what)
                html = [m.data for m in msgs if hasattr(m, "data") and isinstance(m.data, str)]
                if ok and e["ver"] == "ok" and names:
                    cells_ = re.findall(r">([^<>\s][^<>]*)<", " ".join(html))
                    mods = spec["packages"] + [m for _, m in spec["extra"]]
                    for p, m in zip(names, mods):
                        k = [x for x, c in enumerate(cells_) if c == p]
                        if len(k) != 1 or k[0] + 1 >= len(cells_) or not re.fullmatch(r"1\.\d+\." + re.escape(m + e["suffix"]), cells_[k[0] + 1].strip()):
                            return done("versions", "%s: package %s (module %s) displayed as %r" % (what, p, m, cells_))
            elif not ok and style == "success":
                return done("false_success", "%s: shows %r" % (what, shown(b)))
        else:
            if inst or world.queries[nq:]:
                return done("commands", "%s ran %r" % (what, inst or world.queries[nq:]))
            other = {"%matplotlib qt": "%matplotlib inline", "%matplotlib inline": "%matplotlib qt"}
            if len(cells) > 1 or (len(cells) != 1 and not fault):
                return done("commands", "%s ran %d cells" % (what, len(cells)))
            if cells and cells[0] != other[before[1]]:
                return done("backend", "%s: switched to %r while %r was shown" % (what, cells[0], before[1]))
            if b.description not in other:
                return done("backend", "%s: shows %r" % (what, b.description))
            if not fault and e["cell"] in ("ok", "error"):
                if b.description != cells[0] or b.value != cells[0]:
                    return done("backend", "%s: shows %r, value %r, switched to %r" % (what, b.description, b.value, cells[0]))
                if b.button_style != {"%matplotlib qt": "success", "%matplotlib inline": "primary"}[cells[0]]:
                    return done("backend", "%s: style %r for %r" % (what, b.button_style, cells[0]))
        if exc is not None and not fault and isinstance(exc, Exception) and e.get("ver") == "ok" and e.get("cell") in ("ok", "error") \
                and not isinstance(e.get("rc"), str):
            return done("raised", "%s raised %r" % (what, exc))
    return done()


def run(sc):
    got = isolated(body, sc)
    s = got["summary"]
    s["probes"]["commands"] = got["commands"]
    st = merge(s)
    st["sig"] = s["digest"]
    return {"violations": got["viol"], "stats": st, "nontrivial": got["commands"] >= 3, "key": s["digest"], "digest": s["digest"],
            "trace": s["trace"]}
