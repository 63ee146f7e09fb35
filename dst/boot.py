"""Process set-up: a fixed environment, the seams, and fibermat imported from the working tree.

Everything nondeterministic that the library (or a change to it) could reach is replaced by a dispatcher *before*
fibermat is imported: clocks, entropy, the LP solver, locks created by the library.  Outside a simulated run the
dispatchers fall through to the real thing.  fibermat's own source is compiled here (no byte-code cache is read), which
also hands us every code object for the event hooks.
"""
import os
import sys

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = dict(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
             PYVISTA_OFF_SCREEN="true", PYTHONDONTWRITEBYTECODE="1", COLUMNS="200", LINES="50",
             PYTHONWARNINGS="ignore", OPENBLAS_CORETYPE=os.environ.get("OPENBLAS_CORETYPE", ""))
if not FIXED["OPENBLAS_CORETYPE"]:
    del FIXED["OPENBLAS_CORETYPE"]


def ensure_env():
    """Re-execute the interpreter once with the fixed environment (must run before numpy is imported)."""
    want = dict(FIXED, PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"))
    if all(os.environ.get(k) == v for k, v in want.items()) and "DST_SCRATCH" in os.environ:
        return
    import tempfile
    import shutil
    env = dict(os.environ, **want)
    if "DST_SCRATCH" not in env:
        scratch = tempfile.mkdtemp(prefix="dst-")
        env["DST_SCRATCH"] = scratch
        env["DST_SCRATCH_OWNER"] = str(os.getpid())
        cfg = os.path.join(scratch, "mpl")
        src = "/opt/vp/mplconfig"
        if os.path.isdir(src):
            shutil.copytree(src, cfg)
        else:
            os.mkdir(cfg)
        env["MPLCONFIGDIR"] = cfg
        env["TMPDIR"] = scratch
        env["HOME"] = scratch
        env["IPYTHONDIR"] = os.path.join(scratch, "ipython")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def cleanup():
    """Remove the scratch directory if this process created it (execve keeps the pid)."""
    if os.environ.get("DST_SCRATCH_OWNER") == str(os.getpid()):
        import shutil
        shutil.rmtree(os.environ["DST_SCRATCH"], ignore_errors=True)


CODES = set()      # every code object of the library (and of the top-level widgets.py)
MODULES = ("fibermat",)


def _collect(code):
    CODES.add(code)
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            _collect(c)


def _hook_loader():
    import importlib.machinery as mach
    orig = mach.SourceFileLoader.get_code

    def get_code(self, name):
        path = os.path.realpath(self.path)
        if path.startswith(REPO + os.sep):
            import warnings
            with warnings.catch_warnings():
                if os.environ.get("DST_STRICT"):        # the host turns warnings into errors before it imports the library
                    warnings.simplefilter("error")
                code = self.source_to_code(self.get_data(self.path), self.path)
            _collect(code)
            return code
        return orig(self, name)

    mach.SourceFileLoader.get_code = get_code


def load():
    """Import the library with every seam in place; returns the fibermat package."""
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, os.path.join(REPO, "src"))
    import seams
    seams.install()
    _hook_loader()
    import numpy  # noqa: F401  (loaded before the hooks look at anything)
    import fibermat
    src = os.path.realpath(fibermat.__file__)
    if not src.startswith(REPO + os.sep):
        raise RuntimeError("fibermat imported from %s, not from %s" % (src, REPO))
    seams.after_import()
    return fibermat


def load_root_widgets():
    """The notebook buttons live in the repository's top-level widgets.py, outside the package."""
    import importlib.util
    spec = importlib.util.spec_from_file_location("repo_root_widgets", os.path.join(REPO, "widgets.py"))
    mod = importlib.util.module_from_spec(spec)
    sys.modules["repo_root_widgets"] = mod
    spec.loader.exec_module(mod)
    return mod
