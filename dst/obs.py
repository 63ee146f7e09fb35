"""Canonical observation of library objects, and comparison of observations.

An observation is a tree of dicts/tuples/scalars/NumPy arrays; it only uses the objects' public surface.
"""
import hashlib
import atexit
import builtins
import decimal
import faulthandler
import resource

import numpy as np
import pandas as pd
import scipy.sparse as sps

from fibermat import Interpolate


class Skip(Exception):
    pass


def observe(x, deep=True):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return float(x)
    if isinstance(x, np.generic):
        return ("np", x.dtype.str, x.item())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarray", [observe(y) for y in x.ravel().tolist()], x.shape)
        return np.array(x, copy=True)
    if isinstance(x, pd.DataFrame):
        return {"type": type(x).__name__,
                "columns": [str(c) for c in x.columns],
                "index": np.array(x.index, copy=True),
                "data": {str(c) + "@%d" % k: np.array(x.iloc[:, k].to_numpy(), copy=True)
                         for k, c in enumerate(x.columns)},
                "dtypes": [str(t) for t in x.dtypes],
                "attrs": {str(k): observe(v) for k, v in dict(x.attrs).items()}}
    if isinstance(x, pd.Series):
        return {"type": "Series", "index": np.array(x.index, copy=True), "values": np.array(x.to_numpy(), copy=True)}
    if sps.issparse(x):
        y = sps.csc_matrix(x, copy=True)
        y.sum_duplicates()
        y.sort_indices()
        return {"type": "sparse", "shape": tuple(int(k) for k in y.shape), "indptr": y.indptr.copy(),
                "indices": y.indices.copy(), "data": y.data.copy()}
    if isinstance(x, Interpolate):
        out = {"type": "Interpolate", "t": np.array(x.t, copy=True), "dtype": str(x.dtype),
               "samples": np.array(x(), copy=True)}
        with np.errstate(all="ignore"):
            for t in (0.0, 0.37, 1.0):
                out["at%g" % t] = np.array(x(t), copy=True)
        return out
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [observe(y) for y in x])
    if isinstance(x, dict):
        return {str(k): observe(v) for k, v in x.items()}
    if hasattr(x, "points") and hasattr(x, "point_data"):
        out = {"type": type(x).__name__, "points": np.array(x.points, copy=True),
               "n_cells": int(x.n_cells),
               "fields": {k: np.array(x.point_data[k], copy=True) for k in x.point_data.keys()}}
        if hasattr(x, "cells"):
            out["cells"] = np.array(x.cells, copy=True)
            out["celltypes"] = np.array(x.celltypes, copy=True)
        return out
    if hasattr(x, "status") and hasattr(x, "x"):      # OptimizeResult
        return {"type": "OptimizeResult", "x": observe(x.x), "fun": observe(x.fun), "status": int(x.status),
                "success": bool(x.success)}
    if callable(x):
        return ("callable",)
    return ("repr", repr(x))


def digest(tree):
    h = hashlib.sha256()
    _feed(h, tree)
    return h.hexdigest()[:16]


def _feed(h, x):
    if isinstance(x, np.ndarray):
        h.update(b"A" + x.dtype.str.encode() + str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in x:
            h.update(repr(k).encode())
            _feed(h, x[k])
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(b"(")
        for y in x:
            _feed(h, y)
        h.update(b")")
    else:
        h.update(repr(x).encode() + b";")


def _num(a):
    return isinstance(a, np.ndarray) and a.dtype.kind in "fc"


def diff(a, b, path="", rtol=1e-9, atol=1e-9):
    """None if the observations agree (exactly, or up to rounding for floats), else a short description."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: %s / %s" % (path, _short(a), _short(b))
        if a.shape != b.shape:
            return "%s: shape %s / %s" % (path, a.shape, b.shape)
        if a.dtype.kind != b.dtype.kind:
            return "%s: dtype %s / %s" % (path, a.dtype, b.dtype)
        if a.tobytes() == b.tobytes():
            return None
        if _num(a) and _num(b):
            with np.errstate(all="ignore"):
                fin = np.isfinite(a) & np.isfinite(b)
                scale = np.max(np.abs(a[fin])) if fin.any() else 0.0
                ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (fin & (np.abs(a - b) <= atol * max(1.0, scale) + rtol * np.abs(a)))
            if np.all(ok):
                return None
            k = tuple(int(i[0]) for i in np.nonzero(~ok))
            return "%s%s: %r / %r (%d of %d differ)" % (path, list(k), a[k].item(), b[k].item(), int((~ok).sum()), ok.size)
        if a.dtype.kind in "OSU":
            return None if a.tolist() == b.tolist() else "%s: %s / %s" % (path, _short(a), _short(b))
        if np.array_equal(a, b):
            return None
        k = tuple(int(i[0]) for i in np.nonzero(a != b))
        return "%s%s: %r / %r" % (path, list(k), a[k].item(), b[k].item())
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b) and sorted(a) != sorted(b):
            return "%s: keys %s / %s" % (path, [k for k in a if k not in b], [k for k in b if k not in a])
        for k in a:
            d = diff(a[k], b[k], path + "." + str(k), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d / %d" % (path, len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "[%d]" % k, rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or abs(a - b) <= atol + rtol * abs(a):
            return None
        return "%s: %r / %r" % (path, a, b)
    if type(a) is type(b) and a == b:
        return None
    return "%s: %s / %s" % (path, _short(a), _short(b))


def _short(x):
    s = repr(x)
    return s if len(s) < 80 else s[:77] + "..."


# ---------------------------------------------------------------------------------------------------------------------
# Process-wide state of the host program

def _umask():
    for line in open("/proc/self/status"):
        if line.startswith("Umask"):
            return line.split()[1]


def _limits():
    import os
    return [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_STACK)] + [os.nice(0)]


def globals_snapshot(strict=True):
    """State the host program owns.  strict=False keeps what is meaningful while other threads are inside calls."""
    import os
    import sys
    import random
    import warnings
    import threading
    st = np.random.get_state()
    g = {"numpy.random": (st[0], st[1].copy(), int(st[2]), int(st[3]), float(st[4])),
         "random": hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:16],
         "warnings.filters": [repr(f) for f in warnings.filters],
         "warnings.showwarning": repr(warnings.showwarning),
         "np.geterr": dict(np.geterr()),
         "np.geterrcall": repr(np.geterrcall()),
         "np.printoptions": {k: repr(v) for k, v in np.get_printoptions().items()},
         "environ": dict(os.environ), "cwd": os.getcwd(), "recursionlimit": sys.getrecursionlimit(),
         "stdout": id(sys.stdout), "stderr": id(sys.stderr), "excepthook": repr(sys.excepthook),
         "switchinterval": sys.getswitchinterval(), "displayhook": repr(sys.displayhook), "path": list(sys.path),
         "unraisablehook": repr(sys.unraisablehook), "stdin": id(sys.stdin), "np.bufsize": np.getbufsize(),
         "trace": (repr(sys.gettrace()), repr(sys.getprofile())),
         "threads": threading.active_count()}
    if strict:
        from pandas._config import config as pc
        import matplotlib
        from matplotlib import pyplot as plt
        import signal
        import gc
        g["pandas.options"] = {k: repr(pd.get_option(k)) for k in sorted(pc._registered_options)
                               if k not in pc._deprecated_options}
        g["rcParams"] = hashlib.sha256(repr(sorted(dict.items(matplotlib.rcParams))).encode()).hexdigest()[:16]
        g["figures"] = list(plt.get_fignums())
        import locale
        import logging
        import scipy.special
        import scipy.sparse.linalg._dsolve.linsolve as linsolve
        g["sigint"] = [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]
        g["locale"] = locale.setlocale(locale.LC_ALL)
        g["logging"] = (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers))
        g["special.errors"] = dict(scipy.special.geterr())
        g["umfpack"] = repr(getattr(linsolve.useUmfpack, "u", None))
        g["gc"] = (gc.isenabled(), gc.get_threshold())
        from vtkmodules.vtkCommonCore import vtkLogger, vtkObject
        import pyvista
        import sklearn
        import tqdm
        g["umask"] = _umask()
        g["limits"] = _limits()
        g["sklearn"] = dict(sklearn.get_config())
        g["vtk.warnings"] = (vtkObject.GetGlobalWarningDisplay(), int(vtkLogger.GetCurrentVerbosityCutoff()))
        g["pyvista"] = (pyvista.OFF_SCREEN, pyvista.BUILDING_GALLERY, id(pyvista.global_theme), pyvista.global_theme.interactive,
                        repr(pyvista.global_theme.jupyter_backend), repr(pyvista.global_theme.cmap), repr(pyvista.global_theme.background))
        g["decimal"] = repr(decimal.getcontext())
        g["hooks"] = (faulthandler.is_enabled(), atexit._ncallbacks(), repr(threading.excepthook), len(sys.meta_path), len(sys.path_hooks),
                      id(builtins.print), id(builtins.open), id(builtins.__import__), id(np.random.mtrand._rand))
        g["tqdm"] = (tqdm.tqdm.monitor_interval, id(tqdm.tqdm.get_lock()))
        g["files"] = len(os.listdir("/proc/self/fd"))
    return g
