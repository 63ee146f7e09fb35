"""Packing problems, the linear-solver seam and the state invariants shared by C06, C07 and C08."""
import numpy as np
import scipy as sp

import fibermat as fm
import session

FIELDS = ("u", "f", "F", "H", "Z", "rlambda", "mask", "err")


def gen_problem(r, n_max=9, big=0.0):
    m = session.gen_mat(r, n_max, thin=0.95, wide=0.0)
    m["n"] = max(m["n"], r.choice([2, 4, 5, 6]))
    large = r.random() < big                           # a few problems well beyond the usual size
    if large:
        m["n"] = r.randint(15, 26)
    m["thickness"] = r.choice([0.2, 0.3, 0.5])
    if r.random() < 0.6:
        m["length"] = round(r.uniform(0.8, 1.4) * m["size"], 1)
    kw = dict(packing=r.choice([1.5, 2.0, 3.0, 5.0]), itermax=r.choice([8, 15, 25]), coupling=r.choice([0.99, 0.99, 0.9, 1.0]),
              lmin=r.choice([0.01, 0.01, 0.1]))
    if large:
        kw["itermax"] = r.choice([40, 80])
    if r.random() < 0.15:
        kw["lmax"] = r.choice([5.0, 15.0])
    mix = r.randrange(1000) if r.random() < 0.3 else None
    stack = {} if r.random() < 0.7 else {"threshold": r.choice([2.0, 10.0])}
    return {"mat": m, "mix": mix, "net": {"periodic": r.random() < 0.6}, "stack": stack, "kw": kw}


def build(pb, full=False):
    m = dict(pb["mat"])
    if m.get("tensile") == "inf":
        m["tensile"] = float("inf")
    mat = fm.Mat(**m)
    if pb.get("mix") is not None:                      # fibres of different dimensions and materials
        session.edit(mat, pb["mix"])
    net = fm.Net(mat, **pb["net"])
    stack = fm.Stack(mat, net, **pb["stack"])
    mesh = fm.Mesh(stack)
    return (mat, stack, mesh) if full else (mat, mesh)


def contacts(mat, stack, mesh):
    """Node pairs in contact, and the fibre ends, from the stacked network itself; or a message when the mesh does not carry
    them at their place."""
    fib, s = mesh.fiber.values, mesh.s.values.astype(float)
    x = mesh[["x", "y", "z"]].values.astype(float)
    z = mat.z.values.astype(float)
    used = np.zeros(len(mesh), dtype=int)

    def node(f, at, p):
        k = np.nonzero((fib == f) & (np.abs(s - at) <= 1e-9 * max(1.0, abs(at))))[0]
        k = [q for q in k if not used[q]]
        if not k:
            return None
        used[k[0]] = 1
        return int(k[0]) if np.abs(x[k[0]] - (p[0], p[1], z[f])).max() <= 1e-9 * max(1.0, np.abs(p).max()) else -1
    pairs = []
    for a, b, sa, sb, xa, ya, xb, yb in stack[["A", "B", "sA", "sB", "xA", "yA", "xB", "yB"]].values:
        na, nb = node(int(a), sa, (xa, ya)), node(int(b), sb, (xb, yb))
        for f, k in ((a, na), (b, nb)):
            if k is None:
                return None, "the mesh has no node for the connection %d-%d on fibre %d" % (a, b, f)
            if k == -1:
                return None, "the node of the connection %d-%d is not at its place on fibre %d" % (a, b, f)
        if a != b:
            pairs.append((na, nb))
    if not used.all():
        return None, "node %d of the mesh belongs to no connection" % int(np.argmin(used))
    return pairs, None


def size_of(mat, mesh):
    return 2 * len(mesh) + 3 * int(np.sum(mesh.index.values <= mesh.constraint.values))


def samples(res):
    """The recorded states (one row per state) of a solve() result without resampling."""
    out = {}
    with np.errstate(all="ignore"):
        for k, v in zip(FIELDS, res[2:]):
            out[k] = np.array(v(), copy=True)
    return out


def prefix(hist, n):
    return {k: v[:n] for k, v in hist.items()}


def differ(a, b, fields=FIELDS):
    """First difference between two histories (equal up to the rounding of evaluating an interpolation at its own
    samples; infinite bounds are evaluated as infinite or undefined), or None."""
    for k in fields:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return "%s: %s values, expected %s" % (k, x.shape, y.shape)
        if x.tobytes() == y.tobytes():
            continue
        with np.errstate(all="ignore"):
            if x.dtype == bool:
                ok = x == y
            else:
                fx, fy = np.isfinite(x), np.isfinite(y)
                fin = fx & fy
                scale = max(float(np.max(np.abs(y[fin]))) if fin.any() else 0.0, 1e-300)
                ok = (fin & (np.abs(x - y) <= 1e-11 * scale)) | (~fx & ~fy & (True if k == "H" else (np.isnan(x) & np.isnan(y)) | (x == y)))
        if not np.all(ok):
            j = int(np.nonzero(~ok)[0][0])
            return "%s differs at state %d" % (k, j)
    return None


class Backend:
    """The linear-solver seam: forwards to a real backend, records residuals, and lets a fault policy alter answers."""

    def __init__(self, sim, inner, policy=None):
        self.sim, self.inner, self.policy = sim, inner, policy
        self.calls = 0
        self.res = []            # true residual of every answer handed out
        self.rnd = []            # how far rounding alone can move each of them
        self.last = None

    def __call__(self, A, b):
        k = self.calls
        self.calls += 1
        b = np.array(b, dtype=float, copy=True)
        A0 = sp.sparse.csc_matrix(A, copy=True)
        self.args_last = None
        if self.policy is not None:
            x = self.policy(self, k, A0, b)
        else:
            x = self.inner(A, b)
        with np.errstate(all="ignore"):
            xr = np.real(np.asarray(x)).ravel()
            self.res.append(float(np.linalg.norm(A0 @ xr - b)) if xr.shape == b.shape else float("nan"))
            self.rnd.append(float(1e-13 * np.linalg.norm(abs(A0) @ np.abs(xr) + np.abs(b))) if xr.shape == b.shape else 0.0)
        self.last = xr
        self.args_last = (A0, b, xr)
        self.sim.yield_point("backend")
        return x


def invariants(mat, mesh, res, hist, tol, errtol, carry=0.0, pairs=None):
    """Check every recorded state against the geometry of the inputs; returns a list of violations (at most one)."""
    K, C = sp.sparse.csr_matrix(res[0]), sp.sparse.csr_matrix(res[1])
    z0 = mesh.z.values.astype(float)
    h = mat.h.values[mesh.fiber.values].astype(float)
    fib = mesh.fiber.values
    i = mesh.index.values
    j = mesh.constraint.values
    pair = i < j
    a, b = i[pair], j[pair]
    if pairs is not None:                              # contacts of the stack, the lower fibre first
        a = np.array([min(p, key=lambda q: fib[q]) for p in pairs], dtype=int)
        b = np.array([max(p, key=lambda q: fib[q]) for p in pairs], dtype=int)
    u_, f_, Z_, rl = hist["u"], hist["f"], hist["Z"], hist["rlambda"]
    N = len(Z_)
    top = float((z0 + 0.5 * h).max())

    def bad(kind, k, what):
        return [{"kind": kind, "detail": "state %d of %d: %s" % (k, N - 1, what)}]

    if not (len(u_) == len(f_) == N == len(rl)):
        return bad("history", 0, "fields of different lengths %d %d %d %d" % (len(u_), len(f_), N, len(rl)))
    if abs(float(Z_[0]) - top) > 1e-9 * max(1, abs(top)) or float(rl[0]) != 1.0 or np.any(u_[0]) or np.any(f_[0]):
        return bad("initial", 0, "Z=%r (top of the stack %r), stretch %r" % (float(Z_[0]), top, float(rl[0])))
    coo = K.tocoo()
    finite_rows = np.ones(K.shape[0], dtype=bool)
    finite_rows[coo.row[~np.isfinite(coo.data)]] = False
    Kd = K.copy()
    Kd.data = np.where(np.isfinite(Kd.data), Kd.data, 0.0)
    scaleK = float(np.max(np.abs(Kd.data))) if Kd.nnz else 1.0
    nfib = int(fib.max()) + 1
    for k in range(N):
        u, f, Z = u_[k].astype(float), f_[k].astype(float), float(Z_[k])
        if not (np.all(np.isfinite(u)) and np.all(np.isfinite(f)) and np.isfinite(Z)):
            return bad("non-finite", k, "NaN or infinite displacement, force or lid position")
        down = top - Z
        slack = carry + 2 * tol + 4 * errtol * (down + 1e-12) + 1e-9 * max(1.0, top)
        z = z0 + u[::2]
        gap = z[b] - z[a] - 0.5 * (h[a] + h[b])
        if len(gap) and gap.min() < -slack:
            return bad("penetration", k, "fibres %d and %d overlap by %.3g" % (fib[a[gap.argmin()]], fib[b[gap.argmin()]], -gap.min()))
        fl = z - 0.5 * h
        if fl.min() < -slack:
            return bad("floor", k, "fibre %d is %.3g below the floor" % (fib[fl.argmin()], -fl.min()))
        li = Z - z - 0.5 * h
        if li.min() < -slack:
            return bad("lid", k, "fibre %d is %.3g above the lid" % (fib[li.argmin()], -li.min()))
        if k and not Z < float(Z_[k - 1]):
            return bad("lid-motion", k, "lid at %r after %r" % (Z, float(Z_[k - 1])))
        if abs(float(rl[k]) * Z - top) > 1e-9 * top:
            return bad("stretch", k, "stretch %r but initial height / height = %r" % (float(rl[k]), top / Z))
        # contact forces: balance per fibre, and only across closed contacts
        ft = C.T @ f
        fscale = float(np.max(np.abs(f))) if len(f) else 0.0
        ftol = 1e-8 * fscale + 8 * errtol * (down + 1e-12) * max(1.0, np.sqrt(len(u) / max(1, nfib))) + 1e-12
        net = np.bincount(fib, weights=ft[::2], minlength=nfib)
        if np.abs(net).max() > ftol * 4:
            return bad("balance", k, "vertical contact forces on fibre %d sum to %.3g (largest force %.3g)" % (np.abs(net).argmax(), net[np.abs(net).argmax()], fscale))
        # rotations of rigid (infinitely stiff) sections stay zero; the other equations of equilibrium hold
        if not finite_rows.all() and np.abs(u[~finite_rows]).max() > 1e-9:
            return bad("rigid", k, "an infinitely stiff section rotated by %.3g" % np.abs(u[~finite_rows]).max())
        r_ = (Kd @ u + ft)[finite_rows]
        if len(r_) and np.abs(r_).max() > 1e-9 * (fscale + scaleK * np.abs(u).max()) + 4 * errtol * (down + 1e-12) + 1e-12:
            return bad("equilibrium", k, "residual force %.3g (largest force %.3g)" % (np.abs(r_).max(), fscale))
        # distances of all the constraints (floor, contact, lid) in the returned row layout
        g = hist["H"][k].astype(float) - C @ u
        loaded = np.abs(f) > 1e-7 * fscale + 4 * errtol * (down + 1e-12) + 1e-12
        if loaded.any():
            gl = g[loaded]
            if not np.all(gl <= slack + tol):
                w = np.nonzero(loaded)[0][np.argmax(np.where(np.isnan(gl), np.inf, gl))]
                return bad("complementarity", k, "force %.3g across an open contact (row %d, gap %.3g)" % (f[w], w, g[w]))
        # the upper bounds returned must describe the geometry: floor and lid distances per constraint element
        msk = i <= j
        ii, jj = i[msk], j[msk]
        want = np.empty(3 * len(ii))
        want[0::3] = z[ii] - 0.5 * h[ii]
        want[1::3] = np.where(ii == jj, np.inf, z[jj] - z[ii] - 0.5 * (h[ii] + h[jj]))
        want[2::3] = Z - z[jj] - 0.5 * h[jj]
        if g.shape != want.shape:
            return bad("bounds", k, "%d constraint rows for %d contacts" % (len(g), len(ii)))
        fin = np.isfinite(want)
        if np.isfinite(g[~fin]).any() or np.abs(g[fin] - want[fin]).max() > 1e-7 * max(1.0, top):
            return bad("bounds", k, "returned distances differ from the geometry by %.3g" % np.nanmax(np.abs(g[fin] - want[fin])))
    return []
