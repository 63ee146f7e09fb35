"""Which planar fibres cross, and where: computed from the segments themselves, without the library."""
import numpy as np


def crossings(mat, periodic, eps=1e-7):
    """(must, may): {(a, b): [(sA, sB), ...]} with a < b.  `must`: the segments of a and of an image of b (or the other
    way round) one box away at most clearly cross; `may`: they cross or touch within rounding, any image."""
    x = mat[["x", "y"]].values.astype(float)
    u = mat[["u", "v"]].values.astype(float)
    l = mat["l"].values.astype(float)
    size = float(mat.attrs["size"])
    n = len(mat)
    must, may = {}, {}
    a, b = np.triu_indices(n, 1)
    cross = u[a, 0] * u[b, 1] - u[a, 1] * u[b, 0]
    reach = (-2, -1, 0, 1, 2) if periodic else (0,)
    for i in reach:
        for j in reach:
            r = x[b] + size * np.array([i, j]) - x[a]
            with np.errstate(all="ignore"):
                sa = (r[:, 0] * u[b, 1] - r[:, 1] * u[b, 0]) / cross
                sb = (r[:, 0] * u[a, 1] - r[:, 1] * u[a, 0]) / cross
                near = (np.abs(cross) < 1e-5) & (np.hypot(r[:, 0], r[:, 1]) < 0.5 * (l[a] + l[b]) + eps)
                ok = (np.abs(sa) < 0.5 * l[a] + eps * l[a]) & (np.abs(sb) < 0.5 * l[b] + eps * l[b])
                sure = (np.abs(sa) < 0.5 * l[a] - eps * l[a]) & (np.abs(sb) < 0.5 * l[b] - eps * l[b])
            for k in np.nonzero(ok | near)[0]:
                key = (int(a[k]), int(b[k]))
                may.setdefault(key, []).append(None if near[k] else (float(sa[k]), float(sb[k])))
                if sure[k] and not near[k] and max(abs(i), abs(j)) <= 1:
                    must.setdefault(key, []).append((float(sa[k]), float(sb[k])))
    return must, may


def connections(mat, periodic, rows):
    """Judge the connections {(a, b): [sA, sB, xA, yA, xB, yB]} of a network against the segments; a message or None."""
    must, may = crossings(mat, periodic)
    x = mat[["x", "y"]].values.astype(float)
    u = mat[["u", "v"]].values.astype(float)
    for key in must:
        if key not in rows:
            return "fibres %d and %d cross but are not connected" % key
    for key, v in rows.items():
        a, b = key
        if a == b:
            continue
        if key not in may:
            return "fibres %d and %d do not cross but are connected" % key
        if None not in may[key] and not any(abs(v[0] - s) < 1e-5 * max(1, abs(s)) and abs(v[1] - t) < 1e-5 * max(1, abs(t)) for s, t in may[key]):
            return "fibres %d and %d are connected at abscissae %.6g, %.6g, they cross at %s" % (a, b, v[0], v[1], may[key])
        for f, s, px, py in ((a, v[0], v[2], v[3]), (b, v[1], v[4], v[5])):
            if np.hypot(*(x[f] + s * u[f] - (px, py))) > 1e-6 * max(1, abs(s)):
                return "the connection of fibres %d and %d is not on fibre %d" % (a, b, f)
    for f in range(len(mat)):
        if (f, f) not in rows:
            return "the ends of fibre %d are missing" % f
    return None
