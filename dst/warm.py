"""Touch the third-party code paths once (lazy imports, caches) before workers fork; no library code runs here."""
import warnings
import numpy as np


def up():
    import pandas as pd
    import scipy as sp
    import scipy.optimize
    import scipy.sparse.linalg
    import scipy.sparse.csgraph
    from scipy.interpolate import interp1d, CubicHermiteSpline
    from sklearn.neighbors import KDTree
    import pyvista as pv
    from matplotlib import pyplot as plt
    import seams
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        C = sp.sparse.coo_matrix(np.array([[1.0, -1.0]]))
        seams.real["linprog"](np.ones(2), C, -np.ones(1), bounds=np.c_[np.ones(2), np.full(2, np.inf)])
        A = sp.sparse.csc_matrix(np.diag([2.0, 3.0]))
        sp.sparse.linalg.spsolve(A, np.ones(2))
        sp.sparse.linalg.splu(A)
        sp.sparse.csgraph.reverse_cuthill_mckee(A, symmetric_mode=True)
        sp.sparse.bmat([[A, A.T], [A, None]], format="csc")
        df = pd.DataFrame({"a": [0, 0, 1], "b": [1.0, 2.0, 3.0]})
        df.groupby("a").apply(lambda x: np.roll(x.index, -1))
        pd.concat([df, df.copy()]).sort_values(by=["a"]).drop_duplicates(["a"])
        interp1d([0, 1], [0, 1])(0.5)
        CubicHermiteSpline([0, 1, 2], [0, 1, 0], [0, 0, 0]).derivative(2)(0.5)
        KDTree(np.zeros((3, 1))).query(np.zeros((2, 1)))
        np.linalg.lstsq(np.eye(2), np.ones(2), rcond=None)
        rad = np.array([np.finfo(float).tiny, 0.5])
        m = pv.CylinderStructured(radius=rad, theta_resolution=8, z_resolution=5)
        m["f"] = np.zeros(len(m.points))
        m.scale([1, 2, 3], inplace=True)
        g = pv.MultiBlock([m, m.copy().translate([1, 0, 0])]).combine()
        g.clip_box([-1, 1, -1, 1, -1, 1], invert=False)
        fig, ax = plt.subplots()
        ax.spy(A)
        plt.close(fig)
