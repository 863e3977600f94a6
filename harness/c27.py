"""C27: variance regression is the log-quadratic least-squares fit on levels above zero."""
import itertools
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator", "mlmc.quantity.quantity_estimate", "mlmc.quantity.quantity", "mlmc.sample_storage", "mlmc.moments"]
META = dict(
    bounds="1..6 levels (7 thorough), 1..3 moments, every raw variance in [1e-6, 1e6] and every strictly decreasing sequence of steps in [1e-4, 100] (neighbours differ by a factor of at least 1.05); through a storage: 2 and 3 levels, 2 samples per level with any values",
    outside="variances below 1e-6 (the code returns the raw variances of a moment when all of them are below 1e-8); accuracy of the least squares solver",
    stubs=["np.linalg.lstsq / np.polyfit: any solution of the normal equations, an exact solution when there are at most as many rows as columns (contract; the steps are distinct, so the matrix has full rank)",
           "np.linalg.solve: any solution of the system"],
    assumptions=["log is a function, inverse of exp"], limit_s=dict(quick=400, thorough=2000))


def solver_contract(I):
    n = [0]

    def lstsq(A, b, rcond=None):
        A, b = np.asarray(A).view(np.ndarray), np.asarray(b).view(np.ndarray)
        rows, k = A.shape
        p = I.reals("ls%d" % n[0], (k,))
        n[0] += 1
        fit = [sum((cm.el(p, j) * A[r, j] for j in range(k)), 0.0) for r in range(rows)]
        if rows <= k:
            for r in range(rows):
                I.assume(fit[r] == b[r])
        else:
            for j in range(k):
                I.assume(sum(((fit[r] - b[r]) * A[r, j] for r in range(rows)), 0.0) == 0.0)
        return p, I.array(np.array([], dtype=object)), min(rows, k), None

    def polyfit(x, y, deg, *a, **kw):
        x = np.asarray(x).view(np.ndarray)
        A = np.empty((len(x), deg + 1), dtype=object)
        for r in range(len(x)):
            v = 1.0
            for j in range(deg, -1, -1):
                A[r, j] = v
                v = v * x[r]
        return lstsq(A, y)[0]

    def solve(A, b):
        A, b = np.asarray(A).view(np.ndarray), np.asarray(b).view(np.ndarray)
        k = A.shape[0]
        p = I.reals("ls%d" % n[0], (k,))
        n[0] += 1
        for r in range(k):
            I.assume(sum((cm.el(p, j) * A[r, j] for j in range(k)), 0.0) == b[r])
        return p
    I.stub("numpy.linalg.lstsq", lstsq)
    I.stub("numpy.polyfit", polyfit)
    I.stub("numpy.linalg.solve", solve)


class Store:
    """the two things the regression asks the storage for"""

    def __init__(self, steps, n_ops):
        self.steps, self.n_ops = steps, n_ops

    def get_level_parameters(self):
        return self.steps

    def get_n_ops(self):
        return self.n_ops

    def get_n_levels(self):
        return len(self.steps)


def log(I, x):
    return I.fn("log", x)


def verify(I, V, R, h, L, M):
    """R is the regression of V"""
    I.check(R.shape == (L, M), "one variance per level and moment")
    s = [log(I, x) for x in h]
    for l in range(L):
        I.check_eq(cm.el(R, l, 0), cm.el(V, l, 0), "variance of the constant moment kept")
    for m in range(1, M):
        I.check_eq(cm.el(R, 0, m), cm.el(V, 0, m), "variance of level 0 kept")
        if L <= 4:
            for l in range(1, L):
                if L < 3:
                    I.check_eq(cm.el(R, l, m), cm.el(V, l, m), "raw variances with fewer than three levels")
                else:
                    I.check_eq(log(I, cm.el(R, l, m)), log(I, cm.el(V, l, m)), "as many parameters as levels: data reproduced", tol=1e-5)
            continue
        fit = {l: log(I, cm.el(R, l, m)) for l in range(1, L)}
        y = {l: log(I, cm.el(V, l, m)) for l in range(1, L)}
        for k in range(3):
            t = 0.0
            for l in range(1, L):
                t = t + (fit[l] - y[l]) * (s[l] ** k if k else 1.0)
            I.check_eq(t, 0.0, "residual orthogonal to log(step)^%d" % k, tol=1e-4)
        for q in itertools.combinations(range(1, L), 4):
            t = 0.0
            for i in q:
                d = fit[i]
                o = [j for j in q if j != i]
                sign = (-1) ** q.index(i)
                # numerator of the divided difference: product of differences of the other three
                a, b, c = o
                d = d * (s[a] - s[b]) * (s[a] - s[c]) * (s[b] - s[c]) * sign
                t = t + d
            I.check_eq(t, 0.0, "fit quadratic in log(step)", tol=1e-4)


def run(I, L, M, flat=False):
    from mlmc.estimator import Estimate
    solver_contract(I)
    I.float_fns()
    h = [I.real("h%d" % l, 1e-4, 100) for l in range(L)]
    for l in range(1, L):
        I.assume(h[l - 1] >= 1.05 * h[l])
    v = [[I.real("v%d_%d" % (l, m), 1e-6, 1e6) if m else 0.0 for m in range(M)] for l in range(L)]
    V = I.array(np.array(v, dtype=object))
    keep = I.array(np.array(v, dtype=object))
    n_ops = I.reals("ops", (L,), 0, 1000)
    st = Store(list(h) if flat else [[x] for x in h], n_ops)
    est = Estimate(None, st)
    R, ops = est.estimate_diff_vars_regression([10 + l for l in range(L)], raw_vars=V)
    I.check_same(ops, n_ops, "cost per sample of the storage is returned")
    for l in range(L):
        for m in range(M):
            I.check_same(cm.el(V, l, m), cm.el(keep, l, m), "input unchanged")
    verify(I, V, R, h, L, M)
    if L <= 4:
        R2, _ = est.estimate_diff_vars_regression([20 + l for l in range(L)], raw_vars=V)
        for l in range(L):
            for m in range(M):
                I.check_eq(cm.el(R2, l, m), cm.el(R, l, m), "repeated call gives the same", tol=1e-5)


def run_storage(I, L, size):
    """variances taken from the samples of the storage"""
    from mlmc.estimator import Estimate
    from mlmc.quantity.quantity import make_root_quantity
    from mlmc.moments import Monomial
    solver_contract(I)
    I.float_fns()
    levels = [cm.level_data(I, "s", l, 2, 1, lo=-1, hi=1) for l in range(L)]
    st = cm.memory_with(levels)
    root = make_root_quantity(st, st.load_result_format())
    q = root["q"][1.0]["a"][0, 0]
    mom = Monomial(size, domain=[-1, 1], ref_domain=[-1, 1])
    raw = []
    for l, (f, c) in enumerate(levels):
        row = []
        for m in range(size):
            d = [cm.el(f, i, 0) ** m - (cm.el(c, i, 0) ** m if l else 0.0) if m else (0.0 if l else 1.0) for i in range(2)]
            row.append((d[0] - d[1]) * (d[0] - d[1]) / 2)
        raw.append(row)
        if L >= 3:
            for m in range(1, size):
                I.assume(row[m] > 1e-6)
    st.save_n_ops([(l, [1.5 + l, 2]) for l in range(L)])
    est = Estimate(q, st, mom)
    R, ops = est.estimate_diff_vars_regression([2] * L) if size % 2 else est.estimate_diff_vars_regression([2] * L, mom)
    I.check(list(map(float, ops)) == [(1.5 + l) / 2 for l in range(L)], "cost per sample of the storage is returned")
    I.check(R.shape == (L, size), "one variance per level and moment")
    for l in range(L):
        for m in range(size):
            if L < 3 or l == 0 or m == 0:
                I.check_eq(cm.el(R, l, m), raw[l][m], "variance of the samples", tol=1e-8)
            else:
                I.check_eq(log(I, cm.el(R, l, m)), log(I, raw[l][m]), "fit through the variances of the samples", tol=1e-5)


def cases(tier):
    cs = []
    for L, M in ((1, 2), (2, 3), (3, 3), (4, 3), (5, 2), (5, 3), (6, 2)) + (((6, 3), (7, 2)) if tier == "thorough" else ()):
        cs.append(dict(name="fit_L%d_M%d" % (L, M), run=run, params=dict(L=L, M=M), time_s=250 if tier == "quick" else 1000))
    cs.append(dict(name="fit_flat", run=run, params=dict(L=4, M=2, flat=True), time_s=100))
    for L, size in ((2, 3), (3, 2)):
        cs.append(dict(name="storage_L%d_R%d" % (L, size), run=run_storage, params=dict(L=L, size=size), time_s=150))
    return cs
