"""C31: estimates made through the Estimate object are the MLMC estimators of its quantity, moments and storage."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator", "mlmc.quantity.quantity_estimate", "mlmc.quantity.quantity", "mlmc.quantity.quantity_types", "mlmc.moments", "mlmc.sample_storage"]
META = dict(
    bounds="1..3 levels with 2..3 samples of a scalar quantity, 2..4 monomial moments (values limited to the domain or not, log or not, the object's or the given ones), any sample values; density construction with any 2x2..2x3 transformation by the orthogonalisation; target samples for two moments and 2 levels",
    outside="more samples and moments; the orthogonalisation and the density fit themselves (C26, C28) and the regression (C27), which are replaced by arbitrary results here",
    stubs=["orthogonalisation returns any linear combination of the moments, the fit is only recorded", "bootstrap returns any level variances (for the target samples)"],
    assumptions=[], limit_s=dict(quick=400, thorough=1500))


def power(x, r):
    y = 1.0
    for _ in range(r):
        y = y * x
    return y


def world(I, n, lo=0.0, hi=1.0, fmt=None):
    """storage with quantities a (unused) and q"""
    from mlmc.quantity.quantity import make_root_quantity
    fmt = [cm.spec("a", "m"), cm.spec("q", "m")]
    levels = [cm.level_data(I, "v", l, k, 2, False, lo, hi) for l, k in enumerate(n)]
    st = cm.memory_with(levels, fmt)
    root = make_root_quantity(st, fmt)
    return st, root["q"][1.0]["a"][0, 0], root["a"][1.0]["a"][0, 0], levels


def diffs(I, levels, comp, fns, dom=None):
    """per level list of differences [moment] of valid samples; branches on the domain when given"""
    out = []
    for l, (f, c) in enumerate(levels):
        rows = []
        for i in range(f.shape[0]):
            x, y = cm.el(f, i, comp), cm.el(c, i, comp)
            vals = [x] if l == 0 else [x, y]
            if dom is not None and not all(bool(I.both(v >= dom[0], v <= dom[1])) for v in vals):
                continue
            rows.append([fn(x) - (fn(y) if l else 0.0) for fn in fns])
        out.append(rows)
    return out


def stats(rows, r):
    n = len(rows)
    m = sum((x[r] for x in rows), 0.0) / n
    v = sum(((x[r] - m) * (x[r] - m) for x in rows), 0.0) / (n - 1)
    return m, v


def mlmc(out, r):
    ms = [stats(rows, r) for rows in out]
    return sum((m for m, _ in ms), 0.0), sum((v / len(rows) for (_, v), rows in zip(ms, out)), 0.0), [v for _, v in ms]


def run_moments(I, n, R, given, safe, what, setter=False):
    from mlmc.estimator import Estimate
    from mlmc.moments import Monomial
    st, q, a, levels = world(I, n, lo=-0.5 if safe else 0.0, hi=1.5 if safe else 1.0)
    own = Monomial(R, (0, 1), safe_eval=safe)
    est = Estimate(a if setter else q, st, own)
    if setter:
        est.estimate_moments() if what != "cov" else est.estimate_covariance()
        est.quantity = q
        I.check(est.quantity is q, "quantity of the estimate")
    I.check(est.n_moments == R, "number of moments")
    fn = None
    size = R
    if given:
        size = given
        fn = Monomial(given, (0, 2), safe_eval=False)
    scale = 2.0 if given else 1.0
    fns = [lambda x, r=r: power(x / scale, r) for r in range(size)]
    if what == "cov":
        fns = [lambda x, i=i, j=j: power(x / scale, i) * power(x / scale, j) for i in range(size) for j in range(size)]
    out = diffs(I, levels, 1, fns, (0, 1) if safe and not given else None)
    I.assume(all(len(rows) > 1 for rows in out))
    if what == "moments":
        mean, var = est.estimate_moments(fn)
        I.check(len(mean) == size and len(var) == size, "one value per moment")
        for r in range(min(size, len(mean))):
            m, v, _ = mlmc(out, r)
            I.check_eq(cm.el(mean, r), m, "mean of the moment")
            I.check_eq(cm.el(var, r), v, "variance of the estimate of the moment")
    elif what == "cov":
        mean, var = est.estimate_covariance(fn)
        I.check(tuple(np.shape(mean)) == (size, size) and tuple(np.shape(var)) == (size, size), "covariance matrix")
        for i in range(size):
            for j in range(size):
                m, v, _ = mlmc(out, i * size + j)
                I.check_eq(cm.el(mean, i, j), m, "entry of the covariance")
                I.check_eq(cm.el(var, i, j), v, "variance of the entry")
                I.check_eq(cm.el(mean, i, j), cm.el(mean, j, i), "symmetric")
    elif what == "diff":
        var, ns = est.estimate_diff_vars(fn)
        I.check([int(x) for x in ns] == [len(rows) for rows in out], "numbers of valid samples")
        I.check(tuple(np.shape(var)) == (len(n), size), "variances of levels and moments")
        for r in range(size):
            _, _, lv = mlmc(out, r)
            for l in range(len(n)):
                I.check_eq(cm.el(var, l, r), lv[l], "variance of the differences of the moment on the level")
    else:
        times = [I.real("t%d" % l, 0.1, 9) for l in range(len(n))]
        st.save_n_ops([(l, [times[l] * k, k]) for l, k in enumerate(n)])
        var, ops = est.estimate_diff_vars_regression(list(n), fn)
        for l in range(len(n)):
            I.check_eq(ops[l], times[l], "cost per sample of the storage")
            for r in range(size):
                I.check_eq(cm.el(var, l, r), mlmc(out, r)[2][l], "fewer than three levels: variances of the levels")


def run_samples(I, n, opaque=True):
    from mlmc.estimator import Estimate
    st, q, a, levels = world(I, n, None, None)
    est = Estimate(q, st, None)
    l = I.cint("level", 0, len(n) - 1)
    k = I.choice("k", [None, 1, 2, 50])
    got = est.get_level_samples(l) if k is None else est.get_level_samples(l, n_samples=k)
    want_n = n[l] if k is None else min(k, n[l])
    I.check(tuple(got.shape) == (1, want_n, 2 if l else 1), "shape of the level's samples")
    if tuple(got.shape) == (1, want_n, 2 if l else 1):
        f, c = levels[l]
        for i in range(want_n):
            I.check_eq(cm.el(got, 0, i, 0), cm.el(f, i, 1), "fine samples of the level", tol=0)
            if l:
                I.check_eq(cm.el(got, 0, i, 1), cm.el(c, i, 1), "coarse samples of the level", tol=0)


def run_density(I, n, R, rows):
    """the density is fitted to the MLMC means of the orthogonalised moments"""
    import mlmc.tool.simple_distribution as sd
    from mlmc.estimator import Estimate
    from mlmc.moments import Monomial, TransformedMoments
    st, q, a, levels = world(I, n)
    own = Monomial(R, (0, 1), safe_eval=False)
    T = I.reals("T", (rows, R), -3, 3)
    seen = {}

    def orth(moments, cov, tol=None):
        seen["orth"] = (moments, cov, tol)
        return TransformedMoments(moments, T), "info"

    class Fit:
        def __init__(self, moments_obj, moment_data, domain=None, **kw):
            seen["fit"] = (moments_obj, moment_data, domain)

        def estimate_density_minimize(self, tol, reg_param):
            seen["tol"] = (tol, reg_param)
            return "result"
    I.patch(sd, "construct_ortogonal_moments", orth)
    I.patch(sd, "SimpleDistribution", Fit)
    est = Estimate(q, st, own)
    d, info, result, mom = est.construct_density(tol=0.125, orth_moments_tol=0.25)
    I.check(isinstance(d, Fit) and info == "info" and result == "result", "the fitted density is returned")
    I.check(seen["orth"][0] is own and seen["orth"][2] == 0.25 and seen["tol"][0] == 0.125, "tolerances")
    fns = [lambda x, i=i, j=j: power(x, i + j) for i in range(R) for j in range(R)]
    out = diffs(I, levels, 1, fns)
    for i in range(R):
        for j in range(R):
            I.check_eq(cm.el(seen["orth"][1], i, j), mlmc(out, i * R + j)[0], "moments are orthogonalised by the estimated covariance")
    out = diffs(I, levels, 1, [lambda x, r=r: power(x, r) for r in range(R)])
    means = [mlmc(out, r)[0] for r in range(R)]
    data = seen["fit"][1]
    I.check(tuple(np.shape(data)) == (rows, 2) and mom.size == rows, "all orthogonal moments are used")
    for k in range(rows):
        I.check_eq(cm.el(data, k, 0), sum((cm.el(T, k, r) * means[r] for r in range(R)), 0.0), "means of the orthogonal moments")
    I.check(tuple(seen["fit"][2]) == (0, 1), "domain of the moments")


def run_not_scalar(I):
    from mlmc.estimator import Estimate
    from mlmc.moments import Monomial
    from mlmc.quantity.quantity import make_root_quantity
    fmt = [cm.spec("q", "m", shape=(2, 1))]
    st = cm.memory_with([cm.level_data(I, "v", l, 2, 2, False, 0, 1) for l in range(2)], fmt)
    root = make_root_quantity(st, fmt)
    q = I.choice("q", [root, root["q"], root["q"][1.0], root["q"][1.0]["a"]])
    I.check(I.raises(lambda: Estimate(q, st, Monomial(3, (0, 1))).construct_density()), "density of a quantity that is not scalar is refused")


def run_target(I, L, R):
    from mlmc import estimator as E
    from mlmc.moments import Monomial
    st, q, a, levels = world(I, (2,) * L)
    st.save_global_data(result_format=[cm.spec("a", "m"), cm.spec("q", "m")], level_parameters=cm.lparams(L))
    st.save_n_ops([(l, [4.0 ** l, 1]) for l in range(L)])
    est = E.Estimate(q, st, Monomial(R, (0, 1)))
    V = I.np.zeros((L, R))
    for l in range(L):
        for r in range(1, R):
            V[l, r] = I.real("V%d_%d" % (l, r), 1e-3, 5)
    vec = []

    def boot(n_subsamples=100, sample_vector=None, moments_fn=None):
        vec.append([int(x) for x in sample_vector])
        est.mean_bs_l_vars = V
    I.patch(est, "est_bootstrap", boot)
    target = I.choice("target", [0.5, 0.01])
    sv = I.choice("vec", [None, [2] * L, [1] * (L + 2)])
    got = est.bs_target_var_n_estimated(target, sv)
    I.check(vec == [[2] * L if sv is None else sv[:L]], "bootstrap of the requested sample vector")
    want = E.estimate_n_samples_for_target_variance(target, V, np.array([4.0 ** l for l in range(L)]), L)
    I.check(len(got) == L, "one count per level")
    for l in range(min(L, len(got))):
        I.check_eq(cm.el(got, l), cm.el(want, l), "counts for the target variance", tol=0)


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, run, t=100, **p):
        cs.append(dict(name=name, run=run, params=p, time_s=t if not T else 4 * t))
    for what, R, G in (("moments", 4, 3), ("cov", 3, 2), ("diff", 4, 3)):
        for n in ((3,), (2, 3), (2, 2, 2)):
            add("%s_%d" % (what, len(n)), run_moments, n=n, R=R, given=None, safe=False, what=what)
        add("%s_given" % what, run_moments, n=(2, 2), R=R, given=G, safe=False, what=what)
        add("%s_larger" % what, run_moments, n=(2, 2), R=2, given=3, safe=False, what=what)
        add("%s_safe" % what, run_moments, n=(2, 3), R=2 if what == "cov" else 3, given=None, safe=True, what=what)
        add("%s_setter" % what, run_moments, n=(2, 2), R=R, given=None, safe=False, what=what, setter=True)
    add("regression", run_moments, n=(2, 3), R=3, given=None, safe=False, what="reg")
    add("regression_given", run_moments, n=(3, 2), R=2, given=3, safe=False, what="reg")
    add("samples1", run_samples, n=(3,))
    add("samples3", run_samples, n=(3, 1, 2))
    add("density22", run_density, n=(2, 2), R=2, rows=2)
    add("density32", run_density, n=(2, 2), R=3, rows=2)
    add("density_1", run_density, n=(3,), R=2, rows=2)
    add("not_scalar", run_not_scalar)
    add("target2", run_target, L=2, R=3)
    add("target1", run_target, L=1, R=2)
    return cs
