"""C32: reference moments, covariances and distances of densities are the integrals that define them."""
import numpy as np
from . import common as cm
from . import density as dn

MODULES = ["mlmc.tool.simple_distribution", "mlmc.moments"]
META = dict(
    bounds="2..4 moment functions with any values (or Legendre, monomials), any density values >= 0 (or exactly zero) at the nodes, quadratures of 1..3 intervals with 1..3 nodes and any weights",
    outside="accuracy of the quadrature itself (scipy's quad and Gauss-Legendre are stand-ins: the rule is any composite rule, the same for code and oracle)",
    stubs=["scipy.integrate.quad and Gauss points: a composite rule with the given points and any positive weights", "moment functions and densities: any values at the nodes"],
    assumptions=[], limit_s=dict(quick=300, thorough=1200))


def density_fn(I, q, name, lo, as_array=False, zero=()):
    vals = {}
    for k, (x, w) in enumerate(q.nodes()):
        vals[round(float(x), 12)] = 0.0 if k in zero else I.real("%s%d" % (name, k), lo, 5)

    def fn(x):
        xs = np.asarray(x)
        v = [vals[round(float(t), 12)] for t in np.atleast_1d(xs).view(np.ndarray).ravel()]
        if xs.ndim == 0 and not as_array:
            return v[0]
        return I.array(np.array(v, dtype=object))
    return fn, vals


def key(x):
    return round(float(x), 12)


def run_integrals(I, size, cuts, pts, what, kind="any", as_array=False, zero=()):
    from mlmc.tool import simple_distribution as sd
    import mlmc.moments
    q = dn.Quadrature(I, cuts, pts)
    dom = (cuts[0], cuts[-1])
    f, vals = density_fn(I, q, "p", 0, as_array, zero)
    if kind == "any":
        mom = dn.Moments(I, size, dom, 3)
        rows = {key(x): mom.row(x) for x, w in q.nodes()}
    else:
        mom = {"legendre": mlmc.moments.Legendre, "monomial": mlmc.moments.Monomial}[kind](size, dom)
        rows = {}
        for x, w in q.nodes():
            if kind == "legendre":
                t = 2 * (x - dom[0]) / (dom[1] - dom[0]) - 1
                r = [1.0, t]
                while len(r) < size:
                    n = len(r)
                    r.append(((2 * n - 1) * t * r[-1] - (n - 1) * r[-2]) / n)
            else:
                t = (x - dom[0]) / (dom[1] - dom[0]) if getattr(mom, "ref_domain", (0, 1)) == (0, 1) else 2 * (x - dom[0]) / (dom[1] - dom[0]) - 1
                r = [t ** n for n in range(size)]
            rows[key(x)] = r[:size]
    if what.endswith("moments"):
        got = getattr(sd, "compute_%s" % what)(mom, f)
        I.check(tuple(np.shape(got)) == (size,), "one moment per function")
        for i in range(size):
            want = sum((w * rows[key(x)][i] * vals[key(x)] for x, w in q.nodes()), 0.0)
            I.check_eq(cm.el(got, i), want, "moment is the integral of the function times the density", tol=1e-8)
    else:
        got = getattr(sd, "compute_%s" % what)(mom, f)
        I.check(tuple(np.shape(got)) == (size, size), "one entry per pair of functions")
        for i in range(size):
            for j in range(size):
                want = sum((w * rows[key(x)][i] * rows[key(x)][j] * vals[key(x)] for x, w in q.nodes()), 0.0)
                I.check_eq(got[i, j], want, "entry is the integral of the product of the two functions times the density", tol=1e-8)


def run_kl(I, cuts, pts, as_array, zero):
    from mlmc.tool import simple_distribution as sd
    I.fork_minmax()
    q = dn.Quadrature(I, cuts, pts, symbolic_w=False)
    f, P = density_fn(I, q, "p", 0.001, False, zero)
    g, Q = density_fn(I, q, "q", 0, as_array)
    got = sd.KL_divergence(f, g, cuts[0], cuts[-1])
    want = 0.0
    for x, w in q.nodes():
        p, r = P[key(x)], Q[key(x)]
        r = r if bool(r >= 1e-300) else 1e-300
        # limit of p log p is zero
        want = want + w * ((p * I.fn("log", p / r) if not isinstance(p, float) or p > 0 else 0.0) - p + r)
    if isinstance(got, np.ndarray):
        got = got.ravel().view(np.ndarray)[0]
    if bool(want > 1e-10):
        I.check_eq(got, want, "divergence of the densities", tol=1e-7)
    else:
        I.check_eq(got, 1e-10, "divergence not below its floor", tol=1e-7)


def run_l2(I, cuts, pts, as_array):
    from mlmc.tool import simple_distribution as sd
    q = dn.Quadrature(I, cuts, pts)
    f, P = density_fn(I, q, "p", 0)
    g, Q = density_fn(I, q, "q", 0, as_array)
    got = sd.L2_distance(f, g, cuts[0], cuts[-1])
    if isinstance(got, np.ndarray):
        got = got.ravel().view(np.ndarray)[0]
    s = sum((w * (P[key(x)] - Q[key(x)]) * (P[key(x)] - Q[key(x)]) for x, w in q.nodes()), 0.0)
    I.check(got >= 0, "a distance is not negative")
    I.check_eq(got * got, s, "square of the distance is the integral of the squared difference", tol=1e-7)


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, run, t=60, **p):
        cs.append(dict(name=name, run=run, params=p, time_s=t if not T else 5 * t))
    rules = [("r1", (0.0, 1.0), (-0.5, 0.5)), ("r2", (-1.0, 0.25, 2.0), (-0.75, 0.25)), ("r3", (-2.0, -1.0, 0.5, 1.0), (0.5,))]
    if T:
        rules += [("r4", (0.0, 0.5, 3.0), (-0.75, 0.0, 0.75))]
    for what in ("exact_moments", "semiexact_moments", "exact_cov", "semiexact_cov"):
        for n, cuts, pts in rules:
            for size in ((2, 3) if not T else (2, 3, 4)):
                add("%s_%s_m%d" % (what, n, size), run_integrals, size=size, cuts=cuts, pts=pts, what=what)
        add("%s_array" % what, run_integrals, size=3, cuts=rules[0][1], pts=rules[0][2], what=what, as_array=True)
        add("%s_zero" % what, run_integrals, size=2, cuts=rules[1][1], pts=rules[1][2], what=what, zero=(0, 3))
        add("%s_legendre" % what, run_integrals, size=3, cuts=(-1.0, 0.0, 1.0), pts=(-0.5, 0.5), what=what, kind="legendre")
        add("%s_monomial" % what, run_integrals, size=3, cuts=(0.0, 0.5, 1.0), pts=(-0.5, 0.5), what=what, kind="monomial")
    for n, cuts, pts in [rules[0], ("r2", (-1.0, 0.25, 2.0), (0.25,)), rules[2]]:
        for arr in (False, True):
            add("kl_%s%s" % (n, "_arr" if arr else ""), run_kl, cuts=cuts, pts=pts, as_array=arr, zero=())
            add("l2_%s%s" % (n, "_arr" if arr else ""), run_l2, cuts=cuts, pts=pts, as_array=arr)
        add("kl_%s_zero" % n, run_kl, cuts=cuts, pts=pts, as_array=False, zero=(1,))
    return cs
