"""C28: fitted density is normalised, attains the moment equations and its cumulative function is its integral."""
import itertools
import numpy as np
from . import common as cm
from . import density as dn

MODULES = ["mlmc.tool.simple_distribution"]
META = dict(
    bounds="2..3 moments, quadratures of 1..2 intervals with 1..2 points, five sets of moment values, weights and deviations (concrete), any means (|.| <= 3), any result of the minimiser (|multiplier| <= 5), any tolerance in (0, 1); cdf: every sequence of up to 3 values from 6 positions inside, at and outside the domain, any increasing integral of the density",
    outside="convergence of scipy's minimiser (its contract: success means that the norm of the gradient it reports is at most gtol); accuracy of quadratures; exponents limited by the safe range",
    stubs=["scipy.optimize.minimize: any multipliers x, jac = jac(x), success only when |jac| <= gtol", "scipy.integrate.quad and Gauss points: a composite rule with the given points and weights",
           "scipy.integrate.fixed_quad: difference of an arbitrary increasing antiderivative", "moment functions: given values at every point, the first is one", "np.linalg.eigvalsh: arbitrary"],
    assumptions=["exp(a + log x) = x exp(a)"], limit_s=dict(quick=400, thorough=2000))


def norm_contract(I):
    """norm of a vector: n >= 0, n^2 = sum of squares"""
    cnt = [0]

    def norm(v, *a, **k):
        cnt[0] += 1
        n = I.real("norm%d" % cnt[0], 0, None)
        v = np.asarray(v).view(np.ndarray).ravel()
        I.assume(n * n == sum((x * x for x in v), 0.0))
        return n
    return norm


def run(I, size, cuts, pts, sgs, values, ok):
    from mlmc.tool import simple_distribution as sd
    I.inverse_division()
    I.fork_minmax()
    q = dn.Quadrature(I, cuts, pts, symbolic_w=False)
    mom = dn.Moments(I, size, (cuts[0], cuts[-1]), 3, values=values)
    for x, w in q.nodes():
        mom.row(x)
    mu, sg, md = dn.data(I, size, 0.4, 10, 3, sgs=sgs)
    tol = I.real("tol", 1e-9, 1)
    lam = I.reals("l", (size,), -5, 5)
    l0 = [cm.el(lam, i) for i in range(size)]
    G = I.reals("g", (size,))
    I.stub("numpy.linalg.eigvalsh", lambda a, *x, **k: I.array(np.array([1.0] * size, dtype=object)))
    I.stub("numpy.linalg.norm", lambda v, *a, **k: 1000.0)
    d = sd.SimpleDistribution(mom, md, domain=mom.domain)
    rho, rows = {}, {}
    for x, w in q.nodes():
        p = -dn.lincomb(I, mom.row(x), l0, sg)
        rho[x] = I.fn("exp", p)
    M = [sum((w * mom.row(x)[i] * rho[x] for x, w in q.nodes()), 0.0) for i in range(size)]
    lg = I.fn("log", M[0])
    I.assume(I.both(lg <= 60, lg >= -60))
    seen = {}

    def body(fun, jac, hess, x0, options):
        x = I.array(np.array(list(l0), dtype=object))
        g = jac(x)
        if I.symbolic:
            for i in range(size):
                I.check_eq(cm.el(g, i), (mu[i] - M[i]) / sg[i], "residual of the moment equations")
            # from here the residual is any vector
            gg = I.array(np.array([cm.el(G, i) for i in range(size)], dtype=object))
            I.stub("numpy.linalg.norm", norm_contract(I))
        else:
            gg = g
        n2 = sum((cm.el(gg, i) * cm.el(gg, i) for i in range(size)), 0.0)
        if ok:
            I.assume(n2 <= options["gtol"] * options["gtol"])
        return dn.Result(x=x, jac=gg, fun=fun(x), success=ok, nit=3, message="")
    dn.minimiser(I, body)
    res = d.estimate_density_minimize(tol=tol)
    got = {}
    for x, w in q.nodes():
        v = d.density(x)
        got[x] = v.ravel().view(np.ndarray)[0] if isinstance(v, np.ndarray) else v
    total = sum((w * got[x] for x, w in q.nodes()), 0.0)
    I.check_eq(total, 1.0, "the density integrates to one", tol=1e-8)
    for x, w in q.nodes():
        I.check_eq(got[x] * M[0], rho[x], "normalisation only scales the fitted density", tol=1e-6)
    if bool(res.success):
        for i in range(size):
            if I.symbolic:
                I.check(I.both(cm.el(G, i) <= tol, cm.el(G, i) >= -tol), "success: residual of every moment equation within the tolerance")
            else:
                r = (M[i] - mu[i]) / sg[i]
                I.check(abs(r) <= tol * (1 + 1e-6) + 1e-9, "success: residual of every moment equation within the tolerance")
    else:
        I.check(not ok, "success of the minimiser is not lost")


POS = [-1.0, 0.0, 0.25, 0.5, 0.75, 1.0, 2.0]


def run_cdf(I, n):
    """cumulative function of a normalised density at values in any order"""
    import scipy.integrate
    from mlmc.tool import simple_distribution as sd
    mom = dn.Moments(I, 2, (0.0, 1.0), 3)
    d = sd.SimpleDistribution(mom, I.array(np.array([[1.0, 1.0], [0.0, 1.0]], dtype=object)), domain=(0.0, 1.0))
    F = {0.0: 0.0, 1.0: 1.0}
    last = 0.0
    for x in POS:
        if 0 < x < 1:
            F[x] = I.real("F%d" % round(100 * x), 0, 1)
            I.assume(F[x] >= last)
            last = F[x]

    def fixed(fn, a, b, args=(), n=5):
        return F[float(b)] - F[float(a)], None

    def quad(fn, a, b, *x, **k):
        return F[float(b)] - F[float(a)], 0.0
    I.patch(scipy.integrate, "fixed_quad", fixed)
    I.patch(scipy.integrate, "quad", quad)
    xs = [I.choice("x%d" % i, POS) for i in range(n)]
    y = d.cdf(np.array(xs) if n > 1 else xs[0])
    I.check(y.shape == (n,), "one value per point")
    for i, x in enumerate(xs):
        I.check_eq(cm.el(y, i), 0.0 if x <= 0 else 1.0 if x >= 1 else F[x], "integral of the density from the lower end of the domain", tol=1e-9)


def cases(tier):
    cs = []
    T = tier == "thorough"
    V1, V2 = (0.5, -1.0, 1.0, 0.25, -0.5, 2.0, -1.5), (-1.0, 1.0, 0.5, -0.25)
    ss = [("m2_s1", 2, (0.0, 1.0), (-0.5, 0.5), (1.0, 1.0), V1), ("m2_s2", 2, (0.0, 1.0), (-0.5, 0.5), (2.0, 0.5), V2), ("m2_half", 2, (0.0, 0.25, 1.0), (0.0,), (0.5, 4.0), V1),
          ("m3_s1", 3, (0.0, 1.0), (-0.5, 0.5), (1.0, 0.5, 2.0), V1), ("m3_s4", 3, (0.0, 0.25, 1.0), (0.0,), (4.0, 1.0, 2.0), V2), ("m2_len2", 2, (-1.0, 0.5, 1.0), (0.0,), (1.0, 2.0), V2)]
    if T:
        ss += [("m4", 4, (0.0, 0.5, 1.0), (-0.5, 0.0, 0.5), (0.5, 1.0, 2.0, 4.0), V1)]
    for name, size, cuts, pts, sgs, V in ss:
        for ok in (True, False):
            cs.append(dict(name=name + ("" if ok else "_not"), run=run, params=dict(size=size, cuts=cuts, pts=pts, sgs=sgs, values=V, ok=ok), time_s=100 if not T else 900))
    for n in (1, 2, 3):
        cs.append(dict(name="cdf%d" % n, run=run_cdf, params=dict(n=n), time_s=150))
    return cs
