"""C21: density functional, gradient and Hessian are consistent."""
import numpy as np
from . import common as cm
from . import density as dn

MODULES = ["mlmc.tool.simple_distribution"]
META = dict(
    bounds="2..3 moments (4 thorough), quadratures of 1..2 intervals with 2 points (up to 4 points) and any positive weights, any moment values at the points (|.| <= 3), means (|.| <= 3), deviations in [0.4, 10] and multipliers (|.| <= 5): the exponent stays inside the safe range; density: any multipliers (|.| <= 10000), also outside the range",
    outside="multipliers for which the exponent is limited by the safe range (the derivative is not that of the limited functional there); the optional endpoint penalty (its coefficient is zero); more moments and points",
    stubs=["scipy.optimize.minimize: records its callbacks and evaluates them at any point", "scipy.integrate.quad and Gauss points: a composite rule with arbitrary positive weights (real subdivision interface)",
           "moment functions: arbitrary values at every point, the first is one", "np.linalg.norm in the test for a new quadrature: arbitrary non-negative value"],
    assumptions=["exp is positive, a function of its argument and its own derivative"], limit_s=dict(quick=400, thorough=2000))


def setup(I, size, cuts, pts, mb=3):
    from mlmc.tool import simple_distribution as sd
    I.inverse_division()
    q = dn.Quadrature(I, cuts, pts)
    mom = dn.Moments(I, size, (cuts[0], cuts[-1]), mb)
    mu, sg, md = dn.data(I, size, 0.4, 10, 3)
    lam = I.reals("l", (size,), -5, 5)
    cnt = [0]

    def norm(v, *a, **k):
        cnt[0] += 1
        return I.real("norm%d" % cnt[0], 0, 100)
    I.stub("numpy.linalg.norm", norm)
    I.stub("numpy.linalg.eigvalsh", lambda a, *x, **k: I.array(np.array([1.0] * size, dtype=object)))
    return sd, q, mom, mu, sg, md, lam


class Done(Exception):
    pass


def run(I, size, cuts, pts):
    sd, q, mom, mu, sg, md, lam = setup(I, size, cuts, pts)
    d = sd.SimpleDistribution(mom, md, domain=mom.domain)

    def body(fun, jac, hess, x0, options):
        x = lam
        l = [cm.el(lam, i) for i in range(size)]
        rho = {}
        for p, w in q.nodes():
            rho[p] = I.fn("exp", -dn.lincomb(I, mom.row(p), l, sg))
        f = fun(x)
        g = jac(x)
        H = hess(x)
        want = sum((mu[i] * l[i] / sg[i] for i in range(size)), 0.0) + sum((w * rho[p] for p, w in q.nodes()), 0.0)
        I.check_eq(f, want, "functional: integral of the density plus scaled means times multipliers", tol=1e-6)
        I.check(g.shape == (size,) and H.shape == (size, size), "one derivative per multiplier")
        for i in range(size):
            if I.symbolic:
                I.check_eq(cm.el(g, i), I.derivative(f, l[i]), "gradient is the derivative of the functional")
            else:
                df = num(lambda t: fun(shift(lam, i, t)))
                I.check(abs(cm.el(g, i) - df) <= 1e-4 * (1 + abs(df) + abs(cm.el(g, i)) + abs(f)), "gradient is the derivative of the functional")
        for i in range(size):
            for j in range(size):
                if I.symbolic:
                    I.check_eq(cm.el(H, i, j), I.derivative(cm.el(g, i), l[j]), "Hessian is the derivative of the gradient")
                else:
                    dg = num(lambda t: jac(shift(lam, j, t))[i])
                    I.check(abs(cm.el(H, i, j) - dg) <= 1e-4 * (1 + abs(dg) + np.max(np.abs(H))), "Hessian is the derivative of the gradient")
                I.check_eq(cm.el(H, i, j), cm.el(H, j, i), "Hessian is symmetric", tol=1e-9)
        v = I.reals("v", (size,), -1, 1)
        quad, sos = 0.0, 0.0
        for i in range(size):
            for j in range(size):
                quad = quad + cm.el(v, i) * cm.el(H, i, j) * cm.el(v, j)
        for p, w in q.nodes():
            t = dn.lincomb(I, mom.row(p), [cm.el(v, i) for i in range(size)], sg)
            sos = sos + w * rho[p] * t * t
        I.check_eq(quad, sos, "quadratic form of the Hessian is a sum of squares with positive weights", tol=1e-6)
        raise Done
    dn.minimiser(I, body)
    try:
        d.estimate_density_minimize(tol=1e-5)
        I.check(False, "the minimiser is called")
    except Done:
        pass


def shift(lam, i, t):
    x = np.array(lam, dtype=float)
    x[i] += t
    return x


def num(f, h=1e-4):
    return (f(h) - f(-h)) / (2 * h)


def run_density(I, size, n):
    """density at any points, multipliers also beyond the safe range"""
    from mlmc.tool import simple_distribution as sd
    I.inverse_division()
    dn.Quadrature(I, (0.0, 1.0), (0.0,))
    mom = dn.Moments(I, size, (0.0, 1.0), 3)
    mu, sg, md = dn.data(I, size, 0.4, 10, 3)
    lam = I.reals("l", (size,), -10000, 10000)
    dn.minimiser(I, lambda fun, jac, hess, x0, options: dn.Result(x=I.array(np.array(list(lam), dtype=object)), jac=jac(x0), success=True, nit=1, message=""))
    d = sd.SimpleDistribution(mom, md, domain=mom.domain)
    I.stub("numpy.linalg.eigvalsh", lambda a, *x, **k: I.array(np.array([1.0] * size, dtype=object)))
    I.stub("numpy.linalg.norm", lambda v, *a, **k: 0.5)
    d.estimate_density_minimize(tol=1e-5)
    l = [cm.el(d.multipliers, i) for i in range(size)]
    xs = [0.1 + 0.2 * i for i in range(n)]
    got = d.density(np.array(xs))
    I.check(got.shape == (n,), "one value per point")
    for k in range(n):
        p = -dn.lincomb(I, mom.row(xs[k]), l, sg)
        p = I.ite(p < -200, -200.0, I.ite(p > 200, 200.0, p))
        I.check(cm.el(got, k) >= 0, "density is not negative")
        lg = I.fn("log", cm.el(got, k))
        I.check_eq(lg, p, "logarithm of the density is the limited combination of moments", tol=1e-6)


def cases(tier):
    cs = []
    T = tier == "thorough"
    for name, size, cuts, pts in (("m2_i1", 2, (0.0, 1.0), (-0.5, 0.5)), ("m2_i2", 2, (0.0, 0.25, 1.0), (-0.5, 0.5)),
                                  ("m3_i1", 3, (0.0, 1.0), (-0.5, 0.5)), ("m1", 1, (0.0, 1.0), (-0.5, 0.5))) + (
            (("m3_i2", 3, (0.0, 0.25, 1.0), (-0.5, 0.5)), ("m4_i1", 4, (0.0, 1.0), (-0.5, 0.5)),) if T else ()):
        cs.append(dict(name=name, run=run, params=dict(size=size, cuts=cuts, pts=pts), time_s=200 if not T else 900))
    cs.append(dict(name="density2", run=run_density, params=dict(size=2, n=2), time_s=150))
    cs.append(dict(name="density3", run=run_density, params=dict(size=3, n=1), time_s=150))
    return cs
