"""C15: moment functions."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.moments"]
META = dict(
    bounds="Monomial, Fourier and Legendre moments, sizes 1..5 (thorough 8), scalar, one- and three-dimensional arrays of up to 4 values, symbolic domain (linear) and several fixed domains, reference domains default and shifted, log scale and safe evaluation on/off; every real value in and out of the domain (and NaN); derivatives up to order 2; transformed moments with symbolic matrices up to 3x3",
    outside="larger sizes; rounding of the domain map; B-spline moments",
    stubs=["cos, sin, log, exp: uninterpreted functions with axioms (monotone log/exp, exp(log x) = x)"],
    assumptions=["lower domain end below upper end; positive domain for log scale; positive values where log scale is used without safe evaluation"],
    limit_s=dict(quick=600, thorough=3000))


def make(fam, size, dom, log, safe, ref):
    import mlmc.moments as mm
    kw = dict(log=bool(log), safe_eval=safe)
    if ref is not None:
        kw["ref_domain"] = ref
    return getattr(mm, fam)(size, dom, **kw)


REF = dict(Monomial=(0, 1), Fourier=(0, 2 * np.pi), Legendre=(-1, 1))


def phi(I, fam, r, t):
    if fam == "Monomial":
        y = 1.0
        for _ in range(r):
            y = y * t
        return y
    if fam == "Fourier":
        if r == 0:
            return 1.0
        return I.fn("cos", t * ((r + 1) // 2)) if r % 2 else I.fn("sin", t * (r // 2))
    p0, p1 = 1.0, t
    if r == 0:
        return 1.0
    for n in range(1, r):
        p0, p1 = p1, (t * p1 * (2.0 * n + 1) - p0 * float(n)) / float(n + 1)
    return p1


def dphi(I, r, t, k):
    """k-th derivative of the Legendre polynomial r: polynomial coefficients by the recurrence, differentiated"""
    from fractions import Fraction as F
    a, b = [F(1)], [F(0), F(1)]
    if r == 0:
        b = a
    for n in range(1, r):
        c = [F(0)] * (n + 2)
        for i, x in enumerate(b):
            c[i + 1] += x * (2 * n + 1) / (n + 1)
        for i, x in enumerate(a):
            c[i] -= x * n / (n + 1)
        a, b = b, c
    for _ in range(k):
        b = [x * i for i, x in enumerate(b)][1:] or [F(0)]
    y = 0.0
    for x in reversed(b):
        y = y * t + I.scalar(float(x))
    return y


def domain(I, dom):
    if dom == "sym":
        d0, d1 = I.real("d0", -50, 50), I.real("d1", -50, 50)
        I.assume(d1 - d0 >= 0.01)
        return d0, d1
    return dom


def value(I, shape, log, nan=True, lo=-100, hi=100):
    lo = 0.001 if log is True else lo       # log="all": values outside the positive axis too
    if shape == "scalar":
        return I.real("x", lo, hi, nan)
    return I.reals("x", shape, lo, hi, nan)


def ref_values(I, x, shape, dom, log, ref):
    """list of (mapped value, inside) in C order"""
    d0, d1 = dom
    if log:
        l0, l1 = I.fn("log", d0), I.fn("log", d1)
    out = []
    for v in ([x] if shape == "scalar" else [cm.el(x, *i) for i in np.ndindex(*shape)]):
        if log == "all" and not bool(v > 0):
            out.append((v, v, False))
            continue
        y = I.fn("log", v) if log else v
        a, b = (l0, l1) if log else (d0, d1)
        t = (y - a) / (b - a) * (ref[1] - ref[0]) + ref[0]
        inside = I.both(v >= d0, v <= d1)
        out.append((t, v, inside))
    return out


def cmp_values(I, fam, got, rv, shape, size, safe, label, fn=None, tol=None):
    full = ((1,) if shape == "scalar" else tuple(shape)) + (size,)
    I.check(tuple(got.shape) == full, label + ": shape")
    if tuple(got.shape) != full:
        return
    for idx, (t, v, inside) in zip(np.ndindex(*full[:-1]), rv):
        nan = bool(I.is_nan(v))
        ins = (not nan) and (not safe or bool(inside))
        for r in range(size):
            g = cm.el(got, *(idx + (r,)))
            if ins and tol:
                w = fn(r, t)
                I.check(I.both(g - w <= tol, w - g <= tol), label + ": value of moment in the domain")
            elif ins:
                I.check_eq(g, (fn or phi_of(I, fam))(r, t), label + ": value of moment in the domain")
            elif r > 0 or fn is not None:
                if fn is None:
                    I.check(I.is_nan(g), label + ": NaN outside the domain")


def phi_of(I, fam):
    return lambda r, t: phi(I, fam, r, t)


def run_eval(I, fam, size, shape, dom, log, safe, ref=None, nan=True, lo=-100, hi=100):
    dm = domain(I, dom)
    rf = ref or REF[fam]
    m = make(fam, size, dm, log, safe, ref)
    x = value(I, shape, log, nan, lo, hi)
    rv = ref_values(I, x, shape, dm, log, rf)
    allv = m.eval_all(x)
    cmp_values(I, fam, allv, rv, shape, size, safe, "all moments")


def run_consistent(I, fam, size, shape, dom, log, safe, ref=None):
    """eval_all, call, smaller sizes, one moment, changed size"""
    dm = domain(I, dom)
    m = make(fam, size, dm, log, safe, ref)
    x = value(I, shape, log)
    allv = m.eval_all(x)
    I.check_eq(m(x), allv, "call equals eval_all")
    k = I.cint("k", 1, size)
    I.check_eq(m.eval_all(x, k), allv[..., :k], "fewer moments are the first ones")
    one = m.eval_single_moment(k - 1, x)
    I.check_eq(one, allv[..., k - 1], "single moment")
    ev = m.eval(k - 1, x)
    if k > 1:
        I.check_eq(ev, allv[..., k - 1], "one moment by eval")
    else:
        for e, a in zip(np.asarray(ev, dtype=object).reshape(-1), np.asarray(allv[..., 0], dtype=object).reshape(-1)):
            if not bool(I.is_nan(a)):
                I.check_eq(e, 1.0, "constant moment by eval")
    s2 = I.cint("s2", 1, size + 1)
    m2 = m.change_size(s2)
    I.check(type(m2) is type(m) and m2.size == s2 and tuple(m2.ref_domain) == tuple(m.ref_domain), "changed size: type, size and reference domain")
    I.check_eq(list(m2.domain), list(dm), "changed size: domain")
    c = min(s2, size)
    I.check_eq(m2.eval_all(x)[..., :c], allv[..., :c], "changed size: same functions")
    ref2 = make(fam, s2, dm, log, safe, ref).eval_all(x)
    I.check_eq(m2.eval_all(x), ref2, "changed size: all functions")
    I.check(m2 == make(fam, s2, dm, log, safe, ref), "changed size: equal to new moments of that size")


def run_map(I, fam, dom, log, ref=None):
    dm = domain(I, dom)
    rf = ref or REF[fam]
    m = make(fam, 3, dm, log, True, ref)
    ends = m.transform(I.array(list(dm)))
    I.check_eq(cm.el(ends, 0), rf[0], "lower domain end is mapped to the lower reference end")
    I.check_eq(cm.el(ends, 1), rf[1], "upper domain end is mapped to the upper reference end")
    x = I.real("x", 0.001 if log else -60, 60)
    I.assume(x >= dm[0])
    I.assume(x <= dm[1])
    t = m.transform(I.array([x]))
    I.check(I.both(cm.el(t, 0) >= rf[0], cm.el(t, 0) <= rf[1]), "domain is mapped to the reference domain", robust=False)
    I.check_eq(cm.el(m.inv_transform(t), 0), x, "inverse map undoes the map")


def run_der(I, size, shape, dom, transformed=False, lo=-2, hi=2):
    import mlmc.moments as mm
    m = mm.Legendre(size, dom, safe_eval=False)
    x = value(I, shape, False, nan=False, lo=lo, hi=hi)
    rv = ref_values(I, x, shape, dom, False, (-1, 1))
    k = I.cint("k", 1, size)
    d = I.cint("deg", 1, 2)
    cmp_values(I, None, m.eval_all_der(x, k, d), rv, shape, k, False, "derivative", fn=lambda r, t: dphi(I, r, t, d), tol=1e-9)
    cmp_values(I, None, m.eval_diff(x, k), rv, shape, k, False, "first derivative", fn=lambda r, t: dphi(I, r, t, 1))
    cmp_values(I, None, m.eval_diff2(x, k), rv, shape, k, False, "second derivative", fn=lambda r, t: dphi(I, r, t, 2))
    if k == size:
        I.check_eq(m.eval_diff(x), m.eval_diff(x, size), "default number of derivatives")
        I.check(tuple(m.eval_all_der(x).shape) == tuple(m.eval_diff(x).shape), "derivatives: default size and order")
        cmp_values(I, None, m.eval_all_der(x), rv, shape, k, False, "derivative", fn=lambda r, t: dphi(I, r, t, 1), tol=1e-9)


def run_transformed(I, fam, size, n, shape, dom):
    import mlmc.moments as mm
    m = make(fam, size, dom, False, True, None)
    A = I.reals("A", (n, size), -10, 10)
    T = mm.TransformedMoments(m, A)
    I.check(T.size == n, "number of transformed moments")
    x = value(I, shape, False)
    base = m.eval_all(x)
    k = I.cint("k", 1, n)

    def comb(base):
        return [[sum_([cm.el(A, r, s) * cm.el(base, *(idx + (s,))) for s in range(size)]) for r in range(k)] for idx in np.ndindex(*base.shape[:-1])]
    got = T.eval_all(x, k)
    I.check(tuple(got.shape) == tuple(base.shape[:-1]) + (k,), "transformed moments: shape")
    I.check_eq(got, I.array(np.array(comb(base), dtype=object).reshape(tuple(got.shape))), "transformed moments are the given combination")
    I.check_eq(T.eval_single_moment(k - 1, x), T.eval_all(x)[..., k - 1], "single transformed moment")
    if fam == "Legendre":
        for nm in ("eval_diff", "eval_diff2", "eval_all_der"):
            g = getattr(T, nm)(x, k)
            I.check_eq(g, I.array(np.array(comb(getattr(m, nm)(x)), dtype=object).reshape(tuple(g.shape))), "derivatives of transformed moments")


def sum_(xs):
    y = 0.0
    for x in xs:
        y = y + x
    return y


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t))
    F = ("Monomial", "Fourier", "Legendre")
    D = dict(Monomial=(-1.5, 2.5), Fourier=(0.5, 2.5), Legendre=(-3.0, 5.0))
    for f in F:
        add("eval_%s" % f, run_eval, fam=f, size=5, shape=(2,), dom=D[f], log=False, safe=True)
        add("eval_%s_even" % f, run_eval, fam=f, size=4, shape="scalar", dom=D[f], log=False, safe=True)
        add("eval_%s_one" % f, run_eval, fam=f, size=1, shape=(2,), dom=D[f], log=False, safe=True)
        add("eval_%s_3d" % f, run_eval, fam=f, size=3, shape=(2, 1, 2), dom=D[f], log=False, safe=False, nan=False)
        add("eval_%s_3ds" % f, run_eval, fam=f, size=3, shape=(1, 2, 1), dom=D[f], log=False, safe=True)
        add("eval_%s_symdom" % f, run_eval, fam=f, size=3 if f != "Fourier" else 2, shape=(1,), dom="sym", log=False, safe=True)
        add("eval_%s_ref" % f, run_eval, fam=f, size=3, shape=(1,), dom=D[f], log=False, safe=True, ref=(2, 5))
        add("eval_%s_log" % f, run_eval, fam=f, size=3, shape=(1,), dom=(0.5, 8.0), log=True, safe=True)
        add("eval_%s_logneg" % f, run_eval, fam=f, size=3, shape=(2,), dom=(0.5, 8.0), log="all", safe=True)
        add("eval_%s_lognc" % f, run_eval, fam=f, size=3, shape=(1,), dom=(0.5, 8.0), log=True, safe=False)
        for sh in ("scalar", (2,), (1, 2)):
            add("consistent_%s_%s" % (f, sh if sh == "scalar" else len(sh)), run_consistent, fam=f, size=3, shape=sh, dom=D[f], log=False, safe=True)
        add("consistent_%s_log" % f, run_consistent, fam=f, size=4, shape=(1,), dom=(0.5, 8.0), log=True, safe=True)
        add("consistent_%s_nc" % f, run_consistent, fam=f, size=3, shape=(1,), dom=D[f], log=False, safe=False, ref=(2, 5))
        add("map_%s" % f, run_map, fam=f, dom="sym", log=False)
        add("map_%s_ref" % f, run_map, fam=f, dom="sym", log=False, ref=(2, 5))
        add("map_%s_log" % f, run_map, fam=f, dom=(0.5, 8.0), log=True)
        add("transformed_%s" % f, run_transformed, fam=f, size=3, n=2, shape=(1,), dom=D[f])
        add("transformed_%s_3d" % f, run_transformed, fam=f, size=2, n=2, shape=(1, 2, 1), dom=D[f])
    for sh in ("scalar", (2,), (1, 2, 1)):
        add("derivatives_%s" % (sh if sh == "scalar" else len(sh)), run_der, size=5, shape=sh, dom=(-1.0, 3.0))
    if tier == "thorough":
        for f in F:
            add("eval_%s_8" % f, run_eval, fam=f, size=8, shape=(3,), dom=D[f], log=False, safe=True, t=900)
            add("eval_%s_symdom3" % f, run_eval, fam=f, size=4, shape=(2,), dom="sym", log=False, safe=True, t=900)
        add("derivatives_8", run_der, size=8, shape=(1,), dom=(-1.0, 3.0), t=900)
    return cs
