"""C16: sample allocation formula."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator"]
META = dict(
    bounds="1..3 levels, 1..3 moments (product <= 4 in quick), all positive costs and targets, all non-negative variances (inputs are squares a^2, c^2 of reals, no loss of generality)",
    outside="more levels or moments; ties of rounding in floating point",
    stubs=["sqrt is the exact non-negative root"], assumptions=["costs and target variance positive, variances non-negative"],
    limit_s=dict(quick=500, thorough=3000))


def inputs(I, L, M, tag="", zero=()):
    a = [[I.real("a%s%d_%d" % (tag, l, m), 0, 1000) if (l, m) not in zero else 0.0 for m in range(M)] for l in range(L)]
    c = [I.real("c%s%d" % (tag, l), None, 1000) for l in range(L)]
    for x in c:
        I.assume(x > 0.0009)
    for l in range(L):
        I.hint("sqrt", c[l] * c[l], c[l])
        for m in range(M):
            if (l, m) in zero:
                continue
            I.hint("sqrt", a[l][m] * a[l][m], a[l][m])
            I.hint("sqrt", a[l][m] * a[l][m] * c[l] * c[l], a[l][m] * c[l])
            I.hint("sqrt", a[l][m] * a[l][m] / (c[l] * c[l]), a[l][m] / c[l])
    V = I.array([[a[l][m] * a[l][m] for m in range(M)] for l in range(L)])
    C = I.array([x * x for x in c])
    t = I.real("t" + tag, None, 1000)
    I.assume(t > 0.0009)
    return a, c, V, C, t


def oracle(I, a, c, t, L, M, l, eps=0.0):
    best = None
    for m in range(M):
        tot = 0.0
        for k in range(L):
            tot = tot + a[k][m] * c[k]
        x = a[l][m] / c[l] * tot / t * (1.0 + eps)
        n = I.rint(x)
        cap = a[l][m] * a[l][m] * L / t * (1.0 + eps)
        n = I.ite(n <= cap, n, cap)
        n = I.ite(n >= 2, n, 2)
        best = n if best is None else I.ite(best >= n, best, n)
    return I.trunc(best)


def run(I, L, M):
    from mlmc.estimator import estimate_n_samples_for_target_variance as f
    a, c, V, C, t = inputs(I, L, M)
    r = f(t, V, C, L)
    I.check(len(r) == L, "one count per level")
    for l in range(L):
        n = cm.el(r, l)
        I.check(n >= 2, "never below 2")
        if I.symbolic:
            I.check_same(n, oracle(I, a, c, t, L, M, l), "allocation formula")
        else:
            I.check(oracle(I, a, c, t, L, M, l, -1e-9) <= n <= oracle(I, a, c, t, L, M, l, 1e-9), "allocation formula")


def run_zero(I, L, M):
    """adding a zero-variance (constant) moment, in any position, changes nothing; order of moments is irrelevant"""
    from mlmc.estimator import estimate_n_samples_for_target_variance as f
    a, c, V, C, t = inputs(I, L, M)
    r = f(t, V, C, L)
    V0 = I.array([[0.0] + [cm.el(V, l, m) for m in range(M)] for l in range(L)])
    r0 = f(t, V0, C, L)
    Vp = I.array([[cm.el(V, l, m) for m in reversed(range(M))] for l in range(L)])
    rp = f(t, Vp, C, L)
    I.check_same(r0, r, "zero-variance moment is neutral")
    I.check_same(rp, r, "order of moments is irrelevant")


def run_mono(I, L):
    from mlmc.estimator import estimate_n_samples_for_target_variance as f
    a, c, V, C, t = inputs(I, L, 1)
    d = I.real("d", None, 100)
    I.assume(d > 1)
    r1 = f(t, V, C, L)
    r2 = f(t * d, V, C, L)
    for l in range(L):
        I.check(cm.el(r1, l) >= cm.el(r2, l), "lower target never needs fewer samples")


def cases(tier):
    cs = []
    for L, M in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1)) + (((3, 2), (4, 1), (2, 3)) if tier == "thorough" else ()):
        cs.append(dict(name="formula_L%d_M%d" % (L, M), run=run, params=dict(L=L, M=M), time_s=300 if tier == "quick" else 1500, query_ms=120000))
    cs.append(dict(name="neutral_L2_M1", run=run_zero, params=dict(L=2, M=1), time_s=200))
    cs.append(dict(name="neutral_L1_M2", run=run_zero, params=dict(L=1, M=2), time_s=200))
    cs.append(dict(name="mono_L1", run=run_mono, params=dict(L=1), time_s=200))
    if tier == "thorough":
        cs.append(dict(name="neutral_L2_M2", run=run_zero, params=dict(L=2, M=2), time_s=1200))
        cs.append(dict(name="mono_L2", run=run_mono, params=dict(L=2), time_s=1200))
    return cs
