"""C17: level parameters and initial sample counts form the requested geometric series."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator", "mlmc.sampler", "mlmc.sample_storage", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="1..5 levels (1..7 in thorough); every step range s0 > s1 > 0 in (1e-6, 1e3]; every pair of integer counts 1..10^6 (10^9 in thorough), one number, default, or a full vector",
    outside="more levels; rounding of double precision powers (replayed with tolerance 1e-9)",
    stubs=["x ** (p/q), log2, exp2 are the exact real functions"], assumptions=["steps and counts are positive"],
    limit_s=dict(quick=300, thorough=2000))


def geo(A, B, q, i):
    r = 1.0
    for _ in range(q - i):
        r = r * A
    for _ in range(i):
        r = r * B
    return r


def run_steps(I, fname, n):
    from mlmc import estimator
    s0 = I.real("s0", None, 1000)
    s1 = I.real("s1", None, 1000)
    I.assume(s1 > 1e-6)
    I.assume(s0 > s1)
    q = max(n - 1, 1)
    A, B = (I.fn("root%d" % q, s0), I.fn("root%d" % q, s1)) if q > 1 else (s0, s1)
    if q > 1:
        I.hint("root%d" % q, s1 / s0, B / A)
        I.hint("root%d" % q, s0 / s1, A / B)
    if fname == "calc_level_params":
        r = estimator.calc_level_params([s0, s1], n)
    else:
        r = estimator.determine_level_parameters(n_levels=n, step_range=(s0, s1))
    I.check(len(r) == n and all(len(x) == 1 for x in r), "one parameter list per level")
    v = [x[0] for x in r]
    if n == 1:
        I.check_eq(v[0], s1, "single level uses the finest step", tol=1e-9)
        return
    for i in range(n):
        x = geo(A, B, q, i)
        d = v[i] - x
        I.check(I.both(d <= 1e-9 * x, d >= -1e-9 * x), "geometric series of steps")
    for i in range(n - 1):
        I.check(v[i + 1] < v[i], "steps decrease")
    I.check(I.both(v[0] - s0 <= 1e-9 * s0, s0 - v[0] <= 1e-9 * s0), "first is the coarsest")
    I.check(I.both(v[n - 1] - s1 <= 1e-9 * s1, s1 - v[n - 1] <= 1e-9 * s1), "last is the finest")


def run_counts(I, api, n, form, top):
    from mlmc import estimator
    last = 3 if api == "estimator" else 10
    n0, nL = 100, last
    if form == "two":
        n0, nL = I.int("n0", 1, top), I.int("nL", 1, top)
        arg = [n0, nL]
    elif form == "one":
        n0 = I.int("n0", 1, top)
        arg = [n0]
    elif form == "scalar":
        n0 = I.int("n0", 1, top)
        arg = n0
    elif form == "full":
        arg = [I.int("m%d" % i, 0, top) for i in range(n)]
    else:
        arg = None
    q = max(n - 1, 1)
    if q > 1 and form != "full":
        A, B = I.fn("root%d" % q, n0), I.fn("root%d" % q, nL)
        I.hint("root%d" % q, nL * 1.0 / n0, B / A)
        I.hint("root%d" % q, n0 * 1.0 / nL, A / B)
    else:
        A, B = n0 * 1.0, nL * 1.0
    if arg is not None and form != "scalar":
        arg = I.array(arg) if I.symbolic else np.array(arg)
    if api == "estimator":
        r = estimator.determine_n_samples(n) if arg is None else estimator.determine_n_samples(n_levels=n, n_samples=arg)
    else:
        from mlmc.sampler import Sampler
        from mlmc.sample_storage import Memory
        s = Sampler(sample_storage=Memory(), sampling_pool=cm.RecPool(), sim_factory=cm.make_sim(), level_parameters=cm.lparams(n))
        if api == "range":
            r = s.sample_range(n0, nL)
        else:
            s.set_initial_n_samples() if arg is None else s.set_initial_n_samples(arg)
            r = s._n_target_samples
    I.check(len(r) == n, "one count per level")
    v = [cm.el(r, i) for i in range(n)]
    if form == "full":
        for i in range(n):
            I.check(v[i] == arg[i], "full vector is used unchanged")
        return
    for i in range(n):
        x = geo(A, B, q, i)
        if I.symbolic:
            I.check_same(v[i], I.rint(x), "geometric sequence of counts")
        else:
            I.check(v[i] == int(v[i]) and abs(v[i] - x) <= 0.5 + 1e-9 * x, "geometric sequence of counts")
    I.check(v[0] == n0, "first count exact")
    if n > 1:
        I.check(v[n - 1] == nL, "last count exact")
    for i in range(n - 1):
        I.check(I.any(n0 < nL, v[i + 1] <= v[i]), "counts never increase towards finer levels")


def cases(tier):
    cs = []
    N = range(1, 6) if tier == "quick" else range(1, 8)
    top = 10 ** 6 if tier == "quick" else 10 ** 9
    for n in N:
        for f in ("calc_level_params", "determine_level_parameters"):
            cs.append(dict(name="%s_%d" % (f, n), run=run_steps, params=dict(fname=f, n=n), time_s=120))
        for api in ("estimator", "sampler", "range"):
            for form in (("two", "one", "scalar", "none", "full") if api != "range" else ("two",)):
                if form == "full" and n < 3:
                    continue
                cs.append(dict(name="counts_%s_%s_%d" % (api, form, n), run=run_counts,
                               params=dict(api=api, n=n, form=form, top=top), time_s=120))
    return cs
