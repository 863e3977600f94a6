"""C01: the estimated mean/variance is the telescoping MLMC estimator."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage"]
META = dict(
    bounds="levels 1..4 (and 11), samples per level 1..5 (with NaN: <=6 sample pairs in total), vector size 1..3, chunks per level 1..3; all real values, all NaN patterns",
    outside="more samples/levels/components than the bound; floating-point rounding",
    stubs=[], assumptions=[], limit_s=dict(quick=500, thorough=3000))


def run(I, ns, m, cuts, nan):
    import mlmc.quantity.quantity as q
    import mlmc.quantity.quantity_estimate as qe
    levels = [cm.level_data(I, "x", l, n, m, nan=nan) for l, n in enumerate(ns)]
    fmt = [cm.spec(shape=(m, 1))]
    st = cm.memory_with(levels, fmt) if cuts is None else cm.chunked_memory(levels, cuts, fmt)
    root = q.make_root_quantity(st, fmt)
    ref = cm.estimator_oracle(I, levels)
    if all(r["n"] == 0 for r in ref):
        I.check(I.raises(lambda: qe.estimate_mean(root)), "all samples removed: refused")
        return
    est = qe.estimate_mean(root)
    I.check_same([int(v) for v in est.n_samples], [r["n"] for r in ref], "used sample counts")
    I.check_same([int(v) for v in est.n_rm_samples], [r["rm"] for r in ref], "removed sample counts")
    for l, r in enumerate(ref):
        if r["n"] == 0:
            continue
        I.check_eq(est.l_means[l], r["mean"], "level mean")
        I.check_eq(est.l_vars[l], r["var"], "level variance")
    if all(r["n"] > 0 for r in ref):
        mean = [sum(r["mean"][k] for r in ref) for k in range(m)]
        I.check_eq(est.mean, mean, "mean")
        if all(r["n"] > 1 for r in ref):
            var = [sum(r["var"][k] / r["n"] for r in ref) for k in range(m)]
            I.check_eq(est.var, var, "estimator variance")
        else:
            I.check_eq(est.var, [float("inf")] * m, "estimator variance with a one-sample level")
    I.observe("mean", est.mean)


def cases(tier):
    cs = []

    def add(ns, m, cuts=None, nan=True, **k):
        cs.append(dict(name="ns%s_m%d_cuts%s_nan%d" % ("-".join(map(str, ns)), m, cuts, nan), run=run,
                       params=dict(ns=ns, m=m, cuts=cuts, nan=nan), time_s=k.get("t", 150)))
    add([3], 1)
    add([2], 2)
    add([2, 2], 1)
    add([1, 2], 1)
    add([3, 2], 1, cuts=[[1, 2], [2]])
    add([3, 3, 2], 2, nan=False)
    add([4, 3], 1, cuts=[[2, 2], [1, 1, 1]], nan=False)
    add([1, 1, 3], 1, nan=False)
    add([2, 2], 2, cuts=[[1, 1], [1, 1]])
    add([2], 3)
    add([1, 1], 3)
    add([5, 3], 1, cuts=[[1, 2, 2], [2, 1]], nan=False)
    add([2] * 11, 1, nan=False)
    add([3, 2, 2, 2], 3, nan=False)
    if tier == "thorough":
        add([3, 3], 1, t=900)
        add([2, 2, 2], 1, t=900)
        add([4, 2], 1, cuts=[[3, 1], [1, 1]], t=900)
        add([2, 2], 2, t=900)
        add([4, 4, 4], 2, nan=False, t=900)
        add([6, 5], 1, nan=False, cuts=[[1, 2, 3], [5]], t=900)
    return cs
