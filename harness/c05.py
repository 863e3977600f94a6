"""C05: adaptive adding of samples is monotone, bounded and makes progress."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.sampler", "mlmc.sample_storage", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="1..3 levels; current counts 0..10^6 and requirements 0..10^6 (arithmetic cases) or 0..6 / 0..12 with real scheduling (end-to-end cases); adding fractions 1/16, 1/8, 1/4, 1/2, 1 and the default",
    outside="other adding fractions; non-integer requirements",
    stubs=["sampling pool: recording stand-in, all samples finish at the next poll", "arithmetic cases: submission itself is replaced by a no-op"],
    assumptions=["requirements are integers, as the estimator produces"], limit_s=dict(quick=500, thorough=3000))


def expect(I, cur, est, coef, new, exact):
    """the statement, per level"""
    gap = est - cur
    I.check(new >= cur, "never lowers the scheduled count")
    I.check(new <= I.ite(cur >= est, cur, est), "never above the larger of count and requirement")
    I.check(I.any(est <= cur, new >= cur + 1), "progress where the requirement exceeds the count")
    if exact:
        small = est * coef > gap
        I.check(I.any(est < cur, b_not(I, small), new == est), "small remaining gap: schedules the requirement")
        # otherwise: cur + ceil(coef * gap)
        up = new - cur
        I.check(I.any(est < cur, small, I.both(up >= gap * coef, up < gap * coef + 1)), "adds the fraction of the gap, rounded up")
    else:
        up = new - cur
        I.check(I.any(est < cur, new == est, I.both(up >= gap * coef - 1e-6, up < gap * coef + 1 + 1e-6)),
                "adds the fraction of the gap, rounded up", robust=False)


def b_not(I, c):
    return (not c) if isinstance(c, (bool, np.bool_)) else ~c


def sampler(I, L, pool, st):
    from mlmc.sampler import Sampler
    return Sampler(sample_storage=st, sampling_pool=pool, sim_factory=cm.make_sim(), level_parameters=cm.lparams(L))


def run_arith(I, L, coef, hi, aslist):
    from mlmc.sample_storage import Memory

    class St(Memory):
        def n_finished(self):
            return np.array([1e9] * L)
    s = sampler(I, L, cm.RecPool(), St())
    if not (hasattr(s, "_n_scheduled_samples") and hasattr(s, "_n_target_samples")):
        return      # internal state not accessible: end-to-end cases decide
    cur = [I.int("cur%d" % l, 0, hi) for l in range(L)]
    est = [I.int("est%d" % l, 0, hi) for l in range(L)]
    a = I.array([c * 1.0 for c in cur])
    s._n_scheduled_samples = [c for c in cur] if aslist else a
    s._n_target_samples = I.array([c * 1.0 for c in cur])
    s.schedule_samples = lambda timeout=None: None
    e = I.array(est) if not I.symbolic else I.array(est)
    kw = {} if coef is None else dict(add_coeff=coef)
    done = s.process_adding_samples(e, **kw)
    new = [cm.el(s._n_target_samples, l) for l in range(L)]
    for l in range(L):
        expect(I, cur[l], est[l], 0.1 if coef is None else coef, new[l], coef is not None)
    complete = I.both(*[new[l] >= est[l] for l in range(L)])
    I.check(bool(complete) == bool(done), "completion reported exactly when nothing is missing")


def run_e2e(I, L, hi_cur, hi_est, coef, steps):
    from mlmc.sample_storage import Memory
    pool = cm.RecPool()
    s = sampler(I, L, pool, Memory())
    cur = [I.int("cur%d" % l, 1, hi_cur) for l in range(L)]
    s.set_level_target_n_samples(cur)
    s.schedule_samples()
    for k in range(steps):
        est = [I.int("est%d_%d" % (k, l), 0, hi_est) for l in range(L)]
        before = [len([1 for c in pool.calls if c[1]._level_id == l]) for l in range(L)]
        kw = {} if coef is None else dict(add_coeff=coef)
        done = s.process_adding_samples(I.array(est), **kw)
        after = [len([1 for c in pool.calls if c[1]._level_id == l]) for l in range(L)]
        for l in range(L):
            expect(I, before[l], est[l], 0.1 if coef is None else coef, after[l], coef is not None)
        complete = I.both(*[after[l] >= est[l] for l in range(L)])
        I.check(bool(complete) == bool(done), "completion reported exactly when nothing is missing")


def cases(tier):
    cs = []
    for L in (1, 2):
        for coef in (None, 0.0625, 0.25, 0.5, 1.0):
            cs.append(dict(name="arith_L%d_%s" % (L, coef), run=run_arith, params=dict(L=L, coef=coef, hi=10 ** 6, aslist=(coef == 0.25)), time_s=150))
    cs.append(dict(name="e2e_L1_default", run=run_e2e, params=dict(L=1, hi_cur=4, hi_est=12, coef=None, steps=1), time_s=200))
    cs.append(dict(name="e2e_L1_0.25", run=run_e2e, params=dict(L=1, hi_cur=3, hi_est=8, coef=0.25, steps=2), time_s=200))
    cs.append(dict(name="e2e_L2_0.5", run=run_e2e, params=dict(L=2, hi_cur=2, hi_est=5, coef=0.5, steps=1), time_s=200))
    if tier == "thorough":
        for coef in (None, 0.125, 0.5):
            cs.append(dict(name="arith_L3_%s" % coef, run=run_arith, params=dict(L=3, coef=coef, hi=10 ** 6, aslist=False), time_s=900))
        cs.append(dict(name="e2e_L2_default", run=run_e2e, params=dict(L=2, hi_cur=4, hi_est=12, coef=None, steps=1), time_s=1200))
        cs.append(dict(name="e2e_L1_0.25_3", run=run_e2e, params=dict(L=1, hi_cur=3, hi_est=10, coef=0.25, steps=3), time_s=1200))
    return cs
