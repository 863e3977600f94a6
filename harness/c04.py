"""C04: scheduling submits exactly the missing samples under unique, recorded ids."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.sampler", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="1..3 levels, histories of 3 steps (4 in thorough) out of: raise targets, set explicit targets, schedule, restart with a new sampler (and reopened file) on the same storage; targets 0..3 per level (0..9 on one level, 0..6 on two; also on top of up to 1000 samples scheduled by an earlier process; 11 levels with fixed targets)",
    outside="larger targets and longer histories",
    stubs=["sampling pool: recording stand-in with the real interface, all samples finish at the next poll or stay running"],
    assumptions=[], limit_s=dict(quick=500, thorough=3000))


def run(I, L, backend, plan, hi, pre=None):
    from mlmc.sampler import Sampler
    from mlmc.sample_storage import Memory
    sim = cm.make_sim()
    params = cm.lparams(L)
    pools = []

    def new_sampler(st):
        pool = cm.RecPool()
        pools.append(pool)
        return Sampler(sample_storage=st, sampling_pool=pool, sim_factory=sim, level_parameters=params)

    if backend == "file":
        import os
        from mlmc.sample_storage_hdf import SampleStorageHDF
        path = os.path.join(I.tmp(), "mlmc.hdf5")
        st = SampleStorageHDF(file_path=path)
    else:
        st = Memory()
    if pre:
        # samples scheduled by an earlier process
        st.save_global_data(level_parameters=params, result_format=sim.result_format())
        for l in range(L):
            st.save_scheduled_samples(l, [cm.tag(l, i) for i in range(pre[l])])
        if backend == "file":
            st = SampleStorageHDF(file_path=path)
    s = new_sampler(st)
    pre = pre or [0] * L
    need = list(pre)            # submitted so far
    target = [0] * L
    for k, step in enumerate(plan):
        if step == "raise":
            n = [I.int("t%d_%d" % (k, l), pre[l] and pre[l] - 1, pre[l] + hi) for l in range(L)]
            s.set_level_target_n_samples(n)
            target = [cmax(I, a, b) for a, b in zip(target, n)]
        elif step == "init":
            n = [I.int("i%d_%d" % (k, l), 0, hi) for l in range(L)]
            s.set_initial_n_samples([I.conc(x) for x in n])
            target = list(n)
        elif step == "fixed":       # different counts on many levels
            n = [(5 * l + 3 * k) % 4 for l in range(L)]
            s.set_initial_n_samples(n)
            target = list(n)
        elif step == "schedule":
            s.schedule_samples()
            need = [cmax(I, a, b) for a, b in zip(need, target)]
        elif step == "restart":
            if backend == "file":
                st = SampleStorageHDF(file_path=path)
            s = new_sampler(st)
            target = [0] * L
        elif step == "poll":
            s.ask_sampling_pool_for_samples()
    calls = [c for p in pools for c in p.calls]
    ids = [c[0] for c in calls]
    I.check(len(set(ids)) == len(ids), "no id submitted twice")
    sched = st.load_scheduled_samples()
    for l in range(L):
        mine = [c for c in calls if c[1]._level_id == l]
        I.check(need[l] == len(mine) + pre[l], "submitted samples equal the largest scheduled target")
        I.check(sorted(int(c[0][-7:]) for c in mine) == list(range(pre[l], pre[l] + len(mine))), "ids numbered consecutively from 0")
        I.check(sorted(sched.get(l, [])) == sorted([cm.tag(l, i) for i in range(pre[l])] + [c[0] for c in mine]), "every submitted id recorded on its level")
        I.check(all(c[1].config_dict["fine"] == params[l] for c in mine), "simulation object of its own level")


def cmax(I, a, b):
    return I.ite(a >= b, a, b)


def cases(tier):
    cs = []

    def add(L, backend, plan, hi, t=200, pre=None):
        cs.append(dict(name="%s_L%d_%s_hi%d" % (backend, L, "-".join(p[:3] for p in plan), hi) + ("_pre" if pre else ""), run=run,
                       params=dict(L=L, backend=backend, plan=plan, hi=hi, pre=pre), time_s=t))
    R, N, S, X, P, F = "raise", "init", "schedule", "restart", "poll", "fixed"
    add(1, "memory", [R, S, R, S], 3)
    add(3, "memory", [N, S, R, S], 1)
    add(2, "memory", [R, S, R, P, S], 2)
    add(3, "memory", [N, S, N, S], 1)
    add(2, "memory", [R, S, X, R, S], 2)
    add(2, "file", [R, S, X, R, S], 2)
    add(1, "file", [R, S, X, R, S, R, S], 2)
    add(3, "file", [N, S, X, N, S], 1)
    add(3, "memory", [N, R, S], 2)
    add(1, "memory", [R, R, S, R, S], 5)
    add(1, "memory", [R, S, R, S], 9)
    add(2, "memory", [R, S], 6)
    add(2, "file", [R, S, X, R, S], 1, pre=[12, 0])
    add(2, "memory", [R, S], 3, pre=[1000, 11])
    add(11, "memory", [F, S, X, F, S], 3)
    if tier == "thorough":
        add(2, "memory", [R, S, R, S, R, S], 3, t=1000)
        add(2, "file", [R, S, X, R, S, X, R, S], 2, t=1000)
        add(3, "file", [N, S, X, R, S], 2, t=1000)
        add(2, "file", [R, S, R, X, R, S], 3, t=1000)
    return cs
