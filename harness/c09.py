"""C09: renewing failed samples resubmits exactly the failed samples."""
import os
from . import common as cm
import numpy as np

MODULES = ["mlmc.sampler", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="1..3 levels with 0..3 samples each (and twelve levels with up to 2 samples, where those of levels 1, 10 and 11 may fail), every pattern of success/failure of every sample at each of up to 3 attempts, 1..3 renewals, with and without restart (new sampler, reopened file) before a renewal; all result values",
    outside="more samples per level; memory storage (it offers no renewal)",
    stubs=["sampling pool: recording stand-in with the real interface; h5py datasets carry symbolic values as tokens"],
    assumptions=[], limit_s=dict(quick=500, thorough=3000))


def run(I, counts, attempts, restart, fixed=None, free=None):
    from mlmc.sampler import Sampler
    from mlmc.sample_storage_hdf import SampleStorageHDF
    L = len(counts)
    path = os.path.join(I.tmp(), "mlmc.hdf5")
    st = SampleStorageHDF(file_path=path)
    tries = {}
    outcomes = {}

    def outcome(sid, sim):
        k = tries.get(sid, 0)
        tries[sid] = k + 1
        if fixed is not None and k < len(fixed):
            ok = fixed[k][int(sid[-1])]
        elif free is not None and sim._level_id not in free:
            ok = True
        else:
            ok = I.flag("ok_%s_%d" % (sid, k))
        if ok:
            o = ("ok", None, None)
        else:
            o = ("fail", "error %d of %s" % (k, sid))
        outcomes[sid] = ok
        return o

    class Pool(cm.RecPool):
        def get_finished(self):
            succ, fail = {}, {}
            for sid, sim in self.pending:
                o = outcome(sid, sim)
                l = sim._level_id
                if o[0] == "ok":
                    f = I.datas("f_%s" % sid, 1)
                    c = I.datas("c_%s" % sid, 1) if l else I.array([0.0])
                    succ.setdefault(l, []).append((sid, (f, c)))
                    order[l].append((sid, cm.el(f, 0), cm.el(c, 0)))
                else:
                    fail.setdefault(l, []).append((sid, o[1]))
            self.pending = []
            return succ, fail, 0, []

    order = {l: [] for l in range(L)}
    sim = cm.make_sim()
    pool = Pool()
    s = Sampler(sample_storage=st, sampling_pool=pool, sim_factory=sim, level_parameters=cm.lparams(L))
    s.set_level_target_n_samples(list(counts))
    s.schedule_samples()
    s.ask_sampling_pool_for_samples()
    ids = {l: [cm.tag(l, i) for i in range(counts[l])] for l in range(L)}
    allids = [i for l in range(L) for i in ids[l]]

    def state(renewing, label):
        sched = st.load_scheduled_samples()
        fs = st.failed_samples()
        for l in range(L):
            I.check(sorted(sched.get(l, [])) == ids[l], label + "scheduled ids untouched")
            failed = [i for i in ids[l] if not outcomes[i] and not renewing]
            I.check(sorted(fs.get(str(l), [])) == failed, label + "failed ids")
        unf = [i for i in allids if not outcomes[i]] if renewing else []
        I.check(sorted(st.unfinished_ids()) == sorted(unf), label + "unfinished ids")
        nf = list(st.n_finished())
        nc = list(st.get_n_collected())
        pairs = st.sample_pairs()
        for l in range(L):
            n_ok = sum(1 for i in ids[l] if outcomes[i])
            I.check(nf[l] == (n_ok if renewing else len(ids[l])), label + "number of finished samples")
            I.check(nc[l] == n_ok, label + "number of collected samples")
            if n_ok:
                p = pairs[l]
                I.check(p.shape[1] == n_ok, label + "number of stored pairs")
                got = [[cm.el(p, 0, i, k) for k in range(2 if l else 1)] for i in range(p.shape[1])]
                I.check_same(got, [list(o[1:3] if l else o[1:2]) for o in order[l]], label + "successful results kept, each once")

    state(False, "before renewal: ")
    for a in range(attempts):
        if restart and a == attempts - 1:
            st = SampleStorageHDF(file_path=path)
            s = Sampler(sample_storage=st, sampling_pool=pool, sim_factory=sim, level_parameters=cm.lparams(L))
        want = [(i, l) for l in range(L) for i in ids[l] if not outcomes[i]]
        n0 = len(pool.calls)
        s.renew_failed_samples()
        new = pool.calls[n0:]
        I.check(sorted((c[0], c[1]._level_id) for c in new) == sorted(want), "exactly the failed samples resubmitted, on their level")
        I.check(all(c[1].config_dict["fine"] == cm.lparams(L)[c[1]._level_id] for c in new), "with the simulation of their level")
        state(True, "while renewed samples run: ")
        s.ask_sampling_pool_for_samples()
        state(False, "after renewal: ")
    if attempts:
        n0 = len(pool.calls)
        s.set_level_target_n_samples([c + 1 for c in counts])
        s.schedule_samples()
        I.check([c[0] for c in pool.calls[n0:]] == [cm.tag(l, counts[l]) for l in range(L)], "new samples after renewal get fresh ids")


def cases(tier):
    cs = []

    def add(counts, attempts, restart=False, t=200, free=None):
        cs.append(dict(name="n%s_a%d%s" % ("".join(map(str, counts)), attempts, "_r" if restart else ""), run=run,
                       params=dict(counts=counts, attempts=attempts, restart=restart, free=free), time_s=t))
    add((2, 1), 1)
    add((1, 2), 2, True)
    add((0, 1, 1), 1)
    add((1, 1, 1), 1, True)
    add((3,), 2)
    add((2, 2), 1)
    add((1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 2, 1), 1, False, 300, free=(1, 10, 11))
    if tier == "thorough":
        add((2, 2), 2, True, 900)
        add((3, 2), 1, False, 900)
        add((1, 2), 3, False, 900)
        add((2, 1, 2), 2, True, 1200)
    return cs
