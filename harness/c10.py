"""C10: coarse part of a level is the fine part of the previous level; seeds depend on the sample id alone."""
import os, pickle, hashlib
import numpy as np
from . import common as cm

MODULES = ["mlmc.sampler", "mlmc.sample_storage", "mlmc.sampling_pool", "mlmc.sim.synth_simulation", "mlmc.level_simulation"]
META = dict(
    bounds="level construction: 1..4 levels, 1..2 parameters per level, all positive values; synthetic simulations: formats with 1..2 quantities, 1..2 times, 1..3 locations, 1..2 entries, all steps > 0, all real random inputs; seeds: all orders of scheduling 3 samples over 2 levels in 2 pools",
    outside="quality of the random generator (C29)",
    stubs=["random distribution: every draw is an arbitrary real vector, a function of the generator state only", "multiprocessing pools: submitted work is run in process"],
    assumptions=[], limit_s=dict(quick=500, thorough=2000))


def run_levels(I, L, width):
    from mlmc.sampler import Sampler
    from mlmc.sample_storage import Memory
    rec = []
    fmt = [cm.spec()]
    sim = cm.make_sim(fmt, record=rec)
    p = [[I.real("p%d_%d" % (l, k), 1e-9, 1) for k in range(width)] for l in range(L)]
    pool = cm.RecPool()
    s = Sampler(sample_storage=Memory(), sampling_pool=pool, sim_factory=sim, level_parameters=[list(x) for x in p])
    s.set_level_target_n_samples([1] * L)
    s.schedule_samples()
    I.check(len(pool.calls) == L, "one sample per level submitted")
    for sid, lsim in pool.calls:
        l = lsim._level_id
        I.check(sid.startswith("L%02d" % l), "level of the submitted simulation")
        I.check_same(lsim.config_dict["fine"], p[l], "fine parameters of level")
        coarse = lsim.config_dict["coarse"]
        if l == 0:
            I.check(all(bool(x == 0) for x in coarse), "no coarse part on level 0")
        else:
            I.check_same(coarse, p[l - 1], "coarse parameters of level l are the fine ones of l-1")
        I.check(lsim._calculate is sim.calculate or lsim._calculate == sim.calculate, "calculation method of the simulation")
        f = lsim._result_format() if callable(lsim._result_format) else lsim._result_format
        I.check(len(f) == 1 and f[0].name == fmt[0].name, "result format of the simulation")


class FakeDistr:
    """draws are arbitrary reals, a function of the generator state and the position in its stream"""

    def __init__(self, I):
        self.I = I
        self.random_state = None
        self.calls = []

    def _key(self):
        rs = self.random_state
        k = hashlib.sha256(pickle.dumps(rs)).hexdigest()[:8] if rs is not None else "global"
        n = sum(1 for o in self.calls if o is rs)
        self.calls.append(rs)
        return "x_%s_%d" % (k, n)

    def rvs(self, size=1, random_state=None, **kw):
        if random_state is not None:
            self.random_state = random_state if not isinstance(random_state, (int, np.integer)) else np.random.RandomState(random_state)
        key = self._key()
        n = int(np.prod(size))
        return self.I.reals(key, n, -1000, 1000).reshape(size if isinstance(size, tuple) else (n,))

    def __deepcopy__(self, memo):
        return self

    def __call__(self, *a, **k):
        return self


def formats(nq, shape, nt, nl):
    from mlmc.quantity.quantity_spec import QuantitySpec
    return [QuantitySpec(name="q%d" % q, unit="m", shape=shape, times=[float(t + 1) for t in range(nt)],
                         locations=["l%d" % k for k in range(nl)]) for q in range(nq)]


def run_synth(I, kind, nq, shape, nt, nl, L):
    import mlmc.sim.synth_simulation as ss
    fmt = formats(nq, shape, nt, nl)
    d = FakeDistr(I)
    if kind == "plain":
        class Sim(ss.SynthSimulation):
            def result_format(self):
                return fmt
        sim = Sim(dict(distr=d, complexity=2, nan_fraction=0))
    else:
        class Sim(ss.SynthSimulationWorkspace):
            def result_format(self):
                return fmt

        class Stats:
            norm = d

            def __getattr__(self, k):
                return d
        I.patch(ss, "stats", Stats())
        w = I.tmp()
        open(os.path.join(w, "synth_sim_config.yaml"), "w").write("distr: norm\ncomplexity: 2\nnan_fraction: 0\n")
        sim = Sim(dict(config_yaml=os.path.join(w, "synth_sim_config.yaml")))
        cwd = os.getcwd()
        os.chdir(w)
    steps = [I.real("h%d" % l, 1e-6, 1) for l in range(L)]
    equal = I.flag("equal_steps")
    if equal:
        steps = [steps[0]] * L
    seed = [11, 12]
    try:
        ls = [sim.level_instance([steps[l]], [steps[l - 1] if l else 0]) for l in range(L)]
        out = {}
        order = [(l, s) for l in range(L) for s in seed]
        if I.flag("reverse_order"):
            order.reverse()
        for l, s in order:
            out[l, s] = sim.calculate(ls[l].config_dict, s)
    finally:
        if kind != "plain":
            os.chdir(cwd)
    M = nq * shape[0] * shape[1] * nt * nl
    for (l, s), (f, c) in out.items():
        I.check(f.shape == (M,) and c.shape == (M,), "length of the results")
        if l:
            pf = out[l - 1, s][0]
            I.check_eq(c, pf, "coarse result equals fine result of the previous level", tol=1e-9)
        if equal and l:
            I.check_eq(f, c, "fine and coarse use the same random input", tol=1e-9)
    # different seeds: different random inputs
    I.check(len({id(x) for x in d.calls}) >= 2, "every sample draws from its own generator")


def run_seed(I, n):
    import mlmc.sampling_pool as sp
    from mlmc.level_simulation import LevelSimulation
    got = {}

    class Rec:
        def __init__(self, log):
            self.log = log

        def __call__(self, cfg, seed):
            self.log.append((cfg["level"], int(seed)))
            return np.array([1.0]), np.array([0.0])

    class FakePool:
        def __init__(self, *a, **k):
            pass

        def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
            callback(func(*args, **kwds))

    I.patch(sp, "ProcPool", FakePool)
    ids = [cm.tag(I.cint("lv%d" % k, 0, 1), I.cint("no%d" % k, 0, 1) * 7 + k) for k in range(n)]
    seeds = []
    for pool_kind in ("one", "process"):
        perm = list(range(n))
        if I.flag("reverse_%s" % pool_kind):
            perm.reverse()
        np.random.seed(5 if pool_kind == "one" else 6)
        pool = sp.OneProcessPool() if pool_kind == "one" else sp.ProcessPool(2)
        res = {}
        for k in perm:
            log = []
            l = int(ids[k][1:3])
            sim = LevelSimulation(config_dict=dict(level=l), task_size=1)
            sim._level_id = l
            sim._calculate = Rec(log)
            sim._result_format = lambda: [cm.spec()]
            pool.schedule_sample(ids[k], sim)
            I.check(len(log) == 1, "simulation called once per sample")
            res[k] = log[0][1]
        seeds.append(res)
    I.check(seeds[0] == seeds[1], "seed depends on the id alone (same in all pools, any order)")
    for k in range(n):
        I.check(seeds[0][k] == int(sp.SamplingPool.compute_seed(ids[k])), "seed reaches the simulation unchanged")
        I.check(0 <= seeds[0][k] < 2 ** 32, "seed is a valid 32 bit seed")
    for a in range(n):
        for b in range(a):
            if ids[a] != ids[b]:
                I.check(seeds[0][a] != seeds[0][b], "nearby ids get different seeds")


def cases(tier):
    cs = []
    for L, w in ((1, 1), (2, 1), (3, 2), (4, 1)):
        cs.append(dict(name="levels_L%d_w%d" % (L, w), run=run_levels, params=dict(L=L, width=w), time_s=100))
    for kind in ("plain", "workspace"):
        for k, (nq, shape, nt, nl, L) in enumerate([(1, (1, 1), 1, 1, 2), (2, (2, 1), 2, 2, 2), (1, (1, 2), 1, 3, 3)]):
            cs.append(dict(name="synth_%s_%d" % (kind, k), run=run_synth, params=dict(kind=kind, nq=nq, shape=shape, nt=nt, nl=nl, L=L), time_s=200))
    cs.append(dict(name="seed_3", run=run_seed, params=dict(n=3), time_s=200))
    if tier == "thorough":
        cs.append(dict(name="synth_plain_big", run=run_synth, params=dict(kind="plain", nq=2, shape=(2, 2), nt=3, nl=3, L=4), time_s=900))
        cs.append(dict(name="seed_4", run=run_seed, params=dict(n=4), time_s=900))
    return cs
