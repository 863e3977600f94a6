"""C25: cost per sample = total measured time of successful samples over their number."""
import os
import numpy as np
from . import common as cm
from symx import sched as S

MODULES = ["mlmc.sampling_pool", "mlmc.sampler", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="all three local pools with both storages; 1..3 levels, up to 4 samples, up to 3 rounds of scheduling with every distribution of completions over up to 3 polls per round; every outcome pattern (success, error, wrong number of values); arbitrary positive running times; file reopened; plus one result arriving at any point of the polling code (two threads)",
    outside="more samples and rounds; PBS pool (times come from job files); clock resolution (a sample shorter than one clock tick)",
    stubs=["clock: scripted, advanced by the simulation by a symbolic duration", "multiprocessing pools and locks: cooperative stand-ins (see C06)", "simulations return scripted outcomes"],
    assumptions=["every successful sample takes a positive time"], limit_s=dict(quick=600, thorough=2500))


class Clock:
    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now
    perf_counter = monotonic = process_time = time

    def sleep(self, s):
        pass


class Boom(Exception):
    pass


def use_clock(I, mod, clock):
    import types
    if isinstance(getattr(mod, "time", None), types.ModuleType):
        I.patch(mod, "time", clock)
    elif hasattr(mod, "time"):
        I.patch(mod, "time", clock.time)
    for n in ("perf_counter", "monotonic", "process_time"):
        if hasattr(mod, n):
            I.patch(mod, n, clock.time)


def make_sim(I, clock, outcome, dur):
    from mlmc.level_simulation import LevelSimulation
    from mlmc.sampling_pool import SamplingPool
    from mlmc.sim.simulation import Simulation
    seeds = {int(SamplingPool.compute_seed(sid)): sid for sid in outcome}

    class Sim(Simulation):
        def level_instance(self, fine_level_params, coarse_level_params=None):
            return LevelSimulation(config_dict={}, task_size=1)

        @staticmethod
        def calculate(config, seed):
            sid = seeds[int(seed)]
            clock.now = clock.now + dur[sid]
            if outcome[sid] == "raise":
                raise Boom(sid)
            k = 2 if outcome[sid] == "len" else 1
            return I.array([1.0] * k), I.array([0.0] * k)

        def result_format(self):
            return [cm.spec()]
    return Sim()


def run(I, kind, store, rounds, outcomes, polls=1, arrivals=None, mode=None, reopen=False, steps=None):
    """rounds: list of target vectors"""
    import mlmc.sampling_pool as sp
    import mlmc.sampler as sm
    from mlmc.sample_storage import Memory
    from mlmc.sample_storage_hdf import SampleStorageHDF
    clock = Clock()
    S.install(I, sp)
    use_clock(I, sp, clock)
    L = len(rounds[0])
    ids = [cm.tag(l, i) for l in range(L) for i in range(rounds[-1][l])]
    outcome = {sid: I.choice("o_%s" % sid, outcomes) for sid in ids}
    dur = {sid: I.real("d_%s" % sid, 0.5, 100) for sid in ids}
    path = os.path.join(I.tmp(), "mlmc.hdf5")
    st = Memory() if store == "mem" else SampleStorageHDF(file_path=path)
    if kind == "one":
        pool = sp.OneProcessPool()
    elif kind == "proc":
        pool = sp.ProcessPool(2)
    else:
        pool = sp.ThreadPool(2)
    import contextlib, io

    def deliver(sc=None):
        fp = S.FakePool.instances[-1]
        func, args, kwds, cb, ecb = fp.tasks.pop(0)
        try:
            r, f = func(*args, **kwds), cb
        except Exception as e:
            r, f = e, ecb
        if sc is not None:
            import sys
            sys.settrace(sc.trace_h)
            try:
                f(r)
            finally:
                sys.settrace(None)
        else:
            f(r)

    # how many of the pending results arrive before each poll
    pc = [0]
    orig = pool.get_finished

    def get_finished():
        if kind != "one":
            tasks = S.FakePool.instances[-1].tasks
            n = len(tasks)
            if n:
                if pc[0] >= polls:
                    k = n
                else:
                    k = I.cint("arrive%d" % pc[0], 0, n)
                pc[0] += 1
                for _ in range(k):
                    deliver()
        return orig()
    if mode == "threads" and not hasattr(sm.Sampler, "_store_samples"):
        return 0, 0     # internals not accessible: the other cases decide
    if mode is None:
        I.patch(pool, "get_finished", get_finished)
    s = sm.Sampler(sample_storage=st, sampling_pool=pool, sim_factory=make_sim(I, clock, outcome, dur), level_parameters=cm.lparams(L))

    now = []

    def cost_check(label):
        if any(S.FakePool.instances[-1].tasks for _ in [0] if S.FakePool.instances):
            return
        done = now[-1] if now else [0] * L
        got = st.get_n_ops()
        I.check(len(got) == L, label + "one cost per level")
        if len(got) != L:
            return
        for l in range(L):
            ok = [cm.tag(l, i) for i in range(int(done[l])) if outcome[cm.tag(l, i)] == "ok"]
            want = 0.0
            if ok:
                for sid in ok:
                    want = want + dur[sid]
                want = want / len(ok)
            I.check_eq(got[l], want, label + "cost per sample of the level")

    with contextlib.redirect_stdout(io.StringIO()):
        if mode == "threads":
            cnt = threaded(I, kind, s, pool, st, rounds, deliver, steps)
        else:
            for k, tg in enumerate(rounds):
                pc[0] = pc[0] if k == 0 else 0 if polls < 2 else pc[0]
                s.set_level_target_n_samples(list(tg))
                now.append(tg)
                s.schedule_samples()
                s.ask_sampling_pool_for_samples()
                if I.flag("again%d" % k):
                    s.ask_sampling_pool_for_samples()
                cost_check("")
    if mode == "threads":
        now.append(rounds[0])
        cost_check("threads: ")
        return cnt
    if reopen:
        st = SampleStorageHDF(file_path=path)
        cost_check("reopened: ")


STEPS = {}


def run_threads(I, kind, store, rounds, outcomes):
    if I.symbolic and (kind, store) not in STEPS:
        from symx.inputs import ConI
        C = ConI({})
        try:
            STEPS[kind, store] = run(C, kind, store, rounds, outcomes, mode="threads", steps=(None, None))
        finally:
            C.cleanup()
    run(I, kind, store, rounds, outcomes, mode="threads", steps=STEPS.get((kind, store), (0, 0)))


def threaded(I, kind, s, pool, st, rounds, deliver, steps):
    s.set_level_target_n_samples(list(rounds[0]))
    pool_get, pool.get_finished = pool.get_finished, lambda: ({}, {}, 0, [])
    s.schedule_samples()
    pool.get_finished = pool_get

    def tasks(peek=False):
        q = S.FakePool.instances[-1].tasks
        if peek:
            return bool(q)
        return (lambda sc: deliver(sc)) if q else None
    plan = []
    if steps[0] is not None:
        plan = [(I.cint("at", 0, steps[0]), I.cint("h", 0, steps[1]))]

    def program(sc):
        for _ in range(2):
            succ, fail, running, n_ops = pool.get_finished()
            s._store_samples(succ, fail, n_ops)
        sc.plan = []
        sc.finish_h()
    sc = S.Sched(("mlmc/sampling_pool.py",), plan, tasks)
    S.current[0] = sc
    try:
        sc.run(program)
    finally:
        S.current[0] = None
    I.check(sc.h_exc is None, "threads: result processing does not fail")
    s.ask_sampling_pool_for_samples()
    return sc.main_count, sc.total_h


def run_storage(I, store, L, K):
    """any sequence of reports to the storage"""
    from mlmc.sample_storage import Memory
    from mlmc.sample_storage_hdf import SampleStorageHDF
    path = os.path.join(I.tmp(), "mlmc.hdf5")
    st = Memory() if store == "mem" else SampleStorageHDF(file_path=path)
    st.save_global_data(level_parameters=cm.lparams(L), result_format=[cm.spec()])
    tot = [[0.0, 0] for _ in range(L)]
    for k in range(K):
        rep = []
        for l in range(L):
            if I.flag("rep_%d_%d" % (k, l)):
                n = I.cint("n_%d_%d" % (k, l), 0, 2)
                t = I.real("t_%d_%d" % (k, l), 0.5, 100) if n else 0.0
                rep.append((l, [t, n]))
                tot[l][0] = tot[l][0] + t
                tot[l][1] += n
        st.save_n_ops(rep)
    if store != "mem" and I.flag("reopen"):
        st = SampleStorageHDF(file_path=path)
    got = st.get_n_ops()
    I.check(len(got) == L, "one cost per level")
    if len(got) != L:
        return
    for l in range(L):
        I.check_eq(got[l], tot[l][0] / tot[l][1] if tot[l][1] else 0.0, "cost per sample of the level")


def cases(tier):
    cs = []

    def add(nm, fn=run, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t, max_paths=100000))
    O = ["ok", "raise", "len"]
    for st in ("mem", "hdf"):
        add("one_" + st, kind="one", store=st, rounds=[(1, 1), (2, 2)], outcomes=O, reopen=st == "hdf")
        add("one3_" + st, kind="one", store=st, rounds=[(1, 0, 1), (1, 1, 1)], outcomes=O)
        for kind in ("proc", "thread"):
            add("%s_%s" % (kind, st), kind=kind, store=st, rounds=[(2, 1), (2, 2)], outcomes=["ok", "raise"], polls=2)
        add("storage_" + st, run_storage, store=st, L=2, K=2 if st == "hdf" else 2)
    add("threads", run_threads, kind="proc", store="mem", rounds=[(1,)], outcomes=["ok"])
    if tier == "thorough":
        for st in ("mem", "hdf"):
            add("one_big_" + st, kind="one", store=st, rounds=[(1, 1, 1), (2, 1, 1), (2, 2, 1)], outcomes=O, t=900)
            add("storage3_" + st, run_storage, store=st, L=2, K=3, t=900)
    return cs
