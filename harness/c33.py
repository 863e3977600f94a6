"""C33: the sampling loop stores every result the pool reports and waits exactly as long as promised."""
import numpy as np
from . import common as cm
from .c25 import use_clock

MODULES = ["mlmc.sampler", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.sim.simulation"]
META = dict(
    bounds="1..2 levels, up to 4 samples, any number of samples delivered by each of the first 3 polls (first or last submitted ones first) and the rest by the next one; any outcome (success with any values, failure), any measured times; polls of any duration; any time limit or none; adding steps with requirements up to 4 per level and fractions 1/2, 1",
    outside="longer histories; waiting pauses (sleep) other than 0; the pools themselves (C06, C07)",
    stubs=["sampling pool: scripted stand-in that delivers any part of the outstanding samples at each poll", "clock: advanced by a symbolic duration at each poll"],
    assumptions=["the time limit is not hit exactly at a poll"], limit_s=dict(quick=500, thorough=2500))


class Clock:
    def __init__(self):
        self.now = 100.0
        self.idle = 0

    def time(self):
        return self.now
    perf_counter = monotonic = time

    def sleep(self, s):
        self.idle += 1
        assert self.idle < 50, "keeps waiting without asking the pool"


class Pool:
    def __init__(self, I, clock, polls, last, fails):
        self.I, self.clock, self.polls, self.last, self.fails = I, clock, polls, last, fails
        self.pending, self.submitted, self.done = [], [], []
        self.n_polls, self.ops, self.log = 0, {}, []
        self.k = 0

    def schedule_sample(self, sample_id, level_sim):
        self.submitted.append((sample_id, level_sim._level_id))
        self.pending.append((sample_id, level_sim._level_id))

    def have_permanent_samples(self, ids):
        return False

    def get_finished(self):
        I = self.I
        self.n_polls += 1
        self.clock.idle = 0
        d = I.real("d%d" % self.n_polls, 0.125, 8)
        self.clock.now = self.clock.now + d
        n = len(self.pending)
        k = n
        if n and self.k < self.polls:
            k = I.cint("k%d" % self.k, 0, n)
            self.k += 1
        now, left = (self.pending[:k], self.pending[k:]) if not self.last else (self.pending[n - k:], self.pending[:n - k])
        self.pending = left
        succ, fail, ops = {}, {}, {}
        for sid, l in now:
            bad = self.fails and I.flag("bad_%s" % sid)
            if bad:
                fail.setdefault(l, []).append((sid, "failure of %s" % sid))
                self.done.append((l, sid, None))
            else:
                v = (I.datas("f_%s" % sid, 2), I.datas("c_%s" % sid, 2))
                succ.setdefault(l, []).append((sid, v))
                self.done.append((l, sid, v))
                t = I.real("t_%s" % sid, 0.5, 50)
                o = ops.setdefault(l, [0.0, 0])
                o[0], o[1] = o[0] + t, o[1] + 1
                g = self.ops.setdefault(l, [0.0, 0])
                g[0], g[1] = g[0] + t, g[1] + 1
        self.log.append(len(left))
        return succ, fail, len(left), [(l, list(o)) for l, o in ops.items()]


def build(I, store, L, polls, last=False, fails=True):
    import mlmc.sampler as sm
    from mlmc.sample_storage import Memory
    from mlmc.sample_storage_hdf import SampleStorageHDF
    import os
    clock = Clock()
    use_clock(I, sm, clock)
    pool = Pool(I, clock, polls, last, fails)
    st = Memory() if store == "mem" else SampleStorageHDF(file_path=os.path.join(I.tmp(), "s.hdf5"))
    s = sm.Sampler(sample_storage=st, sampling_pool=pool, sim_factory=cm.make_sim(fmt=[cm.spec(shape=(2,))]), level_parameters=cm.lparams(L))
    return s, pool, st, clock


def stored(I, pool, st, L, store, label):
    """the storage holds exactly what the pool reported so far"""
    for l in range(L):
        ok = [(sid, v) for a, sid, v in pool.done if a == l and v is not None]
        bad = [sid for a, sid, v in pool.done if a == l and v is None]
        n = st.get_n_collected()
        got = int(n[l]) if l < len(n) else 0
        I.check(got == len(ok), label + ": collected samples of the level")
        if got != len(ok):
            return
        if ok:
            x = st.sample_pairs_level(cm_chunk(st, l))
            for i, (sid, v) in enumerate(ok):
                for k in range(2):
                    I.check_same(cm.el(x, k, i, 0), cm.el(v[0], k), label + ": fine values")
                    if l:
                        I.check_same(cm.el(x, k, i, 1), cm.el(v[1], k), label + ": coarse values")
        fin = st.n_finished()
        I.check((int(fin[l]) if l < len(fin) else 0) == len(ok) + len(bad), label + ": finished samples of the level")
        if store == "hdf":
            f = st.failed_samples()
            f = f.get(str(l), f.get(l, []))
            I.check([str(x) for x in f] == bad, label + ": failed samples of the level")
        cost = st.get_n_ops()
        o = pool.ops.get(l, [0.0, 0])
        if l < len(cost):
            I.check_eq(cost[l], o[0] / o[1] if o[1] else 0.0, label + ": cost of the level")
        else:
            I.check(o[1] == 0, label + ": cost of the level")
    if store == "hdf":
        left = [sid for sid, _ in pool.pending]
        I.check(sorted(str(x) for x in st.unfinished_ids()) == sorted(left), label + ": unfinished samples")


def cm_chunk(st, l):
    return next(iter(st.chunks(level_id=l)))


def run_wait(I, store, targets, polls, limit, last=False, fails=True):
    L = len(targets)
    s, pool, st, clock = build(I, store, L, polls, last, fails)
    s.set_level_target_n_samples(list(targets))
    s.schedule_samples()
    I.check(len(pool.submitted) == sum(targets), "all samples submitted")
    n0, start = pool.n_polls, len(pool.log)
    t0 = clock.now
    T = None if limit is None else I.real("T", 0.0625, 30)
    ends = []
    orig = pool.get_finished

    def get_finished():
        r = orig()
        ends.append((r[2], clock.now - t0))
        if T is not None:
            I.assume(I.any(clock.now - t0 < T - 0.001, clock.now - t0 > T + 0.001))
        return r
    I.patch(pool, "get_finished", get_finished)
    n = s.ask_sampling_pool_for_samples(timeout=T)
    I.check(len(ends) >= 1, "at least one poll")
    if not ends:
        return
    I.check(int(n) == ends[-1][0] == len(pool.pending), "returns the number of running samples")
    for r, e in ends[:-1]:
        I.check(r > 0, "stops at the first poll without running samples")
        if T is not None:
            I.check(e < T, "stops at the first poll after the time limit")
    r, e = ends[-1]
    if r > 0:
        I.check(T is not None, "without limit waits for all samples")
        if T is not None:
            I.check(e > T, "does not stop before the limit while samples run")
    stored(I, pool, st, L, store, "after waiting")
    # the rest is collected by the next wait
    I.check(int(s.ask_sampling_pool_for_samples()) == 0, "next wait without limit ends with nothing running")
    I.check(len(pool.done) == sum(targets), "everything delivered")
    stored(I, pool, st, L, store, "in the end")


def run_add(I, store, cur, hi, coef, polls, steps, last=False, fails=True, limit=False):
    L = len(cur)
    s, pool, st, clock = build(I, store, L, polls, last, fails)
    s.set_level_target_n_samples(list(cur))
    s.schedule_samples()
    kw = dict(timeout=I.real("T", 0.0625, 30)) if limit else {}
    need = [0] * L
    for k in range(steps):
        est = [I.cint("e%d_%d" % (k, l), 0, hi) for l in range(L)]
        need = est
        done = s.process_adding_samples(np.array(est), add_coeff=coef, **kw)
        sched = [sum(1 for _, l in pool.submitted if l == m) for m in range(L)]
        fin = [sum(1 for l, _, _ in pool.done if l == m) for m in range(L)]
        for m in range(L):
            I.check(est[m] <= sched[m] or 2 * fin[m] >= sched[m], "levels still short have half of their samples finished")
        I.check(bool(done) == all(est[m] <= sched[m] for m in range(L)), "completion reported exactly when nothing is missing")
        stored(I, pool, st, L, store, "after an adding step")
        I.check([int(x) for x in st.n_finished()][:L] + [0] * (L - len(st.n_finished())) == fin, "finished samples")
    n = s.ask_sampling_pool_for_samples()
    I.check(int(n) == 0 and not pool.pending, "waiting without limit collects all samples")
    stored(I, pool, st, L, store, "in the end")


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t))
    for store in ("mem", "hdf"):
        add("wait_%s" % store, run_wait, store=store, targets=(2, 1), polls=3, limit=None)
        add("wait_limit_%s" % store, run_wait, store=store, targets=(2, 1), polls=2, limit="sym", last=True)
    add("add_mem", run_add, store="mem", cur=(2, 1), hi=3, coef=0.5, polls=2, steps=1, fails=False)
    add("add_hdf", run_add, store="hdf", cur=(1,), hi=3, coef=0.5, polls=2, steps=1, last=True)
    add("wait_3", run_wait, store="mem", targets=(3,), polls=3, limit="sym")
    add("wait_more_levels", run_wait, store="mem", targets=(0, 2), polls=2, limit="sym")
    add("wait_last_hdf", run_wait, store="hdf", targets=(1, 2), polls=2, limit=None, last=True)
    add("add_last", run_add, store="mem", cur=(2, 2), hi=4, coef=0.5, polls=2, steps=1, last=True, fails=False)
    add("add_limit", run_add, store="mem", cur=(2,), hi=4, coef=0.5, polls=2, steps=1, fails=False, limit=True)
    add("add_two_steps", run_add, store="mem", cur=(1,), hi=4, coef=0.5, polls=3, steps=2, fails=True)
    add("add_one", run_add, store="mem", cur=(1, 1), hi=3, coef=1.0, polls=2, steps=1, fails=False, last=True)
    if tier == "thorough":
        add("wait_hdf_big", run_wait, store="hdf", targets=(3, 2), polls=3, limit="sym", t=1500)
        add("add_hdf_big", run_add, store="hdf", cur=(2, 1), hi=4, coef=0.25, polls=3, steps=2, t=1500)
    return cs
