"""C07: PBS pool reports every sample of every job exactly once despite queue faults."""
import os, io, glob, contextlib, subprocess
import numpy as np
from . import common as cm
from . import pbs

MODULES = ["mlmc.sampling_pool_pbs", "mlmc.tool.pbs_job", "mlmc.sampling_pool", "mlmc.level_simulation", "mlmc.sim.simulation",
           "mlmc.quantity.quantity_spec"]
META = dict(
    bounds="2 levels, up to 3 jobs of up to 3 samples (3 levels and jobs of 2 to 5 samples in the cases of unequal sizes); every order in which jobs are queued, running (with partial results already written) and finished over 3 polls; status queries failing at any of these polls; a job killed at any of its file writes or simulations; every pattern of failing simulations; 0..10 consecutive submission failures before each of two submissions, 0..10 status failures before each of two successful queries; queue that forgets finished jobs",
    outside="more jobs and polls; writes of a killed job torn in the middle of one append; queue output formats other than PBS Pro's qstat -x; jobs of more than 1000 samples",
    stubs=["qsub and qstat: scripted queue that runs the real job body in process; a kill stops the body before or right after any opening of a file for writing or before any simulation"],
    assumptions=["up to 10 consecutive failures of a queue command are tolerated, as the pool declares"], limit_s=dict(quick=500, thorough=3000))


def setup(I, L, queue, debug=False, task=0.6):
    from mlmc.sampling_pool_pbs import SamplingPoolPBS
    pbs.begin(I)
    I.patch(subprocess, "run", queue.run)
    d = I.tmp()
    pool = SamplingPoolPBS(work_dir=d, debug=debug)
    pool.pbs_common_setting(**dict(pbs.SETTING))
    return pool, pbs.level_sims(L, task)


class Track:
    def __init__(self, I, pool, sims, queue):
        self.I, self.pool, self.sims, self.q = I, pool, sims, queue
        self.sched = {}          # id -> level
        self.done = {}           # id -> outcome
        self.cwd = os.getcwd()

    def schedule(self, level, k):
        sid = cm.tag(level, k)
        self.sched[sid] = level
        self.pool.schedule_sample(sid, self.sims[level])
        return sid

    def seed(self, sid):
        return int(self.pool.compute_seed(sid))

    def poll(self, force=False):
        I = self.I
        self.q.advance(force)
        with contextlib.redirect_stdout(io.StringIO()):
            succ, fail, n_running, times = self.pool.get_finished()
        cwd = os.getcwd()
        os.chdir(self.cwd)
        I.check(cwd == self.cwd, "polling keeps the working directory")
        for level, sid, res in pbs.flat(succ):
            I.check(sid in self.sched and self.sched[sid] == level, "reported on its own level")
            I.check(sid not in self.done, "reported once")
            self.done[sid] = "ok"
            f, c = pbs.value(level, self.seed(sid))
            I.check_same(pbs.sym(res[0]), pbs.sym(f), "own fine result")
            I.check_same(pbs.sym(res[1]), pbs.sym(c), "own coarse result")
        for level, sid, msg in pbs.flat(fail):
            I.check(sid in self.sched and self.sched[sid] == level, "reported on its own level")
            I.check(sid not in self.done, "reported once")
            I.check(isinstance(msg, str) and len(msg) > 0, "failure has a message")
            self.done[sid] = "failed"
        left = [s for s in self.sched if s not in self.done]
        I.check((n_running == 0) == (len(left) == 0), "no running samples exactly when everything was reported")
        alive = 0
        for j in self.q.jobs:
            if not j["ended"]:
                alive += sum(1 for s in left if self.job_of(s) == j["id"])
        I.check(n_running >= alive, "samples of jobs that have not ended are counted as running")
        self.q.poll += 1
        return n_running

    def job_of(self, sid):
        """queue id of the accepted job that holds the sample, read from the queue's own view (the job's schedule file)"""
        from mlmc.tool.pbs_job import PbsJob
        for j in self.q.jobs:
            ids = [s for _, s, _ in PbsJob.get_scheduled_sample_ids(j["argv"][1], os.path.join(j["argv"][0], "jobs"))]
            if sid in ids:
                return j["id"]
        return None

    def finish(self, limit=6):
        n = 1
        for _ in range(limit):
            n = self.poll(True)
            if n == 0:
                break
        I = self.I
        I.check(n == 0, "polling terminates")
        I.check(set(self.done) == set(self.sched), "every sample was reported")

    def check_runs(self, killed=False):
        """each sample was computed at most once (exactly once unless a job was killed)"""
        runs = list(pbs.CALLS)
        I = self.I
        I.check(len(runs) == len(set(runs)), "no sample is computed twice")
        want = {(l, self.seed(s)) for s, l in self.sched.items()}
        I.check(set(runs) <= want, "only scheduled samples are computed")
        if not killed:
            I.check(set(runs) == want, "every sample is computed")
            for s, l in self.sched.items():
                exp = "failed" if pbs.FAIL.get((l, self.seed(s))) else "ok"
                I.check(self.done.get(s) == exp, "reported as its simulation ended")
        else:
            for s, o in self.done.items():
                if o == "ok":
                    I.check((self.sched[s], self.seed(s)) in runs, "successful samples were computed")
                elif any(s in t for j in self.q.jobs for t in self.written(j)):
                    I.check(False, "a result the job wrote before it was killed is reported")

    def written(self, j):
        return [pbs.REAL_OPEN(f).read() for f in set(j.get("files", [])) if "success" in os.path.basename(f) and os.path.exists(f)]


def run_orders(I, n_jobs, polls, partial, qstat, extra):
    """every order of finishing, failing status queries, partially done running jobs"""
    life = []
    for j in range(n_jobs + (1 if extra else 0)):
        life.append(dict(end=I.int("end%d" % j, 0, 10 ** 6), partial=partial))
    fails = [I.flag("qstat_fails%d" % p) if qstat else False for p in range(polls)]
    q = pbs.Queue(lambda n: False, lambda n: n < len(fails) and fails[n], lambda j: life[j], forget=True)
    pool, sims = setup(I, 2, q)
    t = Track(I, pool, sims, q)
    k = [0, 0]
    for j in range(n_jobs):
        for lv in ((0, 1), (1, 0), (1, 1))[j % 3]:
            t.schedule(lv, k[lv])
            k[lv] += 1
    if extra:
        t.schedule(1, k[1])              # waits for the first poll
    for p in range(polls):
        t.poll()
    t.finish()
    t.check_runs()


def run_sizes(I, jobs):
    """jobs of different sizes with samples of three levels: running samples are counted for the right job"""
    life = [dict(end=I.int("end%d" % j, 0, 10 ** 6), partial=None) for j in range(len(jobs))]
    q = pbs.Queue(lambda n: False, lambda n: False, lambda j: life[min(j, len(life) - 1)])
    real, back = glob.glob, I.flag("listed_backwards")         # the file system lists a directory in any order
    I.patch(glob, "glob", lambda *a, **k: sorted(real(*a, **k), reverse=bool(back)))
    pool, sims = setup(I, 3, q, task=(0.6, 0.35, 0.25))
    t = Track(I, pool, sims, q)
    k = [0, 0, 0]
    for job in jobs:
        for lv in job:
            s = t.schedule(lv, k[lv])
            if job is jobs[0] and I.flag("fail%d" % k[lv]):
                pbs.FAIL[(lv, t.seed(s))] = True
            k[lv] += 1
    for p in range(2):
        t.poll()
    t.finish()
    t.check_runs()


def run_kill(I, n, task):
    """a job killed at any point, some simulations failing; a second, later job is not affected"""
    kill = I.int("kill", 0, 10 ** 6)
    q = pbs.Queue(lambda i: False, lambda i: False, lambda j: dict(end=j, kill=kill if j == 0 else None))
    pool, sims = setup(I, 2, q, task=task)
    t = Track(I, pool, sims, q)
    ids = [t.schedule(lv, k) for lv, k in ((1, 0), (0, 0), (1, 1))[:n]]
    for i, s in enumerate(ids):
        if I.flag("fail%d" % i):
            pbs.FAIL[(t.sched[s], t.seed(s))] = True
    t.poll()
    t.schedule(0, 5)
    t.schedule(1, 5)
    t.finish()
    t.check_runs(killed=q.jobs[0]["killed"])
    I.check(t.done[cm.tag(0, 5)] == "ok" and t.done[cm.tag(1, 5)] == "ok", "other jobs are not affected")


def run_qsub(I, top):
    """up to ten consecutive submission failures before each of two submissions"""
    f1 = I.cint("f1", 0, top)
    f2 = I.cint("f2", 0, top)
    plan = [True] * f1 + [False] + [True] * f2 + [False]
    late = I.flag("schedule_more")
    q = pbs.Queue(lambda n: n < len(plan) and plan[n], lambda n: False, lambda j: dict(end=0))
    pool, sims = setup(I, 2, q)
    t = Track(I, pool, sims, q)
    t.schedule(0, 0)
    t.schedule(1, 0)
    if late:
        t.schedule(1, 1)
    for _ in range(f1 + 1):
        t.poll()
    t.schedule(0, 1)
    t.schedule(1, 2)
    t.finish(limit=2 * top + 4)
    t.check_runs()
    seen = [a["argv"] for a in q.jobs]
    I.check(len(set(seen)) == len(seen), "each job has its own identity")


def run_qstat(I, top):
    f1 = I.cint("f1", 0, top)
    f2 = I.cint("f2", 0, top)
    plan = [True] * f1 + [False] + [True] * f2 + [False]
    q = pbs.Queue(lambda n: False, lambda n: n < len(plan) and plan[n], lambda j: dict(end=0 if j == 0 else f1 + 2), forget=True)
    pool, sims = setup(I, 2, q)
    t = Track(I, pool, sims, q)
    for l, k in ((0, 0), (1, 0), (0, 1), (1, 1)):
        t.schedule(l, k)
    for _ in range(f1 + 1):
        t.poll()
    t.finish(limit=2 * top + 6)
    t.check_runs()


def run_inprocess(I, n):
    """the same samples give the same outcome in a job and in process"""
    from mlmc.sampling_pool import OneProcessPool
    q = pbs.Queue(lambda i: False, lambda i: False, lambda j: dict(end=0))
    pool, sims = setup(I, 2, q)
    one = OneProcessPool()
    ids = [(l, cm.tag(l, I.cint("k%d_%d" % (l, i), 5 * i, 5 * i + 2))) for l in range(2) for i in range(n)]
    for i, (l, s) in enumerate(ids):
        if I.flag("fail%d" % i):
            pbs.FAIL[(l, int(pool.compute_seed(s)))] = True
    for l, s in ids:
        pool.schedule_sample(s, sims[l])
        one.schedule_sample(s, sims[l])
    q.advance()
    pool.execute()
    q.advance()
    with contextlib.redirect_stdout(io.StringIO()):
        a = pool.get_finished()
        b = one.get_finished()
    ra = {(l, s): r for l, s, r in pbs.flat(a[0])}
    rb = {(l, s): r for l, s, r in pbs.flat(b[0])}
    I.check(set(ra) == set(rb), "same samples succeed")
    I.check({(l, s) for l, s, _ in pbs.flat(a[1])} == {(l, s) for l, s, _ in pbs.flat(b[1])}, "same samples fail")
    for key in ra:
        for i in range(2):
            I.check_same(pbs.sym(ra[key][i]), pbs.sym(rb[key][i]), "same result as in process")


def cases(tier):
    cs = []
    T = tier == "thorough"
    for nj, partial, qstat, extra in ((2, 2, True, False), (2, None, True, True), (3, 3, False, False), (3, 8, False, False), (1, 3, True, True)) + \
            (((3, 3, True, False), (3, 5, True, True)) if T else ()):
        cs.append(dict(name="orders_%d_%s_%d_%d" % (nj, partial, qstat, extra), run=run_orders,
                       params=dict(n_jobs=nj, polls=4 if T else 3, partial=partial, qstat=qstat, extra=extra), time_s=400 if not T else 1500))
    for i, jobs in enumerate((((2, 1, 0), (0, 0)), ((0, 0), (2, 1, 1, 2)), ((1, 1, 1), (0, 0), (2, 2, 2, 2, 2)))[:3 if T else 2]):
        cs.append(dict(name="sizes_%d" % i, run=run_sizes, params=dict(jobs=jobs), time_s=300))
    for n, task in ((2, 0.6), (3, 0.4)):
        cs.append(dict(name="kill_%d" % n, run=run_kill, params=dict(n=n, task=task), time_s=300))
    cs.append(dict(name="qsub", run=run_qsub, params=dict(top=10), time_s=300))
    cs.append(dict(name="qstat", run=run_qstat, params=dict(top=10), time_s=300))
    cs.append(dict(name="in_process", run=run_inprocess, params=dict(n=2 if T else 1), time_s=200))
    return cs
