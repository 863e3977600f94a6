"""C08: after a crash of the main process finished PBS samples are recovered, none twice."""
import os, io, json, contextlib, subprocess, builtins, sys, glob
import numpy as np
from . import common as cm
from . import pbs

MODULES = ["mlmc.sampling_pool_pbs", "mlmc.tool.pbs_job", "mlmc.sampling_pool", "mlmc.sampler", "mlmc.sample_storage",
           "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.level_simulation", "mlmc.sim.simulation", "mlmc.quantity.quantity_spec"]
META = dict(
    bounds="2 levels, up to 4 jobs of 2 samples, file storage; the main process (schedule, poll, raise targets, schedule, poll, poll) is killed at every one of its effects: before and after every file opened for writing, every rename/removal, every queue command and every opening of the storage file; job states at the crash and at the restart (ended before the restart, still running with partial results, forgotten by the queue) from 6 histories; restart that polls first, schedules first or renews failed samples first; two crashes in thorough",
    outside="kill inside the HDF5 library or in the middle of one buffered write; kill before the sampler was constructed; pools created without debug, which clear the work directory; a job accepted by the queue whose queue id was not yet recorded when the process died and that is still running at the restart (its samples are reported once, as failed)",
    stubs=["qsub and qstat: scripted queue that runs the real job body in process", "the crashing process is a forked child ended by os._exit"],
    assumptions=["work directory is kept (debug pool)"], limit_s=dict(quick=700, thorough=3000))

NO = 10 ** 9


class FileQueue(pbs.Queue):
    """queue whose jobs live in a file, so that they survive the main process"""

    def __init__(self, state):
        super().__init__(lambda n: False, lambda n: False, None, forget=False)
        self.state = state
        if os.path.exists(state):
            with pbs.REAL_OPEN(state) as f:
                self.jobs = json.load(f)

    def save(self):
        with pbs.REAL_OPEN(self.state + ".new", "w") as f:
            json.dump(self.jobs, f)
        os.rename(self.state + ".new", self.state)

    def accept(self, job_file):
        r = super().accept(job_file)
        self.jobs[-1]["session"] = self.session
        self.save()
        return r

    def progress(self, end=(), partial=None):
        for k, j in enumerate(self.jobs):
            if j["ended"]:
                continue
            if k in end:
                for f in j.get("files", []):
                    if os.path.exists(f):
                        os.remove(f)
                j["events"], j["files"], j["killed"] = pbs.run_job(j["argv"], None)
                j["ended"] = True
            elif partial and not j["started"]:
                _, j["files"], _ = pbs.run_job(j["argv"], partial)
                j["started"] = True
        self.save()


def new_sampler(d, queue):
    from mlmc.sampler import Sampler
    from mlmc.sample_storage_hdf import SampleStorageHDF
    from mlmc.sampling_pool_pbs import SamplingPoolPBS
    st = SampleStorageHDF(file_path=os.path.join(d, "mlmc.hdf5"))
    pool = SamplingPoolPBS(work_dir=d, debug=True)
    pool.pbs_common_setting(**dict(pbs.SETTING))
    reports = []
    orig = pool.get_finished

    def get_finished():
        r = orig()
        reports.append((pbs.flat(r[0]), pbs.flat(r[1]), r[2]))
        return r
    pool.get_finished = get_finished
    s = Sampler(sample_storage=st, sampling_pool=pool, sim_factory=pbs.make_psim()(0.6), level_parameters=[[0.0], [1.0]])
    return s, st, pool, reports


def program(s, queue, plan):
    for step in plan:
        if step[0] == "target":
            s.set_level_target_n_samples(list(step[1]))
        elif step[0] == "schedule":
            s.schedule_samples(timeout=1e-9)
        elif step[0] == "poll":
            s.ask_sampling_pool_for_samples(timeout=1e-9)
        elif step[0] == "jobs":
            queue.quiet = True
            queue.progress(*step[1:])
            queue.quiet = False
        elif step[0] == "renew":
            s.renew_failed_samples()


def child(d, state, plan, crash, out, session):
    """one session of the main process; dies at its crash-th effect"""
    import h5py
    n = [0]
    armed = [False]
    queue = FileQueue(state)
    queue.session = session
    queue.quiet = False

    def event():
        if not armed[0] or queue.quiet:
            return
        if n[0] == crash:
            os._exit(3)
        n[0] += 1

    def around(fn, pred=lambda *a, **k: True, after=True):
        def w(*a, **k):
            if pred(*a, **k):
                event()
                r = fn(*a, **k)
                if after:
                    event()
                return r
            return fn(*a, **k)
        return w
    real_open = pbs.REAL_OPEN
    builtins.open = around(real_open, lambda p, mode="r", *a, **k: isinstance(p, (str, os.PathLike)) and pbs.writes(mode))
    for name in ("remove", "replace", "rename", "unlink"):
        setattr(os, name, around(getattr(os, name), after=False))
    subprocess.run = around(queue.run)
    h5py.File = around(h5py.File, lambda p, mode="r", *a, **k: mode != "r", after=False)
    s, st, pool, reports = new_sampler(d, queue)
    armed[0] = True
    program(s, queue, plan)
    armed[0] = False
    with real_open(out, "w") as f:
        f.write(str(n[0]))
    os._exit(0)


def fork(d, state, plan, crash, out, session=0):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            err = os.open(out + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(err, 2)
            child(d, state, plan, crash, out, session)
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(9)
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    if rc not in (0, 3):
        raise AssertionError("main process failed before the crash: " + pbs.REAL_OPEN(out + ".err").read()[-600:])
    return rc


def stored(d):
    """(scheduled, collected {id: (fine, coarse)}, failed) per the storage file"""
    from mlmc.sample_storage_hdf import SampleStorageHDF
    st = SampleStorageHDF(file_path=os.path.join(d, "mlmc.hdf5"))
    import h5py
    sched = [x for l, v in st.load_scheduled_samples().items() for x in v]
    failed = [x for v in st.failed_samples().values() for x in v]
    done = {}
    extra = []
    with h5py.File(os.path.join(d, "mlmc.hdf5"), "r") as f:
        for l in range(2):
            g = f["Levels"][str(l)]
            ids = [x[0].decode() for x in g["collected_ids"][()]]
            vals = g["collected_values"][()] if "collected_values" in g else []
            if len(ids) != len(vals):
                extra.append("level %d: %d ids, %d results" % (l, len(ids), len(vals)))
            for i, v in zip(ids, vals):
                if i in done:
                    extra.append("%s stored twice" % i)
                done[i] = v
    return sched, done, failed, extra


HIST = {
    # name: (first session, jobs that end between crash and restart, partial progress of the others)
    "idle": ((), (), None),
    "running": ((("jobs", (), 4),), (), None),
    "ended_late": ((("jobs", (0,), 4),), "all", None),
    "mixed": ((("jobs", (1,), 4),), (0,), 7),
    "all_done": ((("jobs", (0, 1, 2, 3), None),), "all", None),
}


def plan_of(hist):
    jobs = HIST[hist][0]
    return (("target", (3, 2)), ("schedule",)) + jobs + (("poll",), ("target", (4, 4)), ("schedule",), ("poll",)) + jobs + (("poll",),)


_N = {}


def n_events(I, hist):
    if hist not in _N:
        d = I.tmp()
        fork(d, d + "/queue.json", plan_of(hist), NO, d + "/out")
        _N[hist] = int(pbs.REAL_OPEN(d + "/out").read())
    return _N[hist]


def run(I, hist, first, forget, lo=0.0, hi=1.0, second=False):
    from mlmc.sampling_pool import SamplingPool
    pbs.begin(I, [(l, SamplingPool.compute_seed(cm.tag(l, k))) for l in range(2) for k in range(7)])
    N = n_events(I, hist)
    crash = I.cint("crash", int(N * lo), max(int(N * hi) - (0 if hi == 1.0 else 1), 0))
    d = I.tmp()
    state = os.path.join(d, "queue.json")
    cwd = os.getcwd()
    fork(d, state, plan_of(hist), crash, d + "/out")
    _, between, partial = HIST[hist]
    q = FileQueue(state)
    q.session = 1
    q.quiet = False
    q.forget = forget
    q.progress(range(len(q.jobs)) if between == "all" else between, partial)
    sessions = 1
    if second:
        plan2 = tuple((x,) for x in first) + (("jobs", (0, 1), None), ("poll",), ("target", (5, 5)), ("schedule",), ("poll",))
        key = ("second", hist, crash, first)
        crash2 = I.cint("crash2", 0, 60)
        fork(d, state, plan2, crash2, d + "/out2", 1)
        q = FileQueue(state)
        q.session = 2
        q.quiet = False
        q.forget = forget
    sched0, done0, failed0, broken = stored(d)
    I.check(not broken, "stored samples are complete: %s" % broken[:1])
    old = [dict(j) for j in q.jobs]
    ids_file = {os.path.basename(p) for p in glob.glob(os.path.join(glob.escape(d), "output", "jobs", "*"))}
    recorded = {j["id"] for j in old if any(x.endswith("_" + j["id"]) for x in ids_file)}
    # ---- restart
    I.patch(subprocess, "run", q.run)
    with contextlib.redirect_stdout(io.StringIO()):
        s, st, pool, reports = new_sampler(d, q)
        job_of = {}
        for k, j in enumerate(old):
            for _, sid, _ in schedule_of(j):
                job_of[sid] = j                   # the latest accepted job of the sample
        renewed = set()
        for op in first:
            if op == "renew":
                renewed = set(failed0)
            program(s, q, ((op,),))
        q.progress()                              # new jobs are queued
        program(s, q, (("poll",),))
        q.progress(range(len(q.jobs)))            # everything ends
        program(s, q, (("target", (6, 6)), ("schedule",)))
        q.progress(range(len(q.jobs)))
        n = 1
        for _ in range(8):
            n = s.ask_sampling_pool_for_samples(timeout=1e-9)
            q.progress(range(len(q.jobs)))
            if n == 0:
                break
    os.chdir(cwd)
    I.check(n == 0, "polling terminates")
    # ---- what was reported
    seen = {}
    for succ, fail, _ in reports:
        for l, sid, res in succ:
            I.check(sid not in seen, "reported once after the restart")
            seen[sid] = "ok"
            f, c = pbs.value(l, int(pool.compute_seed(sid)))
            I.check_same(pbs.sym(res[0]), pbs.sym(f), "own fine result")
            I.check_same(pbs.sym(res[1]), pbs.sym(c), "own coarse result")
            I.check(sid.startswith("L%02d_" % l), "own level")
        for l, sid, msg in fail:
            I.check(sid not in seen, "reported once after the restart")
            I.check(sid.startswith("L%02d_" % l), "own level")
            seen[sid] = "failed"
    for sid in done0:
        I.check(sid not in seen, "a stored sample is not reported again")
    for sid in failed0:
        I.check((sid in seen) == (sid in renewed), "a stored failure is not reported again")
    for sid in sched0:
        if sid in done0 or sid in failed0:
            continue
        I.check(sid in seen, "every unfinished recorded sample is reported after the restart")
        j = job_of.get(sid)
        if j is None:
            I.check(seen.get(sid) == "failed", "a sample that never reached a job is reported as failed")
        elif j["ended"] or j["id"] in recorded:
            I.check(seen.get(sid) == "ok", "the result its job produced is reported")
    # ---- identities and the final storage
    names = [tuple(j["argv"]) for j in q.jobs]
    I.check(len(set(names)) == len(names), "no job identity is reused")
    for j in q.jobs[len(old):]:
        for l, sid, _ in schedule_of(j):
            I.check(seen.get(sid) == "ok", "samples of new jobs are computed and reported")
    sched, done, failed, broken = stored(d)
    I.check(not broken, "storage is consistent: %s" % broken[:1])
    I.check(sched[:0] == [] and len(sched) == len(set(sched)), "no id is recorded twice")
    I.check(set(sched) == set(done) | set(failed) and not (set(done) & set(failed)), "every recorded sample has one outcome")
    for sid, v in done.items():
        f, c = pbs.value(int(sid[1:3]), int(pool.compute_seed(sid)))
        I.check_same(pbs.sym(v), pbs.sym([f, c]), "stored values are the sample's own")


def schedule_of(j):
    from mlmc.tool.pbs_job import PbsJob
    return PbsJob.get_scheduled_sample_ids(j["argv"][1], os.path.join(j["argv"][0], "jobs"))


def cases(tier):
    cs = []
    T = tier == "thorough"
    for h in HIST:
        for first in (("poll",), ("schedule",), ("renew", "poll")):
            if first[0] == "renew" and h not in ("mixed", "all_done") and not T:
                continue
            for forget in ((False, True) if T or h == "mixed" else (False,)):
                cs.append(dict(name="%s_%s%s" % (h, first[0], "_forget" if forget else ""), run=run,
                               params=dict(hist=h, first=first, forget=forget), time_s=600 if not T else 2000))
    if T:
        for h in ("mixed", "ended_late"):
            cs.append(dict(name="twice_%s" % h, run=run, params=dict(hist=h, first=("schedule",), forget=False, second=True), time_s=2500))
    return cs
