"""A scripted PBS queue: stands in for qsub/qstat and runs the real job body in process, with kill points."""
import os, re, sys, io, json, builtins, contextlib, types
import numpy as np

REAL_OPEN = builtins.open
PBS_IDS = ["7", "17", "107", "70", "1", "11", "171", "77", "707", "3", "31", "13"]   # ids that are prefixes and suffixes of each other
SETTING = dict(n_cores=1, n_nodes=1, mem="2Gb", queue="q_2h", pbs_name="mlmc1", walltime="2:00:00", optional_pbs_requests=[],
               env_setting=[], python="python3")

CALLS = []           # (level, seed) of every simulation run
FAIL = {}            # (level, seed) -> True: the simulation raises
EVENT = [None]       # callback before a simulation starts


class SimError(Exception):
    pass


VALS = {}            # (level, seed) -> values as the simulation returns them (symbolic values travel through files as tokens)
INPUT = [None]       # the inputs of the current path


def begin(I, known=()):
    """forget everything of the previous path; known: (level, seed) whose values are created now (before a fork)"""
    CALLS.clear()
    FAIL.clear()
    VALS.clear()
    INPUT[0] = I
    for k in known:
        value(*k)


def value(level, seed):
    """(fine, coarse) returned by the simulation: arbitrary values of its own for every level and seed"""
    k = (int(level), int(seed))
    if k not in VALS:
        I = INPUT[0]
        arrs = [I.datas("%s_%d_%d" % (w, k[0], k[1]), 2) for w in ("fine", "coarse")]
        if I.symbolic:
            from symx.patch import TOK
            arrs = [TOK.enc(a) for a in arrs]
        VALS[k] = tuple(arrs)
    return VALS[k]


def sym(a):
    """tokens read back from files -> symbolic values"""
    if INPUT[0].symbolic:
        from symx.patch import TOK
        from symx import npx
        if npx.obj(a).dtype == object and any(not isinstance(x, float) for x in npx.obj(a).ravel()):
            return npx.sarr(npx.obj(a))
        a = np.array(a, dtype=float)
        return TOK.dec(a)
    return np.array(a, dtype=float)


PSim = None


def make_psim():
    """simulation class with a stable pickle name"""
    global PSim
    if PSim is not None:
        return PSim
    from mlmc.sim.simulation import Simulation
    from mlmc.level_simulation import LevelSimulation
    import mlmc.quantity.quantity_spec as qs

    def calc(config, seed):
        if EVENT[0] is not None:
            EVENT[0]("sim")
        CALLS.append((config["level"], int(seed)))
        if FAIL.get((config["level"], int(seed))):
            raise SimError("scripted")
        return value(config["level"], int(seed))
    calc.__qualname__ = "PSim.calculate"
    calc.__name__ = "calculate"

    class P(Simulation):
        need_workspace = False
        calculate = staticmethod(calc)

        def __init__(self, task_size=0.6):
            super().__init__()
            self.task_size = task_size
            self.k = 0

        def level_instance(self, fine, coarse=None):
            ls = LevelSimulation(config_dict={"level": int(fine[0])}, task_size=self.task_size, need_sample_workspace=False)
            return ls

        def result_format(self):
            return [qs.QuantitySpec(name="q", unit="", shape=(2, 1), times=[0], locations=["0"])]
    P.__name__ = "PSim"
    P.__qualname__ = "PSim"
    P.__module__ = __name__
    PSim = P
    return P


def level_sims(L, task_size=0.6):
    """level simulations prepared as the sampler does"""
    f = make_psim()(task_size)
    out = []
    for l in range(L):
        if isinstance(task_size, (list, tuple)):
            f.task_size = task_size[l]
        s = f.level_instance([l], [0])
        s._calculate = f.calculate
        s._result_format = f.result_format
        s._level_id = l
        out.append(s)
    return out


class Kill(BaseException):
    pass


def writes(mode):
    return any(c in mode for c in "wax+")


def run_job(argv, kill):
    """run the job body (python -m mlmc.tool.pbs_job ...) up to its kill-th event; returns (number of events, files written)"""
    import mlmc.tool.pbs_job as pj
    st = dict(n=0, dead=False, files=[])

    def event(what):
        if st["dead"]:
            raise Kill()
        if kill is not None and bool(kill == st["n"]):
            st["dead"] = True
            raise Kill()
        st["n"] += 1

    def op(path, mode="r", *a, **k):
        if isinstance(path, (str, os.PathLike)) and writes(mode):
            event("write")
            st["files"].append(os.path.abspath(path))
            f = REAL_OPEN(path, mode, *a, **k)
            try:
                event("opened")
            except Kill:
                f.close()
                raise
            return f
        return REAL_OPEN(path, mode, *a, **k)
    old = sys.argv, builtins.open, EVENT[0], os.getcwd()
    sys.argv = ["pbs_job.py"] + list(argv)
    builtins.open = op
    EVENT[0] = event
    try:
        pj.PbsJob.create_process().calculate_samples()
    except Kill:
        pass
    finally:
        sys.argv, builtins.open, EVENT[0] = old[:3]
        os.chdir(old[3])
    return st["n"], st["files"], st["dead"]


class Done:
    def __init__(self, rc, out=b"", err=b""):
        self.returncode, self.stdout, self.stderr = rc, out, err


class Queue:
    """decide(kind, n) -> outcome of the n-th command of a kind; life(j) -> dict(end=poll index from which the job is finished,
    partial=events done while running, kill=event at which it is killed or None)"""

    def __init__(self, qsub_fails, qstat_fails, life, forget=False):
        self.qsub_fails, self.qstat_fails, self.life, self.forget = qsub_fails, qstat_fails, life, forget
        self.n_qsub = self.n_qstat = 0
        self.poll = 0
        self.jobs = []           # dict(id, argv, ended, told)
        self.cwd_seen = set()

    def accept(self, job_file):
        text = REAL_OPEN(job_file).read()
        m = re.findall(r"-m\s+mlmc\.tool\.pbs_job\s+(\S+)\s+(\S+)", text)
        assert len(m) == 1, "the job script does not start the job body: %r" % text
        assert os.access(job_file, os.X_OK)
        j = dict(id=PBS_IDS[len(self.jobs)], argv=m[0], ended=False, told=False, started=False)
        self.jobs.append(j)
        return j["id"]

    def advance(self, force=False):
        """let the jobs make progress up to the current poll"""
        for k, j in enumerate(self.jobs):
            if j["ended"]:
                continue
            life = self.life(k)
            if force or life["end"] <= self.poll:
                for f in j.get("files", []):
                    if os.path.exists(f):
                        os.remove(f)
                j["events"], j["files"], j["killed"] = run_job(j["argv"], life.get("kill"))
                j["ended"] = True
            elif not j["started"] and life.get("partial"):
                j["mark"] = len(CALLS)
                _, j["files"], _ = run_job(j["argv"], life["partial"])
                del CALLS[j["mark"]:]
                j["started"] = True

    def run(self, cmd, *a, **k):
        cmd = list(cmd)
        if cmd[0] == "qsub":
            n = self.n_qsub
            self.n_qsub += 1
            if self.qsub_fails(n):
                return Done(1, b"", b"qsub: server is busy")
            return Done(0, (self.accept(cmd[1]) + ".pbs-m1.server.cz\n").encode())
        if cmd[0] == "qstat":
            n = self.n_qstat
            self.n_qstat += 1
            if self.qstat_fails(n):
                return Done(1, b"", b"qstat: cannot connect to server")
            out = ["Job id                 Name             User              Time Use S Queue",
                   "---------------------  ---------------- ----------------  -------- - -----"]
            unknown = []
            ids = [c for c in cmd[1:] if not c.startswith("-")]
            ids = [c.split(".")[0] for c in ids]
            for j in self.jobs:
                if j["id"] not in ids:
                    continue
                if j["told"] and self.forget:
                    unknown.append(j["id"])
                    continue
                if j["ended"]:
                    s, t = "F", "00:00:05"
                    j["told"] = True
                elif j["started"]:
                    s, t = "RE"[self.n_qstat % 2], "00:00:01"        # running or exiting
                else:
                    s, t = "Q", "0"
                out.append("%-22s %-16s %-17s %8s %s %s" % (j["id"] + ".pbs-m1", "mlmc_simulation1", "Fiala", t, s, "q_2h"))
            unknown += [i for i in ids if i not in [j["id"] for j in self.jobs]]
            if unknown:
                return Done(153, ("\n".join(out) + "\n").encode(),
                            "\n".join("qstat: Unknown Job Id %s.pbs-m1.server.cz" % i for i in unknown).encode())
            return Done(0, ("\n".join(out) + "\n").encode())
        raise AssertionError("unexpected command %r" % (cmd,))


def flat(d):
    """{level: [(id, x)]} -> [(level, id, x)]"""
    return [(int(l), s, x) for l, items in d.items() for s, x in items]
