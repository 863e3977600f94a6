"""C18: a sample computation returns its own valid result or a failure, never junk; workspace handling."""
import os, io, contextlib
import numpy as np
import ruamel.yaml as yaml
from . import common as cm
from symx import sched as S

MODULES = ["mlmc.sampling_pool", "mlmc.level_simulation", "mlmc.quantity.quantity_spec", "mlmc.tool.pbs_job"]
META = dict(
    bounds="result formats of 1..2 quantities with symbolic shape entries 1..6, 1..2 times and locations; fine and coarse array results of every length 0..6 (flat or two-dimensional); computation that raises before or after; given or derived seed; workspaces: up to 3 samples on 2 levels, sample numbers 0..7, every pattern of outcomes (success, simulation error, wrong length), with and without common files, debug on/off, in-process pool and PBS job body",
    outside="results that are not arrays (the statement is about array results); larger formats; file system errors other than a missing common file (C06)",
    stubs=["simulations return scripted outcomes"],
    assumptions=["a sample runs alone in its process (one known finding covers the thread pool, whose samples share the working directory)"],
    limit_s=dict(quick=500, thorough=2500))


class Boom(Exception):
    pass


def run_check(I, nspec, two_d, maxlen):
    from mlmc.sampling_pool import SamplingPool
    from mlmc.level_simulation import LevelSimulation
    fmt, expected = [], 0
    for k in range(nspec):
        a = I.int("sh%d_0" % k, 1, 6)
        b = I.int("sh%d_1" % k, 1, 2)
        nt = I.cint("nt%d" % k, 1, 2)
        nl = I.cint("nl%d" % k, 1, 2)
        sp = cm.spec(name="q%d" % k, times=[float(t) for t in range(nt)], locations=["l%d" % j for j in range(nl)])
        sp.shape = (a, b)
        fmt.append(sp)
        expected = expected + a * b * nt * nl
    I.assume(expected <= maxlen)
    nf = I.cint("nf", 0, maxlen)
    nc = I.cint("nc", 0, maxlen)
    fine, coarse = I.datas("f", nf), I.datas("c", nc)
    if two_d:
        fine = fine.reshape((nf, 1))
        coarse = coarse.reshape((1, nc))
    fail = I.choice("fail", ["no", "raise", "none"])
    seen = []

    def calc(config, seed):
        seen.append((config, seed))
        if fail == "raise":
            raise Boom("x")
        if fail == "none":
            return None
        return fine, coarse
    cfg = {"k": 1}
    ls = LevelSimulation(config_dict=cfg)
    ls._calculate = calc
    ls._level_id = 1
    ls._result_format = lambda: fmt
    sid = cm.tag(1, 3)
    given = I.choice("seed", [None, 0, 12345])
    sid2, res, err, rt = SamplingPool.calculate_sample(sid, ls, seed=given)
    I.check(sid2 == sid, "own id is returned")
    I.check(len(seen) == 1 and seen[0][0] is cfg, "simulation called once with its configuration")
    want = given if given is not None else SamplingPool.compute_seed(sid)
    I.check(int(seen[0][1]) == int(want), "simulation gets the seed of the sample")
    ok = err == ""
    good = I.both(nf == nc, nf == expected) if fail == "no" else False
    if ok:
        I.check(good, "only results of the declared length are accepted")
        I.check_same(res[0], fine, "own fine result")
        I.check_same(res[1], coarse, "own coarse result")
    else:
        I.check(isinstance(err, str) and len(err) > 0, "failure has a message")
        if fail == "no":
            I.check(I.any(nf != nc, expected != nf), "results of the declared length are not refused")


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = open(p).read()
        for x in dirs:
            out.setdefault(os.path.relpath(os.path.join(base, x), d) + "/", None)
    return out


def run_ws(I, kind, numbers, levels, debug, outcomes):
    """numbers: candidate sample numbers; one sample per entry of levels"""
    import mlmc.sampling_pool as sp
    from mlmc.level_simulation import LevelSimulation
    tmp = I.tmp()
    cwd = os.getcwd()
    common_dir = os.path.join(tmp, "common")
    os.makedirs(common_dir)
    common = []
    for nm in ("mesh.msh", "conf.yaml"):
        p = os.path.join(common_dir, nm)
        with open(p, "w") as f:
            f.write("content of " + nm)
        common.append(p)
    dbg = I.flag("debug") if debug else False
    n = len(levels)
    ids, outc = [], []
    for i in range(n):
        num = I.choice("num%d" % i, numbers[i])
        ids.append(cm.tag(levels[i], num))
        outc.append(I.choice("out%d" % i, outcomes))
    I.assume(len(set(ids)) == n)
    withcommon = I.flag("common")
    out_dir = os.path.join(tmp, "work", "output")
    runs = {}
    seeds = {int(sp.SamplingPool.compute_seed(s)): i for i, s in enumerate(ids)}
    foreign = {}

    def calc(config, seed):
        i = seeds[int(seed)]
        here = os.getcwd()
        runs.setdefault(i, []).append((here, tree(here), config))
        with open("result.txt", "w") as f:
            f.write("made by " + ids[i])
        if outc[i] == "raise":
            raise Boom(ids[i])
        k = 2 if outc[i] == "len" else 1
        return I.array([1.0] * k), I.array([0.0] * k)
    sims = {}
    for l in set(levels):
        ls = LevelSimulation(config_dict={"level": l}, need_sample_workspace=True, common_files=list(common) if withcommon else None)
        ls._calculate = calc
        ls._level_id = l
        ls._result_format = lambda: [cm.spec()]
        sims[l] = ls
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if kind == "one":
                pool = sp.OneProcessPool(work_dir=os.path.join(tmp, "work"), debug=dbg)
            else:
                pool = None
                for d in ("failed", "several_successful", "jobs"):
                    os.makedirs(os.path.join(out_dir, d))
            # a directory that belongs to somebody else
            other = os.path.join(out_dir, cm.tag(0, 99))
            os.makedirs(other)
            with open(os.path.join(other, "keep.txt"), "w") as f:
                f.write("other")
            if kind == "one":
                for i in range(n):
                    pool.schedule_sample(ids[i], sims[levels[i]])
            else:
                from mlmc.tool.pbs_job import PbsJob
                job = PbsJob(out_dir, os.path.join(out_dir, "jobs"), "0000", "level_{}_simulation_config", dbg)
                job._level_simulations = dict(sims)
                for l in sims:      # not read while the job keeps the simulations it has
                    with open(os.path.join(out_dir, "level_%d_simulation_config" % l), "wb") as f:
                        f.write(b"")
                order = sorted(range(n), key=lambda i: levels[i])
                with open(os.path.join(out_dir, "jobs", PbsJob.SCHEDULED.format("0000")), "w") as f:
                    yaml.dump([(levels[i], ids[i], int(sp.SamplingPool.compute_seed(ids[i]))) for i in order], f)
                if hasattr(PbsJob, "_append_file"):
                    I.patch(PbsJob, "_append_file", lambda self, data, path: None)
                job.calculate_samples()
        finally:
            os.chdir(cwd)
    t = tree(out_dir)
    for i in range(n):
        d = ids[i]
        I.check(len(runs.get(i, [])) == 1, "sample computed once")
        if len(runs.get(i, [])) != 1:
            continue
        here, before, config = runs[i][0]
        I.check(os.path.realpath(here) == os.path.realpath(os.path.join(out_dir, d)), "sample runs in its own directory")
        want = {"mesh.msh": "content of mesh.msh", "conf.yaml": "content of conf.yaml"} if withcommon else {}
        I.check(before == want, "directory holds copies of the common files")
        I.check(config.get("level") == levels[i], "simulation of the own level")
        content = dict(want)
        content["result.txt"] = "made by " + d

        def sub(prefix):
            return {k[len(prefix):]: v for k, v in t.items() if k.startswith(prefix) and k != prefix}
        failed = outc[i] != "ok"
        num = int(d[-7:])
        # where the directory is kept
        if failed:
            I.check(sub("failed/%s/" % d) == content, "directory of a failed sample is kept among the failed")
            I.check(d + "/" not in t, "directory of a failed sample is moved")
            I.check("several_successful/%s/" % d not in t, "failed sample is not among the successful")
        elif dbg:
            I.check(sub(d + "/") == content, "directory of a successful sample is kept in debug mode")
        else:
            I.check(d + "/" not in t, "directory of a successful sample is removed")
            I.check("failed/%s/" % d not in t, "successful sample is not among the failed")
            if num < sp.SamplingPool.N_SUCCESSFUL:
                I.check(sub("several_successful/%s/" % d) == content, "directories of the first successful samples are kept")
            else:
                I.check("several_successful/%s/" % d not in t, "only the first successful samples are kept")
    I.check(t.get(cm.tag(0, 99) + "/keep.txt") == "other", "other directories are not touched")
    for p in common:
        I.check(os.path.exists(p), "common files stay")


def run_threads(I):
    """thread pool: two samples with workspaces computed by two threads"""
    import mlmc.sampling_pool as sp
    from mlmc.level_simulation import LevelSimulation
    S.install(I, sp)
    tmp = I.tmp()
    cwd = os.getcwd()
    out = os.path.join(tmp, "output")
    os.makedirs(out)
    dirs = {}
    seeds = {int(sp.SamplingPool.compute_seed(cm.tag(0, i))): i for i in range(2)}

    def calc(config, seed):
        dirs[seeds[int(seed)]] = os.path.basename(os.getcwd())
        return I.array([1.0]), I.array([0.0])
    ls = LevelSimulation(config_dict={}, need_sample_workspace=True)
    ls._calculate = calc
    ls._level_id = 0
    ls._result_format = lambda: [cm.spec()]
    at = I.cint("at", 0, 40)
    left = [1]

    def tasks(peek=False):
        if peek:
            return bool(left)
        if left:
            left.pop()
            return lambda sc: sp.SamplingPool.calculate_sample(cm.tag(0, 1), ls, out)
    sc = S.Sched(("mlmc/sampling_pool.py",), [(at, None)], tasks)
    S.current[0] = sc

    def program(sc):
        sp.SamplingPool.calculate_sample(cm.tag(0, 0), ls, out)
        sc.plan = []
        sc.finish_h()
    try:
        sc.run(program)
    finally:
        S.current[0] = None
        os.chdir(cwd)
    for i in range(2):
        I.check(dirs.get(i) == cm.tag(0, i), "thread pool: sample runs in its own directory")


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t, max_paths=100000))
    add("lengths1", run_check, nspec=1, two_d=False, maxlen=6)
    add("lengths1_2d", run_check, nspec=1, two_d=True, maxlen=4)
    add("lengths2", run_check, nspec=2, two_d=False, maxlen=5)
    O = ["ok", "raise", "len"]
    for kind in ("one", "pbs"):
        add("ws_two_" + kind, run_ws, kind=kind, numbers=[(0, 4, 5), (0, 1)], levels=(0, 1), debug=True, outcomes=O)
        add("ws_numbers_" + kind, run_ws, kind=kind, numbers=[range(8)], levels=(1,), debug=True, outcomes=O)
        add("ws_three_" + kind, run_ws, kind=kind, numbers=[(0,), (6,), (1,)], levels=(0, 0, 1), debug=False, outcomes=O)
    add("threads", run_threads)
    if tier == "thorough":
        add("lengths2_big", run_check, nspec=2, two_d=True, maxlen=9, t=900)
        add("ws_three_big", run_ws, kind="one", numbers=[(0, 4), (5, 6), (1, 1234567)], levels=(0, 1, 1), debug=True, outcomes=O, t=900)
    return cs
