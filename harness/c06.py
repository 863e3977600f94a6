"""C06: local pools report every scheduled sample exactly once, under every interleaving."""
import os
import numpy as np
from . import common as cm
from symx import sched as S

MODULES = ["mlmc.sampling_pool", "mlmc.level_simulation"]
META = dict(
    bounds="in-process, process and thread pools; 1..3 samples on 1..2 levels; a worker result arrives before any bytecode of the pool code that touches shared state, in any completion order, two arrivals at independent points, and one switch in the middle of result processing; every outcome pattern (success, simulation error, wrong number of values, failing workspace preparation, worker error); all result values",
    outside="more samples; more context switches; preemption inside C functions (atomic under the interpreter lock) and inside the queue module's own lock-protected code other than at its lock operations; death of a worker process (the interpreter's pool itself never reports it)",
    stubs=["multiprocessing pools: stand-in that runs the submitted function and the callbacks in one handler thread, as the interpreter's pools do", "threading locks: cooperative stand-ins with the same semantics"],
    assumptions=[], limit_s=dict(quick=700, thorough=3000))

FILES = ("mlmc/sampling_pool.py",)


class Boom(Exception):
    pass


def level_sim(I, sid_map, level, outcome, common):
    from mlmc.level_simulation import LevelSimulation

    def calc(config, seed):
        return sid_map[int(seed)]()
    ls = LevelSimulation(config_dict={}, task_size=1, need_sample_workspace=common is not None, common_files=common)
    ls._calculate = calc
    ls._level_id = level
    ls._result_format = lambda: [cm.spec()]
    return ls


def run(I, kind, levels, outcomes, script, mode, lifo=False, smax=None):
    """levels[i]: level of sample i; outcomes: allowed outcomes; script: string of s (schedule next) and p (poll)"""
    import mlmc.sampling_pool as sp
    n = len(levels)
    S.install(I, sp)
    out = [I.choice("out%d" % i, outcomes) for i in range(n)]
    vals = []
    for i in range(n):
        f = I.datas("f%d" % i, 1)
        c = I.datas("c%d" % i, 1) if levels[i] else I.array([0.0])
        vals.append((f, c))
    lif = I.flag("lifo") if lifo else False
    key = (kind, tuple(levels), tuple(out), script, mode, lif)
    if I.symbolic:
        if key not in DRY:
            DRY[key] = scenario(I, sp, kind, levels, out, vals, script, [], lif, check=False, ws_case="prep" in outcomes)
        nm, nh = DRY[key]
    else:
        nm = nh = 0
    if mode == "one":
        plan = [(I.cint("a0", 0, nm), None)]
    elif mode == "two":
        a = I.int("a0", 0, nm)
        b = I.int("a1", 0, nm)
        I.assume(a <= b)
        plan = [(I.conc(a), None), (I.conc(b), None)]
    elif mode == "split":
        plan = [(I.cint("a0", 0, nm), I.cint("h0", 0, nh))]
    elif mode == "split2":
        a = I.int("a0", 0, nm)
        b = I.int("a1", 0, nm)
        I.assume(a <= b)
        plan = [(I.conc(a), I.cint("h0", 0, nh)), (I.conc(b), None)]
    else:
        plan = []
    scenario(I, sp, kind, levels, out, vals, script, plan, lif, check=True, ws_case="prep" in outcomes)


DRY = {}


def scenario(I, sp, kind, levels, out, vals, script, plan, lifo, check, ws_case=False):
    n = len(levels)
    tmp = I.tmp()
    work = os.path.join(tmp, "work")
    ws = ws_case or any(o in ("prep",) for o in out)
    sid_map = {}
    ids, sims = [], []
    cnt = {}
    for i in range(n):
        l = levels[i]
        sid = cm.tag(l, cnt.get(l, 0))
        cnt[l] = cnt.get(l, 0) + 1
        ids.append(sid)

        def res(i=i):
            if out[i] == "raise":
                raise Boom("simulation of %d" % i)
            f, c = vals[i]
            if out[i] == "len_f":
                return I.np.concatenate([f, f]), c
            if out[i] == "len_c":
                return f, I.np.concatenate([c, c])
            return f, c
        sid_map[int(sp.SamplingPool.compute_seed(sid))] = res
        common = None
        if ws:
            common = [] if out[i] != "prep" else [os.path.join(tmp, "missing_file")]
        sims.append(level_sim(I, sid_map, l, out[i], common))
    wd = work if ws else None
    if kind == "one":
        pool = sp.OneProcessPool(work_dir=wd)
    elif kind == "proc":
        pool = sp.ProcessPool(2, work_dir=wd)
    else:
        pool = sp.ThreadPool(2, work_dir=wd)

    def pending():
        p = getattr(pool, "_pool", None)
        if isinstance(p, S.FakePool):
            return p.tasks
        return S.FakePool.instances[-1].tasks if S.FakePool.instances else []

    def next_task(peek=False):
        q = pending()
        if peek:
            return bool(q)
        if not q:
            return None
        func, args, kwds, cb, ecb = q.pop(-1 if lifo else 0)
        i = ids.index(args[0]) if args and args[0] in ids else None

        def task(sc):
            import sys
            try:
                if i is not None and out[i] == "worker":
                    raise Boom("worker of %d" % i)
                r = func(*args, **kwds)
                ok = True
            except Exception as e:
                r, ok = e, False
            f = cb if ok else ecb
            if f is not None:
                sys.settrace(sc.trace_h)
                try:
                    f(r)
                finally:
                    sys.settrace(None)
        return task

    log = []
    scheduled = []
    cwd = os.getcwd()

    def poll():
        r = pool.get_finished()
        log.append((r, len(scheduled)))
        return r

    def program(sc):
        k = 0
        for ch in script:
            if ch == "s":
                scheduled.append(k)
                pool.schedule_sample(ids[k], sims[k])
                k += 1
            else:
                poll()
        sc.cur = "main"
        sc.plan = []
        sc.finish_h()

    sc = S.Sched(FILES, plan, next_task)
    S.current[0] = sc
    import contextlib, io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sc.run(program)
            steps = (sc.main_count, sc.total_h)
            poll()
            poll()
    finally:
        S.current[0] = None
        os.chdir(cwd)
    if not check:
        return steps
    I.check(sc.h_exc is None, "processing a result never kills the result handler")
    seen = {}
    for k, ((succ, fail, running, _t), nsched) in enumerate(log):
        for l, rs in succ.items():
            for sid, r in rs:
                seen.setdefault(sid, []).append(("ok", l, r))
        for l, rs in fail.items():
            for sid, msg in rs:
                seen.setdefault(sid, []).append(("fail", l, msg))
        total = sum(len(v) for v in seen.values())
        I.check(running == nsched - total, "running samples = scheduled minus reported")
    I.check(sorted(seen) == sorted(ids), "exactly the scheduled ids are reported")
    for i, sid in enumerate(ids):
        rep = seen.get(sid, [])
        I.check(len(rep) == 1, "sample reported exactly once")
        if len(rep) != 1:
            continue
        st, l, r = rep[0]
        I.check(l == levels[i], "sample reported on its own level")
        if out[i] == "ok":
            I.check(st == "ok", "successful sample reported as successful")
            if st == "ok":
                I.check(len(r) == 2, "result pair")
                I.check_same(r[0], vals[i][0], "own fine result")
                I.check_same(r[1], vals[i][1], "own coarse result")
        else:
            I.check(st == "fail", "failed sample reported as failed")
            if st == "fail":
                I.check(isinstance(r, str) and len(r) > 0, "failed sample has an error message")
    I.check(log[-1][0][2] == 0, "nothing is running in the end")


ALL = ["ok", "raise", "len_f", "len_c"]


def cases(tier):
    cs = []

    def add(nm, t=200, **p):
        cs.append(dict(name=nm, run=run, params=p, time_s=t, max_paths=200000, samples=0))
    add("one_patterns", kind="one", levels=(0, 1, 1), outcomes=ALL, script="sspsp", mode="none")
    add("one_prep", kind="one", levels=(0, 1, 0), outcomes=["ok", "raise", "prep"], script="ssps", mode="none")
    for kind in ("proc", "thread"):
        add(kind + "_patterns", kind=kind, levels=(0, 1, 1), outcomes=ALL + ["worker"], script="sspsp", mode="none", lifo=True)
        add(kind + "_prep", kind=kind, levels=(0, 1, 0), outcomes=["ok", "raise", "prep", "worker"], script="ssps", mode="none")
        add(kind + "_one_arrival", kind=kind, levels=(0, 1), outcomes=["ok", "raise"], script="spsp", mode="one", lifo=True)
        add(kind + "_worker_arrival", kind=kind, levels=(0, 0), outcomes=["ok", "worker"], script="ssp", mode="one", lifo=True)
        add(kind + "_two_arrivals", kind=kind, levels=(0, 0), outcomes=["ok"], script="ssp", mode="two", lifo=True)
        add(kind + "_two_arrivals_fail", kind=kind, levels=(1, 1), outcomes=["raise"], script="ssp", mode="two")
        add(kind + "_two_levels", kind=kind, levels=(0, 1), outcomes=["ok"], script="sspp", mode="two", lifo=True)
        add(kind + "_split", kind=kind, levels=(0,), outcomes=["ok", "raise"], script="sp", mode="split")
        add(kind + "_split_next", kind=kind, levels=(0, 0), outcomes=["ok"], script="ssp", mode="split", t=300)
    if tier == "thorough":
        for kind in ("proc", "thread"):
            add(kind + "_split2", kind=kind, levels=(0, 0), outcomes=["ok"], script="ssp", mode="split2", t=900)
            add(kind + "_three", kind=kind, levels=(0, 1, 0), outcomes=["ok", "raise"], script="sspsp", mode="two", lifo=True, t=900)
    return cs
