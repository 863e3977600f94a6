"""C03: storage returns what was stored; accounting matches the history."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5"]
META = dict(
    bounds="1..2 levels (3 in thorough; single histories with 11), every history of 3 save calls (4 in thorough) with successful and/or failed batches of 0..2 samples (0..4 in the big cases) on each level, 0..4 scheduled samples per level in 1..2 scheduling calls, reopening of the file at every position; all result values, vector size 1..2",
    outside="longer histories, larger batches; result values travel through h5py as unique tokens",
    stubs=["h5py datasets: symbolic values travel as unique float tokens"],
    assumptions=["ids are saved as finished only after they were scheduled, each once"], limit_s=dict(quick=500, thorough=3000))


def pad(v, n):
    v = [x for x in v]
    return v + [0] * (n - len(v))


def ok_number(x):
    return isinstance(x, (int, float, np.integer, np.floating)) or type(x).__name__.startswith("Sym")


def verify(I, backend, st, L, hist, label):
    """hist[l] = dict(sched=[ids], succ=[(id, f, c)], fail=[(id, msg)])"""
    sched = st.load_scheduled_samples()
    for l in range(L):
        I.check([s for s in sched.get(l, [])] == hist[l]["sched"], label + "scheduled ids in order")
    nf = pad(st.n_finished(), L)
    nc = pad(st.get_n_collected(), L)
    for l in range(L):
        I.check(ok_number(nf[l]) and nf[l] == len(hist[l]["succ"]) + len(hist[l]["fail"]), label + "number of finished samples")
        I.check(ok_number(nc[l]) and nc[l] == len(hist[l]["succ"]), label + "number of collected samples")
    pairs = st.sample_pairs()
    for l in range(L):
        succ = hist[l]["succ"]
        if not succ:
            continue
        p = pairs[l]
        m = len(succ[0][1])
        got = [[[cm.el(p, k, i, s) for s in range(1 if l == 0 else 2)] for i in range(p.shape[1])] for k in range(p.shape[0])]
        want = [[[x[1 + s][k] for s in range(1 if l == 0 else 2)] for x in succ] for k in range(m)]
        I.check_same(got, want, label + "stored result pairs")
    if backend == "file":
        want_un = sorted(i for l in range(L) for i in hist[l]["sched"]
                         if i not in [s[0] for s in hist[l]["succ"]] and i not in [f[0] for f in hist[l]["fail"]])
        I.check(sorted(st.unfinished_ids()) == want_un, label + "unfinished ids")
        fs = st.failed_samples()
        for l in range(L):
            I.check(sorted(fs.get(str(l), [])) == sorted(f[0] for f in hist[l]["fail"]), label + "failed ids")


MESSAGES = ["", "plain", "chyba: \u0161patn\u011b \u2212 \u4e2d\n", "long " * 400, "\u0159" * 999, "path \udce1", "quote \" ' \\ \x00 end"]


def run(I, backend, L, m, steps, first, reopen, big=False, messages=False):
    from mlmc.sample_storage import Memory
    fmt = [cm.spec(shape=(m, 1))]
    if backend == "file":
        cm.force_chunk_len(I, 2)
        st, path = cm.hdf_storage(I, L, fmt)
    else:
        st = Memory()
        st.save_global_data(result_format=fmt, level_parameters=[[1.0 / 2 ** l] for l in range(L)])
    hist = [dict(sched=[], succ=[], fail=[]) for _ in range(L)]
    pend = [[] for _ in range(L)]
    n_id = [0] * L

    def schedule(l, n):
        # ids in no particular order of their names
        ids = [cm.tag(l, (n_id[l] + i) * 7 % 23) for i in range(n)]
        n_id[l] += n
        st.save_scheduled_samples(l, ids)
        hist[l]["sched"] += ids
        pend[l] += ids

    for l in range(L):
        schedule(l, 4)
    r_at = I.cint("reopen_at", 0, steps) if (backend == "file" and reopen) else -1
    for k in range(steps):
        if k == r_at:
            from mlmc.sample_storage_hdf import SampleStorageHDF
            st = SampleStorageHDF(file_path=path)
        succ, fail = {}, {}
        for l in range(L):
            if k == 0 and first is not None:
                op = first[l]
            else:
                op = I.cint("op%d_%d" % (k, l), 0, 4 if not big else 6)
            # 0 nothing, 1 one success, 2 two successes, 3 one failure, 4 success + failure, 5 three + two, 6 four successes
            ns = {0: 0, 1: 1, 2: 2, 3: 0, 4: 1, 5: 3, 6: 4}[op]
            nf = {3: 1, 4: 1, 5: 2}.get(op, 0)
            while len(pend[l]) < ns + nf:
                schedule(l, 1)
            sb, fb = [], []
            for _ in range(ns):
                i = pend[l].pop(0 if k % 2 else -1)
                f = I.datas("f_%s" % i, m)
                c = I.datas("c_%s" % i, m) if l else I.array([0.0] * m)
                sb.append((i, (f, c)))
                hist[l]["succ"].append((i, [cm.el(f, j) for j in range(m)], [cm.el(c, j) for j in range(m)]))
            for _ in range(nf):
                i = pend[l].pop(0)
                msg = "error of " + i if not messages else I.choice("msg_%s" % i, MESSAGES)
                fb.append((i, msg))
                hist[l]["fail"].append((i, msg))
            if sb:
                succ[l] = sb
            if fb:
                fail[l] = fb
        st.save_samples(succ, fail)
        verify(I, backend, st, L, hist, "")
    if backend == "file":
        from mlmc.sample_storage_hdf import SampleStorageHDF
        verify(I, backend, SampleStorageHDF(file_path=path), L, hist, "after reopening: ")


def cases(tier):
    cs = []

    def add(backend, L, m, steps, first, reopen=False, t=200, big=False, messages=False):
        cs.append(dict(name="%s_L%d_m%d_s%d_%s%s" % (backend, L, m, steps, "".join(map(str, first)) if first else "any", ("_r" if reopen else "") + ("_big" if big else "") + ("_msg" if messages else "")),
                       run=run, params=dict(backend=backend, L=L, m=m, steps=steps, first=first, reopen=reopen, big=big, messages=messages), time_s=t))
    add("memory", 2, 1, 2, None)
    add("memory", 2, 2, 3, (1, 3))
    add("memory", 3, 1, 1, None)
    for b in ("memory", "file"):
        add(b, 1, 3, 2, (5,), b == "file", big=True)
        add(b, 2, 1, 2, (6, 5), b == "file", big=True)
        add(b, 11, 1, 1, (1, 2, 0, 3, 1, 4, 1, 1, 0, 5, 2))
    add("file", 2, 1, 1, None, True)
    for b in ("memory", "file"):
        add(b, 1, 1, 1, (5,), messages=True, big=True)
        add(b, 2, 1, 1, (3, 4), b == "file", messages=True)
    for f in ((0, 1), (3, 0), (4, 2), (1, 1), (2, 3), (0, 3)):
        add("file", 2, 1 if f[0] else 2, 2, f, True)
    if tier == "thorough":
        for a in range(5):
            for b in range(5):
                add("file", 2, 1 + (a + b) % 2, 2, (a, b), True, t=900)
                add("memory", 2, 2, 3, (a, b), t=900)
        add("file", 3, 1, 1, None, True, t=900)
        add("memory", 3, 1, 2, (1, 3, 0), t=900)
    return cs
