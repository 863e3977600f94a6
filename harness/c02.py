"""C02: estimates do not depend on batching, chunking or storage backend."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage", "mlmc.sample_storage_hdf",
           "mlmc.tool.hdf5"]
META = dict(
    bounds="levels 1..4 (and 11), up to 5 samples per level, vector size 1..3, every split of each level's samples into up to 3 save batches, chunk length 1..4 of the file; all real values",
    outside="larger data; HDF5 internals (the real h5py library is executed, symbolic values pass through it as unique tokens)",
    stubs=["h5py: chunk length chosen by the library is an input of the check (guess_chunk)", "h5py datasets: symbolic values travel as unique float tokens"],
    assumptions=["every level has at least one collected sample"], limit_s=dict(quick=500, thorough=3000))


def fill(st, levels, cuts, order):
    """save every level in batches; order: interleave levels ('rr') or level by level"""
    batches = {l: cm.split_batches(cm.pairs_to_batch(l, 0, f, c), cuts[l]) for l, (f, c) in enumerate(levels)}
    if order == "one":
        st.save_samples({l: sum(b, []) for l, b in batches.items()}, {})
        return
    k = 0
    while any(batches.values()):
        d = {}
        for l in (sorted(batches) if k % 2 == 0 else sorted(batches, reverse=True)):
            if batches[l]:
                d[l] = batches[l].pop(0)
        st.save_samples(d, {})
        k += 1


def read_levels(I, st, n_levels, label, levels):
    """concatenation of the chunks of each level must be the level's samples in order"""
    seen = {l: [] for l in range(n_levels)}
    for cs in st.chunks():
        seen[int(cs.level_id)].append(st.sample_pairs_level(cs))
    for l in range(n_levels):
        f, c = levels[l]
        tot = sum(x.shape[1] for x in seen[l])
        I.check_same(tot, f.shape[0], label + ": number of samples over the chunks")
        got = [[cm.el(x, k, i, s) for x in seen[l] for i in range(x.shape[1])] for k in range(f.shape[1])
               for s in range(1 if l == 0 else 2)]
        want = [[cm.el(a, i, k) for i in range(f.shape[0])] for k in range(f.shape[1]) for a in ((f,) if l == 0 else (f, c))]
        I.check_same(got, want, label + ": chunk contents")
        I.check(all(x.shape[2] == (1 if l == 0 else 2) for x in seen[l]), label + ": no coarse part on level 0, a pair above")
        per = [st.sample_pairs_level(cs) for cs in st.chunks(level_id=l)]
        got = [[cm.el(x, k, i, 0) for x in per for i in range(x.shape[1])] for k in range(f.shape[1])]
        I.check_same(got, [[cm.el(f, i, k) for i in range(f.shape[0])] for k in range(f.shape[1])], label + ": chunks of one level")


def run_many(I, L, m):
    """more than ten levels, batches of up to five samples"""
    import mlmc.quantity.quantity as q
    import mlmc.quantity.quantity_estimate as qe
    from mlmc.sample_storage import Memory
    from mlmc.sample_storage_hdf import SampleStorageHDF
    cm.force_chunk_len(I, 2)
    ns = [1 + (5 * l + 4) % 7 % 5 for l in range(L)]
    levels = [cm.level_data(I, "x", l, n, m, lo=-50, hi=50) for l, n in enumerate(ns)]
    fmt = [cm.spec(shape=(m, 1))]
    sm = Memory()
    sm.save_global_data(result_format=fmt, level_parameters=[[1.0 / 2 ** l] for l in range(L)])
    fill(sm, levels, [[n // 2] for n in ns], "rr")
    st, path = cm.hdf_storage(I, L, fmt)
    fill(st, levels, [[n] for n in ns], "one")
    ref = cm.estimator_oracle(I, levels)
    for name, s in (("memory", sm), ("file", st), ("file", SampleStorageHDF(file_path=path))):
        read_levels(I, s, L, name, levels)
        est = qe.estimate_mean(q.make_root_quantity(s, fmt)["q"])
        I.check_same([int(v) for v in est.n_samples], ns, "used sample counts")
        for l, r in enumerate(ref):
            I.check_eq(est.l_means[l], r["mean"], "level mean")


def run(I, ns, m, max_chunk):
    import mlmc.quantity.quantity as q
    import mlmc.quantity.quantity_estimate as qe
    from mlmc.sample_storage_hdf import SampleStorageHDF
    L = len(ns)
    cm.force_chunk_len(I, I.cint("chunk", 1, max_chunk))
    levels = [cm.level_data(I, "x", l, n, m, lo=-50, hi=50) for l, n in enumerate(ns)]
    fmt = [cm.spec(shape=(m, 1))]
    cuts = [[I.cint("cut%d" % l, 0, n - 1), I.cint("cutb%d" % l, 0, 1)] for l, n in enumerate(ns)]
    sts = []
    from mlmc.sample_storage import Memory
    for how in ("one", "rr"):
        st = Memory()
        st.save_global_data(result_format=fmt, level_parameters=[[1.0 / 2 ** l] for l in range(L)])
        fill(st, levels, cuts, how)
        sts.append(("memory " + how, st))
    st, path = cm.hdf_storage(I, L, fmt)
    fill(st, levels, cuts, "rr")
    sts.append(("file", st))
    sts.append(("file reopened", SampleStorageHDF(file_path=path)))
    ref = cm.estimator_oracle(I, levels)
    for name, st in sts:
        read_levels(I, st, L, name.split()[0], levels)
        root = q.make_root_quantity(st, fmt)
        est = qe.estimate_mean(root["q"][1.0])
        I.check_same([int(v) for v in est.n_samples], ns, "used sample counts")
        for l, r in enumerate(ref):
            I.check_eq(est.l_means[l], r["mean"], "level mean")
            I.check_eq(est.l_vars[l], r["var"], "level variance")


def run_n(I, ns, m, max_chunk):
    """first-n reads used by the domain and regression estimates"""
    L = len(ns)
    cm.force_chunk_len(I, I.cint("chunk", 1, max_chunk))
    levels = [cm.level_data(I, "x", l, n, m, opaque=True) for l, n in enumerate(ns)]
    fmt = [cm.spec(shape=(m, 1))]
    st, path = cm.hdf_storage(I, L, fmt)
    fill(st, levels, [[1]] * L, "rr")
    from mlmc.sample_storage import Memory
    sm = cm.memory_with(levels, fmt)
    for l, n in enumerate(ns):
        k = I.cint("n%d" % l, 1, n)
        for s in (st, sm):
            specs = list(s.chunks(level_id=l, n_samples=k))
            I.check_same(len(specs), 1, "first-n read is one chunk")
            got = s.sample_pairs_level(specs[0])
            f, c = levels[l]
            I.check_same([[cm.el(got, j, i, 0) for i in range(got.shape[1])] for j in range(m)],
                         [[cm.el(f, i, j) for i in range(k)] for j in range(m)], "first n samples")
            if l:
                I.check_same([[cm.el(got, j, i, 1) for i in range(got.shape[1])] for j in range(m)],
                             [[cm.el(c, i, j) for i in range(k)] for j in range(m)], "first n samples, coarse")


def cases(tier):
    cs = []

    def add(ns, m, mc, fn=run, t=150):
        cs.append(dict(name="%s_ns%s_m%d_c%d" % (fn.__name__, "-".join(map(str, ns)), m, mc), run=fn,
                       params=dict(ns=ns, m=m, max_chunk=mc), time_s=t))
    add([4], 1, 4)
    add([3], 2, 3)
    add([3, 2], 1, 3)
    add([2, 3], 2, 2)
    add([2, 1, 2], 1, 2)
    add([3, 2], 2, 3, run_n)
    cs.append(dict(name="many_levels", run=run_many, params=dict(L=11, m=1), time_s=200))
    cs.append(dict(name="wide", run=run_many, params=dict(L=4, m=3), time_s=200))
    if tier == "thorough":
        add([5, 3], 1, 4, t=1200)
        add([4, 3, 2], 2, 3, t=1200)
        add([5], 3, 5, t=1200)
        add([4, 4], 2, 4, run_n, t=1200)
    return cs
