"""C24: domain estimate covers the fine samples of all levels."""
import os
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator", "mlmc.quantity.quantity", "mlmc.sample_storage", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5"]
META = dict(
    bounds="1..3 levels, 1..4 samples per level (5 thorough), quantities of 1..3 components, any values and NaN patterns with at least one number per level, quantiles default, 0, 0.01, 0.1, 0.25, 0.4, 0.5; both storages, HDF chunk lengths 1 and 2; samples stored in one or two batches",
    outside="levels without any collected number (the quantile of nothing is an error); other quantiles; more samples",
    stubs=["h5py: real files, values pass through as tokens"], assumptions=[], limit_s=dict(quick=300, thorough=1500))


def quantile(I, xs, q):
    """linear interpolation between order statistics"""
    r = list(xs)
    for i in range(1, len(r)):
        for j in range(i, 0, -1):
            c = r[j] < r[j - 1]
            r[j], r[j - 1] = I.ite(c, r[j - 1], r[j]), I.ite(c, r[j], r[j - 1])
    h = (len(r) - 1) * q
    k = min(int(h), len(r) - 1)
    n = min(k + 1, len(r) - 1)
    return r[k] + (r[n] - r[k]) * (h - k)


def run(I, counts, m, hdf, comp, nan, module=False):
    from mlmc import estimator
    from mlmc.quantity.quantity import make_root_quantity
    fmt = [cm.spec(shape=(m, 1))]
    L = len(counts)
    levels = [cm.level_data(I, "s", l, n, m, nan=nan, lo=-100, hi=100) for l, n in enumerate(counts)]
    if hdf:
        cm.force_chunk_len(I, hdf)
        st, _ = cm.hdf_storage(I, L, fmt)
    else:
        from mlmc.sample_storage import Memory
        st = Memory()
        st.save_global_data(result_format=fmt, level_parameters=cm.lparams(L))
    for l, (f, c) in enumerate(levels):
        b = cm.pairs_to_batch(l, 0, f, c)
        for part in cm.split_batches(b, [1]) if hdf else [b]:
            st.save_samples({l: part}, {})
    root = make_root_quantity(st, fmt)
    q = root["q"][1.0]["a"]
    cols = range(m)
    if comp is not None:
        q = q[comp, 0]
        cols = [comp]
    qu = I.choice("quantile", [None, 0.0, 0.01, 0.1, 0.25, 0.4, 0.5])
    vals = []
    for f, c in levels:
        v = [cm.el(f, i, k) for k in cols for i in range(f.shape[0])]
        if nan:
            v = [x for x in v if not bool(I.is_nan(x))]
        if not v:
            return
        vals.append(v)
    fn = estimator.estimate_domain if module else estimator.Estimate.estimate_domain
    lo, hi = fn(q, st) if qu is None else fn(q, st, quantile=qu)
    p = 0.01 if qu is None else qu
    elo = ehi = None
    for v in vals:
        a, b = quantile(I, v, p), quantile(I, v, 1 - p)
        elo = a if elo is None else I.ite(a < elo, a, elo)
        ehi = b if ehi is None else I.ite(b > ehi, b, ehi)
    close(I, lo, elo, "lower end: smallest lower quantile of the levels")
    close(I, hi, ehi, "upper end: largest upper quantile of the levels")
    I.check(lo <= hi + 1e-9, "lower end does not exceed the upper end")


def close(I, a, b, label):
    d = a - b
    I.check(I.both(d <= 1e-7, d >= -1e-7), label)


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, **kw):
        p = dict(counts=(2,), m=1, hdf=0, comp=0, nan=False)
        p.update(kw)
        cs.append(dict(name=name, run=run, params=p, time_s=100 if not T else 500))
    add("one", counts=(1,))
    add("one4", counts=(4,))
    add("two", counts=(2, 3))
    add("three", counts=(3, 1, 2))
    add("three_desc", counts=(4, 2, 1))
    add("nan", counts=(2, 2), nan=True)
    add("nan3", counts=(3, 1), nan=True)
    add("comps", counts=(2, 1), m=2, comp=None)
    add("comp1", counts=(2, 2), m=2, comp=1)
    add("comps_nan", counts=(1, 1), m=2, comp=None, nan=True)
    add("hdf1", counts=(3, 2), hdf=1)
    add("hdf2", counts=(2, 3, 1), hdf=2)
    add("hdf_nan", counts=(2, 2), hdf=1, nan=True)
    add("hdf_comps", counts=(2, 1), m=2, comp=None, hdf=2)
    add("module", counts=(1, 3), module=True)
    add("module_nan", counts=(2, 2), module=True, nan=True)
    if T:
        add("four", counts=(5, 4, 3, 2))
        add("nan_big", counts=(3, 3), nan=True)
        add("comps3", counts=(2, 2), m=3, comp=None)
        add("hdf3", counts=(5, 4, 2), hdf=2)
    return cs
