"""C23: subsampling draws the requested number of stored samples."""
import itertools
import numpy as np
from . import common as cm

MODULES = ["mlmc.estimator", "mlmc.quantity.quantity", "mlmc.quantity.quantity_estimate", "mlmc.quantity.quantity_types", "mlmc.sample_storage",
           "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.moments"]
META = dict(
    bounds="1..2 levels, up to 4 samples per level split into up to 3 chunks in every way listed, every k <= n, every outcome of the random draws, any sample values, up to 2 components; bootstrap: 2 repetitions (3 thorough), 1..2 levels of 2 samples, monomial moments",
    outside="probabilities of the draws; subsampling of quantities already filtered by select; NaN samples; more samples",
    stubs=["scipy.stats.hypergeom(N, k, n).rvs: any value of its support", "numpy Generator of the quantity module: choice, integers, hypergeometric, permutation, shuffle return any possible outcome",
           "h5py: real files, values pass through as tokens"],
    assumptions=[], limit_s=dict(quick=300, thorough=1500))


class Hyper:
    """scipy.stats.hypergeom under the control of the harness"""

    def __init__(self, I):
        self.I, self.n = I, 0

    def draw(self, N, k, c):
        lo, hi = max(0, k - (N - c)), min(k, c)
        self.n += 1
        if lo > hi:
            raise ValueError("Domain error in arguments.")
        return self.I.cint("hg%d" % self.n, lo, hi)

    def __call__(self, N, k, c):
        N, k, c, me = int(N), int(k), int(c), self

        class Frozen:
            def rvs(self, size=None, random_state=None):
                if size is None:
                    return me.draw(N, k, c)
                return np.array([me.draw(N, k, c) for _ in range(int(np.prod(size)))]).reshape(size)
        return Frozen()

    def rvs(self, M, n, N, loc=0, size=None, random_state=None):
        return self(M, n, N).rvs(size)


class Rng:
    """random generator under the control of the harness"""

    def __init__(self, I, hyper):
        self.I, self.n, self.hyper = I, 0, hyper

    def idx(self, n):
        self.n += 1
        return self.I.cint("ix%d" % self.n, 0, n - 1)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if isinstance(a, (int, np.integer)):
            a = np.arange(a)
        n = a.shape[axis]
        shape = () if size is None else tuple(np.atleast_1d(size))
        cnt = int(np.prod(shape)) if shape else 1
        if n == 0 and cnt:
            raise ValueError("a cannot be empty unless no samples are taken")
        if not replace:
            if cnt > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            left, ix = list(range(n)), []
            for _ in range(cnt):
                ix.append(left.pop(self.idx(len(left))))
        else:
            ix = [self.idx(n) for _ in range(cnt)]
        if not shape:
            return np.take(a, ix[0], axis=axis)
        sl = [slice(None)] * a.ndim
        sl[axis] = np.array(ix, dtype=int)
        return a[tuple(sl)]

    def integers(self, low, high=None, size=None, **k):
        lo, hi = (0, low) if high is None else (low, high)
        if size is None:
            return lo + self.idx(hi - lo)
        return np.array([lo + self.idx(hi - lo) for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

    def hypergeometric(self, ngood, nbad, nsample, size=None):
        return self.hyper(ngood + nbad, ngood, nsample).rvs(size)

    def permutation(self, x, axis=0):
        return self.choice(x, x if isinstance(x, (int, np.integer)) else x.shape[axis], replace=False, axis=axis)


def control(I):
    import scipy.stats
    import mlmc.quantity.quantity as q
    h = Hyper(I)
    I.patch(scipy.stats, "hypergeom", h)
    if hasattr(q, "RNG"):
        I.patch(q, "RNG", Rng(I, h))


def storage(I, levels, cuts, hdf, fmt):
    if not hdf:
        return cm.chunked_memory(levels, cuts, fmt)
    cm.force_chunk_len(I, hdf)
    st, _ = cm.hdf_storage(I, len(levels), fmt)
    for l, (f, c) in enumerate(levels):
        for part in cm.split_batches(cm.pairs_to_batch(l, 0, f, c), [1]):
            st.save_samples({l: part}, {})
    return st


def run_draw(I, counts, cuts, m, hdf=0, again=False, pair=False, compute=False):
    """all chunks of a subsample"""
    from mlmc.quantity.quantity import make_root_quantity, Quantity
    import mlmc.quantity.quantity_estimate as qe
    control(I)
    fmt = [cm.spec(shape=(m, 1))]
    levels = [cm.level_data(I, "s", l, n, m, lo=-100, hi=100) for l, n in enumerate(counts)]
    st = storage(I, levels, cuts, hdf, fmt)
    root = make_root_quantity(st, fmt)
    k = [I.cint("k%d" % l, 0, n) for l, n in enumerate(counts)]
    sub = root.subsample(list(k) if not again else np.array(k))
    if pair:
        arr = sub["q"][1.0]["a"]
        sub = arr[0, 0] * arr[1, 0] + arr[0, 0]
    for rep in range(2 if again else 1):
        qe.cache_clear()
        for l, (f, c) in enumerate(levels):
            total = 0
            for spec in st.chunks(level_id=l):
                a = sub.samples(spec)
                if pair:
                    I.check(a.shape[0] == 1, "one value")
                else:
                    I.check(a.shape[0] == m, "all components")
                I.check(a.ndim == 3 and a.shape[2] == (2 if l else 1), "fine and coarse parts")
                total += a.shape[1]
                for j in range(a.shape[1]):
                    opts = []
                    for i in range(counts[l]):
                        eq = []
                        for s, src in enumerate((f, c)[:a.shape[2]]):
                            if pair:
                                x, y = cm.el(src, i, 0), cm.el(src, i, 1)
                                eq.append(cm.el(a, 0, j, s) - (x * y + x) == 0 if I.symbolic else abs(cm.el(a, 0, j, s) - (x * y + x)) < 1e-6)
                            else:
                                eq += [cm.el(a, q, j, s) == cm.el(src, i, q) for q in range(m)]
                        opts.append(I.both(*eq))
                    I.check(I.any(*opts), "a drawn sample is a stored sample of the level")
            I.check(total == k[l], "requested number of samples of the level")


def run_mean(I, counts, cuts, hdf=0):
    """an estimate of a subsample uses exactly the requested numbers"""
    from mlmc.quantity.quantity import make_root_quantity
    import mlmc.quantity.quantity_estimate as qe
    control(I)
    fmt = [cm.spec()]
    levels = [cm.level_data(I, "s", l, n, 1, lo=-100, hi=100) for l, n in enumerate(counts)]
    st = storage(I, levels, cuts, hdf, fmt)
    q = make_root_quantity(st, fmt)["q"][1.0]["a"][0, 0]
    k = [I.cint("k%d" % l, 1, n) for l, n in enumerate(counts)]
    sub = q.subsample(k)
    for rep in range(2):
        r = qe.estimate_mean(sub)
        I.check([int(x) for x in r.n_samples] == k, "number of samples of the estimate")
        for l, (f, c) in enumerate(levels):
            d = [cm.el(f, i, 0) - (cm.el(c, i, 0) if l else 0.0) for i in range(counts[l])]
            opts = [near(I, cm.el(np.asarray(r.l_means[l]).reshape(-1), 0), sum(p, 0.0) / k[l]) for p in itertools.combinations_with_replacement(d, k[l])]
            I.check(I.any(*opts), "level mean of stored samples")


def near(I, a, b):
    if I.symbolic:
        return a == b
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b))


def run_boot(I, counts, k, B, size, cuts=None):
    """bootstrap summary: consistent with some outcome of the draws"""
    from mlmc.quantity.quantity import make_root_quantity
    from mlmc.moments import Monomial
    from mlmc.estimator import Estimate
    control(I)
    levels = [cm.level_data(I, "s", l, n, 1, lo=-1, hi=1) for l, n in enumerate(counts)]
    st = storage(I, levels, cuts or [[n] for n in counts], 0, [cm.spec()])
    q = make_root_quantity(st, st.load_result_format())["q"][1.0]["a"][0, 0]
    mom = Monomial(size, domain=[-1, 1], ref_domain=[-1, 1])
    est = Estimate(q, st, mom)
    if k is None:
        est.est_bootstrap(n_subsamples=B)
        k = counts
    else:
        est.est_bootstrap(n_subsamples=B, sample_vector=list(k))
    got = dict(mean=est.mean_bs_mean, var=est.mean_bs_var, l_means=est.mean_bs_l_means, l_vars=est.mean_bs_l_vars,
               vmean=est.var_bs_mean, vvar=est.var_bs_var, vl_means=est.var_bs_l_means, vl_vars=est.var_bs_l_vars)
    L = len(counts)
    for n in got:
        I.check(got[n].shape == ((L, size) if "l_" in n else (size,)), "one value per moment (and level)")
    pure = [list(itertools.combinations_with_replacement(range(counts[l]), k[l])) for l in range(L)]
    one = list(itertools.product(*pure))

    def estimate(draw, m):
        lm, lv = [], []
        for l, ix in enumerate(draw):
            f, c = levels[l]
            d = [(cm.el(f, i, 0) ** m if m else 1.0) - ((cm.el(c, i, 0) ** m if m else 1.0) if l else 0.0) for i in ix]
            mu = sum(d, 0.0) / k[l]
            lm.append(mu)
            lv.append(sum(((x - mu) * (x - mu) for x in d), 0.0) / (k[l] - 1) if k[l] > 1 else None)
        var = None if None in lv else sum((v / k[l] for l, v in enumerate(lv)), 0.0)
        return dict(mean=sum(lm, 0.0), var=var, l_means=lm, l_vars=lv)
    opts = []
    for reps in itertools.combinations_with_replacement(one, B):
        eq = []
        for m in range(size):
            es = [estimate(d, m) for d in reps]
            for n in ("mean", "var", "l_means", "l_vars"):
                for l in (range(L) if "l_" in n else [None]):
                    xs = [e[n] if l is None else e[n][l] for e in es]
                    if xs[0] is None:
                        continue
                    a = sum(xs, 0.0) / B
                    v = sum(((x - a) * (x - a) for x in xs), 0.0) / (B - 1)
                    ix = (m,) if l is None else (l, m)
                    eq += [near(I, cm.el(got[n], *ix), a), near(I, cm.el(got["v" + n], *ix), v)]
        opts.append(I.both(*eq))
    I.check(I.any(*opts), "mean and unbiased variance over the repetitions of estimates of subsamples")


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, fn, **kw):
        cs.append(dict(name=name, run=fn, params=kw, time_s=150 if not T else 600))
    add("draw_1", run_draw, counts=(3,), cuts=[[3]], m=2)
    add("draw_2", run_draw, counts=(3, 2), cuts=[[2, 1], [1, 1]], m=1)
    add("draw_3chunks", run_draw, counts=(4,), cuts=[[1, 2, 1]], m=1)
    add("draw_comp", run_draw, counts=(2, 3), cuts=[[2], [1, 2]], m=2)
    add("draw_hdf", run_draw, counts=(3, 2), cuts=None, m=1, hdf=1)
    add("draw_hdf2", run_draw, counts=(3,), cuts=None, m=2, hdf=2)
    add("draw_again", run_draw, counts=(3,), cuts=[[1, 2]], m=1, again=True)
    add("draw_pair", run_draw, counts=(2, 2), cuts=[[1, 1], [2]], m=2, pair=True)
    add("mean_1", run_mean, counts=(2, 2), cuts=[[1, 1], [1, 1]])
    add("mean_3", run_mean, counts=(3,), cuts=[[1, 1, 1]])
    add("mean_hdf", run_mean, counts=(3,), cuts=None, hdf=1)
    add("boot_1", run_boot, counts=(2,), k=(1,), B=2, size=2)
    add("boot_2", run_boot, counts=(2,), k=(2,), B=2, size=2)
    add("boot_none", run_boot, counts=(2,), k=None, B=2, size=2)
    add("boot_levels", run_boot, counts=(2, 2), k=(1, 1), B=2, size=2)
    add("boot_3reps", run_boot, counts=(2,), k=(1,), B=3, size=2)
    add("boot_chunks", run_boot, counts=(3,), k=(2,), B=2, size=2, cuts=[[2, 1]])
    if T:
        add("draw_big", run_draw, counts=(5,), cuts=[[2, 1, 2]], m=1)
        add("draw_hdf3", run_draw, counts=(4, 3), cuts=None, m=1, hdf=2)
        add("boot_3", run_boot, counts=(2,), k=(2,), B=3, size=3)
        add("boot_levels2", run_boot, counts=(2, 2), k=(2, 1), B=2, size=2)
    return cs
