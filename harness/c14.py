"""C14: item of the estimate equals estimate of the item; layouts of moment and covariance quantities."""
import numpy as np
from . import common as cm
from .c11 import World, LOCS

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_types", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage", "mlmc.moments"]
META = dict(
    bounds="2 levels with 1..2 samples, two quantities with shapes up to (2,2) and (2,2,3), 2 times, 2 locations, 2..3 moments; every access path to a whole quantity, time, location, array, row, column or element, composed arrays/dictionaries/fields/time series; moments and covariances in both layouts; all stored values",
    outside="more moments/components; values of items of an estimate with masked (NaN) samples (excluded by the statement; the counts are checked)",
    stubs=["layout cases use a moment family of affine functions with distinct coefficients (a subclass of the real Moments interface); one case per layout uses the real monomials"],
    assumptions=[], limit_s=dict(quick=600, thorough=3000))


def fl(a):
    return [x for x in np.asarray(a, dtype=object).reshape(-1)]


def same_mean(I, m1, m2, label):
    I.check_eq(fl(m1.mean), fl(m2.mean), label + ": mean")
    I.check_eq(fl(m1.var), fl(m2.var), label + ": variance")
    I.check_eq(fl(m1.l_means), fl(m2.l_means), label + ": level means")
    I.check_eq(fl(m1.l_vars), fl(m2.l_vars), label + ": level variances")
    I.check([int(x) for x in m1.n_samples] == [int(x) for x in m2.n_samples], label + ": sample counts")
    I.check([int(x) for x in m1.n_rm_samples] == [int(x) for x in m2.n_rm_samples], label + ": removed counts")


def keys(sh):
    if len(sh) > 2:
        return [(0, 1, 0), (1, 0, 1), (0, 1), (1, 1), 0, 1, (0, slice(None), 1), (slice(None), 0, 1), (slice(0, 1), 1, 1), (0, 0, slice(None))]
    return [(i, j) for i in range(sh[0]) for j in range(sh[1])] + list(range(sh[0])) + [slice(0, 1), slice(None), (slice(None), 0)] + \
        [(0, slice(None)), (slice(None), slice(None, None, -1))]


def path(I, W, depth):
    k = I.choice("q", ["a", "b"])
    p = [k]
    if depth >= 1:
        p.append(W.times[I.cint("t", 0, len(W.times) - 1)])
    if depth >= 2:
        p.append(LOCS[I.cint("l", 0, 1)])
    if depth >= 3:
        p.append(I.choice("key", keys(W.shapes[k])))
    return p


def run_item(I, sa, sb, depth, n):
    from mlmc.quantity.quantity_estimate import estimate_mean
    W = World(I, sa, sb, 2, n=n, lo=-50, hi=50)
    p = path(I, W, depth)
    whole = estimate_mean(W.root)
    q, m = W.root, whole
    for k in p:
        q, m = q[k], m[k]
    same_mean(I, m, estimate_mean(q), "item of the estimate")


def run_counts(I, depth):
    """with masked samples: the item carries the values and the counts of the estimate it is taken from"""
    from mlmc.quantity.quantity_estimate import estimate_mean
    W = World(I, (2, 1), (1, 1), 2, n=(2, 2), lo=-50, hi=50, nan_at=(I.cint("lv", 0, 1), I.cint("sample", 0, 1)))
    p = path(I, W, depth)
    whole = estimate_mean(W.root)
    m = whole
    for k in p:
        m = m[k]
    I.check([int(x) for x in m.n_samples] == [int(x) for x in whole.n_samples], "item of the estimate: numbers of samples")
    I.check([int(x) for x in m.n_rm_samples] == [int(x) for x in whole.n_rm_samples], "item of the estimate: removed counts")
    I.check(sum(int(x) for x in whole.n_rm_samples) == 1, "one sample is masked")


def run_comp(I, kind, n):
    from mlmc.quantity.quantity_estimate import estimate_mean
    from mlmc.quantity.quantity import Quantity
    W = World(I, (2, 1), (1, 1), 2, n=n, lo=-50, hi=50)
    parts = [W.root["a"][1.0]["x"], W.root["a"][2.0]["y"], W.root["a"][1.0]["y"], W.root["a"][2.0]["x"]]
    if kind == "array":
        Q = Quantity.QArray(parts[:3])
        key = I.choice("key", [0, 1, 2, slice(1, 3)])
    elif kind == "array2":
        Q = Quantity.QArray([parts[:2], parts[2:]])
        key = I.choice("key", [(0, 0), (0, 1), (1, 0), (1, 1), 0, 1, (slice(None), 1)])
    elif kind == "scalars":
        Q = Quantity.QArray([[x[0, 0] for x in parts[:2]], [x[1, 0] for x in parts[2:]]])
        key = I.choice("key", [(0, 0), (0, 1), (1, 0), (1, 1), 0, 1, (slice(None), 1)])
    elif kind == "dict":
        Q = Quantity.QDict([("u", parts[0]), ("v", W.root["b"]), ("w", parts[1][1, 0])])
        key = I.choice("key", ["u", "v", "w"])
    elif kind == "field":
        Q = Quantity.QField([("u", parts[0]), ("v", parts[1]), ("w", parts[2])])
        key = I.choice("key", ["u", "v", "w"])
    else:
        Q = Quantity.QTimeSeries([(0.5, parts[0]), (1.5, parts[1]), (2.0, parts[2])])
        key = I.choice("key", [0.5, 1.5, 2.0])
    same_mean(I, estimate_mean(Q)[key], estimate_mean(Q[key]), "item of a composed estimate")


COEF = [(1.0, 0.0), (2.0, 3.0), (-1.0, 5.0), (0.5, -7.0)]


def family(I, kind, R):
    import mlmc.moments as mm
    if kind == "monomial":
        return mm.Monomial(R, (-3, 5), safe_eval=False), lambda r, x: power((x + 3.0) / 8.0, r)

    class Affine(mm.Moments):
        ref_domain = (0, 1)

        def __init__(self, size):
            super().__init__(size, (0, 1), safe_eval=False)

        def _eval_all(self, value, size):
            v = np.atleast_1d(value)
            out = I.np.empty(tuple(v.shape) + (size,))
            for r in range(size):
                out[..., r] = v * COEF[r][0] + COEF[r][1]
            return out
    return Affine(R), lambda r, x: x * COEF[r][0] + COEF[r][1]


def power(x, r):
    y = 1.0
    for _ in range(r):
        y = y * x
    return y


def run_layout(I, what, bottom, fam, sa, sb, R, n, depth):
    """samples and estimates of the moment/covariance quantity, accessed through its structure"""
    import mlmc.quantity.quantity_estimate as qe
    W = World(I, sa, sb, 2, n=n, lo=-3, hi=5)
    mfn, phi = family(I, fam, R)
    p = path(I, W, 3 if depth == 3 else depth)
    r = I.cint("r", 0, R - 1)
    s = I.cint("s", 0, R - 1) if what == "cov" else None
    src = W.root
    for k in p[:I.cint("from", 0, len(p) if depth < 3 else 2)]:
        src = src[k]
        p = p[1:]
    if what == "moments":
        Q = qe.moments(src, mfn, mom_at_bottom=bottom)
    elif what == "cov":
        Q = qe.covariance(src, mfn, cov_at_bottom=bottom)
    mkey = r if what == "moments" else (r, s)
    f = (lambda x: phi(r, x)) if what == "moments" else (lambda x: phi(r, x) * phi(s, x))
    inner = src
    for k in p:
        inner = inner[k]
    item = Q
    from mlmc.quantity.quantity_types import ScalarType
    scalar = isinstance(inner.qtype, ScalarType)
    if bottom and not scalar:
        # moments below: compare the whole item with interleaved moments
        for k in p:
            item = item[k]
        vals = None
    elif bottom:
        for k in p:
            item = item[k]
        item = item[mkey]
    else:
        item = item[mkey]
        for k in p:
            item = item[k]
    for ch in W.chunks():
        base = inner.samples(ch)
        got = item.samples(ch)
        S = 2 if ch.level_id else 1
        if bottom and not scalar:
            comb = [(a,) for a in range(R)] if what == "moments" else [(a, b) for a in range(R) for b in range(R)]
            want = [[[prod([phi(a, cm.el(base, c, i, t)) for a in ab]) for t in range(S)] for i in range(base.shape[1])]
                    for c in range(base.shape[0]) for ab in comb]
        else:
            want = [[[f(cm.el(base, c, i, t)) for t in range(S)] for i in range(base.shape[1])] for c in range(base.shape[0])]
        I.check_eq(got, I.array(np.array(want, dtype=object)), "%s placed where the structure declares" % what)
    # estimate of the structure, then item
    m = qe.estimate_mean(Q)
    it = m
    if bottom:
        for k in p:
            it = it[k]
        if scalar:
            it = it[mkey]
    else:
        it = it[mkey]
        for k in p:
            it = it[k]
    same_mean(I, it, qe.estimate_mean(item), "item of the %s estimate" % what)


def prod(xs):
    y = 1.0
    for x in xs:
        y = y * x
    return y


def run_single(I, sa, R, n, fam):
    import mlmc.quantity.quantity_estimate as qe
    W = World(I, sa, (1, 1), 2, n=n, lo=-3, hi=5)
    mfn, phi = family(I, fam, R)
    depth = I.cint("depth", 0, 3)
    src = W.root
    for k in ["a", 1.0, "y"][:depth]:
        src = src[k]
    r = I.cint("r", 0, R - 1)
    one = qe.moment(src, mfn, i=r)
    all_ = qe.moments(src, mfn, mom_at_bottom=False)
    for ch in W.chunks():
        I.check_eq(one.samples(ch), all_[r].samples(ch), "single moment equals entry of the moments")
        base = src.samples(ch)
        want = np.empty(base.shape, dtype=object)
        for idx in np.ndindex(*base.shape):
            want[idx] = phi(r, cm.el(base, *idx))
        I.check_eq(one.samples(ch), I.array(want), "single moment of every component")


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t))
    for d in range(4):
        add("item%d" % d, run_item, sa=(2, 1), sb=(1, 2), depth=d, n=(1, 2))
    add("item3_3d", run_item, sa=(2, 2, 3), sb=(2, 2, 2), depth=3, n=(1, 2), t=300)
    for d in (1, 3):
        add("counts%d" % d, run_counts, depth=d)
    add("item3_sq", run_item, sa=(2, 2), sb=(1, 1), depth=3, n=(2, 1))
    for k in ("array", "array2", "scalars", "dict", "field", "series"):
        add("comp_%s" % k, run_comp, kind=k, n=(1, 2))
    for b in (True, False):
        for what in ("moments", "cov"):
            nm = "%s_%s" % (what, "bottom" if b else "top")
            add(nm + "_scalar", run_layout, what=what, bottom=b, fam="affine", sa=(2, 1), sb=(1, 1), R=2, n=(1, 1), depth=3, t=300)
            add(nm + "_field", run_layout, what=what, bottom=b, fam="affine", sa=(2, 1), sb=(1, 1), R=2, n=(1, 1), depth=1, t=300)
            add(nm + "_mono", run_layout, what=what, bottom=b, fam="monomial", sa=(1, 1), sb=(1, 1), R=2 if what == "cov" else 3, n=(1, 1), depth=2, t=300)
    add("single_affine", run_single, sa=(2, 1), R=3, n=(1, 1), fam="affine")
    add("single_monomial", run_single, sa=(1, 1), R=3, n=(1, 1), fam="monomial")
    if tier == "thorough":
        add("item3_big", run_item, sa=(2, 3), sb=(3, 1), depth=3, n=(2, 2), t=900)
        for b in (True, False):
            for what in ("moments", "cov"):
                add("%s_%s_big" % (what, b), run_layout, what=what, bottom=b, fam="affine", sa=(2, 2), sb=(1, 2), R=3, n=(1, 2), depth=3, t=1500)
    return cs
