"""C20: random fields realise the declared covariance, mean, scale and regions."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.random.correlated_field"]
META = dict(
    bounds="kernel: 2..4 points with arbitrary coordinates in dimension 1..3 (|x| <= 100), every correlation length in [1/1000, 1000], exponents gauss, exp, 1.5, two anisotropy tensors; sampling through a field: 1..3 points with arbitrary coordinates, any mean (|mu| <= 100), deviation (0..100), scalar or per point, log or not, two consecutive point sets; direct sampling and number of terms: 8 fixed geometries of 2..12 points, every relative precision in (0, 1), any normal input; sets of fields: 4 points, every assignment of 3 regions to the points, any sample values; maps: every 0 < a < b, x >= 0, every porosity, m in {1, 2, 3}, factor and viscosity",
    outside="deprecated Fourier fields and the random modes of gstools (its SRF is a stand-in function of the points); more than 100 terms; accuracy of the randomised decomposition for large matrices; one random field object shared by two sets of fields; dependent fields whose parameters live on other regions",
    stubs=["np.linalg.svd of a symbolic symmetric matrix A: fresh U, ev with U diag(ev) U^T = A, ev >= 0 descending (contract)",
           "np.random.normal: arbitrary values", "scipy.optimize.bisect: arbitrary value of the bracket", "gstools.SRF: arbitrary values per point"],
    assumptions=["the covariance matrix is positive semidefinite, so its left and right singular vectors agree"], limit_s=dict(quick=400, thorough=2500))

KERNEL = {"gauss": 2.0, "exp": 1.0, "1.5": 1.5}


def quad(I, K, p, q, dim):
    s = 0.0
    for a in range(dim):
        for b in range(dim):
            if isinstance(K[a][b], float) and K[a][b] == 0.0:
                continue
            s = s + (cm.el(p, a) - cm.el(q, a)) * K[a][b] * (cm.el(p, b) - cm.el(q, b))
    return s


def ref_cov(I, pts, K, alpha, dim):
    n = len(pts)
    C = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j:
                C[i][j] = 1.0
                continue
            s = quad(I, K, pts[i], pts[j], dim)
            if alpha == 2.0:
                e = s
            elif alpha == 1.0:
                e = I.fn("sqrt", s)
            else:
                e = s ** (alpha / 2) if not I.symbolic else I.np.power(s, alpha / 2)
            C[i][j] = I.fn("exp", -e)
    return C


def iso(I, L, dim):
    return [[(1 / (L * L)) if a == b else 0.0 for b in range(dim)] for a in range(dim)]


ANISO = {2: [[2.0, 0.5], [0.5, 1.0]], 3: [[2.0, 0.5, 0.0], [0.5, 1.0, -0.25], [0.0, -0.25, 3.0]]}


def run_cov(I, n, dim, kernel, aniso):
    from mlmc.random import correlated_field as cf
    arg = float(kernel) if kernel[0].isdigit() else kernel
    if aniso:
        K = ANISO[dim]
        f = cf.SpatialCorrelatedField(corr_exp=arg, dim=dim, aniso_correlation=np.array(K))
    else:
        L = I.real("L", 0.001, 1000)
        K = iso(I, L, dim)
        f = cf.SpatialCorrelatedField(corr_exp=arg, dim=dim, corr_length=L)
    pts = I.reals("p", (n, dim), -100, 100)
    far(I, pts, n, dim)
    f.set_points(pts)
    C = f.cov_matrix()
    I.check(C.shape == (n, n), "one row and column per point")
    R = ref_cov(I, pts, K, KERNEL[kernel], dim)
    for i in range(n):
        for j in range(n):
            I.check_eq(cm.el(C, i, j), R[i][j], "declared kernel of the point difference", tol=1e-9)


def far(I, pts, n, dim):
    """points are not all the same (the diameter is a divisor)"""
    if n > 1:
        d = cm.el(pts, 0, 0) - cm.el(pts, 1, 0)
        I.assume(I.any(d > 1e-3, d < -1e-3))


def svd_contract(I, log):
    """decomposition of a symbolic symmetric matrix"""
    def svd(A, *a, **k):
        n = A.shape[0]
        t = "svd%d" % len(log)
        U = I.reals(t + "_u", (n, n), -2, 2)
        ev = I.reals(t + "_ev", (n,), 0, None)
        for i in range(n):
            if i:
                I.assume(cm.el(ev, i) <= cm.el(ev, i - 1))
            for j in range(n):
                s = 0.0
                for m in range(n):
                    s = s + cm.el(U, i, m) * cm.el(ev, m) * cm.el(U, j, m)
                I.assume(s == cm.el(A, i, j))
        log.append(t)
        return U, ev, U.T
    return svd


class Draws:
    """np.random.normal under the control of the harness"""

    def __init__(self, I):
        self.I, self.n, self.next, self.sizes = I, 0, None, []
        if I.symbolic:
            I.stub("numpy.random.normal", self)
        else:
            I.patch(np.random, "normal", self)

    def __call__(self, loc=0.0, scale=1.0, size=None):
        n = int(size)
        self.sizes.append(n)
        z = self.next(n)
        return self.I.array(np.array([loc + scale * cm.el(z, i) for i in range(n)], dtype=object))


def columns(I, sampler, draws):
    """factor of the field: its value for the unit inputs (with zero mean and unit deviation already removed by the caller)"""
    draws.next = lambda n: I.array(np.array([0.0] * n, dtype=object))
    zero = sampler()
    m = draws.sizes[-1]
    cols = []
    for k in range(m):
        draws.next = lambda n, k=k: I.array(np.array([1.0 if i == k else 0.0 for i in range(n)], dtype=object))
        cols.append(sampler())
    return zero, cols


def run_field(I, sizes, dim, kernel, log, per_point, move):
    """sampling through Field on two consecutive point sets, arbitrary points"""
    from mlmc.random import correlated_field as cf
    calls = []
    I.stub("numpy.linalg.svd", svd_contract(I, calls))
    draws = Draws(I)
    L = I.real("L", 0.001, 1000)
    sets = []
    for k, n in enumerate(sizes):
        pts = I.reals("p%d" % k, (n, dim), -100, 100)
        far(I, pts, n, dim)
        sets.append(pts)
    K = iso(I, L, dim)
    mu, sigma = I.real("mu", -100, 100), I.real("sigma", 0, 100)
    if not move:
        mu, sigma = 0.0, 1.0
    fld = cf.SpatialCorrelatedField(corr_exp=kernel, dim=dim, corr_length=L, mu=mu, sigma=sigma, log=log)
    ff = cf.Field("f", fld)

    def sample():
        """sampled values, logarithms of a log field"""
        v = fld.sample() if per_point else ff.sample()
        I.check(v.shape == (len(sets[k]),), "one value per point")
        if log:
            v = I.array(np.array([I.fn("log", cm.el(v, i)) for i in range(len(sets[k]))], dtype=object))
        return v
    for k, n in enumerate(sizes):
        if per_point:
            mu, sigma = I.reals("mu%d" % k, n, -100, 100), I.reals("sg%d" % k, n, 0, 100)
            fld.set_points(sets[k], mu=mu, sigma=sigma)
            fld.svd_dcmp(n_terms_range=(10, 100))
        else:
            ff.set_points(sets[k])
        zero, c0 = columns(I, sample, draws)
        m = [cm.el(mu, i) if per_point else mu for i in range(n)]
        s = [cm.el(sigma, i) if per_point else sigma for i in range(n)]
        for i in range(n):
            I.check_eq(cm.el(zero, i), m[i], "zero input gives the mean", tol=1e-6)
        lin = [[cm.el(c, i) - m[i] for i in range(n)] for c in c0]
        R = ref_cov(I, sets[k], K, KERNEL[kernel], dim)
        for i in range(n):
            for j in range(n):
                t = 0.0
                for c in lin:
                    t = t + c[i] * c[j]
                I.check_eq(t, s[i] * s[j] * R[i][j], "covariance of the current points scaled by the deviations", tol=1e-5)
        if move:
            z = I.reals("z%d" % k, len(c0), -10, 10)
            draws.next = lambda q: z
            got = sample()
            for i in range(n):
                v = m[i]
                for q, c in enumerate(lin):
                    v = v + c[i] * cm.el(z, q)
                I.check_eq(cm.el(got, i), v, "mean + deviation * factor * normal input", tol=1e-5)


GEO = {
    "pair": (1, [[0.0], [0.4]], 1.0), "line3": (1, [[0.0], [0.2], [1.0]], 0.7),
    "line5": (1, [[0.0], [0.25], [0.5], [0.75], [1.0]], 0.2), "line5far": (1, [[0.0], [2.5], [5.0], [7.5], [10.0]], 0.1),
    "square": (2, [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [0.5, 0.4]], 0.8),
    "grid9": (2, [[0.5 * (i % 3), 0.5 * (i // 3)] for i in range(9)], 0.3),
    "line12": (1, [[0.1 * i] for i in range(12)], 0.05),
    "cube": (3, [[float(i & 1), float(i >> 1 & 1), float(i >> 2 & 1)] for i in range(8)], 0.9),
}


def real_svd(I):
    """decompositions of concrete matrices run the real routine"""
    from mlmc.random import correlated_field as cf
    I.float_fns()
    if not I.symbolic:
        return
    import sklearn.utils.extmath as ex
    import scipy.optimize

    def conv(A):
        return np.array([[float(x) for x in r] for r in np.asarray(A, dtype=object)], dtype=float)
    I.stub("numpy.linalg.svd", lambda A, *a, **k: np.linalg.svd(conv(A), *a, **k))
    I.patch(cf, "randomized_svd", lambda A, n_components, **k: ex.randomized_svd(conv(A), n_components=I.conc(n_components), **dict(k, random_state=0)))
    cnt = [0]

    def bisect(f, a, b, *args, **k):
        cnt[0] += 1
        x = I.real("bisect%d" % cnt[0], a, b)
        return x
    I.patch(scipy.optimize, "bisect", bisect)


def run_direct(I, first, second, kernel, log, order):
    """direct use of the field: set points, sample, set other points, sample; fixed geometry, arbitrary mean, deviation, input"""
    from mlmc.random import correlated_field as cf
    real_svd(I)
    draws = Draws(I)
    dim, pts, L = GEO[first]
    f = cf.SpatialCorrelatedField(corr_exp=kernel, dim=dim, corr_length=L, mu=0.0, sigma=1.0)
    g = cf.SpatialCorrelatedField(corr_exp=kernel, dim=dim, corr_length=L, log=log)
    for k, geo in enumerate((first, second)):
        _, pts, _ = GEO[geo]
        n = len(pts)
        P = np.array(pts)
        R = ref_cov(cm_plain(), P, iso(None, L, dim), KERNEL[kernel], dim)
        f.set_points(P)
        if order == "matrix":
            C = f.cov_matrix()
            for i in range(n):
                for j in range(n):
                    I.check_eq(cm.el(C, i, j), R[i][j], "matrix of the current points", tol=1e-9)
        zero, cols = columns(I, f.sample, draws)
        I.check(all(cm.el(zero, i) == 0 for i in range(n)), "zero mean")
        A = np.array([[float(cm.el(c, i)) for c in cols] for i in range(n)])
        R = np.array(R, dtype=float)
        top = np.linalg.eigvalsh(R)
        I.check(np.linalg.norm(R - A.dot(A.T), 2) <= 0.01 * top[-1] * (1 + 1e-6), "covariance of the current points up to the precision")
        mu, sg = I.real("mu%d" % k, -100, 100), I.real("sigma%d" % k, 0, 100)
        if log:
            z = np.array([(-1.0) ** i * (0.3 + 0.17 * i) for i in range(20)])
        else:
            z = I.reals("z%d" % k, 20, -10, 10)
            g.set_points(P, mu=mu, sigma=sg)
            draws.next = lambda m: I.array(np.array([0.0] * m, dtype=object))
            zz = g.sample()
            for i in range(n):
                I.check_eq(cm.el(zz, i), mu, "zero input gives the mean", tol=1e-9)

        def sample():
            v = g.sample()
            return I.array(np.array([I.fn("log", cm.el(v, i)) for i in range(n)], dtype=object)) if log else v
        g.set_points(P, mu=0.0, sigma=1.0)
        _, cols = columns(I, sample, draws)
        g.sigma, g.mu = sg, mu                     # same factor
        draws.next = lambda m: z
        got = sample()
        for i in range(n):
            v = mu
            for q, c in enumerate(cols):
                v = v + sg * cm.el(c, i) * cm.el(z, q)
            d = cm.el(got, i) - v
            I.check(I.both(d <= 1e-5, d >= -1e-5), "mean + deviation * factor * normal input")


class cm_plain:
    """plain float stand-in of the input interface"""
    symbolic = False

    def fn(self, name, x):
        return float(getattr(np, name)(x))


def run_terms(I, geo, kernel, rng):
    """every precision: dropped terms are below it unless the allowed number is reached"""
    from mlmc.random import correlated_field as cf
    real_svd(I)
    draws = Draws(I)
    dim, pts, L = GEO[geo]
    n = len(pts)
    f = cf.SpatialCorrelatedField(corr_exp=kernel, dim=dim, corr_length=L)
    f.set_points(np.array(pts))
    prec = I.real("precision", 1e-6, 0.999)
    lf, ev = f.svd_dcmp(precision=prec, n_terms_range=rng)
    zero, cols = columns(I, f.sample, draws)
    m = len(cols)
    A = np.array([[float(cm.el(c, i)) for c in cols] for i in range(n)])
    R = np.array(ref_cov(cm_plain(), np.array(pts), iso(None, L, dim), KERNEL[kernel], dim), dtype=float)
    top = np.linalg.eigvalsh(R)[-1]
    res = float(np.linalg.norm(R - A.dot(A.T), 2))
    lo, hi = min(rng[0], n), min(rng[1], n)
    I.check(lo <= m <= hi, "number of terms is in the given interval")
    if m < hi:
        I.check(prec * top * (1 + 1e-6) + 1e-9 >= res, "dropped terms are below the precision")
    best = np.sort(np.linalg.eigvalsh(R))[::-1]
    nxt = best[m] if m < n else 0.0
    I.check(res <= nxt * (1 + 1e-6) + 1e-6, "the largest terms are kept")
    I.check(len(ev) == m and np.allclose(np.array([float(x) for x in ev]), best[:m], atol=1e-6), "reported eigenvalues")


def run_gstools(I, n, dim, log, per_point):
    """gstools based field: deviation * field + mean"""
    from mlmc.random import correlated_field as cf
    import gstools
    vals = I.reals("w", n, -10, 10)
    seen = []

    class SRF:
        mean = 0.0

        def __init__(self, model, *a, **k):
            pass

        def __call__(self, pos, *a, **k):
            seen.append(pos)
            return vals
    I.patch(gstools, "SRF", SRF)
    f = cf.GSToolsSpatialCorrelatedField(gstools.Gaussian(dim=dim), log=log, sigma=2.5)
    pts = I.reals("p", (n, dim), -100, 100)
    if per_point:
        mu, sg = I.reals("mu", n, -100, 100), I.reals("sigma", n, 0, 100)
        f.set_points(pts, mu=mu, sigma=sg)
    else:
        mu, sg = 0.0, 2.5
        f.set_points(pts)
    got = f.sample()
    I.check(got.shape == (n,), "one value per point")
    pos = seen[-1]
    I.check(len(pos) == dim, "one array per coordinate")
    for k in range(dim):
        a = np.asarray(pos[k], dtype=object).reshape(-1)
        I.check(len(a) == n, "all points")
        for i in range(n):
            I.check_eq(a[i], cm.el(pts, i, k), "coordinates of the points in order")
    for i in range(n):
        e = (cm.el(sg, i) if per_point else sg) * cm.el(vals, i) + (cm.el(mu, i) if per_point else mu)
        I.check_eq(cm.el(got, i), I.fn("exp", e) if log else e, "deviation * field + mean", tol=1e-9)


def rand_class(I):
    from mlmc.random import correlated_field as cf

    class Rnd(cf.RandomFieldBase):
        """random field with arbitrary values, new ones for every sample"""
        tag = 0

        def _initialize(self, name="r", **kw):
            self.nm = name
            self.last = None

        def _sample(self):
            Rnd.tag += 1
            v = I.reals("%s_%d" % (self.nm, Rnd.tag), max(len(self.points), 1), 0, 100)[:len(self.points)]
            self.last = (np.array(self.points, dtype=object), v)
            return v
    return Rnd


def run_set(I, shared, outer, twice, default_regions):
    from mlmc.random import correlated_field as cf
    N = 4
    Rnd = rand_class(I)
    ids = {"top": 3, "bot": 7, "rest": 1}
    reg = [I.choice("reg%d" % i, [3, 7, 1]) for i in range(N)] if not default_regions else []
    pts = I.array(np.array([[float(i), 2.0] for i in range(N)], dtype=object))
    ra = Rnd(name="a", dim=2)
    rb = ra if shared else Rnd(name="b", dim=2)
    rc = Rnd(name="c", dim=2)
    rec = []

    def dep(x, k, c):
        rec.append((x, k, c))
        return x * k + c
    if default_regions:
        fields = [cf.Field("a", ra), cf.Field("d", dep, ["a", 2, 0.5]), cf.Field("k", 3.0)]
    else:
        fields = [cf.Field("a", ra, regions="top"), cf.Field("b", rb, regions=["bot", "top"]), cf.Field("c", rc),
                  cf.Field("d", dep, ["a", 2, 0.5], regions="top"), cf.Field("e", dep, ["b", "b", 7], regions=["bot", "top"]),
                  cf.Field("g", lambda x, y: x - y, ["d", "a"], regions="top"), cf.Field("k", 3.0, regions="rest")]
    F = cf.Fields(fields)
    names = [f.name for f in fields]
    if outer is not None:
        F.set_outer_fields(outer)
    regions_of = {"a": ["top"], "b": ["bot", "top"], "c": None, "d": ["top"], "e": ["bot", "top"], "g": ["top"], "k": ["rest"]}
    if default_regions:
        regions_of = {"a": None, "d": None, "k": None}
    for rep in range(2 if twice else 1):
        if rep == 1:
            reg = reg[::-1]
            pts = I.array(np.array([[10.0 + i, 2.0] for i in range(N)], dtype=object))
        if default_regions:
            F.set_points(pts)
        else:
            F.set_points(pts, reg, ids)
        for s in range(2):
            out = F.sample()
            if outer is not None:
                I.check(set(out) == set(outer), "only the requested fields are returned")
            vals = {}
            for nm in names:
                where = list(range(N)) if regions_of[nm] is None else [i for i in range(N) if any(reg[i] == ids[r] for r in regions_of[nm])]
                fo = F.fields_dict[nm]
                if nm in ("a", "b", "c"):
                    if where:
                        P, v = fo.correlated_field.last
                        loc = {}
                        for t in range(len(P)):
                            loc[float(P[t, 0])] = cm.el(v, t)
                        I.check(sorted(loc) == sorted(float(cm.el(pts, i, 0)) for i in where), "random field is evaluated on the points of its regions")
                        vals[nm] = {i: loc[float(cm.el(pts, i, 0))] for i in where}
                    else:
                        vals[nm] = {}
                elif nm == "d":
                    vals[nm] = {i: vals["a"][i] * 2 + 0.5 for i in where}
                elif nm == "e":
                    vals[nm] = {i: vals["b"][i] * vals["b"][i] + 7 for i in where}
                elif nm == "g":
                    vals[nm] = {i: vals["d"][i] - vals["a"][i] for i in where}
                else:
                    vals[nm] = {i: 3.0 for i in where}
                if nm in out:
                    I.check(out[nm].shape == (N,), "one value per point")
                    for i in range(N):
                        I.check_eq(cm.el(out[nm], i), vals[nm].get(i, 0.0), "value on its own point, zero elsewhere", tol=1e-9)
                elif outer is None:
                    I.check(False, "all fields are returned")


def run_ptr(I):
    from mlmc.random import correlated_field as cf
    a, b = I.real("a", None, 1000), I.real("b", None, 1000)
    I.assume(a > 1e-6)
    I.assume(b > a + 1e-6)
    x = I.reals("x", 2, 0, 1e6)
    I.assume(cm.el(x, 0) <= cm.el(x, 1) - 1e-6)
    y = cf.positive_to_range(x, a, b)
    y0, y1 = cm.el(y, 0), cm.el(y, 1)
    I.check(I.both(y0 >= a * (1 - 1e-9), y1 < b * (1 + 1e-12)), "inside the range")
    I.check(y0 <= y1 * (1 + 1e-12), "increasing")
    I.check_eq(cf.positive_to_range(I.array(np.array([0.0], dtype=object)), a, b)[0], a, "zero goes to the lower end", tol=1e-9)
    k = I.real("k", 1, 100)
    t = cf.positive_to_range(I.array(np.array([k * b / (b - a)], dtype=object)), a, b)
    I.check_eq(cm.el(t, 0), b - (b - a) / (1 + k), "declared map", tol=1e-9)


def run_kc(I, m):
    from mlmc.random import correlated_field as cf
    p = I.reals("p", 2, -1, 2)
    fac, visc = I.real("factor", 1e-13, 1e-3), I.real("visc", 1e-6, 10)
    c = cf.kozeny_carman(p, m, fac, visc)
    for i in range(2):
        pi, ci = cm.el(p, i), cm.el(c, i)
        I.check(ci >= 1e-15 * (1 - 1e-9), "conductivity is bounded from below")
        inside = I.both(pi >= 1e-3, pi <= 1 - 1e-3)
        if bool(inside):
            num = fac
            for _ in range(2 + m):
                num = num * pi
            # c = max(1e-15, num / (1-p)^2 / visc)
            den = (1 - pi) * (1 - pi) * visc
            I.check(I.any(ci * den - num <= 1e-9 * num, ci <= 1e-15 * (1 + 1e-9)), "declared law")
            I.check(ci * den - num >= -1e-9 * num, "declared law (from below)")
    if bool(cm.el(p, 0) <= cm.el(p, 1)):
        I.check(cm.el(c, 0) <= cm.el(c, 1) * (1 + 1e-9), "increasing with porosity")


def cases(tier):
    T = tier == "thorough"
    cs = []
    for kernel in KERNEL:
        for dim in (1, 2, 3):
            for n in (((2, 3) if dim == 1 else (2,)) if not T else (2, 3, 4) if dim == 1 else (2, 3)):
                cs.append(dict(name="cov_%s_%d_%d" % (kernel, dim, n), run=run_cov, params=dict(n=n, dim=dim, kernel=kernel, aniso=False), time_s=120))
            if dim > 1:
                cs.append(dict(name="cov_aniso_%s_%d" % (kernel, dim), run=run_cov, params=dict(n=2, dim=dim, kernel=kernel, aniso=True), time_s=120))
    for kernel in ("gauss", "exp"):
        for log in (False, True):
            for pp in (False, True):
                if log and (pp or kernel == "exp") and not T:
                    continue
                cs.append(dict(name="field_%s_%d_%d" % (kernel, log, pp), run=run_field,
                               params=dict(sizes=(2, 2) if not T else (2, 3), dim=1, kernel=kernel, log=log, per_point=pp, move=True), time_s=120))
        cs.append(dict(name="field_sizes_%s" % kernel, run=run_field, params=dict(sizes=(2, 1, 2), dim=2, kernel=kernel, log=False, per_point=False, move=False), time_s=120))
    for kernel in ("gauss", "exp"):
        for a, b in (("line3", "line5"), ("line5", "line5far"), ("square", "grid9"), ("line5", "pair"), ("cube", "cube")):
            for log in (False, True):
                cs.append(dict(name="direct_%s_%s_%s_%d" % (kernel, a, b, log), run=run_direct,
                               params=dict(first=a, second=b, kernel=kernel, log=log, order="matrix" if log else "sample"), time_s=120))
        for geo in GEO:
            for rng in ((1, np.inf), (2, 3), (1, 4), (10, 100)):
                if rng[0] > len(GEO[geo][1]) and rng[0] != 10:
                    continue
                cs.append(dict(name="terms_%s_%s_%s_%s" % (kernel, geo, rng[0], rng[1]), run=run_terms, params=dict(geo=geo, kernel=kernel, rng=rng), time_s=120))
    for dim in (1, 2, 3):
        for log in (False, True):
            cs.append(dict(name="gstools_%d_%d" % (dim, log), run=run_gstools, params=dict(n=3, dim=dim, log=log, per_point=log), time_s=60))
            cs.append(dict(name="gstools1_%d_%d" % (dim, log), run=run_gstools, params=dict(n=1, dim=dim, log=log, per_point=not log), time_s=60))
    for shared in (False, True):
        for outer in (None, ("d", "b", "k"), ("g", "e")):
            cs.append(dict(name="set_%d_%s" % (shared, "all" if outer is None else "".join(outer)), run=run_set,
                           params=dict(shared=shared, outer=outer, twice=True, default_regions=False), time_s=200))
    cs.append(dict(name="set_default", run=run_set, params=dict(shared=False, outer=None, twice=True, default_regions=True), time_s=100))
    cs.append(dict(name="positive_to_range", run=run_ptr, params={}, time_s=120))
    for m in (1, 2, 3):
        cs.append(dict(name="kozeny_carman_%d" % m, run=run_kc, params=dict(m=m), time_s=120))
    return cs
