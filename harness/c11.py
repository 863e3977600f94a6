"""C11: quantity expressions evaluate sample-wise to the expression of their parts; item access follows the layout."""
import numpy as np
from . import common as cm

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_types", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage"]
META = dict(
    bounds="2 levels with 1..2 samples, two quantities (shapes (2,1)/(1,2)/(2,2)/(1,1), 2..3 times, 2 locations); every access path incl. slices and tuples; expressions of depth up to 3 with + - * / % and numpy functions, constants left and right (numbers, lists, arrays); composition of arrays, dictionaries, time series and fields with access to every item; interpolation at every time in the range; all stored values and constants",
    outside="deeper nesting, more samples; % only where the symbolic layer supports it", stubs=[],
    assumptions=["divisors are nonzero, arguments of log/sqrt positive (by the case's value range)"], limit_s=dict(quick=600, thorough=3000))

TIMES = [1.0, 2.0, 4.0]
LOCS = ["x", "y"]


class World:
    """storage with two quantities and the oracle: arrays [time][loc][shape...] of [N][2] values"""

    def __init__(self, I, sa, sb, nt=2, n=(1, 2), lo=None, hi=None, opaque=False, chunk=None, nan_at=None):
        self.I = I
        self.n = n
        self.times = TIMES[:nt]
        fmt = [cm.spec("a", "m", sa, self.times, LOCS), cm.spec("b", "kg", sb, self.times, LOCS)]
        self.shapes = dict(a=sa, b=sb)
        size = {k: int(np.prod(s)) for k, s in self.shapes.items()}
        M = sum(nt * len(LOCS) * s for s in size.values())
        levels = []
        for l in range(2):
            levels.append(cm.level_data(I, "v", l, n[l], M, False, lo, hi, opaque))
        if nan_at is not None:         # one NaN component in one sample
            levels[nan_at[0]][0][nan_at[1], 1] = float("nan")
        self.levels = levels
        self.st = cm.memory_with(levels, fmt) if chunk is None else cm.chunked_memory(levels, chunk, fmt)
        from mlmc.quantity.quantity import make_root_quantity
        self.root = make_root_quantity(self.st, fmt)
        self.val = []          # per level: {name: object array [nt, nl, *shape, N, S]}
        for l, (f, c) in enumerate(levels):
            S = 2 if l else 1
            d, pos = {}, 0
            for k in ("a", "b"):
                o = np.empty((nt, len(LOCS)) + tuple(self.shapes[k]) + (n[l], S), dtype=object)
                for idx in np.ndindex(*o.shape[:-2]):
                    for i in range(n[l]):
                        for s in range(S):
                            o[idx + (i, s)] = cm.el(f if s == 0 else c, i, pos)
                    pos += 1
                d[k] = o
            self.val.append(d)

    def chunks(self):
        return list(self.root.chunks())

    def compare(self, q, want, label, tol=1e-6, same=False):
        """want(level) -> object array [..., N, S]"""
        seen = set()
        off = [0, 0]
        for ch in self.chunks():
            got = q.samples(ch)
            l = ch.level_id
            w = want(l)
            w = w.reshape((-1,) + w.shape[-2:])
            k = got.shape[1]
            w = w[:, off[l]:off[l] + k, :]
            off[l] += k
            self.I.check(tuple(got.shape) == tuple(w.shape), label + ": shape of the samples")
            if tuple(got.shape) != tuple(w.shape):
                continue
            if same:
                self.I.check_same(got, self.I.array(w), label)
            else:
                self.I.check_eq(got, self.I.array(w), label, tol=tol)
        self.I.check(off == list(self.n), label + ": all samples")


def pick(I, W, name):
    """a scalar item chosen by symbolic indices"""
    ti = I.cint(name + "_t", 0, len(W.times) - 1)
    li = I.cint(name + "_l", 0, 1)
    k = I.choice(name + "_q", ["a", "b"])
    idx = tuple(I.cint("%s_i%d" % (name, d), 0, s - 1) for d, s in enumerate(W.shapes[k]))
    return W.root[k][W.times[ti]][LOCS[li]][idx], lambda l: W.val[l][k][(ti, li) + idx][None]


def run_access(I, sa, sb, nt, depth, chunk=None):
    W = World(I, sa, sb, nt, opaque=True, chunk=chunk)
    k = I.choice("q", ["a", "b"])
    q, o = W.root[k], lambda v: v[k]
    if depth >= 1:
        ti = I.cint("t", 0, nt - 1)
        q, o = q[W.times[ti]], lambda v: v[k][ti]
    if depth >= 2:
        li = I.cint("l", 0, 1)
        q, o = q[LOCS[li]], lambda v: v[k][ti, li]
    if depth >= 3:
        sh = W.shapes[k]
        keys = [(i, j) for i in range(sh[0]) for j in range(sh[1])] + [i for i in range(sh[0])] + \
            [slice(0, 1), slice(None), (slice(None), 0), (slice(None), slice(0, 1)), (0, slice(None)), (slice(None, None, -1), 0)]
        key = I.choice("key", keys)
        q, o0 = q[key], o
        o = lambda v: o0(v)[key]
    W.compare(q, lambda l: o(W.val[l]), "item access", same=True)
    I.check(q.size() == int(np.prod(o(W.val[0]).shape[:-2])), "size of the item")


OPS = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x / y, "mod": lambda x, y: x % y}


def omap(I, f, *arrs):
    b = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
    out = np.empty(b[0].shape, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = f(*[x[idx] for x in b])
    return out


def run_arith(I, op, sh, kind):
    lo, hi = (1, 50) if op in ("div", "mod") else (-50, 50)
    W = World(I, sh, sh, 1, n=(1, 1), lo=lo, hi=hi)
    f = OPS[op]
    a, b = W.root["a"][1.0]["x"], W.root["b"][1.0]["y"]
    va, vb = (lambda l: W.val[l]["a"][0, 0]), (lambda l: W.val[l]["b"][0, 1])
    if kind == "qq":
        W.compare(f(a, b), lambda l: omap(I, f, va(l), vb(l)), "quantity %s quantity" % op)
        W.compare(f(b, a), lambda l: omap(I, f, vb(l), va(l)), "quantity %s quantity, swapped" % op)
    elif kind == "const":
        c = I.real("c", lo, hi)
        ci = I.cint("ci", 2, 3)
        W.compare(f(a, c), lambda l: omap(I, lambda x: f(x, c), va(l)), "quantity %s number" % op)
        W.compare(f(c, a), lambda l: omap(I, lambda x: f(c, x), va(l)), "number %s quantity" % op)
        W.compare(f(a, ci), lambda l: omap(I, lambda x: f(x, ci), va(l)), "quantity %s integer" % op)
        W.compare(f(ci, a), lambda l: omap(I, lambda x: f(ci, x), va(l)), "integer %s quantity" % op)
    elif kind == "array":
        c = I.reals("c", int(np.prod(sh)), lo, hi)
        cl = [cm.el(c, i) for i in range(len(c))]
        co = np.empty(tuple(sh) + (1, 1), dtype=object)
        for i, idx in enumerate(np.ndindex(*sh)):
            co[idx + (0, 0)] = cl[i]
        W.compare(f(a, c), lambda l: omap(I, f, va(l), co), "quantity %s array" % op)
        W.compare(f(a, list(cl)), lambda l: omap(I, f, va(l), co), "quantity %s list" % op)
        W.compare(f(list(cl), a), lambda l: omap(I, f, co, va(l)), "list %s quantity" % op)
    elif kind == "array2d":
        c = I.reals("c", tuple(sh), lo, hi)
        co = np.empty(tuple(sh) + (1, 1), dtype=object)
        for idx in np.ndindex(*sh):
            co[idx + (0, 0)] = cm.el(c, *idx)
        W.compare(f(a, [[cm.el(c, i, j) for j in range(sh[1])] for i in range(sh[0])]), lambda l: omap(I, f, va(l), co), "quantity %s nested list" % op)
    elif kind == "root":
        W.compare(f(W.root["a"], W.root["b"]), lambda l: omap(I, f, W.val[l]["a"], W.val[l]["b"]), "whole quantities %s" % op)


def run_ufunc(I, name):
    pos = name in ("log", "sqrt", "log2", "exp")
    W = World(I, (2, 1), (2, 1), 1, n=(1, 1) if name == "sqrt" else (1, 2), lo=1 if pos else -20, hi=20)
    a, b = W.root["a"][1.0]["x"], W.root["b"][1.0]["y"]
    va, vb = (lambda l: W.val[l]["a"][0, 0]), (lambda l: W.val[l]["b"][0, 1])
    if name in ("sin", "exp", "log", "sqrt", "cos"):
        W.compare(getattr(np, name)(a), lambda l: omap(I, lambda x: I.fn(name, x), va(l)), "np.%s" % name)
        W.compare(getattr(np, name)(a * 2 + b), lambda l: omap(I, lambda x, y: I.fn(name, x * 2 + y), va(l), vb(l)), "np.%s of an expression" % name)
    elif name == "add":
        W.compare(np.add(a, b), lambda l: omap(I, lambda x, y: x + y, va(l), vb(l)), "np.add")
        W.compare(np.subtract(a, b), lambda l: omap(I, lambda x, y: x - y, va(l), vb(l)), "np.subtract")
        W.compare(np.multiply(2.5, a), lambda l: omap(I, lambda x: 2.5 * x, va(l)), "np.multiply const")
        W.compare(np.add(a, [1.5, -2.0]), lambda l: omap(I, lambda x, y: x + y, va(l), np.array([1.5, -2.0], dtype=object).reshape(2, 1, 1, 1)), "np.add list")
    elif name == "maximum":
        W.compare(np.maximum(a, b), lambda l: omap(I, lambda x, y: I.ite(x >= y, x, y), va(l), vb(l)), "np.maximum")
        W.compare(np.abs(a), lambda l: omap(I, lambda x: I.ite(x >= 0, x, -x), va(l)), "np.abs")


def run_nested(I):
    W = World(I, (1, 1), (1, 1), 2, n=(1, 1), lo=1, hi=9)
    p, vp = pick(I, W, "p")
    q, vq = pick(I, W, "r")
    s, vs = W.root["b"][2.0]["x"][0, 0], (lambda l: W.val[l]["b"][1, 0])
    k = I.cint("form", 0, 6)
    forms = [
        (lambda a, b, c: (a + b) * c), (lambda a, b, c: a - (b - c)), (lambda a, b, c: (a - b) - c),
        (lambda a, b, c: 2 / (a + b) - c), (lambda a, b, c: a * b + c * 3 - 1), (lambda a, b, c: (1 - a) / (b * c)),
        (lambda a, b, c: ((a / b) / c) * a)]
    W.compare(forms[k](p, q, s), lambda l: omap(I, forms[k], vp(l), vq(l), vs(l)), "nested expression")


def run_compose(I, kind, sh, nt=2):
    from mlmc.quantity.quantity import Quantity
    W = World(I, sh, sh, nt, opaque=True)
    parts = [W.root["a"][1.0]["x"], W.root["a"][2.0]["y"], W.root["a"][1.0]["y"], W.root["a"][2.0]["x"]]
    vals = [(0, 0), (1, 1), (0, 1), (1, 0)]
    v = lambda i: (lambda l: W.val[l]["a"][vals[i]])
    if kind == "array":
        A = Quantity.QArray(parts[:3])
        W.compare(A, lambda l: np.stack([v(i)(l) for i in range(3)]), "QArray", same=True)
        i = I.cint("i", 0, 2)
        W.compare(A[i], v(i), "item of a QArray", same=True)
        W.compare(A[1:], lambda l: np.stack([v(1)(l), v(2)(l)]), "slice of a QArray", same=True)
        if sh != (1, 1):
            e = (I.cint("e0", 0, sh[0] - 1), I.cint("e1", 0, sh[1] - 1))
            W.compare(A[i][e], lambda l: v(i)(l)[e], "element of an item of a QArray", same=True)
    elif kind == "array2":
        A = Quantity.QArray([[parts[0], parts[1]], [parts[2], parts[3]]])
        i, j = I.cint("i", 0, 1), I.cint("j", 0, 1)
        W.compare(A[i, j], v(2 * i + j), "item of a 2d QArray", same=True)
        W.compare(A[i], lambda l: np.stack([v(2 * i)(l), v(2 * i + 1)(l)]), "row of a 2d QArray", same=True)
        W.compare(A[:, j], lambda l: np.stack([v(j)(l), v(2 + j)(l)]), "column of a 2d QArray", same=True)
    elif kind == "dict":
        b = W.root["b"]
        D = Quantity.QDict([("one", parts[0]), ("two", b), ("three", parts[1])])
        k = I.choice("key", ["one", "two", "three"])
        want = dict(one=v(0), two=lambda l: W.val[l]["b"], three=v(1))[k]
        W.compare(D[k], want, "item of a QDict", same=True)
        if k == "two":
            W.compare(D[k][2.0]["y"], lambda l: W.val[l]["b"][1, 1], "item of a QDict item", same=True)
    elif kind == "field":
        F = Quantity.QField([("u", parts[0]), ("v", parts[1]), ("w", parts[2])])
        i = I.cint("i", 0, 2)
        W.compare(F["uvw"[i]], v(i), "item of a QField", same=True)
    elif kind == "series":
        T = Quantity.QTimeSeries([(0.5, parts[0]), (3.0, parts[1]), (5.0, parts[2])])
        i = I.cint("i", 0, 2)
        W.compare(T[[0.5, 3.0, 5.0][i]], v(i), "item of a QTimeSeries", same=True)
    else:
        # parts of two different quantities of the same structure
        u = [lambda l: W.val[l]["a"][0, 1], lambda l: W.val[l]["b"][1, 0], lambda l: W.val[l]["a"][0, 0]]
        mixed = [W.root["a"][1.0]["y"], W.root["b"][2.0]["x"], W.root["a"][1.0]["x"]]
        i = I.cint("i", 0, 2)
        if kind == "mixarray":
            C = Quantity.QArray(mixed)[i]
        elif kind == "mixfield":
            C = Quantity.QField(list(zip("uvw", mixed)))["uvw"[i]]
        elif kind == "mixseries":
            C = Quantity.QTimeSeries(list(zip([0.5, 3.0, 5.0], mixed)))[[0.5, 3.0, 5.0][i]]
        elif kind == "mixelem":
            e = (sh[0] - 1, sh[1] - 1)
            C = Quantity.QArray([m[e] for m in mixed])[i]
            W.compare(C, lambda l: u[i](l)[e], "element of mixed quantities in a QArray", same=True)
            return
        else:       # mixroot: the whole time series
            i = I.cint("w", 0, 1)
            C = Quantity.QArray([W.root["b"], W.root["a"]])[i]
            W.compare(C[2.0]["y"], lambda l: W.val[l]["ba"[i]][1, 1], "item of mixed series in a QArray", same=True)
            return
        W.compare(C, u[i], "item of a composition of different quantities of the same structure", same=True)


def run_interp(I, kind, sh):
    from mlmc.quantity.quantity import Quantity
    W = World(I, sh, (1, 1), 3, n=(1, 1), lo=-20, hi=20)
    if kind == "root":
        Q, times = W.root["a"], W.times
        v = lambda l, i: W.val[l]["a"][i]
    else:
        times = [0.5, 3.0, 5.0]
        parts = [W.root["a"][1.0]["x"], W.root["a"][4.0]["y"], W.root["a"][2.0]["x"]]
        v = lambda l, i: W.val[l]["a"][[(0, 0), (2, 1), (1, 0)][i]]
        Q = Quantity.QTimeSeries(list(zip(times, parts)))
    seg = I.cint("seg", 0, 1)
    t = I.real("t", times[seg], times[seg + 1])
    h = times[seg + 1] - times[seg]

    def want(l):
        return omap(I, lambda x, y: x + (y - x) * (t - times[seg]) / h, v(l, seg), v(l, seg + 1))
    q = Q.time_interpolation(t)
    W.compare(q, want, "time interpolation")
    if kind == "root":
        li = I.cint("l", 0, 1)
        W.compare(q[LOCS[li]], lambda l: want(l)[li], "location of interpolated quantity")


def run_refuse(I, kind):
    from mlmc.quantity.quantity import Quantity
    W = World(I, (2, 1), (1, 1), 2, n=(2, 2), lo=1, hi=20)
    a, b = W.root["a"][1.0]["x"], W.root["b"][1.0]["x"]
    if kind == "array":
        I.check(I.raises(lambda: Quantity.QArray([a, b])), "array of different structures refused")
    elif kind == "series":
        I.check(I.raises(lambda: Quantity.QTimeSeries([(1, a), (2, b)])), "time series of different structures refused")
    elif kind == "field":
        I.check(I.raises(lambda: Quantity.QField([("u", a), ("v", b)])), "field of different structures refused")
    elif kind == "order":
        W = World(I, (2, 1), (1, 2), 2, n=(2, 2), lo=1, hi=20)
        a, b = W.root["a"], W.root["b"]
        k = I.cint("pair", 0, 4)
        x, y = [(a, b), (a[1.0], b[1.0]), (a[1.0]["x"], b[2.0]["x"]), (a[1.0]["x"][0, 0] < 3, a[1.0]["x"][0, 0]),
                (a[1.0]["x"] < 3, a[1.0]["x"])][k]
        f = [lambda: Quantity.QArray([x, y]), lambda: Quantity.QTimeSeries([(1, x), (2, y)]),
             lambda: Quantity.QField([("u", x), ("v", y)])][I.cint("comp", 0, 2)]
        I.check(I.raises(f), "composition of equally large but different structures refused")
    else:
        c1, c2 = I.real("c1", 1, 20), I.real("c2", 1, 20)
        s1 = a.select(b[0, 0] > c1)
        s2 = a.select(b[0, 0] > c2)
        k = I.cint("pair", 0, 5)
        f = [lambda: s1 + s2, lambda: s1 * a, lambda: a - s1, lambda: Quantity.QArray([s1, s2]),
             lambda: Quantity.QDict([("u", s1[0, 0]), ("v", s2[0, 0])]), lambda: s1.select(s2[0, 0] > c1)][k]
        I.check(I.raises(f), "different selections refused")
        (s1[0, 0] + s1[1, 0]).size()        # same selection: accepted


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t))
    for d in range(4):
        add("access%d" % d, run_access, sa=(2, 1), sb=(1, 2), nt=2, depth=d)
    add("access3_sq", run_access, sa=(2, 2), sb=(2, 1), nt=2, depth=3)
    add("access_chunks", run_access, sa=(1, 1), sb=(2, 1), nt=2, depth=2, chunk=[[1], [1, 1]])
    for op in OPS:
        for kind in ("qq", "const", "array"):
            add("arith_%s_%s" % (op, kind), run_arith, op=op, sh=(2, 1), kind=kind)
    add("arith_sub_root", run_arith, op="sub", sh=(2, 1), kind="root")
    add("arith_mul_2d", run_arith, op="mul", sh=(1, 2), kind="array2d")
    add("arith_add_2d", run_arith, op="add", sh=(2, 2), kind="array2d")
    for u in ("sin", "exp", "log", "sqrt", "add", "maximum"):
        add("ufunc_%s" % u, run_ufunc, name=u)
    add("nested", run_nested, t=250)
    for k in ("array", "array2", "dict", "field", "series"):
        add("compose_%s" % k, run_compose, kind=k, sh=(2, 1))
    add("compose_array_s", run_compose, kind="array", sh=(1, 1))
    add("interp_root", run_interp, kind="root", sh=(2, 1))
    add("interp_series", run_interp, kind="series", sh=(1, 1))
    for k in ("mixarray", "mixfield", "mixseries", "mixelem", "mixroot"):
        add("compose_%s" % k, run_compose, kind=k, sh=(1, 2))
    for k in ("array", "series", "field", "selection", "order"):
        add("refuse_%s" % k, run_refuse, kind=k)
    if tier == "thorough":
        add("access3_big", run_access, sa=(2, 3), sb=(3, 2), nt=3, depth=3, t=900)
        for op in OPS:
            add("arith_%s_big" % op, run_arith, op=op, sh=(2, 2), kind="qq", t=600)
            add("arith_%s_root" % op, run_arith, op=op, sh=(1, 2), kind="root", t=600)
        for k in ("array", "array2", "dict", "field", "series"):
            add("compose_%s_22" % k, run_compose, kind=k, sh=(2, 2), nt=3, t=600)
        add("interp_series_22", run_interp, kind="series", sh=(2, 2), t=600)
    return cs
