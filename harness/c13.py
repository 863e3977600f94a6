"""C13: evaluating a quantity never depends on what was evaluated before."""
import gc, weakref
import numpy as np
from . import common as cm

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_types", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage",
           "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.estimator", "mlmc.moments"]
META = dict(
    bounds="2 levels with 2 samples at the start (1..2 chunks per level), every sequence of 3 operations (4 in thorough) out of: create/evaluate/discard one of several expressions, evaluate and keep it, estimate a mean, add samples, re-read a kept quantity in reversed chunk order; with one NaN anywhere: 3 samples per level and 3 estimates; all stored values; object identities are reused as soon as the allocator may do so",
    outside="longer histories", stubs=["builtin id() of the quantity module: identities of discarded objects are reused at once (an allocator is free to do that)"],
    assumptions=[], limit_s=dict(quick=600, thorough=3000))


class Ids:
    """adversarial but legal id(): unique among live objects, reused immediately after an object dies"""

    def __init__(self):
        self.live = {}
        self.free = []
        self.next = 1000
        self.known = []

    def __call__(self, obj):
        for ref, n in self.known:
            if ref() is obj:
                return n
        alive = []
        for ref, n in self.known:
            if ref() is None:
                self.free.append(n)
            else:
                alive.append((ref, n))
        self.known = alive
        n = self.free.pop() if self.free else self.next
        if n == self.next:
            self.next += 1
        try:
            self.known.append((weakref.ref(obj), n))
        except TypeError:
            keep = obj
            self.known.append(((lambda: keep), n))
        return n


FMT = dict(shape=(1, 1), times=(1.0,), locations=("x", "y"))


def run(I, backend, steps, first, chunks, ids=True):
    import mlmc.quantity.quantity as mq
    from mlmc.quantity.quantity import make_root_quantity
    from mlmc.quantity.quantity_estimate import estimate_mean, cache_clear
    cache_clear()
    if ids:
        I.patch(mq, "id", Ids())
    fmt = [cm.spec("a", "m", **FMT)]
    n = [2, 2]
    data = []        # per level: list of (fine[2], coarse[2])

    def new(l, i):
        f = I.reals("f%d_%d" % (l, i), 2, -50, 50)
        c = I.reals("c%d_%d" % (l, i), 2, -50, 50) if l else I.array([0.0, 0.0])
        return f, c
    if backend == "file":
        cm.force_chunk_len(I, chunks)
        st, _ = cm.hdf_storage(I, 2, fmt)
    else:
        from mlmc.sample_storage import Memory
        st = Memory()
        st.save_global_data(result_format=fmt, level_parameters=cm.lparams(2))

    def save(l, k):
        b = [new(l, len(data[l]) + i) for i in range(k)]
        st.save_samples({l: [(cm.tag(l, len(data[l]) + i), x) for i, x in enumerate(b)]}, {})
        data[l].extend(b)
    for l in range(2):
        data.append([])
        save(l, n[l])
    root = make_root_quantity(st, fmt)
    a, b = root["a"][1.0]["x"][0, 0], root["a"][1.0]["y"][0, 0]
    EX = [(lambda: a + 1, lambda x, y: x + 1), (lambda: b * 2, lambda x, y: y * 2), (lambda: a - b, lambda x, y: x - y),
          (lambda: 3 - a, lambda x, y: 3 - x), (lambda: mq.Quantity.wrap(5) + b, lambda x, y: 5 + y)]

    def oracle(f, l):
        return [[f(cm.el(fc[0], 0), cm.el(fc[0], 1)), f(cm.el(fc[1], 0), cm.el(fc[1], 1))][:2 if l else 1] for fc in data[l]]

    def read(q, f, label, rev=False):
        chs = list(root.chunks())
        if rev:
            chs.reverse()
        got = {0: {}, 1: {}}
        arrs = []
        for ch in chs:
            x = q.samples(ch)
            arrs.append((x, x.copy()))
            got[ch.level_id][ch.chunk_id] = [[cm.el(x, 0, i, s) for s in range(x.shape[2])] for i in range(x.shape[1])]
        for l in range(2):
            I.check_eq([r for k in sorted(got[l]) for r in got[l][k]], oracle(f, l), label)
        return arrs

    def estimate(q, f, label):
        m = estimate_mean(q)
        mu = 0.0
        for l in range(2):
            o = oracle(f, l)
            t = 0.0
            for r in o:
                t = t + (r[0] - r[1] if l else r[0])
            mu = mu + t / len(o)
        I.check_eq(I.array(np.asarray(m.mean, dtype=object).reshape(-1)), I.array([mu]), label)
        I.check([int(k) for k in m.n_samples] == [len(data[0]), len(data[1])], label + ": number of samples")
        return m

    kept, handed, means = [], [], []
    for k in range(steps):
        op = first[k] if k < len(first) else I.cint("op%d" % k, 0, 4)
        if op == 4:
            save(I.cint("lv%d" % k, 0, 1), 1)
            continue
        if op == 3:
            for q, f in kept:
                handed += read(q, f, "re-read quantity", rev=True)
            continue
        e = I.cint("e%d" % k, 0, len(EX) - 1)
        q = EX[e][0]()
        if op == 0:      # temporary: evaluated and discarded
            handed += read(q, EX[e][1], "samples of a temporary quantity")
        elif op == 1:
            handed += read(q, EX[e][1], "samples of a kept quantity")
            kept.append((q, EX[e][1]))
        else:
            means.append((estimate(q, EX[e][1], "estimate"), ))
        del q
        gc.collect(0)
    for q, f in kept:
        handed += read(q, f, "kept quantity at the end")
    for x, c in handed:
        I.check_same(x, c, "results handed out earlier are unchanged")
    pairs = st.sample_pairs()
    for l in range(2):
        got = [[[cm.el(pairs[l], k, i, s) for s in range(2 if l else 1)] for i in range(pairs[l].shape[1])] for k in range(2)]
        want = [[[cm.el(fc[s], k) for s in range(2 if l else 1)] for fc in data[l]] for k in range(2)]
        I.check_same(got, want, "stored samples unchanged")


def run_nan(I, backend, chunks):
    """masked samples: repeated estimates agree, stored samples and results handed out stay as they were"""
    from mlmc.quantity.quantity import make_root_quantity
    from mlmc.quantity.quantity_estimate import estimate_mean, cache_clear
    cache_clear()
    fmt = [cm.spec("a", "m", **FMT)]
    data = []
    for l in range(2):
        f, c = I.reals("f%d" % l, (3, 2), -50, 50), (I.reals("c%d" % l, (3, 2), -50, 50) if l else I.array(np.zeros((3, 2)).astype(object)))
        data.append((f, c))
    lv, i, k, side = I.cint("lv", 0, 1), I.cint("i", 0, 2), I.cint("k", 0, 1), I.cint("side", 0, 1)
    side = side if lv else 0
    data[lv][side][i, k] = float("nan")
    if backend == "file":
        cm.force_chunk_len(I, chunks)
        st, _ = cm.hdf_storage(I, 2, fmt)
    else:
        from mlmc.sample_storage import Memory
        st = Memory()
        st.save_global_data(result_format=fmt, level_parameters=cm.lparams(2))
    for l in range(2):
        st.save_samples({l: [(cm.tag(l, j), (data[l][0][j], data[l][1][j])) for j in range(3)]}, {})
    root = make_root_quantity(st, fmt)
    a, b = root["a"][1.0]["x"][0, 0], root["a"][1.0]["y"][0, 0]
    EX = [(a, [0]), (b, [1]), (a + b, [0, 1]), (b * 2, [1])]
    chs = list(root.chunks())
    handed = []
    for n in range(3):
        e = I.cint("e%d" % n, 0, 3) if n < 2 else e
        q, comps = EX[e]
        q_now = q if e < 2 else (a + b if e == 2 else b * 2)
        for ch in chs:
            x = q_now.samples(ch)
            handed.append((x, x.copy()))
        m = estimate_mean(q_now if n else q)
        mu = 0.0
        for l in range(2):
            rows = [j for j in range(3) if not (l == lv and j == i and k in comps)]
            t = 0.0
            for j in rows:
                v = 0.0
                for c in comps:
                    w = 2.0 if e == 3 else 1.0
                    v = v + w * cm.el(data[l][0], j, c) - (w * cm.el(data[l][1], j, c) if l else 0.0)
                t = t + v
            mu = mu + t / float(len(rows))
        I.check_eq(I.array(np.asarray(m.mean, dtype=object).reshape(-1)), I.array([mu]), "repeated estimate with masked samples")
        rm = [1 if l == lv and k in comps else 0 for l in range(2)]
        I.check([int(x) for x in m.n_rm_samples] == rm, "repeated estimate: removed samples")
        I.check([int(x) for x in m.n_samples] == [3 - x for x in rm], "repeated estimate: number of samples")
    for x, c in handed:
        I.check_same(x, c, "results handed out earlier are unchanged")
    pairs = st.sample_pairs()
    for l in range(2):
        got = [[[cm.el(pairs[l], c, j, s) for s in range(2 if l else 1)] for j in range(3)] for c in range(2)]
        want = [[[cm.el(data[l][s], j, c) for s in range(2 if l else 1)] for j in range(3)] for c in range(2)]
        I.check_same(got, want, "stored samples unchanged")


def cases(tier):
    cs = []

    def add(nm, t=200, **p):
        cs.append(dict(name=nm, run=run, params=p, time_s=t))
    for f in range(5):
        add("mem_%d" % f, backend="memory", steps=3, first=(f,), chunks=0)
    for f in ((0,), (1,), (2, 4)):
        add("file_%s" % "".join(map(str, f)), backend="file", steps=2 if len(f) == 1 else 3, first=f, chunks=1 if f[0] else 2)
    add("mem_realid", backend="memory", steps=3, first=(0, 0, 0), chunks=0, ids=False)
    cs.append(dict(name="nan_mem", run=run_nan, params=dict(backend="memory", chunks=0), time_s=200))
    cs.append(dict(name="nan_file", run=run_nan, params=dict(backend="file", chunks=2), time_s=200))
    if tier == "thorough":
        for f in range(5):
            for g in range(5):
                add("mem_%d%d" % (f, g), backend="memory", steps=4, first=(f, g), chunks=0, t=1200)
            add("file3_%d" % f, backend="file", steps=3, first=(f,), chunks=1, t=1200)
    return cs
