"""C12: selection keeps exactly the samples that satisfy the conditions."""
import numpy as np
from . import common as cm
from .c11 import World, LOCS

MODULES = ["mlmc.quantity.quantity", "mlmc.quantity.quantity_types", "mlmc.quantity.quantity_estimate", "mlmc.sample_storage"]
META = dict(
    bounds="2 levels with 1..2 samples (3 in thorough), conditions on scalar and 2-component quantities, all six comparisons with a number / an integer / an array / another quantity on either side, conjunctions of 2..3 conditions, logical and/or/not/xor, selection of a selection; all stored values and thresholds; one or several chunks",
    outside="more samples per level, deeper boolean combinations", stubs=[], assumptions=[], limit_s=dict(quick=600, thorough=3000))

CMP = {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
       "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}


def sample_ok(I, l, i, f, *vals):
    """condition for all components of fine and coarse of sample i; vals: object arrays [..., N, S] or constants [...]"""
    S = 2 if l else 1
    conds = []
    b = vals[0]
    for idx in np.ndindex(*b.shape[:-2]):
        for s in range(S):
            args = []
            for v in vals:
                if isinstance(v, np.ndarray) and v.ndim >= 2:
                    args.append(v[idx + (i, s)])
                elif isinstance(v, np.ndarray):
                    args.append(v[idx])
                else:
                    args.append(v)
            conds.append(f(*args))
    return bool(I.both(*conds))


def check_selected(I, W, q, keep, want, label, est=True):
    """keep[l] = kept sample indices, want(l) = [..., N, S] values before selection"""
    got = {0: [], 1: []}
    for ch in W.chunks():
        got[ch.level_id].append(q.samples(ch))
    for l in range(2):
        w = want(l)
        w = w.reshape((-1,) + w.shape[-2:])[:, keep[l], :]
        n = sum(g.shape[1] for g in got[l])
        I.check(n == len(keep[l]), label + ": number of kept samples")
        if n != len(keep[l]) or n == 0:
            continue
        S = 2 if l else 1
        vals = [[[cm.el(g, k, i, s) for s in range(S)] for g in got[l] for i in range(g.shape[1])] for k in range(w.shape[0])]
        I.check_same(vals, w.tolist(), label + ": kept samples unchanged and in order")
    if est and len(keep[0]) and len(keep[1]):
        from mlmc.quantity.quantity_estimate import estimate_mean
        m = estimate_mean(q)
        I.check([int(x) for x in m.n_samples] == [len(keep[0]), len(keep[1])], label + ": samples used by the estimate")
        M = want(0).reshape((-1,) + want(0).shape[-2:]).shape[0]
        mu = []
        for k in range(M):
            s = 0.0
            for l in range(2):
                w = want(l)
                w = w.reshape((-1,) + w.shape[-2:])
                t = 0.0
                for i in keep[l]:
                    t = t + (w[k, i, 0] - w[k, i, 1] if l else w[k, i, 0])
                s = s + t / len(keep[l])
            mu.append(s)
        got_m = np.asarray(m.mean, dtype=object).reshape(-1)
        I.check_eq(I.array(got_m), I.array(mu), label + ": estimate of the selection")


def run_cmp(I, op, kind, sh, n, chunk=None):
    W = World(I, sh, sh, 1, n=n, lo=-4, hi=4, chunk=chunk)
    f = CMP[op]
    a, b = W.root["a"][1.0]["x"], W.root["b"][1.0]["y"]
    va, vb = (lambda l: W.val[l]["a"][0, 0]), (lambda l: W.val[l]["b"][0, 1])
    target, vt = W.root["a"][1.0]["y"], (lambda l: W.val[l]["a"][0, 1])
    if kind == "num":
        c = I.real("c", -4, 4)
        cond, fk, vals = f(a, c), f, lambda l: (va(l), c)
    elif kind == "rnum":
        c = I.real("c", -4, 4)
        cond, fk, vals = f(c, a), (lambda x, y: f(y, x)), lambda l: (va(l), c)
    elif kind == "int":
        c = I.cint("c", 0, 1)
        cond, fk, vals = f(a, c), f, lambda l: (va(l), c)
    elif kind == "q":
        cond, fk, vals = f(a, b), f, lambda l: (va(l), vb(l))
    elif kind == "array":
        c = I.reals("c", int(np.prod(sh)), -4, 4)
        cl = [cm.el(c, i) for i in range(len(c))]

        def conds(l, i):
            S = 2 if l else 1
            v = va(l).reshape((-1,) + va(l).shape[-2:])
            return bool(I.both(*[f(v[k, i, s], cl[k]) for k in range(len(cl)) for s in range(S)]))
        cond = f(a, cl)
        keep = [[i for i in range(n[l]) if conds(l, i)] for l in range(2)]
        check_selected(I, W, target.select(cond), keep, vt, "select by array")
        return
    keep = [[i for i in range(n[l]) if sample_ok(I, l, i, fk, *vals(l))] for l in range(2)]
    check_selected(I, W, target.select(cond), keep, vt, "select")
    check_selected(I, W, a.select(cond), keep, va, "select the condition's own quantity", est=False)


def run_logic(I, kind, n):
    W = World(I, (1, 1), (1, 1), 1, n=n, lo=-4, hi=4)
    a, b, d = (W.root[k][1.0][l][0, 0] for k, l in (("a", "x"), ("b", "y"), ("b", "x")))
    va, vb, vd = (lambda l: W.val[l]["a"][0, 0]), (lambda l: W.val[l]["b"][0, 1]), (lambda l: W.val[l]["b"][0, 0])
    c1, c2, c3 = I.real("c1", -4, 4), I.real("c2", -4, 4), I.real("c3", -4, 4)
    A = lambda l, i: sample_ok(I, l, i, CMP["lt"], va(l), c1)
    B = lambda l, i: sample_ok(I, l, i, CMP["ge"], vb(l), c2)
    D = lambda l, i: sample_ok(I, l, i, CMP["ne"], vd(l), c3)
    qa, qb, qd = a < c1, b >= c2, d != c3
    vt = lambda l: W.val[l]["a"][0, 1]
    target = W.root["a"][1.0]["y"]
    f = dict(
        two=(lambda: target.select(qa, qb), lambda l, i: A(l, i) and B(l, i)),
        three=(lambda: target.select(qa, qb, qd), lambda l, i: A(l, i) and B(l, i) and D(l, i)),
        land=(lambda: target.select(np.logical_and(qa, qb)), lambda l, i: A(l, i) and B(l, i)),
        lor=(lambda: target.select(np.logical_or(qa, qb)), lambda l, i: A(l, i) or B(l, i)),
        lnot=(lambda: target.select(np.logical_not(qa)), lambda l, i: not A(l, i)),
        lxor=(lambda: target.select(np.logical_xor(qa, qb)), lambda l, i: A(l, i) != B(l, i)),
        mix=(lambda: target.select(np.logical_or(qa, qb), qd), lambda l, i: (A(l, i) or B(l, i)) and D(l, i)),
    )[kind]
    q = f[0]()
    keep = [[i for i in range(n[l]) if f[1](l, i)] for l in range(2)]
    check_selected(I, W, q, keep, vt, "logical combination")


def run_twice(I, n):
    W = World(I, (1, 1), (1, 1), 1, n=n, lo=-4, hi=4)
    a, b = W.root["a"][1.0]["x"][0, 0], W.root["b"][1.0]["y"][0, 0]
    va, vb = (lambda l: W.val[l]["a"][0, 0]), (lambda l: W.val[l]["b"][0, 1])
    c1, c2 = I.real("c1", -4, 4), I.real("c2", -4, 4)
    both = W.root.select(a > c1)
    s = both["a"][1.0]["x"][0, 0]
    s2 = both["b"][1.0]["y"][0, 0].select(s <= c2)
    keep = [[i for i in range(n[l]) if sample_ok(I, l, i, CMP["gt"], va(l), c1) and sample_ok(I, l, i, CMP["le"], va(l), c2)] for l in range(2)]
    check_selected(I, W, s2, keep, vb, "selection of a selection")


def run_bad(I):
    W = World(I, (1, 1), (1, 1), 1, n=(1, 1), lo=-4, hi=4)
    a = W.root["a"][1.0]["x"]
    I.check(I.raises(lambda: a.select(a)), "selecting by a quantity that is not a condition is refused")
    I.check(I.raises(lambda: a.select(a > 1, a + 1)), "selecting by a quantity that is not a condition is refused (2nd)")


def cases(tier):
    cs = []

    def add(nm, fn, t=200, **p):
        cs.append(dict(name=nm, run=fn, params=p, time_s=t))
    for op in CMP:
        add("cmp_%s_num" % op, run_cmp, op=op, kind="num", sh=(1, 1), n=(2, 1))
        add("cmp_%s_q" % op, run_cmp, op=op, kind="q", sh=(1, 1), n=(1, 2))
    for op in ("lt", "ge", "le", "gt"):
        add("cmp_%s_rnum" % op, run_cmp, op=op, kind="rnum", sh=(1, 1), n=(1, 1))
        add("cmp_%s_int" % op, run_cmp, op=op, kind="int", sh=(1, 1), n=(1, 1))
    add("cmp_lt_num_2", run_cmp, op="lt", kind="num", sh=(2, 1), n=(1, 1))
    add("cmp_ne_num_2", run_cmp, op="ne", kind="num", sh=(2, 1), n=(1, 1))
    add("cmp_ge_q_2", run_cmp, op="ge", kind="q", sh=(1, 2), n=(1, 1))
    add("cmp_gt_array", run_cmp, op="gt", kind="array", sh=(2, 1), n=(1, 1))
    add("cmp_le_chunks", run_cmp, op="le", kind="num", sh=(1, 1), n=(2, 2), chunk=[[1, 1], [2]])
    for k in ("two", "three", "land", "lor", "lnot", "lxor", "mix"):
        add("logic_%s" % k, run_logic, kind=k, n=(1, 1))
    add("logic_two_2", run_logic, kind="two", n=(2, 1))
    add("logic_lor_2", run_logic, kind="lor", n=(2, 1))
    add("twice", run_twice, n=(1, 2))
    add("bad", run_bad)
    if tier == "thorough":
        for op in CMP:
            add("cmp_%s_num_22" % op, run_cmp, op=op, kind="num", sh=(2, 1), n=(2, 2), t=900)
            add("cmp_%s_q_23" % op, run_cmp, op=op, kind="q", sh=(1, 1), n=(2, 3), t=900)
        for k in ("three", "mix", "lxor"):
            add("logic_%s_22" % k, run_logic, kind=k, n=(2, 2), t=900)
        add("twice_33", run_twice, n=(3, 3), t=900)
    return cs
