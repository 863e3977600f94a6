"""C19: the stored result format is restored exactly and a different one is refused."""
import os
import numpy as np
from . import common as cm

MODULES = ["mlmc.quantity.quantity_spec", "mlmc.sample_storage_hdf", "mlmc.tool.hdf5", "mlmc.sample_storage"]
META = dict(
    bounds="comparison: specifications with all symbolic times, shape entries and coordinates, 1..3 times and locations, names and units from a set with equal and different ones; file round trip and refusal: 1..3 quantities, each with 1..3 symbolic times, 1..3 locations that are strings (1..12 characters, equal lengths and prefixes included) or coordinate triples, shapes with one or two entries; every single difference (any field of any quantity, extra or missing quantity, time, location, permuted order); file backend",
    outside="names, units and location names longer than 50 characters or outside ASCII; saving global data twice through one storage object without reopening the file (it deliberately starts a new file); formats that mix string and coordinate locations; files written by older versions",
    stubs=[], assumptions=["a valid format has unique names, at least one time and location per quantity and only one kind of locations"],
    limit_s=dict(quick=400, thorough=2000))

NAMES = ["q", "length", "q2", "a rather long name of a quantity, 49 characters ok!"]
UNITS = ["m", "mm", "", "kg/m3"]
STR = [["10", "20", "30"], ["abc", "def", "ghi"], ["a", "ab", "abc"], ["100", "200", "300"], ["well one", "10", "x_y_z"]]


def coords(k, n):
    return [(k + i / 3.0, -0.1 * k, 1e-17 * (i + 1)) for i in range(n)]


def make_format(I, nspec, kind, which=None, top=3):
    import mlmc.quantity.quantity_spec as qs
    fmt = []
    for k in range(nspec):
        if which in (None, k):
            nt, nl = I.cint("nt%d" % k, 1, top), I.cint("nl%d" % k, 1, top)
        else:
            nt, nl = 1 + k, 2 - k
        times = [I.real("t%d_%d" % (k, i), -1000, 1000) for i in range(nt)]
        shape = I.choice("shape%d" % k, [(1, 1), (2,), (2, 3)] if k == 0 else [(3, 1), (1,)])
        locs = coords(k, nl) if kind == "xyz" else STR[kind][:nl]
        fmt.append(qs.QuantitySpec(name=NAMES[k], unit=UNITS[k], shape=shape, times=times, locations=locs))
    return fmt


def same(I, got, want, label):
    I.check(len(got) == len(want), label + ": number of quantities")
    for a, b in zip(got, want):
        I.check(a.name == b.name and a.unit == b.unit, label + ": name and unit")
        I.check([int(x) for x in a.shape] == [int(x) for x in b.shape], label + ": shape")
        I.check(len(a.times) == len(b.times), label + ": number of times")
        for x, y in zip(a.times, b.times):
            I.check_same(x, y, label + ": times")
        I.check(norm(a.locations) == norm(b.locations), label + ": locations")


def norm(locs):
    return [x if isinstance(x, str) else tuple(float(v) for v in x) for x in locs]


PARAMS = [[[0.1], [1.0 / 3]], [[1.0]], [[0.5, 7.0], [0.25, 3.0], [1e-17, 1e17]]]


def run_roundtrip(I, nspec, kind):
    from mlmc.sample_storage_hdf import SampleStorageHDF
    fmt = make_format(I, nspec, kind)
    path = os.path.join(I.tmp(), "s.hdf5")
    lp = I.choice("params", PARAMS)
    st = SampleStorageHDF(file_path=path)
    st.save_global_data(level_parameters=lp, result_format=fmt)
    same(I, st.load_result_format(), fmt, "loaded from the open storage")
    st = SampleStorageHDF(file_path=path)
    same(I, st.load_result_format(), fmt, "loaded after reopening")
    I.check_same(np.array(st.get_level_parameters(), dtype=float), np.array(lp), "level parameters")
    st.save_global_data(level_parameters=lp, result_format=fmt)          # an equal format is accepted
    same(I, st.load_result_format(), fmt, "loaded after accepting an equal format")
    st = SampleStorageHDF(file_path=path)
    same(I, SampleStorageHDF(file_path=path).load_result_format(), fmt, "loaded after reopening again")
    I.check_same(np.array(st.get_level_parameters(), dtype=float), np.array(lp), "level parameters")
    I.check(st.get_n_levels() == len(lp), "number of levels")


FIELDS = ["name", "unit", "shape0", "shape1", "time", "more_times", "less_times", "time_order", "loc", "more_locs", "less_locs",
          "loc_order", "more_quantities", "less_quantities", "order"]


def mutate(I, fmt, k, field, kind):
    import copy
    f = [copy.copy(x) for x in fmt]
    q = f[k]
    if field == "name":
        q.name = q.name + "x"
    elif field == "unit":
        q.unit = "s"
    elif field == "shape0":
        q.shape = (q.shape[0] + 1,) + tuple(q.shape[1:])
    elif field == "shape1":
        q.shape = (q.shape[0], 5)
    elif field == "time":
        j = I.cint("changed", 0, len(q.times) - 1)
        d = I.real("delta", -10, 10)
        I.assume(d * d > 0.0001)
        q.times = [t + d if i == j else t for i, t in enumerate(q.times)]
    elif field == "more_times":
        q.times = q.times + [99.0]
    elif field == "less_times":
        q.times = q.times[:-1]
        if not q.times:
            return None
    elif field == "time_order":
        if len(q.times) < 2:
            return None
        I.assume(q.times[0] < q.times[-1])
        q.times = q.times[::-1]
    elif field == "loc":
        q.locations = q.locations[:-1] + [(9.0, 9.0, 9.0) if kind == "xyz" else q.locations[-1] + "z"]
    elif field == "more_locs":
        q.locations = q.locations + [(9.0, 9.0, 9.0) if kind == "xyz" else "zzz"]
    elif field == "less_locs":
        q.locations = q.locations[:-1]
        if not q.locations:
            return None
    elif field == "loc_order":
        q.locations = q.locations[::-1]
        if q.locations == fmt[k].locations:
            return None
    elif field == "more_quantities":
        f.append(copy.copy(q))
        f[-1].name = "new"
    elif field == "less_quantities":
        del f[k]
        if not f:
            return None
    elif field == "order":
        if len(f) < 2:
            return None
        f = f[1:] + f[:1]
    return f


def run_refuse(I, nspec, kind):
    from mlmc.sample_storage_hdf import SampleStorageHDF
    k = I.cint("which", 0, nspec - 1)
    fmt = make_format(I, nspec, kind, k, 2)
    other = mutate(I, fmt, k, I.choice("field", FIELDS), kind)
    if other is None:
        return
    path = os.path.join(I.tmp(), "s.hdf5")
    lp = PARAMS[0]
    st = SampleStorageHDF(file_path=path)
    st.save_global_data(level_parameters=lp, result_format=fmt)
    st.save_scheduled_samples(0, [cm.tag(0, 0)])
    st = SampleStorageHDF(file_path=path)
    refused = I.raises(lambda: st.save_global_data(level_parameters=lp, result_format=other))
    I.check(refused, "a different format is refused")
    st = SampleStorageHDF(file_path=path)
    same(I, st.load_result_format(), fmt, "stored format after the refusal")
    I.check([x for x in st.load_scheduled_samples()[0]] == [cm.tag(0, 0)], "stored samples after the refusal")


def run_eq(I, nt, nl, nt2, nl2, kind):
    """stored format [a] against a new format [b], all values symbolic: refused exactly when they differ, never overwritten"""
    import mlmc.quantity.quantity_spec as qs
    from mlmc.sample_storage_hdf import SampleStorageHDF

    def spec(t, a, b):
        name, unit = I.choice(t + "name", ["p", "q"]), I.choice(t + "unit", ["m", "s"])
        shape = (I.int(t + "s0", 1, 100), I.int(t + "s1", 1, 100))
        ts = [I.real(t + "t%d" % i, -100, 100) for i in range(a)]
        if kind == "xyz":
            locs = [tuple(I.real(t + "l%d_%d" % (i, c), -100, 100) for c in range(3)) for i in range(b)]
        else:
            locs = [I.choice(t + "l%d" % i, ["a", "b"]) for i in range(b)]
        return qs.QuantitySpec(name=name, unit=unit, shape=shape, times=ts, locations=locs)
    a, b = spec("a", nt, nl), spec("b", nt2, nl2)
    same_ = [a.name == b.name, a.unit == b.unit, a.shape[0] == b.shape[0], a.shape[1] == b.shape[1], nt == nt2, nl == nl2]
    same_ += [x == y for x, y in zip(a.times, b.times)]
    if kind == "xyz":
        same_ += [x == y for p, q in zip(a.locations, b.locations) for x, y in zip(p, q)]
    else:
        same_ += [a.locations == b.locations]
    exp = I.both(*same_)
    st = SampleStorageHDF(file_path=os.path.join(I.tmp(), "s.hdf5"))
    written = []
    I.patch(st, "load_result_format", lambda: [a])
    if not hasattr(getattr(st, "_hdf_object", None), "save_result_format"):
        return      # internals not accessible: run_refuse decides
    I.patch(st._hdf_object, "save_result_format", lambda *x, **k: written.append(1))
    try:
        st.save_result_format([b], None)
        accepted = True
    except ValueError:
        accepted = False
    I.check(exp if accepted else I.ite(exp, False, True), "accepted exactly when all fields are equal")
    I.check(not written, "an existing format is never overwritten")


def cases(tier):
    cs = []
    T = tier == "thorough"
    for nt, nl, nt2, nl2 in ((1, 1, 1, 1), (2, 2, 2, 2), (2, 1, 1, 1), (1, 1, 1, 2), (1, 2, 1, 1)) + (((3, 3, 3, 3),) if T else ()):
        for kind in ("xyz", "str"):
            cs.append(dict(name="eq_%s_%d%d_%d%d" % (kind, nt, nl, nt2, nl2), run=run_eq, params=dict(nt=nt, nl=nl, nt2=nt2, nl2=nl2, kind=kind), time_s=120))
    for nspec in (1, 2) + ((3,) if T else ()):
        for kind in range(len(STR)):
            if nspec > 1 and kind in (0, 2, 4) and not T:
                continue
            cs.append(dict(name="roundtrip_%d_%d" % (nspec, kind), run=run_roundtrip, params=dict(nspec=nspec, kind=kind), time_s=240 if not T else 900))
        cs.append(dict(name="roundtrip_%d_xyz" % nspec, run=run_roundtrip, params=dict(nspec=nspec, kind="xyz"), time_s=240 if not T else 900))
        for kind in (0, "xyz"):
            cs.append(dict(name="refuse_%d_%s" % (nspec, kind), run=run_refuse, params=dict(nspec=nspec, kind=kind), time_s=240 if not T else 900))
    return cs
