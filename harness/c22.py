"""C22: mesh and field files written are read back unchanged; the mesh extracted for a simulation is its bulk part."""
import os
import numpy as np
from . import common as cm

MODULES = ["mlmc.tool.gmsh_io", "mlmc.tool.flow_mc"]
META = dict(
    bounds="meshes of up to 4 nodes and 3 elements (points, lines, triangles, quads, tetrahedra; 0..3 tags), up to 3 physical groups with 9 kinds of names, any coordinates; element fields: 1..3 elements, 1..6 components, 1..2 fields, any values; extraction: up to 3 elements in up to 2 bulk and one boundary region, any coordinates, flat in each axis or not",
    outside="binary files (their writer does not run); names with quotes; numbers written and read as text exactly by str/float (a shorter format is taken as any change of the number); more elements",
    stubs=["text files: a symbolic number is written as a token and float() of the token gives the number back"],
    assumptions=["float(str(x)) = x"], limit_s=dict(quick=300, thorough=1500))
NAMES = ["bulk", ".bc", "two words", "a b c d", "ab c d e f", "10", "x_1-y", " padded ", "$dollar"]
SMALL = 0.12345678901234567      # makes every replayed value need all its digits


def coords(I, name, n=3, off=SMALL):
    return [I.real("%s_%d" % (name, i), -100, 100) + off for i in range(n)]


def same(I, a, b, label):
    I.check(len(a) == len(b), label + " (length)")
    for x, y in zip(a, b):
        I.check_eq(x, y, label, tol=0)


ELS = {"point": (15, 1), "line": (1, 2), "tri": (2, 3), "quad": (3, 4), "tet": (4, 4)}


def run_mesh(I, ids, els, names, via):
    """els: list of (kind, tags)"""
    from mlmc.tool import gmsh_io as g
    I.text_files(g)
    f = os.path.join(I.tmp(), "mesh.msh")
    m = g.GmshIO()
    m.filename = f
    for q, i in enumerate(ids):
        m.nodes[i] = coords(I, "x%d" % q)
    for q, (kind, nt) in enumerate(els):
        t, k = ELS[kind]
        m.elements[10 * q + 7 - 3 * q * q] = (t, [I.choice("tag%d_%d" % (q, j), [0, 3, 12]) for j in range(nt)], [ids[(q + j) % len(ids)] for j in range(k)])
    for q, n in enumerate(names):
        m.physical[n] = (q * 5 + 1, q + 1)
    want = (dict(m.nodes), dict(m.elements), dict(m.physical))
    if via == "file":
        with open(f, "w") as fo:
            m.write_ascii(fo)
    else:
        m.write_ascii()
    r = g.GmshIO(f) if via != "handle" else g.GmshIO()
    if via == "handle":
        r.read(open(f))
    I.check(sorted(r.nodes) == sorted(want[0]), "ids of nodes")
    for i in want[0]:
        same(I, r.nodes[i], want[0][i], "coordinates of nodes")
    I.check(sorted(r.elements) == sorted(want[1]), "ids of elements")
    for i, (t, tags, nodes) in want[1].items():
        rt, rtags, rnodes = r.elements[i]
        I.check(rt == t, "type of element")
        I.check(list(rtags) == list(tags), "tags of element")
        I.check(list(rnodes) == list(nodes), "nodes of element")
    I.check(r.physical == want[2], "physical groups")
    I.check(not r.element_data, "no element data")


def run_fields(I, ids, comps, mesh_first):
    from mlmc.tool import gmsh_io as g
    I.text_files(g)
    f = os.path.join(I.tmp(), "fields.msh")
    fields, vals = {}, {}
    for q, n in enumerate(comps):
        name = ["conductivity", "a field"][q]
        vals[name] = [coords(I, "v%d_%d" % (q, i), n, off=SMALL if i else 0.0) for i in range(len(ids))]
        fields[name] = I.array(np.array(vals[name], dtype=object).reshape((len(ids), n)))
    w = g.GmshIO()
    if mesh_first:
        w.filename = f
        w.write_fields(None, ids, fields)
    else:
        w.write_fields(f, np.array(ids), fields)
    r = g.GmshIO(f)
    I.check(sorted(r.element_data) == sorted(vals), "fields read")
    for name in vals:
        I.check(list(r.element_data[name]) == [0], "one time")
        time, data = r.element_data[name][0]
        I.check(time == 0, "time")
        I.check(sorted(data) == sorted(ids), "elements of a field")
        for i, e in enumerate(ids):
            same(I, data[e], vals[name][i], "values of an element")
    I.check(not r.nodes and not r.elements and not r.physical, "fields only")


def run_extract(I, regions, kinds, flat, order):
    from mlmc.tool import gmsh_io as g, flow_mc
    I.text_files(g)
    f = os.path.join(I.tmp(), "mesh.msh")
    m = g.GmshIO()
    nodes = {}
    for q, i in enumerate([4, 1, 9, 2]):
        x = coords(I, "x%d" % q)
        if flat is not None:
            x[flat] = 0.5
        nodes[i] = m.nodes[i] = x
    names = {"bulk": 11, "rock mass": 12, ".boundary": 13}
    for n, i in names.items():
        m.physical[n] = (i, 2 if n[0] != "." else 1)
    els = {}
    for q, (r, kind) in enumerate(zip(regions, kinds)):
        t, k = ELS[kind]
        idn = [5, 2, 30][q]
        nn = [[4, 1, 9, 2][(q + j) % 4] for j in range(k)]
        els[idn] = m.elements[idn] = (t, [names[r], 77], nn)
    m.filename = f
    m.write_ascii()
    d = flow_mc.FlowSim.extract_mesh(f)
    bulk = [i for i in sorted(els) if els[i][1][0] != 13]
    centre = {}
    for i in bulk:
        nn = els[i][2]
        centre[i] = [sum((nodes[n][a] for n in nn), 0.0) / len(nn) for a in range(3)]
    ids = [int(x) for x in np.asarray(d["ele_ids"]).tolist()]
    I.check(sorted(ids) == bulk, "elements of bulk regions, each once")
    I.check(dict(d["region_map"]) == names, "regions by names")
    P = d["points"]
    I.check(P.shape[0] == len(bulk), "one point per element")
    if P.shape[1] == 2:
        # one of the axes has been taken as flat: its extent must be (almost) zero
        ok = []
        for drop in range(3):
            ax = [a for a in range(3) if a != drop]
            ext = True
            for i in bulk:
                for j in bulk:
                    ext = I.both(ext, centre[i][drop] - centre[j][drop] <= 1e-9)
            for q, i in enumerate(ids):
                for k, a in enumerate(ax):
                    ext = I.both(ext, close(I, cm.el(P, q, k), centre[i][a]))
            ok.append(ext)
        I.check(I.any(ok), "only an axis of zero extent is left out, the others are the centres of elements")
    else:
        I.check(P.shape[1] == 3 and flat is None, "flat axis left out")
        for q, i in enumerate(ids):
            for a in range(3):
                I.check_eq(cm.el(P, q, a), centre[i][a], "points are the centres of elements", tol=1e-9)
    for q, i in enumerate(ids):
        I.check(int(np.asarray(d["point_region_ids"]).tolist()[q]) == els[i][1][0], "region of the point")


def close(I, a, b):
    return I.both(a - b <= (0.0 if I.symbolic else 1e-9), b - a <= (0.0 if I.symbolic else 1e-9))


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, run, **p):
        cs.append(dict(name=name, run=run, params=p, time_s=60 if not T else 300))
    kinds = list(ELS)
    q = 0
    for kind in kinds:
        for nt in range(4):
            add("mesh_%s%d" % (kind, nt), run_mesh, ids=[3, 1, 20, 7][:1 + q % 4], els=[(kind, nt), (kinds[q % 5], (q + 1) % 3)][:1 + q % 2], names=NAMES[q % 9:q % 9 + 1 + q % 3], via=["name", "file", "handle"][q % 3])
            q += 1
    for i, n in enumerate(NAMES):
        add("name%d" % i, run_mesh, ids=[1, 2], els=[("line", 2), ("point", 1)], names=[n], via="name")
    add("empty", run_mesh, ids=[], els=[], names=[], via="name")
    add("many", run_mesh, ids=[3, 1, 20, 7], els=[("tri", 2), ("line", 1), ("point", 0)], names=NAMES, via="name")
    for n in range(1, 7):
        add("field%d" % n, run_fields, ids=[7, 3, 12][:1 + n % 3], comps=[n], mesh_first=n % 2 == 0)
    add("fields2", run_fields, ids=[7, 3, 12], comps=[1, 3], mesh_first=False)
    add("fields3", run_fields, ids=[7, 3], comps=[9, 5], mesh_first=True)
    for flat in (None, 0, 1, 2):
        add("extract%s_2" % flat, run_extract, regions=["bulk", "rock mass"], kinds=["tri", "tri"], flat=flat, order=0)
        add("extract%s_bc" % flat, run_extract, regions=["rock mass", ".boundary", "bulk"], kinds=["tri", "line", "quad"], flat=flat, order=0)
    add("extract_3d", run_extract, regions=[".boundary", "bulk", "bulk"], kinds=["tri", "tet", "tet"], flat=None, order=1)
    return cs
