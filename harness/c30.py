"""C30: a flow sample runs the fine and the coarse model on one realisation of the fields and reports their outflow."""
import os
import numpy as np
from . import common as cm

MODULES = ["mlmc.tool.flow_mc", "mlmc.tool.gmsh_io", "mlmc.random.correlated_field"]
META = dict(
    bounds="fine and coarse meshes of 2..3 bulk elements (and boundary ones) in 1..2 regions with element ids in any order, three fields (random, dependent, unused), any field values, any fluxes; balance files of up to 4 records (several outflow records, other regions, later times); solver that leaves no output; 1..3 levels prepared with and without cleaning; any time factor",
    outside="meshes that do not extend in two directions; real meshing and flow programs (stand-ins writing the files these programs write); larger meshes; templates whose substituted values contain placeholders; generators other than numpy's global one",
    stubs=["gmsh and flow123d: subprocess.call writes a fixed mesh / a balance file with symbolic fluxes", "random field: any values at the points it was given", "text files: a symbolic number is written as a token"],
    assumptions=["records of the balance file are ordered by time"], limit_s=dict(quick=300, thorough=1200))

REG = {"bulk_0": (1, 2), "rock": (2, 2), ".bc_outflow": (3, 1)}
NODES = {1: (0.0, 0.0, 0.0), 2: (1.0, 0.0, 0.0), 3: (0.0, 2.0, 0.0), 4: (3.0, 1.5, 0.0), 5: (5.0, 0.5, 0.0), 6: (2.5, 4.0, 0.0)}
# element id, region, nodes
MESHES = {
    "f1": [(4, 1, (1, 2, 3)), (3, 1, (2, 4, 6))],
    "f3": [(9, 1, (1, 2, 3)), (2, 3, (1, 2)), (5, 2, (2, 3, 4)), (7, 1, (4, 5, 6))],
    "c1": [(3, 2, (2, 4, 6)), (4, 2, (1, 3, 5))],
    "c2": [(8, 2, (1, 4, 5)), (1, 3, (4, 5)), (6, 1, (2, 3, 6))],
    "c3": [(5, 1, (1, 4, 5)), (9, 2, (2, 3, 6)), (2, 3, (4, 5))],
}
TEMPLATE = "mesh: <mesh_file>\ncond: <conductivity>\nagain: <conductivity>\npor: <porosity>\nh1: <timestep_h1>\nh2: <timestep_h2>\nkeep: <cond> <other>\n"


def centre(nodes):
    return tuple(np.mean([NODES[n] for n in nodes], axis=0)[:2])


def bulk(mesh):
    return {i: (r, centre(n)) for i, r, n in MESHES[mesh] if r != 3}


def write_mesh(path, mesh):
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n3\n")
        for n, (i, d) in REG.items():
            f.write('%d %d "%s"\n' % (d, i, n))
        f.write("$EndPhysicalNames\n$Nodes\n%d\n" % len(NODES))
        for i, x in NODES.items():
            f.write("%d %r %r %r\n" % ((i,) + x))
        f.write("$EndNodes\n$Elements\n%d\n" % len(MESHES[mesh]))
        for i, r, n in MESHES[mesh]:
            f.write("%d %d 2 %d 50 %s\n" % (i, {2: 1, 3: 2}[len(n)], r, " ".join(map(str, n))))
        f.write("$EndElements\n")


def read_fields(path, num):
    """{field: {element: [values]}}"""
    out, lines = {}, [x.strip() for x in open(path)]
    k = 0
    while k < len(lines):
        if lines[k] == "$ElementData":
            name = lines[k + 2].strip('"')
            n = int(lines[k + 8])
            d = {}
            for x in lines[k + 9:k + 9 + n]:
                c = x.split()
                assert int(c[0]) not in d
                d[int(c[0])] = [num(v) for v in c[1:]]
            assert lines[k + 9 + n] == "$EndElementData" and name not in out
            out[name] = d
            k += 9 + n
        k += 1
    return out


class World:
    def __init__(self, I, region_fields=False):
        from mlmc.tool import flow_mc, gmsh_io
        from mlmc.random import correlated_field as cf
        self.I = I
        self.flow = flow_mc
        I.text_files(gmsh_io, flow_mc)
        self.num = lambda t: gmsh_io.__dict__.get("float", float)(t)
        self.dir = I.tmp()
        self.runs, self.events, self.values, self.meshed = [], [], [], []
        self.mesh_of = {}       # step -> mesh kind
        self.balance = {}       # common dir -> records or None
        w = self

        class Drawn(cf.RandomFieldBase):
            def _initialize(self, **kw):
                pass

            def _sample(self):
                n = len(w.values)
                w.events.append("draw")
                v = {}
                out = []
                for p in np.asarray(self.points).tolist():
                    p = tuple(p)
                    if p not in v:
                        v[p] = I.real("v%d_%d" % (n, len(v)), -50, 50)
                    out.append(v[p])
                w.values.append(v)
                return I.array(out)

        def create(**params):
            w.params = params
            return cf.Fields([cf.Field("conductivity", Drawn(dim=2, mu=0.0, sigma=1.0)),
                              cf.Field("porosity", lambda a: a * 2.0 + 1.0, ["conductivity"]),
                              cf.Field("unused", lambda a: a * 7.0, ["conductivity"])])
        I.patch(flow_mc, "create_corr_field", create)
        I.patch(flow_mc.subprocess, "call", self.call)
        I.patch(np.random, "seed", lambda s=None: w.events.append(("seed", s)))
        cwd = os.getcwd()

        class Back:
            pass
        self._cwd = cwd
        self.sample_dir = os.path.join(self.dir, "sample")
        os.makedirs(self.sample_dir)

    def call(self, args, **kw):
        if args[0] == "gmsh":
            out = args[args.index("-o") + 1]
            step = args[args.index("-clscale") + 1]
            self.meshed.append((step, out))
            write_mesh(out, self.mesh_of[step])
            return 0
        assert args[0] == "flow", args
        inp, src, out = (args[args.index(k) + 1] for k in ("-i", "-s", "-o"))
        common = os.path.dirname(src)
        assert os.path.samefile(out, self.sample_dir)
        rec = dict(common=common, source=open(src).read(), fields=read_fields(os.path.join(inp, "fields_sample.msh"), self.num))
        self.runs.append(rec)
        items = self.balance.get(common)
        if items is None:
            return 1
        with open(os.path.join(out, "water_balance.yaml"), "w") as f:
            f.write("data:\n")
            for t, reg, data in items:
                f.write("- time: %s\n  region: %s\n  data: [%s]\n" % (t, reg, ", ".join(str(d) for d in data)))
        with open(os.path.join(out, "flow123.0.log"), "w") as f:
            f.write("log")
        return 0

    def calculate(self, config, seed):
        os.chdir(self.sample_dir)
        try:
            return self.flow.FlowSim.calculate(config, seed)
        finally:
            os.chdir(self._cwd)

    def check_run(self, rec, mesh, values, label, used=("conductivity", "porosity")):
        I = self.I
        I.check(sorted(rec["fields"]) == sorted(used), label + ": exactly the used fields")
        els = bulk(mesh)
        for name in rec["fields"]:
            d = rec["fields"][name]
            I.check(sorted(d) == sorted(els), label + ": exactly the bulk elements of its mesh")
            for i in d:
                if i not in els:
                    continue
                p = [q for q in values if max(abs(q[0] - els[i][1][0]), abs(q[1] - els[i][1][1])) < 1e-9]
                I.check(len(p) == 1 and len(d[i]) == 1, label + ": drawn at the centre of the element")
                if len(p) == 1 and len(d[i]) == 1:
                    v = values[p[0]]
                    I.check_eq(d[i][0], v if name == "conductivity" else v * 2.0 + 1.0, label + ": values drawn at the centres", tol=1e-9)


def balance(I, name, kind):
    """records and the expected flux (None: refused)"""
    out, oth = I.real(name + "_out", -5, 5), I.real(name + "_o", -5, 5)
    n = ".bc_outflow"
    if kind == "one":
        return [(0, n, [out, 0.0, 1.0])], out
    if kind == "mixed":
        o2 = I.real(name + "_out2", -5, 5)
        return [(0, "bulk_0", [oth, 3.0]), (0, n, [out, -1.0]), (0, ".bc_inflow", [oth, 2.0]), (0, n, [o2, 0.0])], out + o2
    if kind == "later":
        return [(0, n, [out, 0.0]), (0, "rock", [oth, 4.0]), (0.5, n, [oth, 0.0]), (1.0, n, [oth, 7.0])], out
    if kind == "positive":
        fin = I.real(name + "_in", -3, 3)
        I.assume(I.any(fin <= 0, fin >= 1e-9))
        return [(0, "rock", [oth, 4.0]), (0, n, [out, fin])], (out, fin)
    if kind == "none":
        return [(0, "bulk_0", [out, 0.0]), (0, ".bc_inflow", [oth, 0.0])], None
    if kind == "late":
        return [(0, "bulk_0", [out, 0.0]), (2, n, [oth, 0.0])], None
    return None, None       # no output at all


def outcome(I, w, config, seed):
    try:
        return w.calculate(config, seed), None
    except Exception as e:
        return None, e


def run_sample(I, fine, coarse, bf, bc):
    w = World(I)
    cd = {}
    for s, m in (("f", fine), ("c", coarse)):
        if m is None:
            continue
        cd[s] = os.path.join(w.dir, "common_" + s)
        os.makedirs(cd[s])
        write_mesh(os.path.join(cd[s], "mesh.msh"), m)
        open(os.path.join(cd[s], "flow_input.yaml"), "w").write("input of " + s)
    rec_f, want_f = balance(I, "f", bf)
    w.balance[cd["f"]] = rec_f
    want_c = 0.0
    if coarse is not None:
        rec_c, want_c = balance(I, "c", bc)
        w.balance[cd["c"]] = rec_c
    config = dict(fine=dict(step=0.5, common_files_dir=cd["f"]), coarse=dict(step=1.0 if coarse else 0, common_files_dir=cd.get("c")),
                  fields_used_params=["mesh_file", "conductivity", "porosity"], gmsh="gmsh", flow123d="flow", fields_params=dict(model="exp"))
    seed = I.choice("seed", [0, 12345])
    res, err = outcome(I, w, config, seed)

    def refused(want):
        if want is None:
            return True
        return isinstance(want, tuple) and bool(want[1] > 1e-10)
    if refused(want_f) or refused(want_c):
        I.check(err is not None, "missing output, no outflow or inflow at the outlet is an error")
        return
    I.check(err is None, "sample computed")
    if err is not None:
        raise err
    val = lambda x: x[0] if isinstance(x, tuple) else x
    I.check(len(np.asarray(res[0]).reshape(-1)) == 1 and len(np.asarray(res[1]).reshape(-1)) == 1, "one value each")
    I.check_eq(cm.el(res[0].reshape(-1), 0), -val(want_f), "fine result is the outflow of the fine run", tol=1e-9)
    I.check_eq(cm.el(res[1].reshape(-1), 0), -val(want_c) if coarse else 0.0, "coarse result is the outflow of the coarse run", tol=1e-9)
    I.check(len(w.runs) == (2 if coarse else 1), "one run per model")
    I.check(w.events == [("seed", seed), "draw"], "fields drawn once, after seeding by the seed of the sample")
    I.check(dict(w.params) == dict(model="exp"), "declared fields")
    if len(w.values) != 1:
        return
    I.check(w.runs[0]["source"] == "input of f", "fine run uses its own input")
    w.check_run(w.runs[0], fine, w.values[0], "fine run")
    if coarse and len(w.runs) > 1:
        I.check(w.runs[1]["source"] == "input of c", "coarse run uses its own input")
        w.check_run(w.runs[1], coarse, w.values[0], "coarse run")


def run_levels(I, meshes, clean2, version, later=None):
    """levels prepared from the coarsest one, then a sample of the finest"""
    w = World(I)
    steps = [1.0, 0.25, 0.1][:len(meshes)]
    geo, tmpl = os.path.join(w.dir, "square.geo"), os.path.join(w.dir, "in.yaml")
    open(geo, "w").write("geometry")
    open(tmpl, "w").write(TEMPLATE)
    tf = I.real("tf", 0.5, 3)
    conf = dict(env=dict(gmsh="gmsh", flow123d="flow", gmsh_version=version), fields_params=dict(model="svd"), yaml_file=tmpl, geo_file=geo,
                work_dir=os.path.join(w.dir, "work"), time_factor=tf)
    os.makedirs(conf["work_dir"])
    for s, m in zip(steps, meshes):
        w.mesh_of[str(s)] = m
    levels = []
    sim = w.flow.FlowSim(conf, clean=True)
    for k, s in enumerate(steps):
        levels.append(sim.level_instance([s], [steps[k - 1]] if k else [0]))
    I.check(len(w.meshed) == len(steps) and len(set(o for _, o in w.meshed)) == len(steps), "every level gets its own mesh")
    if clean2 is not None:
        # another process prepares the same levels again
        n = len(w.meshed)
        sim = w.flow.FlowSim(conf, clean=clean2)
        levels = []
        for k, s in enumerate(steps):
            levels.append(sim.level_instance([s], [steps[k - 1]] if k else [0]))
        if not clean2:
            I.check(len(w.meshed) == n, "existing meshes are kept")
    wants = []
    for k, s in enumerate(steps):
        cfg = levels[k].config_dict
        I.check(levels[k].need_sample_workspace is True, "sample needs a workspace")
        I.check_eq(levels[k].task_size, len(bulk(meshes[k])) / 17000000, "task size is proportional to the size of the mesh", tol=1e-12)
        common = cfg["fine"]["common_files_dir"]
        lines = open(os.path.join(common, "flow_input.yaml")).read().split("\n")
        fld = "!FieldElementwise {mesh_data_file: $INPUT_DIR$/fields_sample.msh, field_name: %s}"
        mesh = os.path.join(common, "mesh.msh")
        I.check(lines[:4] == ["mesh: " + mesh, "cond: " + fld % "conductivity", "again: " + fld % "conductivity", "por: " + fld % "porosity"], "placeholders replaced")
        I.check(lines[6:] == ["keep: <cond> <other>", ""], "other text kept")
        I.check(lines[4][:4] == "h1: " and lines[5][:4] == "h2: ", "time steps")
        I.check_eq(w.flow.__dict__.get("float", float)(lines[4][4:]), tf * s, "linear time step", tol=1e-9)
        I.check_eq(w.flow.__dict__.get("float", float)(lines[5][4:]), tf * s * s, "quadratic time step", tol=1e-9)
        rec, want = balance(I, "b%d" % k, "one")
        w.balance[common] = rec
        wants.append((common, want))
    k = len(steps) - 1 if later is None else later
    res, err = outcome(I, w, levels[k].config_dict, 77)
    if err is not None:
        raise err
    I.check_eq(cm.el(res[0].reshape(-1), 0), -wants[k][1], "fine result of the level", tol=1e-9)
    I.check_eq(cm.el(res[1].reshape(-1), 0), -wants[k - 1][1] if k else 0.0, "coarse result is the run of the previous level", tol=1e-9)
    I.check(w.events == [("seed", 77), "draw"], "fields drawn once")
    I.check([r["common"] for r in w.runs] == [wants[k][0]] + ([wants[k - 1][0]] if k else []), "runs with the files of their levels")
    if len(w.values) == 1 and len(w.runs) == (2 if k else 1):
        w.check_run(w.runs[0], meshes[k], w.values[0], "fine run")
        if k:
            w.check_run(w.runs[1], meshes[k - 1], w.values[0], "coarse run")


def cases(tier):
    cs = []
    T = tier == "thorough"

    def add(name, run, **p):
        cs.append(dict(name=name, run=run, params=p, time_s=100 if not T else 300))
    kinds = ["one", "mixed", "later", "positive", "none", "late", "missing"]
    for b in kinds:
        add("single_" + b, run_sample, fine="f3", coarse=None, bf=b, bc=None)
        add("fine_" + b, run_sample, fine="f3", coarse="c2", bf=b, bc="one")
        add("coarse_" + b, run_sample, fine="f3", coarse="c2", bf="one", bc=b)
    add("small", run_sample, fine="f1", coarse="c1", bf="one", bc="mixed")
    add("same_ids", run_sample, fine="f3", coarse="c3", bf="mixed", bc="mixed")
    add("finer_coarse", run_sample, fine="f1", coarse="f3", bf="one", bc="one")
    for v in (2, 4):
        for c in (None, True, False):
            add("levels_%d_%s" % (v, c), run_levels, meshes=["c1", "c2", "f3"], clean2=c, version=v)
    add("level0", run_levels, meshes=["c2"], clean2=None, version=2)
    add("level0_again", run_levels, meshes=["c2"], clean2=False, version=2)
    add("level1", run_levels, meshes=["c2", "f3", "f1"], clean2=None, version=2, later=1)
    add("level0_of3", run_levels, meshes=["c1", "f3", "f1"], clean2=None, version=4, later=0)
    return cs
