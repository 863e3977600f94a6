"""Planted bugs (source for mkseed.py)."""
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


MEM = '''
import sys, numpy as np
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
def mem(levels, shape=(1, 1), times=(1.0,), locs=("a",)):
    st = Memory()
    fmt = [QuantitySpec(name="q", unit="m", shape=shape, times=list(times), locations=list(locs))]
    st.save_global_data(result_format=fmt, level_parameters=[[1.0 / 2 ** l] for l in range(len(levels))])
    for l, rows in enumerate(levels):
        st.save_samples({l: [("L%02d_S%07d" % (l, i), (np.array(f, float), np.array(c, float))) for i, (f, c) in enumerate(rows)]}, {})
    return st, fmt
'''

seed("c01_nan_all_sides", "C01",
     [("mlmc/quantity/quantity_estimate.py", "mask = np.any(np.isnan(chunk), axis=0).any(axis=1)", "mask = np.any(np.isnan(chunk), axis=0).all(axis=1)")],
     "a sample with NaN only in its fine or only in its coarse part on a level above 0",
     "a one-sided NaN is not masked and spoils the level mean", MEM + '''
st, fmt = mem([[([1.0], [0.0]), ([2.0], [0.0])], [([1.0], [0.5]), ([np.nan], [1.0]), ([3.0], [1.0])]])
m = estimate_mean(make_root_quantity(st, fmt)["q"][1.0]["a"])
assert list(m.n_samples) == [2, 2] and list(m.n_rm_samples) == [0, 1], (m.n_samples, m.n_rm_samples)
assert np.allclose(m.mean, 1.5 + 1.25), m.mean
''')

seed("c12_ge", "C12",
     [("mlmc/quantity/quantity.py", "return self._process_mask(x, y, operator.ge)", "return self._process_mask(x, y, operator.gt)")],
     "a sample value equal to the threshold of >=",
     "samples equal to the threshold are dropped", MEM + '''
st, fmt = mem([[([1.0], [0.0]), ([2.0], [0.0]), ([3.0], [0.0])]])
q = make_root_quantity(st, fmt)["q"][1.0]["a"][0, 0]
m = estimate_mean(q.select(q >= 2.0))
assert list(m.n_samples) == [2], m.n_samples
''')

seed("c02_chunk_offset", "C02",
     [("mlmc/tool/hdf5.py", "yield ChunkSpec(chunk_id=chunk_id, chunk_slice=chunk[0], level_id=int(self.level_id))",
       "yield ChunkSpec(chunk_id=chunk_id, chunk_slice=slice(chunk[0].start, min(chunk[0].stop, (chunk_id + 1) * dataset.chunks[0] - (chunk_id > 0)), 1), level_id=int(self.level_id))")],
     "a level stored in at least three chunks of the file backend (a full chunk after the first)",
     "the last sample of every full chunk but the first is not read", '''
import os, tempfile, shutil, numpy as np
import h5py._hl.filters as flt
flt.guess_chunk = lambda shape, maxshape, typesize: (3,) + tuple(max(1, s) for s in shape[1:])
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
d = tempfile.mkdtemp()
try:
    st = SampleStorageHDF(file_path=os.path.join(d, "m.hdf5"))
    fmt = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
    st.save_global_data(level_parameters=[[1.0]], result_format=fmt)
    v = np.arange(1, 9) ** 2.0
    st.save_samples({0: [("L00_S%07d" % i, (np.array([x]), np.array([0.0]))) for i, x in enumerate(v)]}, {})
    m = estimate_mean(make_root_quantity(st, fmt)["q"][1.0]["a"])
    assert list(m.n_samples) == [8] and np.allclose(m.mean, v.mean()), (m.n_samples, m.mean)
finally:
    shutil.rmtree(d)
''')

seed("c05_round", "C05",
     [("mlmc/sampler.py", "n_scheduled = np.ceil(np.where(n_estimated < n_scheduled,", "n_scheduled = np.round(np.where(n_estimated < n_scheduled,")],
     "a gap whose added fraction is below one half, on a level with few samples",
     "the adding step makes no progress and never completes", '''
import numpy as np
from mlmc.sampler import Sampler
s = Sampler.__new__(Sampler)
s._n_target_samples = np.array([3.0]); s._n_scheduled_samples = np.array([3.0])
s.ask_sampling_pool_for_samples = lambda **k: 0
got = []
s.set_scheduled_and_wait = lambda n, *a, **k: got.append(n)
s.process_adding_samples(np.array([5]))
assert got[0][0] > 3, got
''')

seed("c16_limit_sum", "C16",
     [("mlmc/estimator.py", "np.minimum(n_samples_estimate, vars * n_levels / target_variance), 2)", "np.minimum(n_samples_estimate, np.max(vars, axis=1, keepdims=True) * n_levels / target_variance), 2)")],
     "two moments of different variance where the limit V*L/target applies to the smaller one but not to the larger",
     "the limit of one moment is computed from another moment's variance", '''
import numpy as np
from mlmc.estimator import estimate_n_samples_for_target_variance as f
# level 0 carries a small variance of moment 1 but a large variance on the expensive level 1
v = np.array([[0.0, 8.0, 1.0], [0.0, 1e-6, 1e6]])
c = np.array([1.0, 100.0])
t = 1.0
def ref(v, c, t):
    n = np.round(np.sqrt(v.T / c).T * np.sum(np.sqrt(v.T * c), axis=1) / t).astype(int)
    return np.max(np.maximum(np.minimum(n, v * len(v) / t), 2), axis=1).astype(int)
a, b = f(t, v, c, 2), ref(v, c, t)
assert np.all(a == b), (a, b)
''')

seed("c06_clear_all", "C06",
     [("mlmc/sampling_pool.py", "        successful = self._queues_to_list(list(self._queues.items()))\n",
       "        levels = [level_id for level_id, q in self._queues.items() if not q.empty()]\n        drained = self._queues_to_list(list(self._queues.items()))\n        successful = {level_id: drained[level_id] for level_id in levels}\n")],
     "first result of a level arriving from the worker between listing the levels and draining their queues",
     "results drained but not listed are lost", '''
import numpy as np, queue
import mlmc.sampling_pool as sp
class Q(dict):
    # a worker result arrives right after the first look at the queues
    n = 0
    def items(self):
        r = list(super().items())
        Q.n += 1
        if Q.n == 1:
            q = queue.Queue(); q.put(("L01_S0000000", (np.ones(1), np.zeros(1))))
            self[1] = q
        return r
p = sp.OneProcessPool()
p._queues = Q()
p._n_running = 1
seen = []
for _ in range(4):
    s, f, n, t = p.get_finished()
    for l, rs in s.items():
        seen += [r[0] for r in rs]
assert seen == ["L01_S0000000"] and n == 0, (seen, n)
''')

seed("c08_job_map", "C08",
     [("mlmc/tool/pbs_job.py", "saved_ids.update(new_ids)\n            json.dump(saved_ids, file)", "json.dump(new_ids, file)")],
     "crash of the main process after more than one job has been submitted",
     "the job of samples submitted before the last job is forgotten, the finished samples of that job are reported as failed after the restart", '''
import os, sys, subprocess, tempfile, shutil, numpy as np
from types import SimpleNamespace
import mlmc.sampling_pool_pbs as sp
from mlmc.tool.pbs_job import PbsJob
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec

class Sim:
    @staticmethod
    def calculate(config, seed):
        return np.array([float(seed % 7)]), np.array([0.0])
    @staticmethod
    def result_format():
        return [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]

class Run:
    """queue whose jobs end at once"""
    def __init__(self, out):
        self.out, self.n = out, 100
    def __call__(self, cmd, **k):
        if cmd[0] == "qsub":
            self.n += 1
            job = os.path.basename(cmd[1])[:4]
            p = PbsJob(self.out, os.path.join(os.path.dirname(self.out), "output", "jobs"), job, sp.SamplingPoolPBS.LEVEL_SIM_CONFIG, True)
            p._jobs_dir = os.path.dirname(cmd[1])
            p.calculate_samples()
            return SimpleNamespace(returncode=0, stdout=("%d.srv" % self.n).encode(), stderr=b"")
        return SimpleNamespace(returncode=0, stdout="".join("%s.srv job user 00:00 F q\\n" % i for i in cmd[2:]).replace("00:00 F", "00 F").encode(), stderr=b"")

d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    setting = dict(n_cores=1, n_nodes=1, mem="1gb", queue="q", walltime="1:00:00", pbs_name="p", env_setting=[], optional_pbs_requests=[])
    ids = []
    pool = sp.SamplingPoolPBS(work_dir=d, debug=True)
    pool.pbs_common_setting(**dict(setting))
    sp.subprocess.run = Run(pool._output_dir)
    ls = LevelSimulation(config_dict={}, task_size=0.4, calculate=Sim.calculate)
    ls._calculate, ls._result_format, ls._level_id = Sim.calculate, Sim.result_format, 0
    for i in range(12):
        ids.append("L00_S%07d" % i)
        pool.schedule_sample(ids[-1], ls)
    pool.execute()
    os.chdir(cwd)
    # the main process died, a new one takes over
    pool = sp.SamplingPoolPBS(work_dir=d, debug=True)
    pool.pbs_common_setting(**dict(setting))
    pool.have_permanent_samples(ids)
    succ, fail, running, times = pool.get_finished()
    got = sorted(s[0] for s in succ.get(0, []))
    assert got == ids and not fail.get(0), (got, fail)
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
''')

seed("c20_region_order", "C20",
     [("mlmc/random/correlated_field.py", "field.full_sample_ids = point_ids\n", "field.full_sample_ids = np.sort(point_ids).astype(int)\n")],
     "a field restricted to two regions whose points are interleaved in the mesh",
     "values drawn for a point of one region are assigned to a point of another one", '''
import numpy as np
from mlmc.random import correlated_field as cf
class F(cf.RandomFieldBase):
    def _initialize(self, **k): pass
    def _sample(self): return self.points[:, 0] * 10 + self.points[:, 1]
fs = cf.Fields([cf.Field("a", F(dim=2), regions=["r", "s"])])
pts = np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 3.0], [3.0, 4.0]])
fs.set_points(pts, [5, 7, 5, 7], {"r": 7, "s": 5})
assert np.allclose(fs.sample()["a"], pts[:, 0] * 10 + pts[:, 1]), fs.sample()
''')

seed("c22_sorted_ids", "C22",
     [("mlmc/tool/gmsh_io.py", '''for ele_id, value_row in zip(ele_ids, values):\n            value_line = " ".join([str(val) for val in value_row])\n            f.write("{:d} {}\\n".format(int(ele_id), value_line))\n        f.write('$EndElementData\\n')\n\n    def write_fields''', '''for ele_id, value_row in zip(np.sort(ele_ids), values):\n            value_line = " ".join([str(val) for val in value_row])\n            f.write("{:d} {}\\n".format(int(ele_id), value_line))\n        f.write('$EndElementData\\n')\n\n    def write_fields''')],
     "element ids given in other than increasing order",
     "values are written to other elements than those they were given for", '''
import os, tempfile, shutil, numpy as np
from mlmc.tool.gmsh_io import GmshIO
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "f.msh")
    GmshIO().write_fields(p, np.array([9, 2, 5]), {"c": np.array([[1.5], [2.5], [3.5]])})
    g = GmshIO(p)
    assert g.element_data["c"][0][1] == {9: [1.5], 2: [2.5], 5: [3.5]}, g.element_data
finally:
    shutil.rmtree(d)
''')

seed("c30_stale_output", "C30",
     [("mlmc/tool/flow_mc.py", 'if not filename.startswith("fine"):', 'if filename == FlowSim.FIELDS_FILE:')],
     "a coarse model run that fails without writing its output",
     "the coarse result is read from the output of the fine run", '''
import os, tempfile, shutil, numpy as np
import mlmc.tool.flow_mc as fm
from mlmc.random import correlated_field as cf
MESH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
2 1 "bulk"
1 2 ".out"
$EndPhysicalNames
$Nodes
4
1 0 0 0
2 1 0 0
3 0 1 0
4 2 3 0
$EndNodes
$Elements
3
1 1 2 2 9 1 2
2 2 2 1 9 1 2 3
3 2 2 1 9 2 3 4
$EndElements
"""
d, cwd = tempfile.mkdtemp(), os.getcwd()
try:
    dirs = {}
    for s in ("f", "c"):
        dirs[s] = os.path.join(d, s)
        os.mkdir(dirs[s])
        open(os.path.join(dirs[s], "mesh.msh"), "w").write(MESH)
    os.mkdir(os.path.join(d, "sample"))
    os.chdir(os.path.join(d, "sample"))
    fm.create_corr_field = lambda **k: cf.Fields([cf.Field("cond", 2.0)])
    runs = []
    def call(cmd, **k):
        runs.append(cmd)
        if len(runs) == 1:
            open("water_balance.yaml", "w").write("data:\\n- time: 0\\n  region: .bc_outflow\\n  quantity: water_volume\\n  data: [-3.0, 0.0, -3.0]\\n")
    fm.subprocess.call = call
    conf = dict(fine=dict(step=0.5, common_files_dir=dirs["f"]), coarse=dict(step=1.0, common_files_dir=dirs["c"]),
                fields_used_params=["cond"], fields_params={}, flow123d="flow", gmsh="gmsh")
    try:
        r = fm.FlowSim.calculate(conf, 1)
    except Exception as e:
        assert len(runs) == 2, repr(e)
        r = None
    assert r is None, r
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
''')

seed("c13_cache_size", "C13",
     [("mlmc/quantity/quantity.py", "if chunk_spec.chunk_slice is not None:", "if chunk_spec.chunk_slice is not None and chunk_spec.chunk_id:")],
     "samples of a level read, more samples stored, and the level read again through the same quantity",
     "the cached shorter array is returned for the longer chunk", MEM + '''
st, fmt = mem([[([1.0], [0.0]), ([2.0], [0.0]), ([4.0], [0.0])]])
q = make_root_quantity(st, fmt)["q"][1.0]["a"]
s = q * 2
a = s.samples(next(st.chunks(level_id=0, n_samples=2)))
b = s.samples(next(st.chunks(level_id=0, n_samples=3)))
assert b.shape[1] == 3 and a.shape[1] == 2, (a.shape, b.shape)
''')

seed("c09_level_digit", "C09",
     [("mlmc/sampler.py", "level_id = int(level_id)\n", "level_id = int(level_id[-1])\n")],
     "a failed sample on a level with a two digit number",
     "the failed sample is rescheduled with the simulation of another level", '''
import numpy as np
from types import SimpleNamespace
from mlmc.sampler import Sampler
got = []
s = Sampler.__new__(Sampler)
s.sample_storage = SimpleNamespace(failed_samples=lambda: {"0": [], "10": ["L10_S0000000"]}, clear_failed=lambda: None)
s._level_sim_objects = list(range(11))
s._sampling_pool = SimpleNamespace(schedule_sample=lambda i, sim: got.append((i, sim)))
s.renew_failed_samples()
assert got == [("L10_S0000000", 10)], got
''')
