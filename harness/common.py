"""Shared builders for harnesses (identical in symbolic and replay mode)."""
import numpy as np


def spec(name="q", unit="m", shape=(1, 1), times=(1.0,), locations=("a",)):
    from mlmc.quantity.quantity_spec import QuantitySpec
    return QuantitySpec(name=name, unit=unit, shape=tuple(shape), times=list(times), locations=list(locations))


def tag(level, i):
    return "L{:02d}_S{:07d}".format(level, i)


def pairs_to_batch(level, start, fine, coarse):
    """-> list of (sample id, (fine vector, coarse vector)); fine, coarse: arrays [n, M]"""
    return [(tag(level, start + i), (fine[i], coarse[i])) for i in range(len(fine))]


def level_data(I, name, level, n, m, nan=False, lo=None, hi=None, opaque=False):
    """symbolic sample pairs of one level: fine [n, m], coarse [n, m] (zeros on level 0, as the pools produce)"""
    mk = (lambda nm: I.datas(nm, (n, m))) if opaque else (lambda nm: I.reals(nm, (n, m), lo, hi, nan))
    fine = mk("%s_f%d" % (name, level))
    if level == 0:
        coarse = I.array(np.zeros((n, m), dtype=object)) if n else fine
        coarse = I.array(np.full((n, m), 0.0, dtype=object))
    else:
        coarse = mk("%s_c%d" % (name, level))
    return fine, coarse


def memory_with(levels, fmt=None):
    """Memory storage filled with levels = [(fine, coarse), ...] in one batch per level"""
    from mlmc.sample_storage import Memory
    st = Memory()
    st.save_global_data(result_format=fmt or [spec()], level_parameters=[[1.0 / 2 ** l] for l in range(len(levels))])
    for l, (f, c) in enumerate(levels):
        b = pairs_to_batch(l, 0, f, c)
        if b:
            st.save_samples({l: b}, {})
    return st


def chunked_memory(levels, cuts, fmt=None):
    """Memory storage that hands out its level data in several chunks; cuts[l] = list of chunk lengths"""
    from mlmc.sample_storage import Memory
    from mlmc.quantity.quantity_spec import ChunkSpec

    class ChunkedMemory(Memory):
        def _level_chunks(self, level_id, n_samples=None):
            pos = 0
            for k, c in enumerate(cuts[level_id]):
                yield ChunkSpec(chunk_id=k, chunk_slice=slice(pos, pos + c, 1), level_id=level_id)
                pos += c
    st = ChunkedMemory()
    st.save_global_data(result_format=fmt or [spec()], level_parameters=[[1.0 / 2 ** l] for l in range(len(levels))])
    for l, (f, c) in enumerate(levels):
        st.save_samples({l: pairs_to_batch(l, 0, f, c)}, {})
    return st


def el(a, *idx):
    """plain element access"""
    return a.view(np.ndarray)[idx] if isinstance(a, np.ndarray) else a[idx]


def estimator_oracle(I, levels):
    """reference MLMC estimator on lists; -> dict with per level n, n_rm, mean[m], var[m]"""
    out = []
    for l, (fine, coarse) in enumerate(levels):
        n, m = fine.shape
        used, rm = [], 0
        for i in range(n):
            vals = []
            for k in range(m):
                vals += [el(fine, i, k)] + ([el(coarse, i, k)] if l > 0 else [])
            if bool(I.any(*[I.is_nan(v) for v in vals])):
                rm += 1
            else:
                used.append([el(fine, i, k) - el(coarse, i, k) if l > 0 else el(fine, i, k) for k in range(m)])
        nu = len(used)
        mean, var = [], []
        for k in range(m):
            s = 0.0
            for u in used:
                s = s + u[k]
            mu = s / nu if nu else float("nan")
            mean.append(mu)
            if nu > 1:
                v = 0.0
                for u in used:
                    v = v + (u[k] - mu) * (u[k] - mu)
                var.append(v / (nu - 1))
            else:
                var.append(float("inf"))
        out.append(dict(n=nu, rm=rm, mean=mean, var=var))
    return out


def force_chunk_len(I, k):
    """environment: the chunk length h5py picks for new datasets (any positive length is possible for it)"""
    import h5py._hl.filters as flt
    I.patch(flt, "guess_chunk", lambda shape, maxshape, typesize: (k,) + tuple(max(1, s) for s in shape[1:]))


def hdf_storage(I, n_levels, fmt, path=None):
    import os
    from mlmc.sample_storage_hdf import SampleStorageHDF
    path = path or os.path.join(I.tmp(), "mlmc.hdf5")
    st = SampleStorageHDF(file_path=path)
    st.save_global_data(level_parameters=[[1.0 / 2 ** l] for l in range(n_levels)], result_format=fmt)
    return st, path


def split_batches(seq, sizes):
    out, pos = [], 0
    for s in sizes:
        out.append(seq[pos:pos + s])
        pos += s
    if pos < len(seq):
        out.append(seq[pos:])
    return [b for b in out if len(b)]


def make_sim(fmt=None, record=None):
    """a minimal user simulation (subclass of the real Simulation interface)"""
    from mlmc.sim.simulation import Simulation
    from mlmc.level_simulation import LevelSimulation
    import mlmc.quantity.quantity_spec

    class Sim(Simulation):
        need_workspace = False

        def __init__(self):
            super().__init__()

        def level_instance(self, fine_level_params, coarse_level_params=None):
            if record is not None:
                record.append((list(fine_level_params), None if coarse_level_params is None else list(coarse_level_params)))
            return LevelSimulation(config_dict=dict(fine=list(fine_level_params), coarse=list(coarse_level_params)),
                                   task_size=1, need_sample_workspace=False)

        @staticmethod
        def calculate(config_dict, seed):
            return [0.0], [0.0]

        def result_format(self):
            return fmt or [spec()]
    return Sim()


class RecPool:
    """sampling pool that records submissions; outcome(sample_id) -> ('ok', fine, coarse) | ('fail', message) | None (running)"""

    def __init__(self, outcome=None):
        self.calls = []
        self.pending = []
        self.permanent = []
        self.outcome = outcome or (lambda sid, sim: ("ok", [1.0], [0.0]))

    def schedule_sample(self, sample_id, level_sim):
        self.calls.append((sample_id, level_sim))
        self.pending.append((sample_id, level_sim))

    def have_permanent_samples(self, ids):
        self.permanent.append(list(ids))
        return False

    def get_finished(self):
        succ, fail, left = {}, {}, []
        for sid, sim in self.pending:
            o = self.outcome(sid, sim)
            if o is None:
                left.append((sid, sim))
            elif o[0] == "ok":
                succ.setdefault(sim._level_id, []).append((sid, (np.array(o[1], dtype=float), np.array(o[2], dtype=float))))
            else:
                fail.setdefault(sim._level_id, []).append((sid, o[1]))
        self.pending = left
        return succ, fail, len(left), []


def lparams(L):
    return [[1.0 / 2 ** l] for l in range(L)]
