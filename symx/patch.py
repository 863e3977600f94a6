"""Injects the symbolic numpy/math layer into the loaded mlmc modules (names in module globals only; the source of the
functions under test is executed unchanged) and the h5py token layer."""
import sys, types, math, builtins
import numpy as np
from . import core, npx

_KEEP_NAMES = {"np", "numpy"}


def mlmc_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "mlmc" or n.startswith("mlmc.")) and isinstance(m, types.ModuleType)]


class InterpMod:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        if n == "interp1d":
            return _interp1d(self._real.interp1d)
        return getattr(self._real, n)


def _interp1d(real):
    def f(x, y, *a, **k):
        if npx.has_sym(y) or npx.has_sym(x) or (isinstance(y, np.ndarray) and y.dtype == object):
            return npx.Interp1d(x, y, *a, **k)
        return real(x, y, *a, **k)
    return f


def install(stubs, extra_modules=()):
    """patch all mlmc modules loaded so far; returns an undo function"""
    import scipy.interpolate
    prox = npx.np_proxy(stubs)
    mprox = npx.MathProxy(stubs)
    undo = []

    def put(mod, name, val):
        had = name in mod.__dict__
        undo.append((mod, name, mod.__dict__.get(name), had))
        mod.__dict__[name] = val
    mods = mlmc_modules() + list(extra_modules)
    for mod in mods:
        for name, val in list(mod.__dict__.items()):
            if val is np:
                put(mod, name, prox)
            elif val is math:
                put(mod, name, mprox)
            elif val is np.ma:
                put(mod, name, npx._MA(np.ma))
            elif val is scipy.interpolate:
                put(mod, name, InterpMod(val))
            elif val is scipy.interpolate.interp1d:
                put(mod, name, _interp1d(val))
            elif isinstance(val, types.ModuleType) and val.__name__.startswith("numpy."):
                put(mod, name, getattr(prox, val.__name__.split(".")[1], val))
            elif isinstance(val, np.ufunc):
                put(mod, name, npx.UfuncProxy(val))
            elif callable(val) and getattr(val, "__module__", "") == "numpy" and not isinstance(val, type) \
                    and hasattr(np, getattr(val, "__name__", "?")):
                put(mod, name, getattr(prox, val.__name__))
        put(mod, "float", npx.FloatProxy)
        put(mod, "int", npx.IntProxy)
        put(mod, "bool", npx.BoolProxy)
        put(mod, "range", npx.p_range)
        put(mod, "round", _round)
    install_h5(undo)
    install_pandas_guard()

    def restore():
        for mod, name, old, had in reversed(undo):
            if had:
                mod.__dict__[name] = old if isinstance(mod, types.ModuleType) else old
            else:
                mod.__dict__.pop(name, None)
    return restore


def install_pandas_guard():
    pass


def _round(x, *a):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.round(x, *a)
    return builtins.round(x, *a)


# ------------------------------------------------------------------------------------------------ h5py tokens
class Tokens:
    """symbolic value <-> unique float token, so that symbolic values can pass through real HDF5 files (and text)"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.by_tok = {}
        self.by_id = {}
        self.n = 0

    def token(self, s):
        k = id(s)
        if k in self.by_id:
            return self.by_id[k][0]
        self.n += 1
        t = 7.25e250 * (1.0 + self.n * 2.0 ** -30)
        self.by_id[k] = (t, s)
        self.by_tok[t] = s
        return t

    def enc(self, a):
        """array-like with symbols -> float array"""
        o = npx.obj(a)
        out = np.empty(o.shape, dtype=float)
        for idx in np.ndindex(*o.shape):
            x = o[idx]
            if isinstance(x, core.SymBool):
                x = x._num()
            out[idx] = self.token(x) if core.is_sym(x) else float(x)
        return out

    def dec(self, a):
        if not isinstance(a, np.ndarray):
            if isinstance(a, (float, np.floating)) and abs(a) > 1e249:
                return self.by_tok.get(float(a), a)
            return a
        if a.dtype.kind != "f":
            return a
        o = npx.obj(a)
        if self.by_tok:
            for idx in np.ndindex(*o.shape):
                x = o[idx]
                if x > 1e249:
                    o[idx] = self.by_tok.get(x, x)
        return npx.sarr(o)


def enc_fields(h5py, dtype, val):
    """rows with variable length fields: object arrays become arrays of the stored type"""
    out = val.copy()
    for name in dtype.names:
        item = h5py.check_vlen_dtype(dtype[name])
        if item is None or val.dtype[name].kind != "O":
            continue
        for idx in np.ndindex(*val.shape):
            x = val[name][idx]
            if isinstance(x, np.ndarray) and x.dtype == object:
                if item.kind == "f":
                    x = TOK.enc(x)
                elif item.kind in "iu":
                    x = np.array([int(npx.to_int(v)) for v in x.ravel()], dtype=item)
                else:
                    x = np.array([v for v in x.ravel()], dtype=item)
                out[name][idx] = x.view(np.ndarray)
    return out


def dec_fields(h5py, r):
    for name in r.dtype.names:
        if r.dtype[name].kind == "O":
            for idx in np.ndindex(*r.shape):
                x = r[name][idx]
                if isinstance(x, np.ndarray):
                    r[name][idx] = TOK.dec(x)
    return r


TOK = Tokens()
_h5_done = False


def install_h5(undo):
    global _h5_done
    if _h5_done:
        return
    try:
        import h5py
    except ImportError:
        return
    _h5_done = True
    D = h5py.Dataset
    g0, s0 = D.__getitem__, D.__setitem__
    G = h5py.Group
    c0 = G.create_dataset

    def setitem(self, key, val):
        if core.CTX is not None:
            key = npx._fix_key(key)
            if self.dtype.names and isinstance(val, np.ndarray) and val.dtype.names:
                val = enc_fields(h5py, self.dtype, val)
            elif npx.has_sym(val) or (isinstance(val, np.ndarray) and val.dtype == object and npx._kind(val) != "o"):
                if self.dtype.base.kind == "f":
                    val = TOK.enc(val)
                elif self.dtype.base.kind in "iu":
                    val = np.array([int(npx.to_int(x)) for x in npx.obj(val).ravel()]).reshape(np.shape(npx.obj(val)))
                else:
                    raise core.Unsupported("symbolic value into h5 dataset of %s" % self.dtype)
        return s0(self, key, val)

    def getitem(self, key, *a, **k):
        if core.CTX is not None:
            key = npx._fix_key(key)
            r = g0(self, key, *a, **k)
            if isinstance(r, np.ndarray) and r.dtype.names:
                return dec_fields(h5py, r)
            return TOK.dec(r)
        return g0(self, key, *a, **k)

    def create(self, name, shape=None, dtype=None, data=None, **kw):
        if core.CTX is not None:
            if data is not None and (npx.has_sym(data) or (isinstance(data, np.ndarray) and data.dtype == object and npx._kind(data) != "o")):
                data = TOK.enc(data)
            if isinstance(shape, tuple):
                shape = tuple(int(s) for s in shape)
            if dtype is not None:
                dtype = npx.norm_dtype(dtype)
        return c0(self, name, shape=shape, dtype=dtype, data=data, **kw)

    D.__getitem__ = getitem
    D.__setitem__ = setitem
    G.create_dataset = create
    A = h5py.AttributeManager
    as0, ag0 = A.__setitem__, A.__getitem__

    def aset(self, name, value):
        if core.CTX is not None and npx.has_sym(value):
            if core.is_sym(value):
                if isinstance(value, core.SymInt):
                    value = int(value)
                else:
                    value = TOK.token(value)
            else:
                value = TOK.enc(value)
        elif core.CTX is not None and isinstance(value, np.ndarray) and value.dtype == object:
            value = npx.defloat(value)
        return as0(self, name, value)

    def aget(self, name):
        v = ag0(self, name)
        return TOK.dec(v) if core.CTX is not None else v
    A.__setitem__ = aset
    A.__getitem__ = aget
