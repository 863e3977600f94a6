"""numpy layer: object arrays of symbolic values and a module proxy injected in place of `np` into mlmc modules."""
import sys, types, builtins, math
import numpy as np
from . import core
from .core import (Sym, SymReal, SymInt, SymBool, Unsupported, ite, num_max, num_min, fn_apply, real_int, is_sym,
                   mk_bool, as_b, b_or, b_and, b_not, ctx, PathAbort, Budget)

_raw = np.ndarray


def obj(a):
    """-> plain object ndarray"""
    if isinstance(a, _raw):
        if a.dtype != object:
            o = np.empty(a.shape, dtype=object)
            o[...] = a.astype(object)
            return o
        return a.view(_raw)
    if is_sym(a):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    if isinstance(a, (list, tuple)):
        r = np.array(a, dtype=object)
        return r
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def sarr(a):
    """object ndarray -> SymArray view (0-d stays an array)"""
    return a.view(SymArray)


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, _raw):
        if a.dtype != object:
            return False
        for x in a.ravel().view(_raw):
            if is_sym(x) or (isinstance(x, (_raw, list, tuple)) and has_sym(x)):
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False


def concretize_mask(a):
    """object/sym bool array -> real bool array (forks)"""
    flat = obj(a)
    out = np.empty(flat.shape, dtype=bool)
    it = flat.ravel()
    res = out.ravel()
    for i, x in enumerate(it):
        res[i] = bool(x)
    return res.reshape(flat.shape)


def _kind(a):
    """element kind of an object array: 'b','i','f','o'"""
    k = None
    for x in obj(a).ravel():
        if isinstance(x, (bool, np.bool_, SymBool)):
            t = "b"
        elif isinstance(x, (int, np.integer, SymInt)):
            t = "i"
        elif isinstance(x, (float, np.floating, SymReal)):
            t = "f"
        else:
            return "o"
        if k is None:
            k = t
        elif k != t:
            if "o" in (k, t):
                return "o"
            k = "f" if "f" in (k, t) else "i"
    return k or "f"


def _fix_key(key):
    if isinstance(key, tuple):
        return tuple(_fix_key1(k) for k in key)
    return _fix_key1(key)


def _fix_key1(k):
    if isinstance(k, _raw) and k.dtype == object:
        kind = _kind(k)
        if kind == "b":
            return concretize_mask(k)
        if kind == "i":
            return np.array([int(x) for x in k.ravel().view(_raw)], dtype=int).reshape(k.shape)
        if k.size == 0:
            return np.zeros(k.shape, dtype=int)
        if kind == "f" and not has_sym(k):
            return k     # numpy raises IndexError itself, as for float arrays
        return k
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, SymInt):
        return int(k)
    if isinstance(k, slice):
        def f(v):
            return int(v) if isinstance(v, SymInt) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list) and has_sym(k):
        return _fix_key1(np.array(k, dtype=object))
    return k


class _Meta(type):
    def __instancecheck__(cls, inst):
        return isinstance(inst, _raw)


class SymArray(np.ndarray, metaclass=_Meta):
    __array_priority__ = 1e5

    def __array_finalize__(self, o):
        pass

    def __getitem__(self, key):
        r = _raw.__getitem__(self, _fix_key(key))
        return r

    def __setitem__(self, key, value):
        # symbolic boolean mask assignment with scalar value: pointwise ite, no fork
        if isinstance(key, _raw) and key.dtype == object and _kind(key) == "b" and key.shape == self.shape \
                and not isinstance(value, (list, tuple)) and (not isinstance(value, _raw) or value.ndim == 0):
            v = value[()] if isinstance(value, _raw) else value
            sv = self.view(_raw)
            for idx in np.ndindex(*self.shape):
                sv[idx] = ite(key.view(_raw)[idx], v, sv[idx])
            return
        _raw.__setitem__(self.view(_raw), _fix_key(key), value.view(_raw) if type(value) is SymArray else value)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return sym_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        h = _FUNCS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        return wrap_result(func(*_unwrap(args), **_unwrap(kwargs))) if func in _PLAIN else \
            wrap_result(_raw.__array_function__(self, func, types_, args, kwargs))

    def astype(self, dtype, *a, **k):
        dt = norm_dtype(dtype)
        if dt is None or dt == object:
            return self.copy()
        if isinstance(dt, np.dtype) and dt.kind in "iu":
            out = np.empty(self.shape, dtype=object)
            for idx in np.ndindex(*self.shape):
                out[idx] = to_int(self.view(_raw)[idx])
            return _narrow_int(out)
        if isinstance(dt, np.dtype) and dt.kind == "b":
            return elementwise(lambda x: mk_bool(as_b(x)), self)
        if isinstance(dt, np.dtype) and dt.kind == "f":
            out = np.empty(self.shape, dtype=object)
            for idx in np.ndindex(*self.shape):
                x = self.view(_raw)[idx]
                out[idx] = x if isinstance(x, SymReal) else x._real() if isinstance(x, SymInt) else \
                    x._num()._real() if isinstance(x, SymBool) else float(x)
            return sarr(out)
        if has_sym(self):
            raise Unsupported("astype %s" % dtype)
        return np.array(self.view(_raw).tolist()).astype(dtype)

    def tolist(self):
        return self.view(_raw).tolist()

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(_raw).ravel()[0])
        return bool(_raw.__bool__(self.view(_raw)))

    def __float__(self):
        if self.size == 1:
            x = self.view(_raw).ravel()[0]
            return float(x)
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def __int__(self):
        if self.size == 1:
            return int(self.view(_raw).ravel()[0])
        raise TypeError("only size-1 arrays can be converted to Python scalars")

    def round(self, decimals=0, out=None):
        return np.rint(self) if decimals == 0 else _unsup("round decimals")

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        return r

    def dot(self, other):
        return wrap_result(np.dot(obj(self), obj(other)))

    def argsort(self, *a, **k):
        raise Unsupported("argsort")

    def sort(self, axis=-1, **k):
        self.view(_raw)[...] = sym_sort(self, axis).view(_raw)

    def argmax(self, *a, **k):
        return _argext(self, lambda a, b: a > b, *a, **k)

    def argmin(self, *a, **k):
        return _argext(self, lambda a, b: a < b, *a, **k)

    def __reduce__(self):
        if has_sym(self):
            raise Unsupported("pickling a symbolic array")
        return np.array(self.view(_raw).tolist()).__reduce__()


def _unsup(m):
    raise Unsupported(m)


def _argext(a, better, axis=None, **k):
    if axis is not None and a.ndim > 1:
        raise Unsupported("argmax over axis")
    f = obj(a).ravel()
    if any(isinstance(x, SymBool) for x in f):
        f = [x if isinstance(x, SymBool) else bool(x) for x in f]
        want = bool(better(1, 0))
        for i, x in enumerate(f):
            if bool(x) == want:
                return i
        return 0
    best = 0
    for i in range(1, len(f)):
        if bool(better(f[i], f[best])):
            best = i
    return best


def to_int(x):
    if isinstance(x, SymReal):
        return real_int(x, "trunc")
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._num()
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        return -2 ** 63
    return int(x)


def _narrow_int(o):
    """object array of ints: real int array if all concrete"""
    if not has_sym(o):
        return np.array(o.tolist(), dtype=int).reshape(o.shape)
    return sarr(o)


def elementwise(fn, *arrs):
    os_ = [obj(a) for a in arrs]
    b = np.broadcast(*os_) if len(os_) > 1 else None
    shape = b.shape if b is not None else os_[0].shape
    os_ = [np.broadcast_to(o, shape) for o in os_]
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = fn(*[o[idx] for o in os_])
    return sarr(out)


def wrap_result(r):
    if isinstance(r, _raw) and r.dtype == object and type(r) is not SymArray:
        return r.view(SymArray)
    if isinstance(r, (list,)) and r and any(isinstance(x, _raw) for x in r):
        return [wrap_result(x) for x in r]
    if type(r) is tuple and any(isinstance(x, _raw) for x in r):
        return tuple(wrap_result(x) for x in r)
    return r


def _unwrap(x):
    if type(x) is SymArray:
        return x.view(_raw)
    if type(x) is list:
        return [_unwrap(i) for i in x]
    if type(x) is tuple:
        return tuple(_unwrap(i) for i in x)
    if type(x) is dict:
        return {k: _unwrap(v) for k, v in x.items()}
    return x


# ------------------------------------------------------------------------------------------------ ufuncs
def _num(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _py(op):
    return lambda a, b: op(_num(a), _num(b))


import operator as _op


def _div(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return core.real_div(a, b)
    with np.errstate(all="ignore"):
        return float(np.true_divide(float(a), float(b)))


def _floordiv(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return a // b
    with np.errstate(all="ignore"):
        return np.floor_divide(a, b).item()


def _mod(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return a % b
    with np.errstate(all="ignore"):
        return np.remainder(a, b).item()


def _pow(a, b):
    a, b = _num(a), _num(b)
    if is_sym(a) or is_sym(b):
        return core.real_pow(a, b)
    with np.errstate(all="ignore"):
        return np.power(float(a), b).item()


def _fn(name, npf):
    def f(x):
        x = _num(x)
        if isinstance(x, SymBool):
            x = x._num()
        if is_sym(x):
            return getattr(x, name)()
        if CONST_FN_SYMBOLIC and name in ("sqrt", "exp", "log", "cos", "sin", "exp2", "log2"):
            r = fn_apply(name, x)
            return r
        with np.errstate(all="ignore"):
            return npf(float(x)).item()
    return f


# if True, transcendental functions of concrete non-special arguments stay symbolic terms (exact reals); if False they
# are evaluated in floating point (rounded constants)
CONST_FN_SYMBOLIC = True


def _isnan(x):
    x = _num(x)
    if is_sym(x):
        return x.isnan()
    return isinstance(x, float) and x != x


def _isfinite(x):
    x = _num(x)
    if is_sym(x):
        r = x.isnan()
        return (not r) if isinstance(r, bool) else ~r
    return math.isfinite(x)


def _isinf(x):
    x = _num(x)
    if is_sym(x):
        return False
    return math.isinf(x)


def _lnot(x):
    x = _num(x)
    return mk_bool(b_not(as_b(x)))


def _land(a, b):
    return mk_bool(b_and(as_b(_num(a)), as_b(_num(b))))


def _lor(a, b):
    return mk_bool(b_or(as_b(_num(a)), as_b(_num(b))))


def _inv(x):
    x = _num(x)
    if isinstance(x, bool):
        return not x
    return ~x


def _sign(x):
    x = _num(x)
    if is_sym(x):
        return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)) if not (isinstance(x, SymReal) and x._is_nan()) else float("nan")
    return np.sign(x).item()


def _bin(op):
    def f(a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, bool) and isinstance(b, bool) and op in (_op.add,):
            return a or b
        return op(a, b)
    return f


def _band(a, b):
    a, b = _num(a), _num(b)
    return a & b


def _borr(a, b):
    a, b = _num(a), _num(b)
    return a | b


def _bxor(a, b):
    a, b = _num(a), _num(b)
    return a ^ b


def _fmax(a, b):
    a, b = _num(a), _num(b)
    an, bn = _isnan(a), _isnan(b)
    return ite(an, b, ite(bn, a, num_max(a, b)))


def _fmin(a, b):
    a, b = _num(a), _num(b)
    an, bn = _isnan(a), _isnan(b)
    return ite(an, b, ite(bn, a, num_min(a, b)))


_UF = {
    np.add: _bin(_op.add), np.subtract: _py(_op.sub), np.multiply: _py(_op.mul), np.true_divide: _div,
    np.floor_divide: _floordiv, np.remainder: _mod, np.fmod: None, np.power: _pow, np.float_power: _pow,
    np.less: _py(_op.lt), np.less_equal: _py(_op.le), np.greater: _py(_op.gt), np.greater_equal: _py(_op.ge),
    np.equal: _py(_op.eq), np.not_equal: _py(_op.ne),
    np.maximum: lambda a, b: num_max(_num(a), _num(b)), np.minimum: lambda a, b: num_min(_num(a), _num(b)),
    np.fmax: _fmax, np.fmin: _fmin,
    np.logical_and: _land, np.logical_or: _lor, np.logical_not: _lnot,
    np.logical_xor: lambda a, b: mk_bool(as_b(a)) ^ mk_bool(as_b(b)),
    np.bitwise_and: _band, np.bitwise_or: _borr, np.bitwise_xor: _bxor, np.invert: _inv,
    np.negative: lambda x: -_num(x), np.positive: lambda x: _num(x), np.absolute: lambda x: abs(_num(x)),
    np.fabs: lambda x: abs(_num(x)),
    np.sqrt: _fn("sqrt", np.sqrt), np.exp: _fn("exp", np.exp), np.log: _fn("log", np.log),
    np.exp2: _fn("exp2", np.exp2), np.log2: _fn("log2", np.log2), np.log10: _fn("log10", np.log10),
    np.cos: _fn("cos", np.cos), np.sin: _fn("sin", np.sin),
    np.square: lambda x: _num(x) * _num(x), np.reciprocal: lambda x: _div(1.0, x),
    np.conjugate: lambda x: x,
    np.isnan: _isnan, np.isfinite: _isfinite, np.isinf: _isinf,
    np.rint: _fn("rint", np.rint), np.floor: _fn("floor", np.floor), np.ceil: _fn("ceil", np.ceil),
    np.trunc: _fn("trunc", np.trunc), np.sign: _sign,
}

_RED0 = {np.add: 0, np.multiply: 1, np.logical_and: True, np.logical_or: False, np.bitwise_and: True,
         np.bitwise_or: False}
_BOOLOUT = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.logical_and,
            np.logical_or, np.logical_not, np.logical_xor, np.isnan, np.isfinite, np.isinf}


def sym_ufunc(ufunc, method, inputs, kwargs):
    out = kwargs.pop("out", None)
    for x in inputs:      # other dispatching types (mlmc Quantity) go first
        t = type(x)
        if not isinstance(x, (_raw, Sym)) and hasattr(t, "__array_ufunc__") and not isinstance(x, np.generic):
            return NotImplemented
    if ufunc is np.matmul and method == "__call__":
        r = wrap_result(np.matmul(obj(inputs[0]), obj(inputs[1])))
        return _finish(r, out)
    fn = _UF.get(ufunc)
    if fn is None:
        if not any(has_sym(i) for i in inputs):
            ins = [defloat(i) for i in inputs]
            return _finish(wrap_result(refloat(getattr(ufunc, method)(*ins, **kwargs))), out)
        raise Unsupported("ufunc %s" % ufunc.__name__)
    if method == "__call__":
        where = kwargs.pop("where", True)
        kwargs.pop("dtype", None); kwargs.pop("casting", None); kwargs.pop("subok", None)
        if where is not True:
            raise Unsupported("ufunc where=")
        r = elementwise(fn, *inputs)
        if ufunc in _BOOLOUT and not has_sym(r):
            r = np.array(r.view(_raw).tolist(), dtype=bool).reshape(r.shape)
        if r.ndim == 0 and out is None:
            return r.view(_raw)[()]
        return _finish(r, out)
    if method == "reduce":
        a = obj(inputs[0])
        axis = kwargs.get("axis", 0)
        keepdims = kwargs.get("keepdims", False)
        initial = kwargs.get("initial", np._NoValue)
        where = kwargs.get("where", True)
        if where is not True:
            raise Unsupported("reduce where=")
        if axis is None:
            axes = tuple(range(a.ndim))
        elif isinstance(axis, tuple):
            axes = tuple(x % a.ndim for x in axis)
        else:
            axes = (axis % a.ndim,) if a.ndim else ()
        rest = [i for i in range(a.ndim) if i not in axes]
        t = a.transpose(rest + list(axes))
        rshape = tuple(a.shape[i] for i in rest)
        n = 1
        for i in axes:
            n *= a.shape[i]
        t = t.reshape(rshape + (n,))
        res = np.empty(rshape, dtype=object)
        for idx in np.ndindex(*rshape):
            items = list(t[idx])
            if initial is not np._NoValue and initial is not None:
                items = [initial] + items
            if not items:
                if ufunc not in _RED0:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % ufunc.__name__)
                acc = _RED0[ufunc]
                if ufunc in (np.add, np.multiply):
                    acc = float(acc)
            else:
                if ufunc is np.add and isinstance(_num(items[0]), bool):
                    items = [int(items[0])] + items[1:]
                acc = items[0] if ufunc not in (np.logical_and, np.logical_or) else mk_bool(as_b(_num(items[0])))
                for x in items[1:]:
                    if ufunc is np.add and isinstance(_num(x), bool):
                        x = int(x)
                    acc = fn(acc, x)
            res[idx] = acc
        if keepdims:
            res = res.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
        r = sarr(res)
        if ufunc in _BOOLOUT and not has_sym(r):
            r = np.array(r.view(_raw).tolist(), dtype=bool).reshape(r.shape)
        if r.ndim == 0 and (_no_out(out)):
            return r.view(_raw)[()] if type(r) is SymArray else r[()]
        return _finish(r, out)
    if method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = elementwise(fn, a.reshape(a.shape + (1,) * b.ndim), b)
        return _finish(r, out)
    if method == "accumulate":
        a = obj(inputs[0])
        axis = kwargs.get("axis", 0)
        m = np.moveaxis(a, axis, 0)
        res = np.empty(m.shape, dtype=object)
        acc = None
        for i in range(m.shape[0]):
            acc = m[i] if acc is None else obj(elementwise(fn, acc, m[i]))
            res[i] = acc
        return _finish(sarr(np.moveaxis(res, 0, axis)), out)
    raise Unsupported("ufunc method %s.%s" % (ufunc.__name__, method))


def _finish(r, out):
    if _no_out(out):
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o.dtype == object:
        o.view(_raw)[...] = r.view(_raw) if isinstance(r, _raw) else r
    else:
        if has_sym(r):
            if o.dtype.kind == "b":
                o[...] = concretize_mask(r)
            else:
                raise Unsupported("symbolic result into a %s array" % o.dtype)
        else:
            o[...] = np.array(obj(r).tolist()).reshape(np.shape(r))
    return o


def defloat(a):
    """object array without symbols -> numeric array"""
    if isinstance(a, _raw) and a.dtype == object and not has_sym(a):
        k = _kind(a)
        if k == "o":
            return a.view(_raw)
        return np.array(a.view(_raw).tolist(), dtype={"b": bool, "i": int, "f": float}[k]).reshape(a.shape)
    return a


def refloat(r):
    if isinstance(r, _raw) and r.dtype.kind == "f":
        return obj(r)
    return r


# ------------------------------------------------------------------------------------------------ numpy functions
def f_where(cond, *args):
    if not args:
        return np.where(concretize_mask(cond))
    a, b = args
    return elementwise(lambda c, x, y: ite(_num(c), _num(x), _num(y)), cond, a, b)


def f_count_nonzero(a, axis=None, **kw):
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    n = 0
    for x in obj(a).ravel():
        b = as_b(_num(x))
        n = n + (int(b) if isinstance(b, bool) else core.SymInt(core.z3.If(b, 1, 0)))
    return n


def f_einsum(spec, *ops, **kw):
    ops = [obj(o) for o in ops]
    lhs, rhs = (spec.split("->") + [None])[:2]
    terms = lhs.replace(" ", "").split(",")
    # resolve ellipsis
    ell = 0
    for t, o in zip(terms, ops):
        if "..." in t:
            ell = max(ell, o.ndim - (len(t) - 3))
    E = "ABCDEFGHIJ"[:ell]
    nt = []
    for t, o in zip(terms, ops):
        if "..." in t:
            k = o.ndim - (len(t) - 3)
            t = t.replace("...", E[ell - k:])
        nt.append(t)
    if rhs is None:
        cnt = {}
        for t in nt:
            for ch in t:
                cnt[ch] = cnt.get(ch, 0) + 1
        rhs = E + "".join(sorted(c for c in cnt if cnt[c] == 1 and c not in E))
    else:
        rhs = rhs.replace(" ", "").replace("...", E)
    dims = {}
    for t, o in zip(nt, ops):
        for ch, d in zip(t, o.shape):
            if dims.get(ch, 1) == 1:
                dims[ch] = d
    summed = [c for c in dims if c not in rhs]
    out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        acc = None
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            prod = None
            for t, o in zip(nt, ops):
                v = o[tuple(env[c] if o.shape[i] != 1 else 0 for i, c in enumerate(t))]
                prod = v if prod is None else prod * v
            acc = prod if acc is None else acc + prod
        out[idx] = 0.0 if acc is None else acc
    return sarr(out)


def sym_sort(a, axis=-1):
    m = np.moveaxis(obj(a).copy(), axis, -1)
    n = m.shape[-1]
    for idx in np.ndindex(*m.shape[:-1]):
        row = list(m[idx])
        for i in range(n):
            for j in range(n - 1 - i):
                x, y = row[j], row[j + 1]
                row[j], row[j + 1] = num_min(x, y), num_max(x, y)
        for j in range(n):
            m[idx + (j,)] = row[j]
    return sarr(np.moveaxis(m, -1, axis))


def f_sort(a, axis=-1, **kw):
    return sym_sort(a, axis)


def f_percentile(a, q, axis=None, **kw):
    for k in ("out", "overwrite_input", "keepdims"):
        if kw.get(k):
            raise Unsupported("percentile " + k)
    if axis is not None:
        raise Unsupported("percentile axis")
    row = list(obj(sym_sort(np.asarray(obj(a)).ravel())))
    n = len(row)
    if n == 0:
        raise IndexError("index -1 is out of bounds for axis 0 with size 0")
    anynan = False
    for x in row:
        anynan = b_or(anynan, as_b(_isnan(x)))
    qs = obj(np.array(q, dtype=object)) if not isinstance(q, _raw) else obj(q)

    def one(p):
        if is_sym(p):
            raise Unsupported("symbolic percentile")
        h = (n - 1) * core.Fraction(float(p)) / 100
        lo = int(h)
        hi = min(lo + 1, n - 1)
        w = h - lo
        r = row[lo] * (1 - w) + row[hi] * w if w else row[lo] * 1.0
        return ite(mk_bool(anynan), float("nan"), r)
    r = elementwise(one, qs)
    return r if r.ndim else r.view(_raw)[()]


def f_quantile(a, q, axis=None, **kw):
    return f_percentile(a, np.multiply(q, 100.0), axis, **kw)


def f_median(a, axis=None, **kw):
    return f_percentile(a, 50, axis)


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    d = elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)
    return np.all(d)


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def f_array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    r = True
    for x, y in zip(a.ravel(), b.ravel()):
        r = b_and(r, as_b(_num(x) == _num(y)))
    return mk_bool(r)


def f_round(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("round decimals")
    return _finish(np.rint(a), (out,) if out is not None else None)


def f_nansum(a, axis=None, **kw):
    return np.sum(elementwise(lambda x: ite(_isnan(x), 0.0, x), a), axis=axis)


def f_nan_to_num(a, *args, **kw):
    return elementwise(lambda x: ite(_isnan(x), 0.0, x), a)


def f_diff(a, n=1, axis=-1, **kw):
    m = np.moveaxis(obj(a), axis, -1)
    r = elementwise(_py(_op.sub), m[..., 1:], m[..., :-1])
    return sarr(np.moveaxis(r.view(_raw), -1, axis))


def f_full_like(a, fill_value, dtype=None, **kw):
    o = np.empty(np.shape(a), dtype=object)
    o[...] = fill_value
    return sarr(o)


def f_zeros_like(a, dtype=None, **kw):
    return f_full_like(a, 0.0)


def f_ones_like(a, dtype=None, **kw):
    return f_full_like(a, 1.0)


def f_empty_like(a, dtype=None, **kw):
    return f_full_like(a, EMPTY)


def f_interp(x, xp, fp, *a, **kw):
    if a or kw or has_sym(xp):
        raise Unsupported("np.interp variant")
    xp = [float(v) for v in xp]
    fp = list(obj(fp))
    return elementwise(lambda v: _interp1(v, xp, fp, clamp=True), x)


def _interp1(v, xs, ys, clamp=False):
    v = _num(v)
    if is_sym(v):
        if bool(v < xs[0]):
            if clamp:
                return ys[0]
            raise ValueError("A value in x_new is below the interpolation range.")
        if bool(v > xs[-1]):
            if clamp:
                return ys[-1]
            raise ValueError("A value in x_new is above the interpolation range.")
    else:
        if v < xs[0]:
            if clamp:
                return ys[0]
            raise ValueError("A value in x_new is below the interpolation range.")
        if v > xs[-1]:
            if clamp:
                return ys[-1]
            raise ValueError("A value in x_new is above the interpolation range.")
    for i in range(len(xs) - 1):
        if bool(v <= xs[i + 1]):
            w = (v - xs[i]) * core.Fraction(1, 1) / (core.Fraction(xs[i + 1]) - core.Fraction(xs[i])) if is_sym(v) else \
                (core.Fraction(v) - core.Fraction(xs[i])) / (core.Fraction(xs[i + 1]) - core.Fraction(xs[i]))
            return elementwise(lambda a, b: a + (b - a) * w, ys[i], ys[i + 1])
    return ys[-1]


class Interp1d:
    """contract of scipy.interpolate.interp1d(kind='linear') for concrete, increasing x (symbolic y)"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind != "linear":
            raise Unsupported("interp1d kind %s" % kind)
        xs = [float(v) for v in np.asarray(x, dtype=object)]
        y = obj(np.array(y, dtype=object) if not isinstance(y, _raw) else y)
        y = np.moveaxis(y, axis, 0)
        if len(xs) != y.shape[0]:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        order = sorted(range(len(xs)), key=lambda i: xs[i])
        self.x = [xs[i] for i in order]
        self.y = [y[i] for i in order]
        self.axis = axis
        if bounds_error is False or not (isinstance(fill_value, float) and fill_value != fill_value):
            raise Unsupported("interp1d extrapolation")

    def __call__(self, v):
        if isinstance(v, (_raw, list, tuple)) and np.ndim(v) > 0:
            r = np.stack([obj(_interp1(x, self.x, self.y)) for x in v], axis=0)
            return sarr(np.moveaxis(r, 0, self.axis if self.axis >= 0 else self.axis))
        if isinstance(v, _raw):
            v = v[()]
        return wrap_result(obj(_interp1(v, self.x, self.y)))


def f_outer(a, b, out=None):
    return elementwise(_py(_op.mul), obj(a).ravel()[:, None], obj(b).ravel()[None, :])


def f_dot(a, b, out=None):
    return _scalar0(wrap_result(np.dot(obj(a), obj(b))))


def f_vdot(a, b):
    return _scalar0(wrap_result(np.dot(obj(a).ravel(), obj(b).ravel())))


def _scalar0(r):
    if isinstance(r, _raw) and r.ndim == 0:
        return r.view(_raw)[()]
    return r


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro") or axis is not None:
        raise Unsupported("norm variant")
    x = obj(x)
    if x.ndim == 2 and ord == 2:
        raise Unsupported("spectral norm")
    s = 0.0
    for v in x.ravel():
        s = s + v * v
    return fn_apply("sqrt", s)


def f_cov(*a, **k):
    raise Unsupported("np.cov")


def f_linspace(start, stop, num=50, endpoint=True, **kw):
    if kw.get("retstep") or kw.get("axis"):
        raise Unsupported("linspace variant")
    num = int(num)
    div = (num - 1) if endpoint else num
    out = np.empty((num,), dtype=object)
    for i in range(num):
        if div > 0:
            out[i] = start + (stop - start) * core.Fraction(i, div) if i else start * 1.0
            if endpoint and i == num - 1:
                out[i] = stop * 1.0
        else:
            out[i] = start * 1.0
    return sarr(out)


_FUNCS = {
    np.where: f_where, np.count_nonzero: f_count_nonzero, np.einsum: f_einsum, np.sort: f_sort,
    np.percentile: f_percentile, np.quantile: f_quantile, np.median: f_median,
    np.allclose: f_allclose, np.isclose: f_isclose, np.array_equal: f_array_equal,
    np.round: f_round, np.round_: f_round, np.around: f_round, np.nansum: f_nansum, np.nan_to_num: f_nan_to_num,
    np.diff: f_diff, np.full_like: f_full_like, np.zeros_like: f_zeros_like, np.ones_like: f_ones_like,
    np.empty_like: f_empty_like, np.interp: f_interp, np.outer: f_outer, np.dot: f_dot, np.vdot: f_vdot,
    np.argmax: lambda a, *x, **k: _argext(a, lambda p, q: p > q, *x, **k), np.argmin: lambda a, *x, **k: _argext(a, lambda p, q: p < q, *x, **k),
    np.inner: f_dot, np.linalg.norm: f_norm, np.cov: f_cov, np.linspace: f_linspace,
}
_PLAIN = {np.split, np.array_split}


# ------------------------------------------------------------------------------------------------ module proxy
class _Empty:
    """marker for uninitialised array elements: any use is an error of the code under test"""
    def __repr__(self):
        return "<uninitialised>"


EMPTY = 0.0      # value of elements of np.empty(...) in symbolic runs: see proxy_empty


def norm_dtype(dtype):
    if dtype is None:
        return None
    if dtype is FloatProxy:
        return np.dtype(float)
    if dtype is IntProxy:
        return np.dtype(int)
    if dtype is BoolProxy:
        return np.dtype(bool)
    if isinstance(dtype, tuple) and dtype and isinstance(dtype[0], type):
        return np.dtype((norm_dtype(dtype[0]),) + tuple(dtype[1:]))
    try:
        return np.dtype(dtype)
    except TypeError:
        return dtype


def _float_dtype(dt):
    if dt is None:
        return True
    if isinstance(dt, np.dtype):
        base = dt.subdtype[0] if dt.subdtype else dt
        return base.kind == "f"
    return False


def _mk(shape, dtype, fill):
    dt = norm_dtype(dtype)
    if not _float_dtype(dt):
        return None
    sh = (shape,) if not isinstance(shape, (tuple, list, _raw)) else tuple(shape)
    sh = tuple(int(s) for s in sh)
    if dt is not None and dt.subdtype:
        sh = sh + dt.subdtype[1]
    o = np.empty(sh, dtype=object)
    o[...] = fill
    return sarr(o)


def p_zeros(shape, dtype=None, **k):
    r = _mk(shape, dtype, 0.0)
    return r if r is not None else np.zeros(_cshape(shape), norm_dtype(dtype), **k)


def p_empty(shape, dtype=None, **k):
    # uninitialised memory: arbitrary value, one fresh symbolic real per element would be the exact model; the
    # content must not matter, so each element is a fresh unconstrained symbolic value
    dt = norm_dtype(dtype)
    r = _mk(shape, dtype, 0.0)
    if r is None:
        return np.empty(_cshape(shape), dt, **k)
    c = core.CTX
    if c is not None and c.aborted is None and r.size <= 256:
        flat = r.view(_raw)
        for idx in np.ndindex(*r.shape):
            flat[idx] = SymReal(c.fresh("uninit", core.z3.RealSort()), False)
    return r


def _cshape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return int(shape) if is_sym(shape) else shape


def p_ones(shape, dtype=None, **k):
    r = _mk(shape, dtype, 1.0)
    return r if r is not None else np.ones(_cshape(shape), norm_dtype(dtype), **k)


def p_full(shape, fill_value, dtype=None, **k):
    if dtype is None and not (has_sym(fill_value) or isinstance(fill_value, (float, np.floating, _raw, list))):
        return np.full(_cshape(shape), fill_value, **k)
    r = _mk(shape, dtype, 0.0)
    if r is None:
        return np.full(_cshape(shape), fill_value, norm_dtype(dtype), **k)
    r.view(_raw)[...] = obj(fill_value) if isinstance(fill_value, (_raw, list)) else fill_value
    return r


def p_eye(N, M=None, k=0, dtype=None, **kw):
    return wrap_result(obj(np.eye(N, M, k, **kw)))


def p_array(a, dtype=None, *args, **kw):
    dt = norm_dtype(dtype)
    if isinstance(a, (SymBool, SymReal, SymInt)):
        return sarr(obj(a))
    if has_sym(a) or (isinstance(a, _raw) and a.dtype == object):
        if dt is not None and isinstance(dt, np.dtype) and dt.kind in "iub":
            r = np.array(_unwrap(a), dtype=object)
            return sarr(r).astype(dt)
        kw2 = {k: v for k, v in kw.items() if k in ("copy", "ndmin")}
        r = np.array(_unwrap(a), dtype=None if not isinstance(a, _raw) else object, **kw2)
        if r.dtype != object:
            r = np.array(_unwrap(a), dtype=object, **kw2)
        return wrap_result(r)
    r = np.array(a, dt, *args, **kw) if dt is not None else np.array(a, *args, **kw)
    return wrap_result(refloat(r))


def p_asarray(a, dtype=None, *args, **kw):
    if isinstance(a, _raw) and a.dtype == object:
        dt = norm_dtype(dtype)
        if dt is None or dt.kind in "fO":
            return wrap_result(a)
    return p_array(a, dtype)


def p_atleast_1d(*arys):
    r = [p_asarray(a) if not isinstance(a, _raw) or a.dtype == object else a for a in arys]
    r = [x.reshape(1) if x.ndim == 0 else x for x in r]
    return r[0] if len(r) == 1 else r


def p_geomspace(start, stop, num=50, endpoint=True, **k):
    if not (is_sym(start) or is_sym(stop)):
        return wrap_result(refloat(np.geomspace(start, stop, int(num), endpoint, **k)))
    num = int(num)
    n = num - 1 if endpoint else num
    out = []
    for i in range(num):
        if i == 0:
            out.append(start)
        elif endpoint and i == num - 1:
            out.append(stop)
        else:
            out.append(start ** (1.0 - i / n) * stop ** (i / n))
    return sarr(obj(out))


def p_linspace(start, stop, num=50, *a, **k):
    if has_sym(start) or has_sym(stop):
        return f_linspace(start, stop, num, *a, **k)
    return wrap_result(refloat(np.linspace(start, stop, int(num), *a, **k)))


def p_arange(*a, **k):
    if has_sym(list(a)):
        a = [int(x) if isinstance(x, SymInt) else x for x in a]
    return np.arange(*a, **k)


def p_isnan(x, *a, **k):
    return np.isnan(x, *a, **k)


def p_prod(a, *args, **k):
    if isinstance(a, (tuple, list)) and not has_sym(a):
        return np.prod(a, *args, **k)
    return np.prod(a, *args, **k)


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base) or (cls._sym and isinstance(x, cls._sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base or (cls._base is float and o is np.float64 and False)

    def __hash__(cls):
        return hash(cls._base)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)


class FloatProxy(metaclass=_FMeta):
    _base = float
    _sym = (SymReal,)
    dtype = np.dtype(float)

    @staticmethod
    def _conv(*a):
        if a and isinstance(a[0], SymReal):
            return a[0]
        if a and isinstance(a[0], SymInt):
            return a[0]._real()
        if a and type(a[0]) is SymArray and a[0].size == 1 and has_sym(a[0]):
            return FloatProxy._conv(a[0].view(_raw).ravel()[0])
        return float(*a)
    is_integer = float.is_integer
    fromhex = float.fromhex


class IntProxy(metaclass=_FMeta):
    _base = int
    _sym = (SymInt,)
    dtype = np.dtype(int)

    @staticmethod
    def _conv(*a, **k):
        if a and isinstance(a[0], SymReal):
            return real_int(a[0], "trunc")
        if a and isinstance(a[0], SymInt):
            return a[0]
        if a and isinstance(a[0], SymBool):
            return a[0]._num()
        if a and type(a[0]) is SymArray and a[0].size == 1 and has_sym(a[0]):
            return IntProxy._conv(a[0].view(_raw).ravel()[0])
        return int(*a, **k)
    from_bytes = int.from_bytes


class BoolProxy(metaclass=_FMeta):
    _base = bool
    _sym = (SymBool,)
    dtype = np.dtype(bool)

    @staticmethod
    def _conv(*a):
        if a and isinstance(a[0], SymBool):
            return a[0]
        return bool(*a)


def p_range(*a):
    return range(*[int(x) if is_sym(x) else x for x in a])


class MaskedSym:
    """result of numpy.ma.masked_* on symbolic data"""
    def __init__(self, data, mask):
        self.data = data
        self.mask = mask

    def filled(self, fill_value=None):
        return elementwise(lambda m, x: ite(m, fill_value, x), self.mask, self.data)


class _MA:
    """numpy.ma subset"""
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)

    def masked_outside(self, x, v1, v2, copy=True):
        if isinstance(x, _raw) and x.dtype == object or has_sym(x) or has_sym(v1) or has_sym(v2):
            lo, hi = num_min(v1, v2), num_max(v1, v2)
            m = elementwise(lambda v: (v < lo) | (v > hi), x)
            return MaskedSym(x, m)
        return self._real.masked_outside(x, v1, v2, copy)

    def masked_where(self, cond, x, copy=True):
        if isinstance(x, _raw) and x.dtype == object:
            return MaskedSym(x, cond)
        return self._real.masked_where(cond, x, copy)

    def filled(self, a, fill_value=None):
        if isinstance(a, MaskedSym):
            return a.filled(fill_value)
        return self._real.filled(a, fill_value)


class _Ret:
    pass


class NPProxy(types.ModuleType):
    """stands for numpy (or a submodule) inside the modules under test"""

    def __init__(self, mod, overrides=None, stubs=None, path="numpy"):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__["_over"] = overrides or {}
        self.__dict__["_stubs"] = stubs if stubs is not None else {}
        self.__dict__["_path"] = path
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        full = self._path + "." + name
        if full in self._stubs:
            return self._stubs[full]
        if name in self._cache:
            return self._cache[name]
        if name in self._over:
            return self._over[name]
        v = getattr(self._mod, name)
        if name == "ma":
            v = _MA(v)
        elif name == "random":
            v = RandProxy(v, self._stubs)
        elif isinstance(v, types.ModuleType):
            v = NPProxy(v, {}, self._stubs, full)
        elif isinstance(v, np.ufunc):
            v = UfuncProxy(v)
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or type(v).__name__ in ("_ArrayFunctionDispatcher",):
            v = _wrap_fn(v)
        self._cache[name] = v
        return v


class RandProxy:
    def __init__(self, mod, stubs):
        self._mod = mod
        self._stubs = stubs

    def __getattr__(self, n):
        full = "numpy.random." + n
        if full in self._stubs:
            return self._stubs[full]
        return getattr(self._mod, n)


class UfuncProxy:
    """ufunc called from the code under test: lists with symbols are converted first"""

    def __init__(self, u):
        self.__dict__["_u"] = u

    def __call__(self, *a, **k):
        a = tuple(_arg(x) for x in a)
        if any(isinstance(x, _raw) and x.dtype == object and type(x) is not SymArray for x in a):
            a = tuple(wrap_result(x) if isinstance(x, _raw) else x for x in a)
        r = self._u(*a, **k)
        if not any(has_sym(x) for x in a) and CONST_FN_SYMBOLIC and core.CTX is not None and self._u in _TRANSC \
                and all(not hasattr(type(x), "__array_ufunc__") or isinstance(x, (_raw, np.generic)) for x in a) and not k:
            return sym_ufunc(self._u, "__call__", a, {})
        return wrap_result(r)

    def __getattr__(self, n):
        v = getattr(self._u, n)
        if n in ("reduce", "outer", "accumulate", "reduceat"):
            def f(*a, **k):
                return wrap_result(v(*tuple(wrap_result(_arg(x)) for x in a), **k))
            return f
        return v

    def __eq__(self, o):
        return o is self._u or (type(o) is UfuncProxy and o._u is self._u)

    def __hash__(self):
        return hash(self._u)


_TRANSC = {np.sqrt, np.exp, np.log, np.exp2, np.log2, np.log10, np.cos, np.sin}


def _arg(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        return p_array(x)
    if type(x) is _raw and x.dtype == object and has_sym(x):
        return x.view(SymArray)
    return x


def _arg_deep(x):
    """for functions taking a sequence of arrays (concatenate, stack) keep the outer list"""
    if isinstance(x, (list, tuple)) and has_sym(x):
        if any(isinstance(i, _raw) for i in x):
            return type(x)(_arg(i) for i in x) if not hasattr(x, "_fields") else x
        return p_array(x)
    return _arg(x)


def _wrap_fn(f):
    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = norm_dtype(k["dtype"])
        a2 = [int(x) if isinstance(x, SymInt) and False else _arg_deep(x) for x in a]
        k2 = {n: _arg_deep(v) for n, v in k.items()}
        h = _FUNCS.get(f)
        if h is not None and any(has_sym(x) or (isinstance(x, _raw) and x.dtype == object) for x in list(a2) + list(k2.values())):
            return wrap_result(h(*a2, **k2))
        r = f(*a2, **k2)
        return wrap_result(r)
    g.__name__ = getattr(f, "__name__", "fn")
    g._orig = f
    return g


_OVER = {
    "zeros": p_zeros, "empty": p_empty, "ones": p_ones, "full": p_full, "array": p_array, "asarray": p_asarray,
    "asanyarray": p_asarray, "ascontiguousarray": p_asarray, "atleast_1d": p_atleast_1d, "linspace": p_linspace, "geomspace": p_geomspace,
    "arange": p_arange, "ndarray": SymArray, "eye": p_eye, "identity": p_eye, "dtype": np.dtype,
}


class MathProxy:
    def __init__(self, stubs):
        self._stubs = stubs

    def __getattr__(self, n):
        def f(*a):
            if any(is_sym(x) for x in a):
                if n in ("sqrt", "exp", "log", "cos", "sin", "log2") and len(a) == 1:
                    x = a[0]
                    return getattr(x, n)()
                if n in ("ceil", "floor", "trunc"):
                    return real_int(a[0], n) if isinstance(a[0], SymReal) else a[0]
                if n == "isnan":
                    return a[0].isnan()
                if n in ("fabs",):
                    return abs(a[0])
                if n == "pow":
                    return core.real_pow(*a)
                raise Unsupported("math." + n)
            return getattr(math, n)(*a)
        v = getattr(math, n)
        return f if callable(v) else v


def np_proxy(stubs):
    return NPProxy(np, dict(_OVER), stubs)


def _no_out(out):
    return out is None or (isinstance(out, tuple) and out[0] is None)
