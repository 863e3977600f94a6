"""The interface a harness sees.  SymI: inputs are symbolic and checks are solver queries.  ConI: inputs come from a
solver assignment and checks are evaluated on the unpatched code (replay)."""
import os, shutil, tempfile, hashlib, json, math, traceback
from fractions import Fraction
import numpy as np


class CheckFailed(Exception):
    pass


def scratch_root():
    d = os.environ.get("SYMX_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="symx_")
        os.environ["SYMX_SCRATCH"] = d
    return d


def generic(name, lo=None, hi=None):
    """deterministic generic double for an opaque input"""
    h = int.from_bytes(hashlib.sha256(name.encode()).digest()[:8], "big") / 2.0 ** 64
    lo = -7.0 if lo is None else float(lo)
    hi = 9.0 if hi is None else float(hi)
    return lo + (hi - lo) * h


class BaseI:
    symbolic = False

    def __init__(self):
        self._tmp = []
        self._undo = []

    # ---- environment
    def tmp(self):
        d = tempfile.mkdtemp(prefix="t", dir=scratch_root())
        self._tmp.append(d)
        return d

    def patch(self, obj_, name, value):
        """temporarily replace an attribute (environment stub); undone at the end of the path"""
        missing = object()
        old = obj_.__dict__.get(name, missing) if hasattr(obj_, "__dict__") else getattr(obj_, name, missing)
        setattr(obj_, name, value)
        self._undo.append((obj_, name, old, missing))

    def cleanup(self):
        for o, n, old, missing in reversed(self._undo):
            if old is missing:
                try:
                    delattr(o, n)
                except AttributeError:
                    pass
            else:
                setattr(o, n, old)
        self._undo = []
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []

    # ---- composite inputs
    def reals(self, name, shape, lo=None, hi=None, nan=False, strict=None):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + "_" + "_".join(map(str, idx)), lo, hi, nan)
        return self.array(out)

    def datas(self, name, shape):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.data(name + "_" + "_".join(map(str, idx)))
        return self.array(out)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.conc(self.int(name, 0, len(seq) - 1))]

    def flag(self, name):
        """concretised boolean (forks)"""
        return bool(self.bool(name))

    def cint(self, name, lo, hi):
        """concretised integer: every value in lo..hi is explored on its own path"""
        return self.conc(self.int(name, lo, hi))

    def raises(self, fn, exc=Exception):
        """True if fn() raises exc"""
        try:
            fn()
        except exc:
            return True
        return False

    def check_all_eq(self, a, b, label, tol=1e-6):
        self.check_eq(a, b, label, tol=tol)


class ConI(BaseI):
    """concrete replay"""
    symbolic = False

    def __init__(self, assignment):
        super().__init__()
        self.a = assignment
        self.failed = []
        self.observed = []
        self.reached = {}
        self.np = np

    def _get(self, name):
        return self.a.get(name)

    def real(self, name, lo=None, hi=None, nan=False):
        v = self._get(name)
        if v is None:
            return generic(name, lo, hi)
        if v == "nan":
            return float("nan")
        return float(Fraction(v))

    def data(self, name):
        return generic(name)

    def int(self, name, lo, hi):
        v = self._get(name)
        return int(lo) if v is None else int(v)

    def bool(self, name):
        return bool(self._get(name))

    def conc(self, x):
        return x

    def array(self, a):
        a = np.asarray(a, dtype=object)
        return np.array(a.tolist(), dtype=float).reshape(a.shape)

    def ratio(self, p, q):
        return p / q

    def scalar(self, x):
        return x

    def assume(self, cond):
        if not bool(cond):
            raise CheckFailed("assumption not met")

    def note(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def check(self, cond, label, robust=True):
        self.note(label)
        c = cond
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not bool(c):
            self.failed.append((label, "condition is false", robust))

    def check_eq(self, a, b, label, tol=1e-6):
        self.note(label)
        try:
            aa = np.asarray(a, dtype=float)
            bb = np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            self.failed.append((label, "not numeric: %r vs %r" % (a, b), True))
            return
        if aa.shape != bb.shape:
            self.failed.append((label, "shape %s != %s" % (aa.shape, bb.shape), True))
            return
        for idx in np.ndindex(*aa.shape):
            x, y = float(aa[idx]), float(bb[idx])
            if math.isnan(x) and math.isnan(y):
                continue
            if x == y:
                continue
            if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y) or \
                    abs(x - y) > tol * max(1.0, abs(x), abs(y)):
                self.failed.append((label, "at %s: got %r, expected %r" % (idx, x, y), True))
                return

    def check_same(self, a, b, label):
        self.check_eq(a, b, label, tol=0.0)

    def observe(self, label, val):
        self.observed.append((label, val))

    def is_nan(self, x):
        return x != x

    def ite(self, c, a, b):
        return a if c else b

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def fn(self, name, x):
        if name.startswith("root"):
            return float(x) ** (1.0 / int(name[4:]))
        return float(getattr(np, name)(float(x)))

    def hint(self, name, arg, res):
        pass

    def rint(self, x):
        return round(x)

    def trunc(self, x):
        return int(x)

    def ceil(self, x):
        return math.ceil(x)

    def float_fns(self):
        """transcendental functions of constants are evaluated in double precision (they are exact reals otherwise)"""

    def fork_minmax(self):
        pass

    def text_files(self, *modules):
        pass

    def inverse_division(self):
        pass

    def stub(self, path, fn):
        """replace numpy function in the code under test: only in symbolic mode unless it models the environment"""

    def raw_float(self, x):
        return float(x)


def run_concrete(run, params, assignment):
    I = ConI(assignment)
    err = None
    try:
        try:
            run(I, **params)
        finally:
            I.cleanup()
    except CheckFailed as e:
        err = ("assumption", str(e))
    except Exception as e:
        err = ("exception", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        err = ("exception", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
    return dict(failed=I.failed, error=err, reached=I.reached, observed=[(l, _j(v)) for l, v in I.observed])


def _j(v):
    try:
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, (np.generic,)):
            return v.item()
        json.dumps(v)
        return v
    except Exception:
        return repr(v)
