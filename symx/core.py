"""Symbolic values (z3 terms) and path exploration by re-execution.

The code under test is run by CPython itself; inputs are Sym* objects.  A branch on a symbolic value asks the
solver which outcomes are feasible under the path condition; both feasible outcomes are explored (depth first, by
re-executing the harness with a recorded decision prefix).  Reals are exact (z3 Real) with an explicit NaN flag;
integers are mathematical.  Everything that cannot be represented raises Unsupported, which makes the harness
*inconclusive*, never "passed".
"""
import sys, time, math, os, zlib
import re
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _import_z3():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    sys.path.append(_VT)
    try:
        import z3
    finally:
        sys.path.remove(_VT)
    return z3


z3 = _import_z3()


class PathAbort(BaseException):
    """Ends the current path (infeasible assumption, path finished early)."""


class Unsupported(BaseException):
    """The engine cannot represent this operation: the case becomes inconclusive."""


class Budget(BaseException):
    """Time or path budget exhausted."""


CTX = None      # the active path context


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    if CTX.aborted is not None:      # a bare 'except:' in the code under test swallowed a steering exception
        raise CTX.aborted
    return CTX


Q = Fraction


def _rat(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    f = float(v)
    return z3.RealVal(str(Fraction(f)))


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ()
    __array_priority__ = 1e6
    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npx
        return npx.sym_ufunc(ufunc, method, inputs, kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


# ------------------------------------------------------------------------------------------------ booleans
def b_not(a):
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def as_b(x):
    """python/numpy/Sym truth value -> bool or z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (SymReal, SymInt)):
        return as_b(x != 0)
    return bool(x)


def mk_bool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or _npbool(o):
            return mk_bool(b_and(self.e, as_b(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or _npbool(o):
            return mk_bool(b_or(self.e, as_b(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)) or _npbool(o):
            o = as_b(o)
            return mk_bool(b_not(self.e) if o is True else self.e if o is False else z3.Xor(self.e, o))
        return NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        return mk_bool(z3.Not(self.e))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or _npbool(o):
            return ~(self ^ o) if not isinstance(self ^ o, bool) else not (self ^ o)
        return self._num() == o
    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r
    def __hash__(self):
        return id(self)
    def __int__(self):
        return int(bool(self))
    __index__ = __int__
    def __repr__(self):
        return "SymBool(%s)" % str(self.e)[:60]
    def logical_not(self):
        return ~self
    def isnan(self):
        return False


def _npbool(o):
    return type(o).__name__ == "bool_"


# ------------------------------------------------------------------------------------------------ numbers
def _isnum(o):
    if isinstance(o, (SymReal, SymInt, SymBool)):
        return True
    if isinstance(o, (bool, int, float, Fraction)):
        return True
    t = type(o)
    return t.__module__ == "numpy" and hasattr(o, "dtype") and not hasattr(o, "__len__") and o.ndim == 0 and o.dtype.kind in "biuf"


def _norm(o):
    """numeric operand -> SymReal | SymInt | python number"""
    if isinstance(o, SymBool):
        return o._num()
    if isinstance(o, (SymReal, SymInt)):
        return o
    if isinstance(o, (bool, int, float, Fraction)):
        return o
    return o.item()


def _nonfinite(o):
    return isinstance(o, float) and (o != o or o in (float("inf"), float("-inf")))


def to_real(o):
    """-> (z3 real, nan flag) ; o finite or NaN"""
    o = _norm(o)
    if isinstance(o, SymReal):
        return o.e, o.nan
    if isinstance(o, SymInt):
        return z3.ToReal(o.e), False
    if isinstance(o, float) and o != o:
        return z3.RealVal(0), True
    if _nonfinite(o):
        raise Unsupported("infinite operand")
    return _rat(o), False


def mk_real(e, nan=False):
    if nan is True:
        return float("nan")
    if not isinstance(nan, bool):
        if z3.is_true(nan):
            return float("nan")
        if z3.is_false(nan):
            nan = False
    return SymReal(e, nan)


class SymReal(Sym):
    __slots__ = ("e", "nan")

    def __init__(self, e, nan=False):
        self.e = e
        self.nan = nan

    # -- helpers
    def _is_nan(self):
        """decide (fork) whether this is NaN"""
        if self.nan is False:
            return False
        return ctx().decide(self.nan)

    def isnan(self):
        return mk_bool(self.nan)

    def _sign(self):
        c = ctx()
        if c.decide(self.e == 0):
            return 0
        return 1 if c.decide(self.e > 0) else -1

    def _arith(self, o, fn, rev=False):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        oe, on = to_real(o)
        a, b = (oe, self.e) if rev else (self.e, oe)
        return mk_real(fn(a, b), b_or(self.nan, on))

    def __add__(self, o):
        if _isnum(o) and _nonfinite(_norm(o)):
            return float("nan") if self._is_nan() else _norm(o)
        return self._arith(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if _isnum(o) and _nonfinite(_norm(o)):
            return float("nan") if self._is_nan() else -_norm(o)
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _isnum(o) and _nonfinite(_norm(o)):
            return float("nan") if self._is_nan() else _norm(o)
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if _isnum(o):
            o = _norm(o)
            if _nonfinite(o):
                if o != o or self._is_nan():
                    return float("nan")
                s = self._sign()
                return float("nan") if s == 0 else o * s
            if not isinstance(o, Sym) and o == 1:
                return self
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(self, _norm(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(_norm(o), self)

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(self, _norm(o), floor=True)

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(_norm(o), self, floor=True)

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_mod(self, _norm(o))

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_mod(_norm(o), self)

    def __pow__(self, k, mod=None):
        return real_pow(self, k)

    def __rpow__(self, b):
        return real_pow(b, self)

    def __neg__(self):
        return SymReal(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def _cmp(self, o, fn, inf):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        if _nonfinite(o):
            if o != o:
                return False
            return mk_bool(b_and(inf(o), b_not(self.nan)))
        oe, on = to_real(o)
        return mk_bool(b_and(b_not(self.nan), b_not(on), fn(self.e, oe)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b, lambda i: False)

    def __ne__(self, o):
        if not _isnum(o):
            return NotImplemented
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return 0x5ca1ab1e      # members of sets and dictionaries are told apart by ==

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        return int(real_int(self, "trunc"))

    def __index__(self):
        raise TypeError("symbolic real used as an index")

    def __trunc__(self): return real_int(self, "trunc")
    def __floor__(self): return real_int(self, "floor")
    def __ceil__(self): return real_int(self, "ceil")
    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return real_int(self, "rint")

    def is_integer(self):
        return mk_bool(b_and(b_not(self.nan), z3.IsInt(self.e)))

    # methods used by numpy's object loops
    def sqrt(self): return fn_apply("sqrt", self)
    def exp(self): return fn_apply("exp", self)
    def log(self): return fn_apply("log", self)
    def log2(self): return fn_apply("log2", self)
    def log10(self): return fn_apply("log", self) / fn_apply("log", 10)
    def exp2(self): return fn_apply("exp2", self)
    def cos(self): return fn_apply("cos", self)
    def sin(self): return fn_apply("sin", self)
    def rint(self): return real_int(self, "rint", real=True)
    def floor(self): return real_int(self, "floor", real=True)
    def ceil(self): return real_int(self, "ceil", real=True)
    def trunc(self): return real_int(self, "trunc", real=True)
    def conjugate(self): return self
    def square(self): return self * self
    def item(self): return self

    @property
    def real(self): return self
    @property
    def imag(self): return 0.0

    def __repr__(self):
        if TEXT[0] is not None:
            return text_token(self)
        return "SymReal(%s)" % str(self.e)[:80]

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        if TEXT[0] is not None and spec:
            m = re.fullmatch(r"[+ ]?\d*\.(\d+)([gGeE])", spec)
            if not (m and int(m.group(1)) >= 16 + (m.group(2) in "gG")):
                return text_token(SymReal(ctx().fn_term("fmt" + spec, self.e), self.nan))       # digits may be lost
        return repr(self)


# text files: a symbolic number is written as a token naming it, read_text gives it back
TEXT = [None]


def text_token(x):
    t = "S%dS" % len(TEXT[0])
    TEXT[0][t] = x
    return t


def read_text(t):
    """float() of a text"""
    if isinstance(t, str) and t.strip() in (TEXT[0] or {}):
        return TEXT[0][t.strip()]
    return float(t)


def real_mod(a, b):
    """floating remainder: an uninterpreted function of both arguments, in [0, b) or (b, 0]; exact where b is a constant"""
    if not is_sym(b):
        q = real_div(a, b, floor=True)
        return a - q * b
    (x, nx), (y, ny) = to_real(a), to_real(b)
    c = ctx()
    if not bool(b != 0):
        raise Unsupported("remainder by zero")
    x, y = z3.simplify(x, som=True), z3.simplify(y, som=True)
    f = z3.Function("fmod2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    r = f(x, y)
    c.add(z3.Implies(y > 0, z3.And(r >= 0, r < y)))
    c.add(z3.Implies(y < 0, z3.And(r <= 0, r > y)))
    c.add(z3.Implies(z3.And(x >= 0, x < y), r == x))
    return SymReal(r, b_or(nx, ny))


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _real(self):
        return SymReal(z3.ToReal(self.e), False)

    def isnan(self):
        return False

    def _arith(self, o, fn, rev, name):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        if isinstance(o, (float, Fraction, SymReal)):
            r = self._real()
            return getattr(r, ("__r" if rev else "__") + name + "__")(o)
        oe = o.e if isinstance(o, SymInt) else z3.IntVal(int(o))
        return mk_int(fn(oe, self.e) if rev else fn(self.e, oe))

    def __add__(self, o): return self._arith(o, lambda a, b: a + b, False, "add")
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True, "add")
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b, False, "sub")
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True, "sub")
    def __mul__(self, o): return self._arith(o, lambda a, b: a * b, False, "mul")
    def __rmul__(self, o): return self._arith(o, lambda a, b: a * b, True, "mul")

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(self._real(), _norm(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return real_div(_norm(o), self._real())

    def _divmod(self, a, b):
        """python floor semantics; a, b SymInt or int"""
        if isinstance(b, SymInt):
            b = concretize_int(b)
        b = int(b)
        if b == 0:
            raise ZeroDivisionError("integer division by zero")
        ae = a.e if isinstance(a, SymInt) else z3.IntVal(int(a))
        if b > 0:
            return mk_int(ae / b), mk_int(ae % b)
        q = (-ae) / (-b)
        return mk_int(q), mk_int(ae - q * b)

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        if isinstance(o, (float, SymReal)):
            return real_div(self._real(), o, floor=True)
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._divmod(_norm(o), self)[0]

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        if isinstance(o, (float, SymReal)):
            return self._real() % o
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._divmod(_norm(o), self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k, mod=None):
        if isinstance(k, int) and k >= 0:
            r = 1
            for _ in range(k):
                r = r * self
            return r
        return real_pow(self._real(), k)

    def __rpow__(self, b):
        return real_pow(b, self)

    def __neg__(self): return mk_int(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, fn, name):
        if not _isnum(o):
            return NotImplemented
        o = _norm(o)
        if isinstance(o, (float, Fraction, SymReal)):
            return getattr(self._real(), name)(o)
        oe = o.e if isinstance(o, SymInt) else z3.IntVal(int(o))
        return mk_bool(fn(self.e, oe))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, "__lt__")
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, "__le__")
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, "__gt__")
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "__eq__")

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(concretize_int(self))

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __int__(self):
        return concretize_int(self)
    __index__ = __int__

    def __float__(self):
        return float(concretize_int(self))

    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def rint(self): return self
    def floor(self): return self
    def ceil(self): return self
    def trunc(self): return self
    def conjugate(self): return self
    def item(self): return self
    def sqrt(self): return self._real().sqrt()
    def exp(self): return self._real().exp()
    def log(self): return self._real().log()
    def log2(self): return self._real().log2()
    def exp2(self): return self._real().exp2()
    def cos(self): return self._real().cos()
    def sin(self): return self._real().sin()

    def __repr__(self):
        return "SymInt(%s)" % str(self.e)[:80]

    def __format__(self, spec):
        return format(concretize_int(self), spec)

    def __str__(self):
        return str(concretize_int(self))


def mk_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def concretize_int(s):
    c = ctx()
    e = z3.simplify(s.e)
    if z3.is_int_value(e):
        return e.as_long()
    while True:
        v = c.pick_int(e)
        if c.decide(e == v):
            return v


def real_div(a, b, floor=False):
    an = _norm(a); bn = _norm(b)
    if not isinstance(bn, Sym):
        if bn != bn:
            return float("nan")
        if bn in (float("inf"), float("-inf")):
            if floor:
                raise Unsupported("floor division by inf")
            return float("nan") if isinstance(an, SymReal) and an._is_nan() else 0.0
        if bn == 0:
            if isinstance(an, SymReal):
                if an._is_nan():
                    return float("nan")
                s = an._sign()
            elif isinstance(an, SymInt):
                s = an._real()._sign()
            if floor:
                raise Unsupported("floor division by zero")
            return float("nan") if s == 0 else s * float("inf")
        ae, anan = to_real(an)
        r = mk_real(ae * _rat(Fraction(1) / Fraction(bn) if not isinstance(bn, bool) else Fraction(1)), anan)
    else:
        br = bn if isinstance(bn, SymReal) else bn._real()
        if br._is_nan():
            return float("nan")
        if ctx().decide(br.e == 0):
            if not isinstance(an, Sym):
                if an != an or an == 0:
                    return float("nan")
                return math.copysign(float("inf"), an)
            ar = an if isinstance(an, SymReal) else an._real()
            if ar._is_nan():
                return float("nan")
            s = ar._sign()
            if floor:
                raise Unsupported("floor division by zero")
            return float("nan") if s == 0 else s * float("inf")
        if not isinstance(an, Sym) and _nonfinite(an):
            if an != an:
                return float("nan")
            return an * br._sign()
        ae, anan = to_real(an)
        r = mk_real(ae * ctx().inv_term(br.e) if ctx().inv_div else ae / br.e, anan)
    if floor and isinstance(r, SymReal):
        return real_int(r, "floor", real=True)
    return r


def real_pow(a, k):
    if isinstance(k, Sym):
        kn = _norm(k)
        if isinstance(kn, SymInt):
            return real_pow(a, concretize_int(kn))
        ka = _norm(a)
        # general power: exp(k * log a), a > 0
        if not isinstance(ka, Sym) and ka == 1:
            return 1.0
        return fn_apply("exp", kn * fn_apply("log", ka))
    if not _isnum(k):
        return NotImplemented
    k = _norm(k)
    if isinstance(k, float) and k == int(k) and not _nonfinite(k):
        k = int(k)
    if isinstance(k, int):
        if k == 0:
            return 1.0
        n = abs(k)
        r = a
        for _ in range(n - 1):
            r = r * a
        return r if k > 0 else real_div(1.0, r)
    if not isinstance(a, Sym) and ctx().float_fns:
        return float(a) ** k
    if k == 0.5:
        return fn_apply("sqrt", a)
    if k == -0.5:
        return real_div(1.0, fn_apply("sqrt", a))
    if not isinstance(a, Sym):
        a = SymReal(_rat(a), False)
    ar = a if isinstance(a, SymReal) else a._real()
    if ar._is_nan():
        return float("nan")
    c = ctx()
    if c.decide(ar.e == 0):
        return 0.0 if k > 0 else float("inf")
    if c.decide(ar.e < 0):
        return float("nan")
    f = Fraction(k).limit_denominator(16)
    if abs(f - Fraction(k)) < Fraction(1, 10 ** 12):     # a float exponent i/n is read as that rational
        return mk_real(c.rat_pow(ar.e, f))
    return fn_apply("exp", fn_apply("log", ar) * k)


def _ln2():
    """the constant log 2 used by exp2/log2 (an application of log to 2)"""
    return fn_apply("log", 2)


def fn_apply(name, x):
    """Real function with its contract; equal arguments (proved by the solver) share one result."""
    c = ctx()
    x = _norm(x)
    if isinstance(x, SymInt):
        x = x._real()
    if not isinstance(x, Sym):
        xf = float(x)
        if c.float_fns and not name.startswith("root"):
            import numpy
            with numpy.errstate(all="ignore"):
                return float(getattr(numpy, name)(xf))
        if name == "sqrt":
            r = math.sqrt(xf) if xf >= 0 else float("nan")
            if xf >= 0 and xf == int(xf) and r == int(r) and r * r == xf:
                return r
            if not (xf >= 0) or xf == float("inf"):
                return r
        elif name in ("exp", "exp2"):
            if xf == 0:
                return 1.0
            if name == "exp2" and xf == int(xf) and abs(xf) < 60:
                return 2.0 ** xf
            if _nonfinite(xf):
                return xf if xf != xf or xf > 0 else 0.0
        elif name in ("log", "log2"):
            if xf == 1:
                return 0.0
            if name == "log2" and xf > 0 and 2.0 ** round(math.log2(xf)) == xf:
                return float(round(math.log2(xf)))
            if xf == 0:
                return float("-inf")
            if not xf > 0 or xf == float("inf"):
                return float("nan") if not xf > 0 else xf
        elif name == "cos" and xf == 0:
            return 1.0
        elif name == "sin" and xf == 0:
            return 0.0
        if _nonfinite(xf):
            return float("nan")
        x = SymReal(_rat(x), False)
    nan = x.nan
    e = x.e
    if name in ("sqrt", "log", "log2"):
        neg = e < 0
        if name in ("log", "log2"):
            # log 0 = -inf: forked away so that the finite branch stays finite
            if c.decide(b_and(b_not(nan), e == 0)):
                return float("-inf")
        nan = b_or(nan, neg)
        if nan is not False:
            if c.decide(nan):
                return float("nan")
            nan = False
    r = c.fn_term(name, e)
    return mk_real(r, nan)


def real_int(x, how, real=False):
    """integer-valued functions of a real: trunc, floor, ceil, rint(half to even).  NaN -> error like int(nan)."""
    if isinstance(x, SymInt):
        return x
    c = ctx()
    if x._is_nan():
        if real:
            return float("nan")
        raise ValueError("cannot convert float NaN to integer")
    e = z3.simplify(x.e)
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        k = {"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "rint": round}[how](v)
        return float(k) if real else k
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return SymReal(e) if real else mk_int(e.arg(0))
    k = c.int_term(how, e)
    return SymReal(z3.ToReal(k)) if real else mk_int(k)


def ite(cnd, a, b):
    """if-then-else over mixed values"""
    cnd = as_b(cnd)
    if isinstance(cnd, bool):
        return a if cnd else b
    if a is b:
        return a
    if (isinstance(a, (bool, SymBool)) or _npbool(a)) and (isinstance(b, (bool, SymBool)) or _npbool(b)):
        ae, be = as_b(a), as_b(b)
        return mk_bool(b_or(b_and(cnd, ae), b_and(b_not(cnd), be)))
    if not (_isnum(a) and _isnum(b)):
        return a if ctx().decide(cnd) else b
    an, bn = _norm(a), _norm(b)
    if isinstance(an, (int, SymInt)) and isinstance(bn, (int, SymInt)) and not isinstance(an, bool) and not isinstance(bn, bool):
        ae = an.e if isinstance(an, SymInt) else z3.IntVal(an)
        be = bn.e if isinstance(bn, SymInt) else z3.IntVal(bn)
        return mk_int(z3.If(cnd, ae, be))
    if (_nonfinite(an) and an == an) or (_nonfinite(bn) and bn == bn):      # an infinity: fork
        return a if ctx().decide(cnd) else b
    ae, anan = to_real(an)
    be, bnan = to_real(bn)
    return mk_real(z3.If(cnd, ae, be), b_or(b_and(cnd, anan), b_and(b_not(cnd), bnan)))


def num_max(a, b):
    """numpy maximum (NaN propagates)"""
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        if a != a or b != b:
            return float("nan")
        return a if a >= b else b
    for u, v in ((a, b), (b, a)):
        un = _norm(u)
        if _nonfinite(un):
            if un != un:
                return un
            if isinstance(v, SymReal) and v._is_nan():
                return float("nan")
            return u if un > 0 else v
    an, bn = _norm(a), _norm(b)
    if isinstance(an, (int, SymInt)) and isinstance(bn, (int, SymInt)):
        return ite(an >= bn, an, bn)
    ae, anan = to_real(an); be, bnan = to_real(bn)
    if ctx().fork_minmax and anan is False and bnan is False:
        return an if ctx().decide(ae >= be) else bn
    return mk_real(z3.If(ae >= be, ae, be), b_or(anan, bnan))


def num_min(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        if a != a or b != b:
            return float("nan")
        return a if a <= b else b
    for u, v in ((a, b), (b, a)):
        un = _norm(u)
        if _nonfinite(un):
            if un != un:
                return un
            if isinstance(v, SymReal) and v._is_nan():
                return float("nan")
            return u if un < 0 else v
    an, bn = _norm(a), _norm(b)
    if isinstance(an, (int, SymInt)) and isinstance(bn, (int, SymInt)):
        return ite(an <= bn, an, bn)
    ae, anan = to_real(an); be, bnan = to_real(bn)
    if ctx().fork_minmax and anan is False and bnan is False:
        return an if ctx().decide(ae <= be) else bn
    return mk_real(z3.If(ae <= be, ae, be), b_or(anan, bnan))


# ------------------------------------------------------------------------------------------------ path context
class Stats:
    def __init__(self):
        self.queries = 0          # property queries (pc and not assertion)
        self.trivial = 0          # of those: closed by normalisation before reaching the solver's search
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.checks_concrete = 0  # assertions whose truth did not depend on a symbolic value on that path

    def as_dict(self):
        return dict(self.__dict__)


class PathCtx:
    """State of one path."""

    def __init__(self, explorer, prefix):
        self.x = explorer
        self.stats = explorer.stats
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.aborted = None
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.branch_timeout_ms)
        self.pc = []
        self.fn_cache = {}
        self.inv_div = False        # a / b is a * inv(b) with inv(b) * b = 1, which keeps terms polynomial
        self.inv_cache = {}
        self.fork_minmax = False    # maximum and minimum fork instead of making a conditional term
        self.float_fns = False      # functions of constants are evaluated in double precision
        self.num = {}
        self.fn_list = {}
        self.int_cache = {}
        self.known = {}
        self.keep = []
        self.inputs = {}           # name -> ('real'|'int'|'bool', z3 var, nan var or None, lo, hi)
        self.violations = []
        self.observed = []
        self.reached = {}
        self.fresh_n = 0

    # -- steering exceptions are remembered so that a bare 'except:' cannot lose them
    def abort(self, exc):
        self.aborted = exc
        raise exc

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (base, self.fresh_n), sort)

    def add(self, e):
        if isinstance(e, bool):
            if not e:
                self.abort(PathAbort("false assumption"))
            return
        self.pc.append(e)
        self.solver.add(e)

    def sat(self, *extra):
        self.x.check_time(self)
        self.stats.branch_queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t
        return r

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        if self.aborted is not None:
            raise self.aborted
        sx = cond.hash()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k]
        if self.pos < len(self.prefix):
            val, h = self.prefix[self.pos]
            if h != sx:
                self.abort(Unsupported("re-execution diverged (nondeterministic code)"))
            self.pos += 1
            self.trace.append((val, sx))
        else:
            rt = self.sat(cond)
            rf = self.sat(z3.Not(cond)) if rt != z3.unsat else z3.sat
            if rt == z3.unsat:
                val = False
            elif rf == z3.unsat:
                val = True
            else:
                # unknown counts as feasible; an infeasible path only costs time
                val = True
                self.x.push(self.trace + [(False, sx)])
                self.stats.decisions += 1
            self.pos += 1
            self.trace.append((val, sx))
        self.keep.append(cond)
        self.known[k] = val
        self.add(cond if val else z3.Not(cond))
        return val

    def pick_int(self, e):
        """a value for e feasible on this path (deterministic on re-execution by recording)"""
        if self.pos < len(self.prefix):
            # value recorded as a pseudo decision
            val, h = self.prefix[self.pos]
            if h != "int":
                self.abort(Unsupported("re-execution diverged (int pick)"))
            self.pos += 1
            self.trace.append((val, "int"))
            return val
        r = self.sat()
        if r != z3.sat:
            if r == z3.unsat:
                self.abort(PathAbort("infeasible"))
            self.abort(Unsupported("solver unknown while concretising an integer"))
        m = self.solver.model()
        v = m.eval(e, model_completion=True).as_long()
        if abs(v) > 10 ** 6:
            self.abort(Unsupported("unbounded integer concretisation"))
        self.pos += 1
        self.trace.append((v, "int"))
        return v

    # -- real functions -------------------------------------------------------------------------------
    def _num_var(self, v):
        """a generic value of a variable, consistent with the functions it stands for; None if unknown"""
        k = v.get_id()
        if k in self.num:
            return self.num[k]
        nm = v.decl().name()
        if "!" not in nm:
            lo, hi = None, None
            inp = self.inputs.get(nm)
            if inp is not None and len(inp) == 5:
                lo, hi = inp[3], inp[4]
            lo = -3.0 if lo is None else float(lo)
            hi = lo + 7.0 if hi is None else float(hi)
            x = lo + (hi - lo) * (0.1 + 0.8 * (zlib.crc32(nm.encode()) / 2.0 ** 32))
            if z3.is_int(v):
                x = float(round(x))
        else:
            x = None
            for name, lst in self.fn_list.items():
                for arg, res in lst:
                    if res.get_id() == k:
                        y = self.num_eval(arg)
                        try:
                            if y is not None:
                                x = {"sqrt": lambda t: math.sqrt(t), "exp": math.exp, "log": math.log, "exp2": lambda t: 2.0 ** t,
                                     "log2": math.log2, "cos": math.cos, "sin": math.sin}.get(
                                         name, (lambda t, q=name[4:]: t ** (1.0 / int(q))) if name.startswith("root") else lambda t: None)(y)
                                if isinstance(x, complex):
                                    x = None
                        except (ValueError, OverflowError):
                            x = None
                        break
        self.num[k] = x
        self.keep.append(v)
        return x

    def num_eval(self, e):
        """value of a real term at a generic point; None if it cannot be evaluated"""
        k = e.get_id()
        if k in self.num:
            return self.num[k]
        x = None
        try:
            if z3.is_rational_value(e):
                x = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
            elif z3.is_int_value(e):
                x = float(e.as_long())
            elif z3.is_const(e):
                return self._num_var(e) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (z3.is_real(e) or z3.is_int(e)) else None
            else:
                kind = e.decl().kind()
                ch = [self.num_eval(c) for c in e.children()]
                if None not in ch:
                    if kind == z3.Z3_OP_ADD:
                        x = sum(ch)
                    elif kind == z3.Z3_OP_MUL:
                        x = math.prod(ch)
                    elif kind == z3.Z3_OP_SUB:
                        x = ch[0] - sum(ch[1:])
                    elif kind == z3.Z3_OP_UMINUS:
                        x = -ch[0]
                    elif kind == z3.Z3_OP_DIV:
                        x = ch[0] / ch[1]
                    elif kind == z3.Z3_OP_POWER:
                        x = ch[0] ** ch[1]
                    elif kind == z3.Z3_OP_TO_REAL:
                        x = ch[0]
                    if isinstance(x, complex):
                        x = None
        except (ZeroDivisionError, OverflowError, ValueError):
            x = None
        self.num[k] = x
        self.keep.append(e)
        return x

    def inv_term(self, e):
        """1 / e of a nonzero term as a variable"""
        e = z3.simplify(e, som=True)
        if z3.is_rational_value(e) and e.numerator_as_long() != 0:
            return z3.RealVal(str(1 / Fraction(e.numerator_as_long(), e.denominator_as_long())))
        k = e.get_id()
        if k not in self.inv_cache:
            r = self.fresh("inv", z3.RealSort())
            self.add(r * e == 1)
            self.add(z3.And(z3.Implies(e > 0, r > 0), z3.Implies(e < 0, r < 0)))
            self.inv_cache[k] = (e, r)
            x = self.num_eval(e)
            if x:
                self.num[r.get_id()] = 1 / x
        return self.inv_cache[k][1]

    def derivative(self, e, v):
        """derivative of a term by an input variable; function values are followed through their arguments"""
        res = {}
        for name, lst in self.fn_list.items():
            for arg, r in lst:
                if z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in r.decl().name():
                    res.setdefault(r.get_id(), (name, arg, r))
        for a, r in self.inv_cache.values():
            res[r.get_id()] = ("inv", a, r)
        memo = {}
        one, zero = z3.RealVal(1), z3.RealVal(0)

        def isz(t):
            return z3.is_rational_value(t) and t.numerator_as_long() == 0

        def mul(*ts):
            if any(isz(t) for t in ts):
                return zero
            out = one
            for t in ts:
                out = t if out is one else out * t
            return out

        def add(ts):
            ts = [t for t in ts if not isz(t)]
            return z3.Sum(ts) if ts else zero

        def d(t):
            k = t.get_id()
            if k in memo:
                return memo[k][1]
            if z3.is_rational_value(t) or z3.is_int_value(t):
                r = zero
            elif t.eq(v):
                r = one
            elif z3.is_const(t):
                r = zero
                if k in res:
                    name, arg, rv = res[k]
                    da = d(arg)
                    if not isz(da):
                        if name == "exp":
                            r = mul(rv, da)
                        elif name == "log":
                            r = mul(self.inv_term(arg), da)
                        elif name == "sqrt":
                            r = mul(self.inv_term(2 * rv), da)
                        elif name == "inv":
                            r = mul(z3.RealVal(-1), rv, rv, da)
                        else:
                            raise Unsupported("derivative of " + name)
            else:
                kind, ch = t.decl().kind(), t.children()
                if kind == z3.Z3_OP_ADD:
                    r = add([d(c) for c in ch])
                elif kind == z3.Z3_OP_SUB:
                    r = add([d(ch[0])] + [mul(z3.RealVal(-1), d(c)) for c in ch[1:]])
                elif kind == z3.Z3_OP_UMINUS:
                    r = mul(z3.RealVal(-1), d(ch[0]))
                elif kind == z3.Z3_OP_MUL:
                    r = add([mul(*([d(c)] + ch[:i] + ch[i + 1:])) for i, c in enumerate(ch)])
                elif kind == z3.Z3_OP_DIV:
                    r = add([mul(d(ch[0]), 1 / ch[1]), mul(z3.RealVal(-1), ch[0], 1 / (ch[1] * ch[1]), d(ch[1]))])
                elif kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                    n = ch[1].numerator_as_long()
                    r = mul(*([z3.RealVal(n)] + [ch[0]] * (n - 1) + [d(ch[0])]))
                elif kind == z3.Z3_OP_ITE:
                    a, b = d(ch[1]), d(ch[2])
                    r = zero if isz(a) and isz(b) else z3.If(ch[0], a, b)
                else:
                    raise Unsupported("derivative of " + t.decl().name())
            memo[k] = (t, r)
            return r
        out = d(e)
        self.keep.extend(x for p in memo.values() for x in p)
        return out

    def _prove_equal(self, a, b, timeout=1500):
        d = z3.simplify(a - b, som=True)
        if z3.is_rational_value(d):
            return d.numerator_as_long() == 0
        x, y = self.num_eval(a), self.num_eval(b)
        if x is not None and y is not None and abs(x - y) > 1e-7 * (abs(x) + abs(y)):
            timeout = min(timeout, 60)      # differ in general: equal only if the path condition says so
        s = z3.Solver()
        s.set("timeout", timeout)
        for p in self.pc:
            s.add(p)
        s.add(a != b)
        self.stats.branch_queries += 1
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def fn_term(self, name, e):
        e = z3.simplify(e, som=True)
        key = (name, e.get_id())
        if key in self.fn_cache:
            return self.fn_cache[key]
        if name == "sqrt" and z3.is_rational_value(e) and e.numerator_as_long() >= 0:
            n, m = math.isqrt(e.numerator_as_long()), math.isqrt(e.denominator_as_long())
            if n * n == e.numerator_as_long() and m * m == e.denominator_as_long():
                return z3.RealVal("%d/%d" % (n, m))
        if self.inv_div and ((name == "exp" and z3.is_rational_value(e) and e.numerator_as_long() == 0)):
            return z3.RealVal(1)
        # inverse pairs
        inv = {"log": "exp", "exp": "log", "log2": "exp2", "exp2": "log2"}.get(name)
        pairs = self.fn_list.get(inv, [])
        same = [p for p in pairs if p[1].get_id() == e.get_id()]
        for (arg, res) in same or pairs:
            if same or self._prove_equal(e, res, 500):
                self.fn_cache[key] = arg
                self.keep.append(e)
                return arg
        if name in ("exp", "exp2"):
            r = self._exp_of_logs(e, inv)
            if r is not None:
                self.fn_cache[key] = r
                self.keep.append(e)
                return r
        lst = self.fn_list.setdefault(name, [])
        same = [p for p in lst if z3.is_rational_value(z3.simplify(e - p[0], som=True))]
        for arg, res in same or lst:
            if self._prove_equal(e, arg):
                self.fn_cache[key] = res
                self.keep.append(e)
                return res
        r = self.fresh(name, z3.RealSort())
        if name == "sqrt":
            self.add(z3.And(r >= 0, r * r == e))
        elif name == "exp2":
            self.add(r > 0)
            self.add(z3.And(z3.Implies(e == 0, r == 1), z3.Implies(e > 0, r > 1), z3.Implies(e < 0, r < 1), z3.Implies(e == 1, r == 2)))
        elif name == "log2":
            self.add(z3.And(z3.Implies(e == 1, r == 0), z3.Implies(e > 1, r > 0), z3.Implies(e < 1, r < 0), z3.Implies(e == 2, r == 1)))
        elif name.startswith("root"):
            q = int(name[4:])
            t = r
            for _ in range(q - 1):
                t = t * r
            self.add(z3.And(r >= 0, t == e))
        elif name == "exp":
            self.add(r > 0)
            self.add(z3.And(z3.Implies(e == 0, r == 1), z3.Implies(e > 0, r > 1), z3.Implies(e < 0, r < 1), r >= 1 + e))
        elif name == "log":
            self.add(z3.And(z3.Implies(e == 1, r == 0), z3.Implies(e > 1, r > 0), z3.Implies(e < 1, r < 0), r <= e - 1))
        elif name in ("cos", "sin"):
            self.add(z3.And(r <= 1, r >= -1))
            other = "sin" if name == "cos" else "cos"
            for arg, res in self.fn_list.get(other, []):
                if z3.is_rational_value(z3.simplify(arg - e, som=True)) and self._prove_equal(arg, e, 200):
                    self.add(res * res + r * r == 1)
        else:
            self.abort(Unsupported("function " + name))
        if name in ("exp", "log", "sqrt", "exp2", "log2") or name.startswith("root"):
            for arg, res in lst:
                self.add(z3.And(z3.Implies(e < arg, r < res), z3.Implies(e > arg, r > res), z3.Implies(e == arg, r == res)))
        lst.append((e, r))
        self.fn_cache[key] = r
        self.keep.append(e)
        return r

    def hint(self, name, arg, res):
        """a known value of a function: name(arg) == res (sound only if it is true)"""
        arg = z3.simplify(arg, som=True)
        self.fn_list.setdefault(name, []).append((arg, res))
        self.fn_cache[(name, arg.get_id())] = res
        self.keep.append(arg)

    def rat_pow(self, e, f):
        """e ** (p/q) for e > 0"""
        p, q = f.numerator, f.denominator
        r = self.fn_term("root%d" % q, e) if q > 1 else e
        t = z3.RealVal(1)
        for _ in range(abs(p)):
            t = t * r
        return t if p >= 0 else self.inv_term(t) if self.inv_div else 1 / t

    def _exp_of_logs(self, e, logname):
        """exp(sum c_i log x_i) = prod x_i ** c_i for rational c_i"""
        logs = {}
        for arg, res in self.fn_list.get(logname, []):
            if z3.is_const(res) and res.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                logs[res.get_id()] = arg
        if not logs:
            return None
        terms = e.children() if z3.is_add(e) else [e]
        out = z3.RealVal(1)
        rest, found = [], False
        split = self.inv_div and logname == "log"       # exp(a + c log x) = exp(a) x ** c
        for t in terms:
            c = Fraction(1)
            v = t
            if z3.is_mul(t):
                ch = t.children()
                if len(ch) != 2 or not z3.is_rational_value(ch[0]):
                    if split:
                        rest.append(t)
                        continue
                    return None
                c = Fraction(ch[0].numerator_as_long(), ch[0].denominator_as_long())
                v = ch[1]
            elif z3.is_rational_value(t):
                if logname == "log2" and t.denominator_as_long() == 1:
                    out = out * z3.RealVal(str(Fraction(2) ** t.numerator_as_long()))
                    continue
                if split:
                    rest.append(t)
                    continue
                return None
            if v.get_id() not in logs:
                if split:
                    rest.append(t)
                    continue
                return None
            found = True
            f = c.limit_denominator(16)
            if abs(f - c) > Fraction(1, 10 ** 12):
                return None
            out = out * self.rat_pow(logs[v.get_id()], f)
        if rest:
            if not found:
                return None
            out = out * self.fn_term("exp", z3.Sum(rest))
        return out

    def int_term(self, how, e):
        e = z3.simplify(e, som=True)
        key = (how, e.get_id())
        if key in self.int_cache:
            return self.int_cache[key]
        lst = self.fn_list.setdefault("i" + how, [])
        for arg, res in lst:
            if self._prove_equal(e, arg):
                self.int_cache[key] = res
                self.keep.append(e)
                return res
        k = self.fresh(how, z3.IntSort())
        kr = z3.ToReal(k)
        if how == "floor":
            self.add(z3.And(kr <= e, e < kr + 1))
        elif how == "ceil":
            self.add(z3.And(kr >= e, e > kr - 1))
        elif how == "trunc":
            self.add(z3.If(e >= 0, z3.And(kr <= e, e < kr + 1), z3.And(kr >= e, e > kr - 1)))
        else:
            half = z3.Q(1, 2)
            self.add(z3.And(kr - half <= e, e <= kr + half))
            self.add(z3.Implies(z3.Or(kr - half == e, e == kr + half), k % 2 == 0))
        for arg, res in lst:
            self.add(z3.And(z3.Implies(e <= arg, k <= res), z3.Implies(e >= arg, k >= res)))
        lst.append((e, k))
        self.int_cache[key] = k
        self.keep.append(e)
        return k


class Explorer:
    """Explores all paths of harness(I) within budgets."""

    def __init__(self, run, max_paths=20000, time_s=120.0, query_timeout_ms=20000, branch_timeout_ms=4000,
                 max_violations=4):
        self.run = run
        self.max_paths = max_paths
        self.deadline = time.time() + time_s
        self.query_timeout_ms = query_timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.max_violations = max_violations
        self.stats = Stats()
        self.work = [[]]
        self.violations = []
        self.unsupported = []
        self.path_samples = []
        self.reached = {}
        self.exhausted = False
        self.unknown_labels = {}
        self.errors = []
        self.partial_inputs = []

    def push(self, prefix):
        self.work.append(prefix)

    def check_time(self, c):
        if time.time() > self.deadline:
            c.abort(Budget("time budget"))

    def explore(self, make_inputs, want_samples=6):
        global CTX
        while self.work:
            if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                break
            if len(self.violations) >= self.max_violations:
                break
            prefix = self.work.pop()
            c = PathCtx(self, prefix)
            CTX = c
            I = make_inputs(c)
            self.stats.paths += 1
            try:
                try:
                    self.run(I)
                finally:
                    I.cleanup()
                if c.aborted is not None:
                    raise c.aborted
                self._finish(c, I, want_samples)
            except PathAbort:
                pass
            except Budget:
                self.work.append(prefix)
                CTX = None
                break
            except Unsupported as e:
                self.unsupported.append("%s @ %s" % (e, _where(e)))
                self._partial(c, I)
                if len(self.unsupported) > 25:
                    CTX = None
                    break
            except Exception as e:      # the code (or harness) raised on this path
                if c.aborted is not None and not isinstance(c.aborted, Exception):
                    a = c.aborted
                    if isinstance(a, Unsupported):
                        self.unsupported.append(str(a))
                        self._partial(c, I)
                    elif isinstance(a, Budget):
                        self.work.append(prefix)
                        CTX = None
                        break
                else:
                    I.record_exception(e)
            finally:
                CTX = None
            self.violations.extend(c.violations)
            for k, v in c.reached.items():
                self.reached[k] = self.reached.get(k, 0) + v
        self.exhausted = not self.work
        return self

    def _partial(self, c, I):
        """a path that cannot be encoded to its end: keep a model of its condition so that it is at least replayed"""
        if len(self.partial_inputs) >= 8:
            return
        try:
            m = I.model()
            if m is not None:
                self.partial_inputs.append(I.assignment(m))
        except BaseException:
            pass

    def _finish(self, c, I, want):
        if len(self.path_samples) < want or (self.stats.paths % 37 == 0 and len(self.path_samples) < 2 * want):
            m = I.model()
            if m is not None:
                obs = [(l, I.eval_model(m, v)) for l, v in c.observed]
                self.path_samples.append(dict(inputs=I.assignment(m), observed=obs))


def _where(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/symx/" not in fn and "/site-packages/" not in fn:
            last = "%s:%d" % (fn, tb.tb_lineno)
        tb = tb.tb_next
    return last
