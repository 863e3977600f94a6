"""Symbolic inputs and checks."""
import time, math, json
from fractions import Fraction
import numpy as np
from . import core, npx
from .core import (z3, SymReal, SymInt, SymBool, Sym, is_sym, mk_bool, as_b, b_and, b_or, b_not, Unsupported, PathAbort)
from .inputs import BaseI

MARGINS = (Fraction(1, 16), None)


class SymI(BaseI):
    symbolic = True

    def __init__(self, c, stubs):
        super().__init__()
        self.c = c
        self.stubs = stubs
        self.np = npx.np_proxy(stubs)
        self._stub_names = []

    def cleanup(self):
        core.TEXT[0] = None
        for n in self._stub_names:
            self.stubs.pop(n, None)
        self._stub_names = []
        super().cleanup()

    def float_fns(self):
        self.c.float_fns = True

    def fork_minmax(self):
        self.c.fork_minmax = True

    def text_files(self, *modules):
        """numbers cross text files as tokens"""
        core.TEXT[0] = {}
        for m in modules:
            self.patch(m, "float", core.read_text)

    def inverse_division(self):
        self.c.inv_div = True

    def derivative(self, f, x, at=None):
        """derivative of the value f by the input x (symbolic mode only)"""
        return SymReal(self.c.derivative(core.to_real(f)[0], x.e))

    def stub(self, path, fn):
        self.stubs[path] = fn
        self._stub_names.append(path)

    # ---- inputs
    def real(self, name, lo=None, hi=None, nan=False):
        v = z3.Real(name)
        nv = z3.Bool(name + "?nan") if nan else None
        self.c.inputs[name] = ("real", v, nv, lo, hi)
        if lo is not None:
            self.c.add(v >= core._rat(lo))
        if hi is not None:
            self.c.add(v <= core._rat(hi))
        return SymReal(v, nv if nan else False)

    def data(self, name):
        v = z3.Real(name)
        self.c.inputs[name] = ("data", v, None, None, None)
        return SymReal(v, False)

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.c.inputs[name] = ("int", v, None, lo, hi)
        self.c.add(z3.And(v >= int(lo), v <= int(hi)))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.c.inputs[name] = ("bool", v, None, None, None)
        return SymBool(v)

    def conc(self, x):
        if isinstance(x, SymInt):
            return core.concretize_int(x)
        if isinstance(x, SymBool):
            return bool(x)
        return x

    def array(self, a):
        return npx.sarr(npx.obj(np.asarray(a, dtype=object)))

    def ratio(self, p, q):
        return core.SymReal(core.z3.RealVal("%d/%d" % (p, q)))

    def scalar(self, x):
        if isinstance(x, np.ndarray):
            return x.view(np.ndarray).ravel()[0]
        return x

    def assume(self, cond):
        e = as_b(cond)
        self.c.add(e)
        if not isinstance(e, bool):
            if self.c.sat() == z3.unsat:
                self.c.abort(PathAbort("assumption infeasible"))

    def is_nan(self, x):
        if isinstance(x, Sym):
            return x.isnan()
        return x != x

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def both(self, *cs):
        return mk_bool(b_and(*[as_b(c) for c in cs]))

    def any(self, *cs):
        return mk_bool(b_or(*[as_b(c) for c in cs]))

    def fn(self, name, x):
        return core.fn_apply(name, x)

    def hint(self, name, arg, res):
        self.c.hint(name, core.to_real(arg)[0], core.to_real(res)[0])

    def rint(self, x):
        return core.real_int(x, "rint") if isinstance(x, Sym) else round(x)

    def trunc(self, x):
        return core.real_int(x, "trunc") if isinstance(x, Sym) else int(x)

    def ceil(self, x):
        return core.real_int(x, "ceil") if isinstance(x, Sym) else math.ceil(x)

    # ---- checks
    def note(self, label):
        self.c.reached[label] = self.c.reached.get(label, 0) + 1

    def observe(self, label, val):
        self.c.observed.append((label, val))

    def check(self, cond, label, robust=True):
        self.note(label)
        core.ctx()
        if isinstance(cond, np.ndarray):
            cond = np.all(cond)
        e = as_b(cond)
        self._assert(e, label, None)

    def check_same(self, a, b, label):
        self.check_eq(a, b, label)

    def check_eq(self, a, b, label, tol=None):
        self.note(label)
        core.ctx()
        A, B = _flat(a), _flat(b)
        if A is None or B is None or A[0] != B[0]:
            self._violate(label, "shape %s != %s" % (A and A[0], B and B[0]), [])
            return
        conds = []
        diffs = []
        for i, (x, y) in enumerate(zip(A[1], B[1])):
            e, d = _eq(self.c, x, y)
            if e is True:
                if is_sym(x) or is_sym(y):
                    self.c.stats.queries += 1
                    self.c.stats.trivial += 1
                    self.c.stats.unsat += 1
                continue
            if e is False:
                self._violate(label, "element %d: %r vs %r" % (i, x, y), [])
                return
            conds.append(e)
            diffs.append(d)
        if not conds:
            self.c.stats.checks_concrete += 1
            return
        for e, d in zip(conds, diffs):
            self._assert(e, label, d)

    def _assert(self, e, label, diff):
        st = self.c.stats
        if isinstance(e, bool):
            if e:
                st.checks_concrete += 1
                return
            self._violate(label, "false on this path", [])
            return
        st.queries += 1
        e = z3.simplify(e, som=True)
        if z3.is_true(e):
            st.trivial += 1
            st.unsat += 1
            return
        r, s = self._query([z3.Not(e)], self.c.x.query_timeout_ms)
        if r == z3.unsat:
            st.unsat += 1
        elif r == z3.sat:
            st.sat += 1
            neg = [z3.Not(e)]
            self._violate(label, "assertion can fail", neg, diff, s)
        else:
            s = self._search(z3.Not(e), diff, label)
            if s is not None:
                st.sat += 1
                self._violate(label, "assertion can fail", [z3.Not(e)], diff, s)
                return
            st.unknown += 1
            self.c.x.unknown_labels[label] = self.c.x.unknown_labels.get(label, 0) + 1

    def _search(self, neg, diff, label):
        """the solver gave up on the full query: look for a counterexample with most real inputs fixed"""
        import random
        x = self.c.x
        tries = x.__dict__.setdefault("search_tries", {})
        if tries.get(label, 0) >= 2 or sum(tries.values()) >= 6:
            return None
        tries[label] = tries.get(label, 0) + 1
        reals = [(v, nv, lo, hi) for k, v, nv, lo, hi in self.c.inputs.values() if k == "real"]
        if not reals:
            return None
        rnd = random.Random(len(reals))
        pool = ["1/4", "1/2", "1", "3/2", "2", "3", "5", "8", "20", "1/10", "100", "0", "-1", "-2", "-1/2"]
        end = time.time() + 15
        k = 0
        while time.time() < end and k < 60:
            k += 1
            free = set(rnd.sample(range(len(reals)), min(len(reals), 1 + (k % 3 == 0))))
            fix = []
            for i, (v, nv, lo, hi) in enumerate(reals):
                if i in free:
                    continue
                for _ in range(20):
                    c = z3.RealVal(rnd.choice(pool))
                    f = c.as_fraction()
                    if (lo is None or f >= lo) and (hi is None or f <= hi):
                        fix.append(v == c)
                        break
            extra = [neg] + fix
            if diff is not None and k % 2:
                m = z3.RealVal("1/16")
                extra.append(z3.Or(diff >= m, diff <= -m))
            r, s = self._query(extra, 700)
            if r == z3.sat:
                return s
        return None

    def _query(self, extra, timeout):
        """fresh, non-incremental query pc & extra"""
        self.c.x.check_time(self.c)
        left = max(0.5, self.c.x.deadline - time.time())
        t = time.time()
        s = z3.Solver()
        s.set("timeout", int(min(timeout, left * 1000)))
        s.add(*self.c.pc)
        s.add(*extra)
        r = s.check()
        self.c.stats.solver_s += time.time() - t
        return r, s

    def _violate(self, label, msg, neg, diff=None, solver=None):
        ms = []
        for nice in self._nice(neg, diff):
            r, s = self._query(neg + nice, 4000)
            if r == z3.sat:
                ms.append(self.assignment(s.model()))
                break
        if solver is not None:
            ms.append(self.assignment(solver.model()))
        elif not ms:
            r, s = self._query(neg, 10000)
            if r == z3.sat:
                ms.append(self.assignment(s.model()))
            elif r == z3.unsat:
                self.c.abort(PathAbort("infeasible path"))
        if not ms:
            self.c.x.unknown_labels[label] = self.c.x.unknown_labels.get(label, 0) + 1
            return
        self.c.violations.append(dict(label=label, msg=msg, inputs=ms[:2]))

    def _nice(self, neg, diff):
        """optional extra constraints making the model robust for replay in floating point"""
        reals = [(v, nv) for k, v, nv, lo, hi in self.c.inputs.values() if k == "real"]
        bound = [z3.And(v <= 64, v >= -64) for v, _ in reals]
        distinct = []
        if 1 < len(reals) <= 16:
            distinct = [z3.Distinct(*[v for v, _ in reals])]
        out = []
        if diff is not None:
            m = z3.RealVal("1/16")
            margin = [z3.Or(diff >= m, diff <= -m)]
            out.append(bound + distinct + margin)
            out.append(margin)
        out.append(bound + distinct)
        return out

    def record_exception(self, e):
        tb = e.__traceback__
        where = core._where(e)
        self._violate("exception", "%s: %s @ %s" % (type(e).__name__, str(e)[:200], where), [])

    # ---- models
    def model(self, extra=()):
        for nice in ([self._nice([], None)[-1]] + [[]]):
            r, s = self._query(list(extra) + nice, 3000)
            if r == z3.sat:
                return s.model()
        return None

    def assignment(self, m):
        out = {}
        for name, (kind, v, nv, lo, hi) in self.c.inputs.items():
            if kind == "data":
                continue
            if kind == "bool":
                out[name] = bool(z3.is_true(m.eval(v, model_completion=True)))
            elif kind == "int":
                out[name] = m.eval(v, model_completion=True).as_long()
            else:
                if nv is not None and z3.is_true(m.eval(nv, model_completion=True)):
                    out[name] = "nan"
                    continue
                x = m.eval(v, model_completion=True)
                out[name] = _ratstr(x)
        return out

    def eval_model(self, m, v):
        def one(x):
            if isinstance(x, SymBool):
                return bool(z3.is_true(m.eval(x.e, model_completion=True)))
            if isinstance(x, SymInt):
                return m.eval(x.e, model_completion=True).as_long()
            if isinstance(x, SymReal):
                if x.nan is not False and z3.is_true(m.eval(x.nan, model_completion=True)):
                    return float("nan")
                r = m.eval(x.e, model_completion=True)
                try:
                    return float(Fraction(_ratstr(r)))
                except Exception:
                    return None
            if isinstance(x, np.generic):
                return x.item()
            return x
        if isinstance(v, np.ndarray):
            return [one(x) for x in v.view(np.ndarray).ravel()] if v.dtype == object else v.ravel().tolist()
        if isinstance(v, (list, tuple)):
            return [self.eval_model(m, x) for x in v]
        return one(v)


def _ratstr(x):
    if z3.is_rational_value(x):
        return "%d/%d" % (x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return "%d/%d" % (a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % x)


def _flat(a):
    try:
        if is_sym(a):
            return (), [a]
        if isinstance(a, np.ndarray):
            return a.shape, list(npx.obj(a).ravel())
        o = npx.obj(a)
        return o.shape, list(o.ravel())
    except ValueError:
        return None


def _eq(c, x, y):
    """equality with NaN = NaN -> (bool|z3 Bool, difference term or None)"""
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(y, np.generic):
        y = y.item()
    if not is_sym(x) and not is_sym(y):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return False, None
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return x == y, None
        x, y = Fraction(x) if math.isfinite(x) else x, Fraction(y) if math.isfinite(y) else y
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            # two concrete numbers: floating-point rounding of constants is tolerated
            return abs(x - y) <= Fraction(1, 10 ** 9) * max(1, abs(x), abs(y)), None
        if isinstance(x, Fraction) or isinstance(y, Fraction):
            return False, None
        return (x != x and y != y) or x == y, None
    if isinstance(x, SymBool) or isinstance(y, SymBool):
        if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
            r = mk_bool(as_b(x)) == mk_bool(as_b(y)) if not isinstance(x, bool) else (y == x)
            return as_b(r), None
    for u, v in ((x, y), (y, x)):
        if isinstance(u, float) and (u in (float("inf"), float("-inf"))):
            return False, None
    if not (core._isnum(x) and core._isnum(y)):
        return False, None
    if isinstance(x, SymInt) and isinstance(y, (int, SymInt)) or isinstance(y, SymInt) and isinstance(x, (int, SymInt)):
        return as_b(x == y), None
    xe, xn = core.to_real(x)
    ye, yn = core.to_real(y)
    d = z3.simplify(xe - ye, som=True)
    if z3.is_rational_value(d):
        v = Fraction(d.numerator_as_long(), d.denominator_as_long())
        same = abs(v) <= Fraction(1, 10 ** 9)     # rounding of concrete constants
    else:
        same = d == 0
    if xn is False and yn is False:
        return same, (None if isinstance(same, bool) else d)
    both = b_and(xn, yn)
    none = b_and(b_not(xn), b_not(yn), same)
    return b_or(both, none), None
