"""Environment of the density fits, shared by C21 and C28: quadrature, minimiser and moment functions under the control of the harness."""
import numpy as np
from . import common as cm


class Moments:
    """any moment functions: the values at the points used are symbolic, the first moment is one"""

    def __init__(self, I, size, domain, bound, values=None):
        self.I, self.size, self.domain, self.bound, self.values = I, size, domain, bound, values
        self.rows = {}

    def row(self, x):
        k = round(float(x), 12)
        if k not in self.rows:
            n = len(self.rows)
            if self.values:
                self.rows[k] = [1.0] + [self.values[(n * (self.size - 1) + i) % len(self.values)] for i in range(self.size - 1)]
                return self.rows[k]
            self.rows[k] = [1.0] + [self.I.real("m%d_%d" % (n, i), -self.bound, self.bound) for i in range(1, self.size)]
        return self.rows[k]

    def eval_all(self, x, size=None):
        size = self.size if size is None else size
        xs = np.atleast_1d(np.asarray(x)).view(np.ndarray).ravel()
        return self.I.array(np.array([self.row(v)[:size] for v in xs], dtype=object))

    def eval(self, i, x):
        return self.eval_all(x)[:, i]


class Quadrature:
    """composite rule of given intervals with arbitrary positive weights; scipy's quad is the same rule"""

    def __init__(self, I, cuts, pts, symbolic_w=True):
        import scipy.integrate
        self.I, self.cuts, self.pts = I, cuts, np.array(pts)
        n = len(pts)
        self.w = I.reals("w", (n,), 0.01, 2) if symbolic_w else I.array(np.array([2.0 / n] * n, dtype=object))
        I.stub("numpy.polynomial.legendre.leggauss", self.leggauss)
        if not I.symbolic:
            I.patch(np.polynomial.legendre, "leggauss", self.leggauss)
        I.patch(scipy.integrate, "quad", self.quad)

    def leggauss(self, deg):
        return self.pts.copy(), self.I.array(np.array(list(self.w), dtype=object))

    def nodes(self):
        for a, b in zip(self.cuts, self.cuts[1:]):
            for p, w in zip(self.pts, self.w):
                yield (p + 1) / 2 * (b - a) + a, w * ((b - a) / 2)

    def integral(self, fn):
        s = 0.0
        for x, w in self.nodes():
            v = fn(x)
            if isinstance(v, np.ndarray):
                v = v.ravel().view(np.ndarray)[0]
            s = s + w * v
        return s

    def quad(self, fn, a, b, args=(), full_output=0, epsabs=1e-8, **k):
        assert abs(a - self.cuts[0]) < 1e-12 and abs(b - self.cuts[-1]) < 1e-12
        v = self.integral(fn)
        if not full_output:
            return v, 0.0
        K = len(self.cuts) - 1
        return v, 0.0, dict(last=K, alist=np.array(list(self.cuts[:-1]) + [0.0]), blist=np.array(list(self.cuts[1:]) + [0.0]))


def minimiser(I, body):
    """scipy.optimize.minimize replaced: body(fun, jac, hess, x0, tol) -> result"""
    import scipy.optimize

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, tol=None, options=None, **k):
        return body(fun, jac, hess, x0, options or {})
    I.patch(scipy.optimize, "minimize", minimize)


class Result(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)
    __setattr__ = dict.__setitem__


def data(I, size, smin, smax, mean_bound, s0=None, sgs=None):
    """moment data (means, variances) with symbolic means and deviations"""
    mu = [1.0] + [I.real("mu%d" % i, -mean_bound, mean_bound) for i in range(1, size)]
    sg = []
    for i in range(size):
        if sgs is not None:
            sg.append(sgs[i])
            continue
        if i == 0 and s0 is not None:
            sg.append(s0)
            continue
        s = I.real("sg%d" % i, smin, smax)
        I.hint("sqrt", s * s, s)
        sg.append(s)
    return mu, sg, I.array(np.array([[mu[i], sg[i] * sg[i]] for i in range(size)], dtype=object))


def lincomb(I, row, lam, sg):
    t = 0.0
    for i in range(len(row)):
        t = t + row[i] * lam[i] / sg[i]
    return t
