"""C26: orthogonalised moments have identity covariance and a constant first moment."""
import itertools
import numpy as np
from . import common as cm

MODULES = ["mlmc.tool.simple_distribution", "mlmc.moments"]
META = dict(
    bounds="covariance matrices of 2 and 3 moments: any means (|.| <= 3) and any eigenvalues of the centred covariance in [1e-4, 100], eigenvectors turned by one of 4 angles; any magnitude threshold in (1e-9, 1) and any number of eigenvalues under it; moment functions with any values",
    outside="the threshold found from the slope of the eigenvalues (tol=None: polynomial fits); indefinite matrices; more moments; eigenvalues equal to the threshold",
    stubs=["numpy.linalg.eigh: the exact decomposition, eigenvalues in increasing order, any sign of the vectors", "scipy.linalg.rq: any upper trapezoidal R with R Q = A and Q orthogonal (used through R^T C R = A^T C A up to rotation and R R^T = A A^T)"],
    assumptions=["the covariance of the constant moment is one"], limit_s=dict(quick=300, thorough=1500))


class Mom:
    def __init__(self, I, size):
        self.I, self.size, self.domain = I, size, (0.0, 1.0)
        self.vals = I.reals("phi", (1, size - 1), -3, 3)

    def _eval_all(self, value, size):
        return self.I.array(np.array([[1.0] + [cm.el(self.vals, 0, i) for i in range(self.size - 1)]], dtype=object))


def run(I, n, angle, order, cut, signs):
    """order: positions of eigenvalues of the centred part in increasing order; cut: how many of them are under the threshold"""
    import scipy.linalg
    from mlmc.tool import simple_distribution as sd
    I.inverse_division()
    k = n - 1
    mean = [I.real("mean%d" % i, -3, 3) for i in range(k)]
    g = [I.real("g%d" % i, 0.01, 10) for i in range(k)]         # roots of the eigenvalues
    tol = I.real("tol", 1e-9, 1)
    c, s = [I.ratio(x, angle[2]) for x in angle[:2]]
    V = [[1.0]] if k == 1 else [[c, -s], [s, c]]
    lam = [x * x for x in g]
    for i in range(k):
        I.hint("sqrt", lam[i], g[i])
    C = [[sum((V[i][q] * lam[q] * V[j][q] for q in range(k)), 0.0) for j in range(k)] for i in range(k)]
    full = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            full[i][j] = (1.0 if j == 0 else mean[j - 1]) if i == 0 else mean[i - 1] if j == 0 else C[i - 1][j - 1] + mean[i - 1] * mean[j - 1]
    cov = I.array(np.array(full, dtype=object))
    # eigenvalues in the order of this case; index k stands for the constant moment
    ev = [lam[i] if i < k else 1.0 for i in order]
    vec = [[1.0] + [0.0] * k if i == k else [0.0] + [V[r][i] for r in range(k)] for i in order]
    for a, b in zip(ev, ev[1:]):
        I.assume(a <= b)
    for i, e in enumerate(ev):
        I.assume(e < tol if i < cut else e > tol)
    if not I.symbolic:
        I.assume(all(abs(e - tol) > 1e-9 for e in ev))

    def eigh(A, *x, **kw):
        for i in range(n):
            for j in range(n):
                want = 1.0 if i == j == 0 else 0.0 if i == 0 or j == 0 else C[i - 1][j - 1]
                I.check_eq(cm.el(A, i, j), want, "decomposition is that of the centred covariance")
        return I.array(np.array(ev, dtype=object)), I.array(np.array([[signs[q] * vec[q][r] for q in range(n)] for r in range(n)], dtype=object))
    I.stub("numpy.linalg.eigh", eigh)
    m = n - cut

    def rq(A, *x, **kw):
        I.check(A.shape == (n, m), "one column per eigenvalue kept")
        A = np.asarray(A).view(np.ndarray)
        G = (A.T @ np.array(full, dtype=object)) @ A
        for i in range(m):
            for j in range(m):
                I.check_eq(G[i, j], 1.0 if i == j else 0.0, "whitening of the covariance")
        one = A @ (A.T @ np.array([r[0] for r in full], dtype=object))
        for i in range(n):
            I.check_eq(one[i], 1.0 if i == 0 else 0.0, "the constant stays among the combinations")
        raise Done
    if I.symbolic:
        I.patch(scipy.linalg, "rq", rq)
    mom = Mom(I, n)
    try:
        o, info = sd.construct_ortogonal_moments(mom, cov, tol)
    except Done:
        return
    judge(I, mom, o, info, full, n, m, tol=1e-4)
    for i in range(n):
        I.check_eq(cm.el(info[0], i), ev[i], "eigenvalues reported", tol=1e-7)


class Done(Exception):
    pass


def judge(I, mom, o, info, full, n, m, tol):
    L = info[2]
    I.check(o.size == m and L.shape == (m, n), "one moment per eigenvalue kept")
    I.check(info[1] == n - m, "number of eigenvalues cut")
    for j in range(n):
        I.check_eq(cm.el(L, 0, j), 1.0 if j == 0 else 0.0, "the first moment is the constant one", tol=tol)
    Lo = np.array([[cm.el(L, i, j) for j in range(n)] for i in range(m)], dtype=object)
    G = (Lo @ np.array(full, dtype=object)) @ Lo.T
    for i in range(m):
        for j in range(m):
            I.check_eq(G[i, j], 1.0 if i == j else 0.0, "covariance of the new moments is the identity", tol=tol)
    v = o.eval_all(0.5).view(np.ndarray).ravel()
    want = Lo @ np.array([1.0] + [cm.el(mom.vals, 0, i) for i in range(n - 1)], dtype=object)
    for i in range(m):
        I.check_eq(v[i], want[i], "moments are the combinations of the original ones", tol=1e-6)


def run_rq(I, n, m, rot, free, signs):
    """The part after the factorisation. The whitened basis is R^T = T L', the rows of L' are the constant and combinations
    that are orthonormal, T is a rotation of the first two rows (possible in a trapezoidal R only when the entry `free` is zero)"""
    import scipy.linalg
    from mlmc.tool import simple_distribution as sd
    I.inverse_division()
    c, s = [I.ratio(x, rot[2]) for x in rot[:2]]
    B = [[1.0] + [0.0] * (n - 1)]
    Binv = [[1.0] + [0.0] * (n - 1)]
    # lower triangular basis, its inverse by forward substitution
    for i in range(1, n):
        row = [I.real("b%d_%d" % (i, j), -2, 2) for j in range(i)]
        d = I.real("d%d" % i, 0.5, 2)
        B.append(row + [d] + [0.0] * (n - 1 - i))
        inv = [-sum((row[k] * Binv[k][j] for k in range(j, i)), 0.0) / d for j in range(i)]
        Binv.append(inv + [1.0 / d] + [0.0] * (n - 1 - i))
    if m < n:
        # the basis kept: permuted columns so that rows of the kept part may reach any of the moments
        p = [0] + [1 + (j + free) % (n - 1) for j in range(n - 1)]
        B = [[r[p[j]] for j in range(n)] for r in B]
        Binv = [[Binv[p[i]][j] for j in range(n)] for i in range(n)]
        if rot[1] == 0:
            h = I.real("h", -2, 2)
            B = [[r[j] + (h * r[1] if j == 2 else 0.0) for j in range(n)] for r in B]
            Binv = [[Binv[i][j] - (h * Binv[2][j] if i == 1 and n > 2 else 0.0) for j in range(n)] for i in range(n)]
    full = [[sum((Binv[i][k] * Binv[j][k] for k in range(m)), 0.0) for j in range(n)] for i in range(n)]
    cov = I.array(np.array(full, dtype=object))
    L = [list(r) for r in B[:m]]
    if m > 1:
        L[0], L[1] = [c * x + s * y for x, y in zip(L[0], L[1])], [c * y - s * x for x, y in zip(L[0], L[1])]
    L = [[signs[i] * x for x in r] for i, r in enumerate(L)]
    ev = [I.real("e%d" % i, 0, 100) for i in range(n)]
    tol = 1e-7
    if I.symbolic:
        for a, b in zip(ev, ev[1:]):
            I.assume(a <= b)
        for i in range(n):
            I.assume(ev[i] < tol if i < n - m else ev[i] > tol)
        for i in range(n - m, n):
            I.hint("sqrt", ev[i], I.real("root%d" % i, 1e-4, 10))
        I.stub("numpy.linalg.eigh", lambda A, *x, **k: (I.array(np.array(ev, dtype=object)), I.array(np.array(np.eye(n), dtype=object))))

        def rq(A, *x, **k):
            R = np.array(L, dtype=object).T
            for i in range(n):
                for j in range(m):
                    if i - j > n - m:
                        assert not (isinstance(R[i, j], float) and R[i, j] != 0)
                        I.assume(R[i, j] == 0.0)
            return I.array(R), None
        I.patch(scipy.linalg, "rq", rq)
    mom = Mom(I, n)
    o, info = sd.construct_ortogonal_moments(mom, cov, tol)
    judge(I, mom, o, info, full, n, m, tol=1e-4)


ROT = [(1, 0, 1), (3, 4, 5), (0, 1, 1), (-7, 24, 25)]
ANG = [(1, 0, 1), (3, 4, 5), (0, 1, 1), (-7, 24, 25)]


def cases(tier):
    cs = []
    T = tier == "thorough"
    for n in (2, 3):
        for angle in (ANG if n == 3 else ANG[:1]):
            for order in itertools.permutations(range(n)):
                for cut in range(n):
                    if n - 1 in order[:cut]:
                        continue
                    sg = (1, -1, 1)[:n] if cut % 2 else (-1, -1, 1)[:n]
                    if not T and n == 3 and order[0] > order[1] and order[0] != 2 and angle != ANG[1]:
                        continue
                    cs.append(dict(name="n%d_%d_%s_cut%d" % (n, angle[0], "".join(map(str, order)), cut), run=run, params=dict(n=n, angle=angle, order=list(order), cut=cut, signs=sg), time_s=60 if not T else 300))
    for n in (2, 3, 4) if T else (2, 3):
        for m in range(1, n + 1):
            rots = ROT if 1 < m < n else ROT[:1]
            for r, rot in enumerate(rots):
                for sg in itertools.product((1, -1), repeat=m):
                    for free in (range(n - 1) if m < n and not r else (0,)):
                        cs.append(dict(name="rq%d%d_r%d_f%d_%s" % (n, m, r, free, "".join("+-"[x < 0] for x in sg)), run=run_rq, params=dict(n=n, m=m, rot=rot, free=free, signs=list(sg)), time_s=60 if not T else 300))
    return cs
