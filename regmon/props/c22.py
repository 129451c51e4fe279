"""C22: the temporal Ising model returns the optimum of its penalised pseudo-likelihood."""
import numpy as np

from ..core import internal, not_converged, quiet
from ..refsolve import Problem
from ..solvers import PENS, kernel_matrix, learned_kernel, similarity_of
from .c21 import binary, full, ising_gradient

RULE = ("(learned: the similarity estimator without a kernel, judged at the kernel of its own "
        "similarity) random sequences of 1..3 binary data sets (-1/1 or 0/1) with 2..4 variables, random symmetric "
        "kernels (with unrelated pairs), RBF kernels on the labels or none, every temporal penalty, "
        "regularisation over two decades, ADMM penalty fixed or adapted; the returned sequence is compared "
        "with the best one found by an independent solver; histories are recomputed; keyed by (penalty, "
        "kernel, T, n, d, decade of alpha, edges)")
ASSUMPTIONS = ["the inner step size is below the stability limit and tol=rtol=1e-6 stand for 'run to "
               "convergence'; a run that warns is undecided",
               "every time has the same number of samples, as the solver requires"]
CASE_LIMIT = 120


class Ising(Problem):
    """The documented problem with the average pseudo-likelihood as data term."""

    def __init__(self, X, alpha, W, psi):
        d = X.shape[2]
        super().__init__(np.zeros((len(X), d, d)), alpha=alpha, W=W, psi=psi, loss="ising")
        self.X = X
        self.lip = [np.linalg.eigvalsh(x.T.dot(x) / len(x))[-1] for x in X]

    def evaluate(self, K, L=None, psd_tol=None):
        o = sum(full(self.X[t], K[t], 0) for t in range(self.T)) + (self.aod * np.abs(K)).sum()
        for s in range(self.T):
            for t in range(s + 1, self.T):
                o += self.W[s, t] * self.pair(K[t] - K[s])
        return float(o)

    def pair(self, D):
        from ..refsolve import pen
        return pen(self.psi, D)

    def _prox_loss(self, A, t, rho):
        A = (A + A.T) / 2
        L = self.lip[t] + rho
        q = (np.sqrt(L) - np.sqrt(rho)) / (np.sqrt(L) + np.sqrt(rho))
        x = y = A
        for _ in range(60):
            new = y - (ising_gradient(self.X[t], y) + rho * (y - A)) / L
            if np.abs(new - x).max() < 1e-11:
                return new
            y = new + q * (new - x)
            x = new
        return x


def draw(rng, most=3):
    T, d, n = int(rng.randint(1, most + 1)), int(rng.randint(2, 5)), int(rng.randint(5, 11))
    while True:
        B = binary(rng)
        lo, hi = B.min(), B.max()
        if lo != hi:
            break
    base = rng.randn(T, n, d) + rng.uniform(0, 1.2) * rng.randn(T, n, 1)
    X = np.where(base > rng.uniform(-0.5, 0.5), hi, lo)
    X[0, 0, :2] = [lo, hi]
    psi = str(rng.choice(PENS))
    kk = str(rng.choice(["matrix", "matrix", "none"]))
    W = kernel_matrix(rng, T, 0.5) if kk == "matrix" else None
    return X, psi, W, kk, float(10 ** rng.uniform(-2, -0.3))


def solver():
    from regain.generalized_linear_model import glm_time_ising
    return internal(glm_time_ising, "_fit_time_ising_model", "X", "alpha", "kernel", "rho", "gamma", "psi")


def optimum(rng, rec):
    solve = solver()

    X, psi, W, kk, alpha = draw(rng)
    T, n, d = X.shape
    P = Ising(X, alpha, np.zeros((T, T)) if W is None else W, psi)
    rho = float(10 ** rng.uniform(-1, 0.3))
    adapt = bool(rng.rand() < 0.3)
    top = rho * (4 if adapt else 1)
    opts = dict(mu=10, tau_inc=float(rng.choice([1.05, 1.1])), tau_dec=1.1) if adapt else dict(mu=1e12)
    kw = dict(alpha=alpha, rho=rho, kernel=W, psi=psi, gamma=float(0.9 / (max(P.lip) + top * T)), tol=1e-6,
              rtol=1e-6, max_iter=1500, update_rho_options=opts)
    rec.describe(T=T, n=n, d=d, psi=psi, kernel=W, adapt=adapt, **{k: kw[k] for k in ("alpha", "rho", "gamma")})
    X0, W0 = X.copy(), None if W is None else W.copy()
    with rec.watching_warnings() as w:
        K, checks, it = solve(X, return_history=True, **kw)
    rec.check("arguments untouched", np.array_equal(X, X0) and (W is None or np.array_equal(W, W0)))
    rec.event("solver runs observed")
    rec.check("one network per time", K.shape == (T, d, d) and np.isfinite(K).all())
    rec.check("iterations are those recorded", it == len(checks) - 1 and it <= kw["max_iter"])
    warned = not_converged(w)
    last = checks[-1]
    inside = last.rnorm <= last.e_pri and last.snorm <= last.e_dual
    rec.check("stops early only within its tolerances, and warns otherwise", inside == (not warned),
              warned=warned, last=str(last))
    if warned:
        rec.inconclusive("did not converge")
        return
    off = np.abs(K - K.transpose(0, 2, 1)).max()
    rec.check("networks are symmetric", off <= 1e-9)
    obj = P.evaluate(K)
    rec.close("the last recorded objective is that of the result", last.obj, obj, rtol=2e-4, atol=2e-4)
    best = min(P.improve(K0=K0, iters=600, tol=1e-8, rho=1.0)[0] for K0 in (K, np.zeros_like(K)))
    gap = (obj - best) / (1 + abs(best))
    rec.stat("largest relative gap", gap)
    rec.check("no other sequence has a lower objective", gap <= 1e-4, objective=obj, best=best, gap=gap)
    rec.nontrivial(psi, kk, T, n, d, round(np.log10(alpha)), int((np.abs(K) > 1e-6).sum()))


def flat(rng, X, labs):
    T, n, d = X.shape
    y = np.repeat(labs, n)
    o = rng.permutation(T * n)
    # rows of one time keep their order: the solver only sees sums over them
    return X.reshape(T * n, d)[o], y[o]


def estimator(rng, rec):
    from sklearn.gaussian_process import kernels
    from regain.generalized_linear_model.glm_time_ising import (
        SimilarityTemporalIsingModel, TemporalIsingModel)

    solve = solver()

    X, psi, W, kk, alpha = draw(rng, 7)
    T, n, d = X.shape
    labs = np.sort(rng.choice(np.arange(-5, 12), size=T, replace=False))
    M = X.reshape(-1, d)
    y = np.repeat(labs, n)
    if rng.rand() < 0.7:
        o = rng.permutation(len(y))
        M, y = M[o], y[o]
    kw = dict(alpha=alpha, rho=float(10 ** rng.uniform(-0.5, 0.5)), psi=psi, tol=1e-5, rtol=1e-4,
              max_iter=int(rng.choice([3, 15])))
    form = str(rng.choice(["given", "function", "similarity"]))
    hist = bool(rng.rand() < 0.5)
    if form == "given":
        est = TemporalIsingModel(kernel=W, return_history=hist, **kw)
        k = np.eye(T) if W is None else W
    elif form == "function":
        ell = float(rng.uniform(0.5, 4))
        fn = kernels.RBF if rng.rand() < 0.7 else kernels.ConstantKernel
        est = TemporalIsingModel(kernel=fn, ker_param=ell, return_history=hist, **kw)
        D = labs[:, None] - labs[None, :]
        k = np.exp(-0.5 * D ** 2 / ell ** 2) if fn is kernels.RBF else np.full((T, T), ell)
    else:
        k = kernel_matrix(rng, T, 0.5)
        est = SimilarityTemporalIsingModel(kernel=k, return_history=hist, **kw)
    rec.describe(form=form, T=T, n=n, d=d, labels=labs, history=hist, kernel=k, **kw)
    M0, y0 = M.copy(), y.copy()
    with quiet():
        r = est.fit(M, y)
        K, checks, it = solve(np.array([M[y == c] for c in labs]), kernel=k,
                                              return_history=True, return_n_iter=True, **kw)
    rec.check("fit returns the estimator, data untouched", r is est and np.array_equal(M, M0) and
              np.array_equal(y, y0))
    rec.check("classes are the sorted labels", np.array_equal(est.classes_, labs))
    rec.close("the estimator solves the problem of the samples of each label", est.precision_, K, rtol=1e-9,
              atol=1e-12)
    rec.check("iterations reported", est.n_iter_ == it)
    rec.check("the precision accessor returns the estimate", np.array_equal(est.get_precision(), est.precision_))
    if hist:
        rec.close("the history is that of the solver", [c.obj for c in est.history_], [c.obj for c in checks],
                  rtol=1e-9, atol=1e-12)
    rec.event("estimators compared")
    rec.nontrivial("estimator", form, psi, T, n, d, hist)


def learned(rng, rec):
    """Without a kernel, the similarity model settles on one consistent with its own networks."""
    from regain.generalized_linear_model.glm_time_ising import SimilarityTemporalIsingModel

    solve = solver()

    X, psi, W, kk, alpha = draw(rng, 5)
    T, n, d = X.shape
    if T < 2:
        X = np.concatenate([X, X[:, ::-1, ::-1]])
        T = 2
    nc = None if rng.rand() < 0.4 else int(rng.randint(1, T + 1))
    beta = float(rng.uniform(0.3, 3))
    kw = dict(alpha=alpha, rho=1.0, psi=psi, tol=1e-5, rtol=1e-4, max_iter=int(rng.choice([3, 15])))
    o = rng.permutation(T * n)
    M, y = X.reshape(-1, d)[o], np.repeat(np.arange(T) * 2 - 3, n)[o]
    rec.describe(T=T, n=n, d=d, n_clusters=nc, beta=beta, **kw)
    est = SimilarityTemporalIsingModel(beta=beta, n_clusters=nc, max_iter_ext=8, **kw)
    with rec.watching_warnings() as w:
        est.fit(M, y)
    if any("theta" in str(x.message) for x in w):
        return rec.inconclusive("did not settle")
    K = est.precision_
    off = ~np.eye(d, dtype=bool)
    D = np.array([[np.abs((K[s] - K[t])[off]).sum() for t in range(T)] for s in range(T)])
    rec.close("the learned similarity is that of the returned networks", est.similarity_matrix_, similarity_of(D),
              rtol=1e-7, atol=1e-7)
    rec.check("transform returns the learned similarity", np.array_equal(est.transform(M), est.similarity_matrix_))
    with quiet():
        ref = solve(np.array([M[y == c] for c in est.classes_]), return_history=False,
                                    kernel=learned_kernel(est.similarity_matrix_, nc, beta), **kw)
    rec.close("the networks are those of the kernel settled on", K, ref[0], rtol=1e-8, atol=1e-10)
    rec.check("iterations reported", est.n_iter_ == ref[-1])
    rec.event("learned kernels observed")
    rec.nontrivial("learned", psi, T, n, d, nc)


def refused(rng, rec):
    from regain.generalized_linear_model.glm_time_ising import SimilarityTemporalIsingModel, TemporalIsingModel

    X, psi, W, kk, alpha = draw(rng)
    T, n, d = X.shape
    M, y = X.reshape(-1, d), np.repeat(np.arange(T), n)
    which = str(rng.choice(["three values", "one value", "nan", "kernel size", "rows", "one variable"]))
    cls = TemporalIsingModel if rng.rand() < 0.6 else SimilarityTemporalIsingModel
    k = np.eye(T)
    if which == "three values":
        M = M.copy()
        M[rng.randint(len(M)), rng.randint(d)] = 7
    elif which == "one value":
        M = np.ones_like(M)
    elif which == "nan":
        M = M.copy()
        M[0, 0] = np.nan
    elif which == "kernel size":
        k = np.eye(T + 1)
    elif which == "rows":
        y = y[:-1]
    else:
        M = M[:, :1]
    try:
        with quiet():
            cls(kernel=k, max_iter=1).fit(M, y)
        rec.check("refused: " + which, False)
    except ValueError:
        rec.check("refused: " + which, True)
    rec.nontrivial(which, cls.__name__, T, d)


def aggregate(results):
    tot = [r for r in results if r["kind"] == "optimum"]
    bad = sum(1 for r in tot if r["inconclusive"])
    return [("well-posed problems converge", bad <= 0.25 * len(tot) + 3, {"undecided": bad, "of": len(tot)})]


KINDS = {"optimum": (optimum, 48, 500), "estimator": (estimator, 100, 800), "learned": (learned, 40, 400), "refused": (refused, 40, 200)}
