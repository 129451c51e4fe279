"""C26: the graphical lasso with missing data completes, estimates and reports what it says."""
import numpy as np

from ..core import not_converged, quiet, size
from ..refsolve import Problem

RULE = ("random data (2..5 variables, 6..25 samples) with entries missing at random, whole columns of a row or "
        "nothing missing; regularisation over two decades; the run is replayed by expectation-maximisation "
        "steps written here from the conditional Gaussian law, its last step judged by an independent solver, "
        "and repeated on permuted samples and variables; keyed by (n, d, missing entries, patterns, decade of "
        "alpha, iterations)")
ASSUMPTIONS = ["conditional means are shrunk by one common factor when the largest exceeds one and the second "
               "moments are divided by their largest entry: the scaling is part of the algorithm",
               "a run that stops at the iteration limit is judged for warning and form only"]
CASE_LIMIT = 120


def gen(rng):
    n, d = size(rng, 6, 26, 60), size(rng, 2, 6, 9)
    A = rng.randn(d, d) * 0.5 + np.eye(d)
    X = rng.randn(n, d).dot(A.T) * 10 ** rng.uniform(-0.5, 0.5) + rng.randn(d) * rng.choice([0, 0, 1.5])
    rate = rng.choice([0, 0.05, 0.15, 0.3])
    M = rng.rand(n, d) < rate
    if rate and rng.rand() < 0.2:
        M[rng.randint(n)] = True          # a sample with nothing observed
    X[M] = np.nan
    return X


def cond_means(X, K, mu):
    out = np.zeros_like(X)
    for i, x in enumerate(X):
        m = np.isnan(x)
        if m.any():
            out[i, m] = mu[m] - np.linalg.solve(K[np.ix_(m, m)], K[np.ix_(m, ~m)].dot(x[~m] - mu[~m]))
    return out


def second_moment(X, K, cs):
    d = X.shape[1]
    S = np.zeros((d, d))
    for i, x in enumerate(X):
        m = np.isnan(x)
        z = np.where(m, cs[i], x)
        S += np.outer(z, z)
        if m.any():
            S[np.ix_(m, m)] += np.linalg.inv(K[np.ix_(m, m)])
    return S


def steps(rng, rec):
    """The three steps of an iteration, at random parameters."""
    from regain.covariance import missing_graphical_lasso_ as B

    X = gen(rng)
    n, d = X.shape
    Q = np.linalg.qr(rng.randn(d, d))[0]
    K = (Q * 10 ** rng.uniform(-0.5, 0.5, d)).dot(Q.T)
    mu = rng.randn(d)
    X0, K0, mu0 = X.copy(), K.copy(), mu.copy()
    m = np.isnan(X)
    rec.describe(n=n, d=d, missing=int(m.sum()))
    cs = B.compute_cs(mu, K, X)
    want = cond_means(X, K, mu)
    top = np.abs(want).max()
    rec.check("only missing entries are estimated", np.all(cs[~m] == 0))
    rec.close("missing entries are estimated by their conditional mean, shrunk by one common factor", cs,
              want / max(top, 1), rtol=1e-8, atol=1e-9)
    rec.close("means average observed and estimated entries", B.compute_mean(X, cs),
              np.where(m, cs, X).mean(0), rtol=1e-9, atol=1e-10)
    S = B.compute_empirical_covariance(X, K, cs)
    W = second_moment(X, K, cs)
    rec.close("second moments add the conditional covariance of missing entries, in proportion", S, W / W.max(),
              rtol=1e-8, atol=1e-10)
    rec.check("arguments untouched", np.array_equal(X, X0, equal_nan=True) and np.array_equal(K, K0)
              and np.array_equal(mu, mu0))
    rec.nontrivial("steps", n, d, int(m.sum()))


def run(rng, rec):
    from regain.covariance.graphical_lasso_ import graphical_lasso
    from regain.covariance.missing_graphical_lasso_ import MissingGraphicalLasso, missing_graphical_lasso

    X = gen(rng)
    n, d = X.shape
    m = np.isnan(X)
    alpha = float(10 ** rng.uniform(-1.7, 0))
    limit = 300 if rng.rand() < 0.85 else int(rng.randint(1, 4))
    kw = dict(alpha=alpha, max_iter=limit, tol=1e-6, rtol=1e-6)
    X0 = X.copy()
    pats = len({r.tobytes() for r in m})
    rec.describe(n=n, d=d, missing=int(m.sum()), patterns=pats, alpha=alpha, max_iter=limit)
    with rec.watching_warnings() as w:
        K, S, Z, hist, it = missing_graphical_lasso(X, return_history=True, return_n_iter=True, **kw)
    warned = [x for x in w if "issing" in str(x.message)]
    rec.check("data untouched", np.array_equal(X, X0, equal_nan=True))
    rec.check("observed entries are kept", np.array_equal(Z[~m], X[~m]))
    rec.check("missing entries are filled with finite values", np.isfinite(Z).all())
    rec.check("the precision is symmetric positive definite", np.allclose(K, K.T, atol=1e-9) and
              np.linalg.eigvalsh((K + K.T) / 2)[0] > 0)
    rec.check("the covariance is symmetric, scaled to a largest entry of one", np.allclose(S, S.T, atol=1e-10) and
              np.isclose(S.max(), 1))
    rec.check("iterations are those recorded", it == len(hist) and it <= limit and
              [h["iteration"] for h in hist] == list(range(it)))
    ll = [float(h["log_likelihood"]) for h in hist]
    rec.close("the last recorded log-likelihood is that of the result", ll[-1],
              np.linalg.slogdet(K)[1] - (S * K).sum(), rtol=1e-7, atol=1e-8)
    rec.check("recorded differences are those of the log-likelihoods", all(
        np.isclose(h["difference"], ll[i - 1] - ll[i], atol=1e-10) for i, h in enumerate(hist) if i))
    inside = it > 1 and abs(ll[-1] - ll[-2]) < 1e-6
    rec.check("stops early only within the tolerance, and warns otherwise", inside == (not warned),
              inside=inside, warned=len(warned), iterations=it)
    rec.check("does not iterate past the tolerance", not any(abs(ll[i] - ll[i - 1]) < 1e-6
                                                             for i in range(1, it - 1)))
    # replay
    P, mu = np.eye(d), np.zeros(d)
    bad = False
    for _ in range(it):
        cs = cond_means(X, P, mu)
        cs = cs / max(np.abs(cs).max(), 1)
        full = np.where(m, cs, X)
        mu = full.mean(0)
        C = second_moment(X, P, cs)
        C = C / C.max()
        with rec.watching_warnings() as w2:
            P = graphical_lasso(C, alpha=alpha, tol=1e-6, rtol=1e-6, max_iter=max(limit, 1), init=P,
                                return_n_iter=False)[0]
        bad = bad or (limit > 10 and not_converged(w2))
    if not bad:
        rec.close("completed data", Z, full, rtol=1e-3, atol=2e-3)
        rec.close("covariance", S, C, rtol=1e-3, atol=2e-3)
        rec.close("precision", K, P, rtol=1e-2, atol=1e-2 * np.abs(P).max())
        if limit > 10:
            pr = Problem(S[None], alpha=alpha)
            obj = pr.evaluate(K[None])
            best = min(obj, pr.improve(K[None])[0])
            rec.check("no other precision has a lower penalised likelihood on the reported covariance",
                      obj - best <= 1e-4 * (1 + abs(obj)), objective=obj, best=best)
    if not m.any():
        C = X.T.dot(X)
        rec.close("complete data: the covariance is that of the data", S, C / C.max(), rtol=1e-9, atol=1e-10)
    # equivariance
    if limit > 10 and not bad and not warned:
        r, c = rng.permutation(n), rng.permutation(d)
        with quiet():
            K2, S2, Z2, _ = missing_graphical_lasso(X[r][:, c], **kw)
        if np.abs(ll[-1] - ll[max(0, it - 2)]) < 5e-7 or it < 30:
            rec.close("permuted samples and variables give the permuted completion", Z2, Z[r][:, c],
                      rtol=1e-3, atol=2e-3)
            rec.close("permuted samples and variables give the permuted precision", K2, K[np.ix_(c, c)],
                      rtol=1e-2, atol=1e-2 * np.abs(K).max())
    with quiet():
        est = MissingGraphicalLasso(**kw).fit(X)
    rec.check("the estimator returns the solver's results", np.array_equal(est.precision_, K) and
              np.array_equal(est.covariance_, S) and np.array_equal(est.complete_data_matrix_, Z)
              and est.n_iter_ == it)
    rec.event("iterations observed", it)
    rec.event("missing entries completed", int(m.sum()))
    rec.nontrivial("run", n, d, int(m.sum()), pats, int(np.floor(np.log10(alpha))), it)


KINDS = {"steps": (steps, 200, 3000), "run": (run, 80, 1200)}
