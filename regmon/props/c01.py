"""C01: static graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import (admm_options, convergence_rate, covs, gen_data, init_option, judge, run_watched,
                       stress, decade, weight)

RULE = ("(large: p up to 36 or T up to 11, up to 260 samples per time; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random data matrices (plain, badly scaled, strongly correlated, independent, "
        "discrete with ties; also fewer samples than variables), p in 2..12, alpha in "
        "[1e-3, 3] scalar or entrywise, random rho, over-relaxation, rho update options and "
        "starting point; through the solver function and through the estimator; a case is "
        "non-trivial when the returned matrix has off-diagonal entries or alpha is large "
        "enough to remove them all, keyed by (entry point, regime, p, alpha decade, "
        "fraction of edges kept)")
ASSUMPTIONS = ["tol=rtol=1e-7 and 10000 iterations stand for 'run to convergence'",
               "optimality tolerance 1e-6 relative to the objective"]


def _edges(K):
    p = K.shape[-1]
    return int((np.abs(K - np.diag(np.diag(K))) > 1e-10).sum() // 2)


def case(rng, rec, hard=False, big=False):
    import regain.covariance as cov
    from regain.covariance.graphical_lasso_ import graphical_lasso

    p = int(rng.choice([2, 3, 4, 5, 6, 8, 12]))
    if big:
        p = int(rng.randint(15, 36))
    (X,), mode = gen_data(rng, 1, p, big=big)
    alpha = weight(rng, 10 ** rng.uniform(-3 if "n<p" not in mode else -1.3, 0.5), mode, 0 if hard else 0.05)
    kw = admm_options(rng)
    if hard:
        s, s2, kw = stress(rng)
        X, alpha = X * s, alpha * s2
    kw.update(tol=1e-7, rtol=1e-7, max_iter=10000)
    over = float(rng.choice([1.0, 1.0, 1.5, 1.8]))
    kw["over_relax"] = over
    entry = rng.choice(["function", "function-array", "estimator"])
    assume = bool(rng.rand() < 0.4)
    S = covs([X], centered=assume)
    kw["init"] = init_option(rng, S[0])
    rec.describe(entry=entry, p=p, n=X.shape[0], regime=mode, alpha=alpha, options={
        k: v for k, v in kw.items() if k != "init"}, init=str(type(kw["init"]).__name__))
    a = alpha
    if entry == "function-array":
        a = rng.uniform(0.2, 3, size=(p, p)) * alpha
        a = (a + a.T) / 2
    S_before = S.copy()
    if entry == "estimator":
        est = cov.GraphicalLasso(alpha=alpha, assume_centered=assume, **kw)
        _, warned = run_watched(rec, lambda: est.fit(X))
        K = est.precision_
    else:
        out, warned = run_watched(rec, lambda: graphical_lasso(S[0], alpha=a, **kw))
        K = out[0]
    rec.check("input covariance untouched", np.array_equal(S, S_before))
    P = rs.Problem(S, None, a if np.isscalar(a) else a[None])
    judge(rec, P, np.asarray(K)[None], None, "large" if big else "stress" if hard else "static", warned,
          must_converge=over == 1.0 and not hard and "n<p" not in mode and alpha > 0)
    if not warned and not hard:
        # stationarity certificate, independent of any solver
        Ki = np.linalg.inv(K)
        G = Ki - S[0]
        A = np.broadcast_to(np.asarray(a, float), (p, p))
        off = ~np.eye(p, dtype=bool)
        nz = (np.abs(K) > 0) & off
        err = np.abs(np.diag(G)).max()
        if nz.any():
            err = max(err, np.abs(G[nz] - A[nz] * np.sign(K[nz])).max())
        if (off & ~nz).any():
            z = off & ~nz
            err = max(err, np.maximum(np.abs(G[z]) - A[z], 0).max())
        sc = 1 + np.abs(S).max() + np.abs(Ki).max()
        rec.stat("stationarity residual / scale", err / sc)
        rec.check("stationarity: inverse estimate minus data covariance is a subgradient "
                  "of the off-diagonal penalty", err <= 1e-3 * sc, err=err, scale=sc)
    e = _edges(K)
    rec.nontrivial(entry, mode, p, decade(alpha), round(10 * e / (p * (p - 1) / 2)))


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


def sklearn_agreement(rng, rec):
    """Second opinion: scikit-learn's coordinate descent on the same data."""
    import regain.covariance as cov
    from sklearn.covariance import graphical_lasso as skgl

    p = int(rng.randint(3, 10))
    (X,), mode = gen_data(rng, 1, p)
    X = X / X.std(0)
    alpha = float(10 ** rng.uniform(-1.2, -0.1))
    S = covs([X])[0]
    rec.describe(p=p, n=X.shape[0], regime=mode, alpha=alpha)
    est = cov.GraphicalLasso(alpha=alpha, tol=1e-7, rtol=1e-7, max_iter=10000)
    _, warned = run_watched(rec, lambda: est.fit(X))
    try:
        _, Ksk = skgl(S, alpha=alpha, tol=1e-9, max_iter=2000, enet_tol=1e-10)
    except Exception as e:
        rec.inconclusive("scikit-learn raised " + type(e).__name__)
        Ksk = None
    if Ksk is not None and not warned:
        P = rs.Problem(S[None], None, alpha)
        a, b = P.evaluate(est.precision_[None]), P.evaluate(Ksk[None])
        rec.event("scikit-learn optima compared")
        rec.check("objective not worse than scikit-learn's", a <= b + 2e-5 * (1 + abs(b)),
                  ours=a, sklearn=b)
    rec.nontrivial(mode, p, round(np.log10(alpha), 1))


KINDS = {
    "optimum": (case, 480, 3000),
    "large": (large_case, 48, 400), "stress": (hard_case, 240, 2000),
    "second-opinion": (sklearn_agreement, 30, 300),
}


def aggregate(results):
    return convergence_rate(results, ["static"])
