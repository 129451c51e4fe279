"""C02: time-varying graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import (PENS, admm_options, convergence_rate, covs, dims, gen_data, init_option, judge,
                       power, run_watched, stress, decade, weight)

RULE = ("(large: p up to 31 or T up to 32, up to 260 samples per time; uneven: one time with 20-120 times the samples; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random sequences of T in 1..6 unbalanced data sets, p in 2..7, alpha and beta over "
        "three decades (scalar, per-time or per-entry), every temporal penalty, random ADMM "
        "options and starting point, through solver function and estimator; keyed by "
        "(entry, penalty, regime, T, p, alpha decade, beta decade)")
ASSUMPTIONS = ["tol=rtol=1e-7 and 6000 iterations stand for 'run to convergence'"]


def case(rng, rec, hard=False, big=False):
    import regain.covariance as cov
    from regain.covariance.time_graphical_lasso_ import time_graphical_lasso

    p = int(rng.choice([2, 3, 4, 5, 7]))
    T = int(rng.choice([1, 2, 2, 3, 3, 4, 6]))
    if big:
        p, T = dims(rng)
    Xs, mode = gen_data(rng, T, p, same=rng.rand() < 0.1, big=big)
    n = np.array([x.shape[0] for x in Xs])
    alpha = weight(rng, 10 ** rng.uniform(-2 if "n<p" not in mode else -0.5, 1.2), mode, 0 if hard else 0.05)
    beta = weight(rng, 10 ** rng.uniform(-2, 1.5), share=0 if hard else 0.05)
    psi = str(rng.choice(PENS))
    entry = str(rng.choice(["function", "function-arrays", "function-unweighted", "estimator"]))
    assume = bool(rng.rand() < 0.4)
    kw = admm_options(rng)
    if hard:
        s, s2, kw = stress(rng)
        Xs, alpha, beta = [x * s for x in Xs], alpha * s2, beta * s2 ** power(psi)
    S = covs(Xs, centered=assume)
    kw.update(tol=1e-7, rtol=1e-7, max_iter=6000, init=init_option(rng, S), psi=psi)
    rec.describe(entry=entry, p=p, T=T, n=n, regime=mode, alpha=alpha, beta=beta, psi=psi,
                 options={k: v for k, v in kw.items() if k != "init"},
                 init=type(kw["init"]).__name__)
    a, b, w = alpha, beta, n
    if entry == "function-arrays":
        a = rng.uniform(0.3, 2, size=(T, 1, 1)) * alpha
        if rng.rand() < 0.5:
            a = rng.uniform(0.3, 2, size=(T, p, p)) * alpha
            a = (a + a.transpose(0, 2, 1)) / 2
        b = rng.uniform(0.3, 2, size=(T - 1, 1, 1)) * beta
    if entry == "estimator":
        X, y = np.vstack(Xs), np.repeat(np.arange(T), n)
        o = rng.permutation(len(y))
        est = cov.TimeGraphicalLasso(alpha=alpha, beta=beta, assume_centered=assume, **kw)
        _, warned = run_watched(rec, lambda: est.fit(X[o], y[o]))
        K = est.precision_
    else:
        if entry == "function-unweighted":
            w = None
        S0 = S.copy()
        out, warned = run_watched(rec, lambda: time_graphical_lasso(
            S, alpha=a, beta=b, n_samples=w, **kw))
        K = out[0]
        rec.check("input covariances untouched", np.array_equal(S, S0))
    P = rs.Problem(S, w, a, rs.chain(T, np.ravel(b) if not np.isscalar(b) else b), psi)
    judge(rec, P, K, None, ("large/" if big else "stress/" if hard else "time/") + psi, warned)
    rec.nontrivial(entry, psi, mode, T, p, decade(alpha), decade(beta))


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


def limits(rng, rec):
    """Consequences a user relies on: beta=0 decouples, huge beta shares."""
    import regain.covariance as cov

    p = int(rng.randint(2, 6))
    T = int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    S = covs(Xs)
    alpha = float(10 ** rng.uniform(-1, 1))
    X, y = np.vstack(Xs), np.repeat(np.arange(T), n)
    psi = str(rng.choice(PENS))
    kw = dict(tol=1e-7, rtol=1e-7, max_iter=6000)
    rec.describe(p=p, T=T, n=n, alpha=alpha, psi=psi, regime=mode)
    est = cov.TimeGraphicalLasso(alpha=alpha, beta=0.0, psi=psi, **kw)
    _, warned = run_watched(rec, lambda: est.fit(X, y))
    if warned:
        rec.inconclusive("did not converge (beta=0)")
    else:
        P = rs.Problem(S, n, alpha, None, psi)
        judge(rec, P, est.precision_, None, "time/beta=0", warned)
    if psi != "laplacian":
        est = cov.TimeGraphicalLasso(alpha=alpha, beta=2000.0, psi=psi, rho=10., **kw)
        _, warned = run_watched(rec, lambda: est.fit(X, y))
        if warned:
            rec.inconclusive("did not converge (large beta)")
        else:
            D = np.abs(np.diff(est.precision_, axis=0)).max()
            rec.check("a dominating non-smooth temporal penalty gives one shared estimate",
                      D <= 1e-3 * (1 + np.abs(est.precision_).max()), spread=D)
    rec.nontrivial(psi, mode, T, p, decade(alpha))


KINDS = {
    "optimum": (case, 480, 3000),
    "large": (large_case, 48, 400), "stress": (hard_case, 160, 1500),
    "limits": (limits, 20, 150),
}


def aggregate(results):
    return convergence_rate(results, ["time"])
