"""C04: latent graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import (admm_options, convergence_rate, covs, gen_data, init_option, judge,
                       run_watched, stress)

RULE = ("(large: p up to 36 or T up to 11, up to 260 samples per time; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random data matrices as in C01, p in 2..10, alpha and tau over three decades each, "
        "random ADMM options and starting point, through solver function and estimator; "
        "keyed by (entry, regime, p, alpha decade, tau decade, rank of the latent part)")
ASSUMPTIONS = ["tol=rtol=1e-7 and 8000 iterations stand for 'run to convergence'"]


def case(rng, rec, hard=False, big=False):
    import regain.covariance as cov
    from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso

    p = int(rng.choice([2, 3, 4, 5, 7, 10]))
    if big:
        p = int(rng.randint(12, 26))
    (X,), mode = gen_data(rng, 1, p, big=big)
    alpha = float(10 ** rng.uniform(-2.3 if "n<p" not in mode else -1, 0.5))
    tau = float(10 ** rng.uniform(-1.5, 1))
    entry = str(rng.choice(["function", "estimator"]))
    assume = bool(rng.rand() < 0.4)
    kw = admm_options(rng)
    if hard:
        s, s2, kw = stress(rng)
        X, alpha, tau = X * s, alpha * s2, tau * s2
    S = covs([X], centered=assume)
    kw.update(tol=1e-7, rtol=1e-7, max_iter=8000, init=init_option(rng, S[0]))
    if entry == "function":
        S0 = S.copy()
        out, warned = run_watched(rec, lambda: latent_graphical_lasso(
            S[0], alpha=alpha, tau=tau, **kw))
        K, L = out[0], out[1]
        rec.check("input covariance untouched", np.array_equal(S, S0))
    else:
        est = cov.LatentGraphicalLasso(alpha=alpha, tau=tau, assume_centered=assume, **kw)
        _, warned = run_watched(rec, lambda: est.fit(X))
        K, L = est.precision_, est.latent_
        rec.close("observed precision is sparse minus latent part", est.get_precision(), K - L,
                  atol=1e-12)
    rec.describe(entry=entry, p=p, n=X.shape[0], regime=mode, alpha=alpha, tau=tau,
                 options={k: v for k, v in kw.items() if k != "init"},
                 init=type(kw["init"]).__name__)
    P = rs.Problem(S, None, alpha, tau=tau)

    judge(rec, P, K[None], L[None], "large" if big else "stress" if hard else "latent", warned)
    rank = int((np.linalg.eigvalsh((L + L.T) / 2) > 1e-8).sum())
    rec.nontrivial(entry, mode, p, round(np.log10(alpha)), round(np.log10(tau)), rank)


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


KINDS = {"optimum": (case, 480, 3000), "large": (large_case, 48, 400), "stress": (hard_case, 240, 2000)}


def aggregate(results):
    return convergence_rate(results, ["latent"])
