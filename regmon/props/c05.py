"""C05: latent time graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import (PENS, admm_options, convergence_rate, covs, dims, gen_data, init_option, judge,
                       power, run_watched, stress, decade, weight)

RULE = ("(large: p up to 31 or T up to 32, up to 260 samples per time; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random sequences of T in 1..4 unbalanced data sets, p in 2..6, alpha/tau/beta/eta "
        "over two to three decades each (beta and eta also one value per transition), every "
        "pair of temporal penalties, random ADMM options and starting point, through solver "
        "function and estimator; keyed by (entry, penalties, regime, T, p, decades of alpha "
        "and tau)")
ASSUMPTIONS = ["tol=rtol=1e-6 and 6000 iterations stand for 'run to convergence'; runs that "
               "warn about non-convergence are inconclusive"]


def case(rng, rec, hard=False, big=False):
    import regain.covariance as cov
    from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso

    p = int(rng.choice([2, 3, 4, 6]))
    T = int(rng.choice([1, 2, 2, 3, 4]))
    if big:
        p, T = dims(rng)
    Xs, mode = gen_data(rng, T, p, big=big)
    n = np.array([x.shape[0] for x in Xs])
    alpha = weight(rng, 10 ** rng.uniform(-2 if "n<p" not in mode else -0.5, 1.2), mode, 0 if hard else 0.05)
    tau = float(10 ** rng.uniform(-0.5, 1.5))
    beta = weight(rng, 10 ** rng.uniform(-2, 1.2), share=0 if hard else 0.05)
    eta = weight(rng, 10 ** rng.uniform(-2, 1.2), share=0 if hard else 0.05)
    psi, phi = str(rng.choice(PENS)), str(rng.choice(PENS))
    entry = str(rng.choice(["function", "function-arrays", "function-unweighted", "estimator"]))
    assume = bool(rng.rand() < 0.4)
    kw = admm_options(rng)
    if hard:
        entry = "estimator-matrix" if entry == "estimator-function" else entry
        s, s2, kw = stress(rng)
        Xs, alpha, tau = [x * s for x in Xs], alpha * s2, tau * s2
        beta, eta = beta * s2 ** power(psi), eta * s2 ** power(phi)
    S = covs(Xs, centered=assume)
    kw.update(tol=1e-6, rtol=1e-6, max_iter=6000, init=init_option(rng, S), psi=psi, phi=phi)
    a, b, e, w = alpha, beta, eta, n
    if entry == "estimator":
        X, y = np.vstack(Xs), np.repeat(np.arange(T), n)
        o = rng.permutation(len(y))
        est = cov.LatentTimeGraphicalLasso(alpha=alpha, tau=tau, beta=beta, eta=eta,
                                           assume_centered=assume, **kw)
        _, warned = run_watched(rec, lambda: est.fit(X[o], y[o]))
        K, L = est.precision_, est.latent_
        rec.close("observed precision is sparse minus latent part",
                  est.get_observed_precision(), K - L, atol=1e-12)
    else:
        if entry == "function-unweighted":
            w = None
        if entry == "function-arrays":
            a = rng.uniform(0.3, 2, size=(T, 1, 1)) * alpha
            b = rng.uniform(0.3, 2, size=(T - 1, 1, 1)) * beta
            e = rng.uniform(0.3, 2, size=(T - 1, 1, 1)) * eta
        S0 = S.copy()
        out, warned = run_watched(rec, lambda: latent_time_graphical_lasso(
            S, alpha=a, tau=tau, beta=b, eta=e, n_samples=w, **kw))
        K, L = out[0], out[1]
        rec.check("input covariances untouched", np.array_equal(S, S0))
    rec.describe(entry=entry, p=p, T=T, n=n, regime=mode, alpha=alpha, tau=tau, beta=beta,
                 eta=eta, psi=psi, phi=phi,
                 options={k: v for k, v in kw.items() if k != "init"},
                 init=type(kw["init"]).__name__)
    ch = lambda v: rs.chain(T, v if np.isscalar(v) else np.ravel(v))  # noqa: E731
    P = rs.Problem(S, w, a, ch(b), psi, tau, ch(e), phi)

    judge(rec, P, K, L, ("large" if big else "stress" if hard else "latent-time") + "/%s-%s" % (psi, phi), warned, tol=1e-6, ref_iters=1200)
    rec.nontrivial(entry, psi, phi, mode, T, p, decade(alpha), decade(tau))


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


KINDS = {"optimum": (case, 420, 3000), "large": (large_case, 36, 300), "stress": (hard_case, 120, 1200)}


def aggregate(results):
    return convergence_rate(results, ["latent-time"])
