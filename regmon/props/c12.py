"""C12: scores of fitted estimators are Gaussian log-likelihoods of the estimate."""
import numpy as np

from ..core import quiet, size
from ..estimators import STATIC, TIME, build, labels, stack
from ..solvers import covs, gen_data

RULE = ("random fitted estimator of every family, scored on training data, on fresh test data with "
        "other group sizes, in random row order, and (static) through distances and covariance "
        "errors; reference: sum of multivariate normal log-densities with the observed precision; "
        "keyed by (estimator, label type, T, p, centering, test set)")
ASSUMPTIONS = ["agreement to 1e-8 relative"]


def logpdf(X, mu, K):
    """Row-wise Gaussian log density, written out."""
    # no symmetrisation: unconverged column-wise penalties leave K slightly asymmetric
    Y = X - mu
    return (-0.5 * np.array([v.dot(K).dot(v) for v in Y]) + 0.5 * np.log(np.linalg.det(K))
            - 0.5 * X.shape[1] * np.log(2 * np.pi))


def time_case(rng, rec):
    name = str(rng.choice(TIME))
    p, T = size(rng, 2, 6, 14), size(rng, 2, 6, 8)
    Xs, mode = gen_data(rng, T, p)
    Xs = [x + rng.randn(p) * 2 for x in Xs]
    assume = bool(rng.rand() < 0.3)
    S = covs(Xs, centered=assume)
    est, solve, kw = build(rng, name, T, p, S)
    est.set_params(assume_centered=assume)
    labs, lt = labels(rng, T)
    X, y = stack(rng, Xs, labs)
    with quiet():
        est.fit(X, y)
    K = est.precision_
    if hasattr(est, "latent_"):
        K = est.precision_ - est.latent_
        rec.close("observed precision is sparse minus latent", est.get_observed_precision(), K,
                  rtol=1e-12, atol=1e-12)
    else:
        rec.close("observed precision is the precision", est.get_observed_precision(), K,
                  rtol=1e-12, atol=1e-12)
    ev = min(np.linalg.eigvalsh((k + k.T) / 2)[0] for k in K)
    if not ev > 0:
        rec.inconclusive("unconverged fit with an indefinite observed precision")
        return
    which = str(rng.choice(["train", "fresh", "single rows"]))
    if which == "train":
        Zs = Xs
    else:
        Zs = [rng.randn(1 if which == "single rows" else rng.randint(1, 9), p) * 2 + rng.randn(p)
              for _ in range(T)]
    Z, yz = stack(rng, Zs, labs)
    rec.describe(estimator=name, p=p, T=T, labels=labs, test=which, centered=assume, regime=mode)
    mu = np.zeros((T, p)) if assume else np.array([x.mean(0) for x in Xs])
    want = sum(logpdf(Zs[t], mu[t], K[t]).sum() for t in range(T))
    got = est.score(Z, yz)
    rec.event("rows scored", len(Z))
    rec.check("score is the summed Gaussian log-likelihood of the rows under their label's model",
              np.isclose(got, want, rtol=1e-7, atol=1e-6), got=got, want=want)
    o = rng.permutation(len(yz))
    rec.check("score does not depend on the order of the rows",
              np.isclose(est.score(Z[o], yz[o]), got, rtol=1e-9, atol=1e-7))
    comp = np.array([np.cov(rng.randn(20, p).T) for _ in range(T)])
    for norm in ("frobenius", "spectral"):
        for scaling in (True, False):
            for sq in (True, False):
                w = []
                for t in range(T):
                    D = comp[t] - est.covariance_[t]
                    v = (D ** 2).sum() if norm == "frobenius" else np.linalg.norm(D, 2) ** 2
                    v = v / p if scaling else v
                    w.append(v if sq else np.sqrt(v))
                rec.close("error_norm averages the documented per-time errors",
                          est.error_norm(comp, norm=norm, scaling=scaling, squared=sq),
                          np.mean(w), rtol=1e-7)
    rec.nontrivial(name, lt, T, p, assume, which)


def static_case(rng, rec):
    name = str(rng.choice(STATIC))
    p = size(rng, 2, 8, 30)
    (X,), mode = gen_data(rng, 1, p)
    X = X + 2 * rng.randn(p)
    assume = bool(rng.rand() < 0.3)
    est, solve, kw = build(rng, name, 1, p, covs([X], centered=assume))
    est.set_params(assume_centered=assume)
    with quiet():
        est.fit(X)
    K = est.precision_ - est.latent_ if name == "LGL" else est.precision_
    rec.close("get_precision is the observed precision", est.get_precision(), K, atol=1e-12)
    if not np.linalg.eigvalsh((K + K.T) / 2)[0] > 0:
        rec.inconclusive("unconverged fit with an indefinite observed precision")
        return
    Z = X if rng.rand() < 0.3 else rng.randn(rng.randint(1, 12), p) + rng.randn(p)
    mu = np.zeros(p) if assume else X.mean(0)
    rec.describe(estimator=name, p=p, n=len(X), test_rows=len(Z), centered=assume, regime=mode)
    rec.event("rows scored", len(Z))
    rec.check("score is the mean Gaussian log-likelihood of the rows",
              np.isclose(est.score(Z), logpdf(Z, mu, K).mean(), rtol=1e-7, atol=1e-7),
              got=est.score(Z), want=logpdf(Z, mu, K).mean())
    d = ((Z - mu).dot(K) * (Z - mu)).sum(1)
    rec.close("mahalanobis uses the observed precision", est.mahalanobis(Z), d, rtol=1e-7,
              atol=1e-8)
    comp = np.cov(rng.randn(20, p).T)
    for norm in ("frobenius", "spectral"):
        D = comp - est.covariance_
        v = (D ** 2).sum() if norm == "frobenius" else np.linalg.norm(D, 2) ** 2
        rec.close("error_norm is the documented error", est.error_norm(comp, norm=norm), v / p,
                  rtol=1e-7)
    rec.nontrivial(name, p, assume, mode, len(Z))


KINDS = {"time": (time_case, 300, 2500), "static": (static_case, 150, 1200)}
