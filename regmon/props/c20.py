"""C20: discriminant analysis applies Bayes' rule to the estimator's class densities."""
import numpy as np

from ..core import quiet, size
from ..estimators import TIME, build, labels
from ..solvers import covs, gen_data

RULE = ("random classes (2..5, unbalanced, in random row order, under integer, float or string labels) "
        "classified through every time-varying estimator (classes in place of times) or through a "
        "stand-in estimator with chosen, possibly indefinite, precisions; default and given priors; "
        "decision values, posteriors and predictions are compared with Gaussian densities written "
        "out here; keyed by (estimator, label type, classes, variables, priors, repair)")
ASSUMPTIONS = ["ties within 1e-7 of the decision value are not judged",
               "repair of the precision is judged on estimators without a latent part"]


class Fixed:
    """Estimator with given precisions and the class means, with or without covariances."""

    def __init__(self, precision, with_cov):
        self.K, self.with_cov = precision, with_cov

    def fit(self, X, y):
        self.seen = (np.array(X), np.array(y))
        self.precision_ = np.array(self.K)
        self.location_ = np.array([X[y == c].mean(0) for c in np.unique(y)])
        if self.with_cov:
            self.covariance_ = np.array([np.linalg.inv(k) for k in self.K])
        return self


def judge(rng, rec, da, X, y, labs, mu, K, priors, tag):
    p = X.shape[1]
    Z = np.vstack([X, rng.randn(12, p) * 3, mu.mean(0)[None]])
    D = np.empty((len(Z), len(labs)))
    for c in range(len(labs)):
        V = Z - mu[c]
        D[:, c] = -0.5 * np.einsum("ij,jk,ik->i", V, K[c], V) + 0.5 * np.linalg.slogdet(K[c])[1] \
            + np.log(priors[c])
    P = np.exp(D - D.max(1, keepdims=True))
    P /= P.sum(1, keepdims=True)
    with quiet():
        dec, pred = da.decision_function(Z), da.predict(Z)
        prob, lprob = da.predict_proba(Z), da.predict_log_proba(Z)
    sc = 1 + np.abs(D).max()
    want = D[:, 1] - D[:, 0] if len(labs) == 2 else D
    rec.close(tag + "decision values are prior-weighted Gaussian log-densities", dec / sc, want / sc,
              rtol=1e-6, atol=1e-7)
    rec.close(tag + "probabilities are Bayes posteriors", prob, P, rtol=1e-5, atol=1e-6)
    rec.check(tag + "log-probabilities are their logarithms",
              np.allclose(np.exp(lprob), prob, rtol=1e-7, atol=1e-12))
    S = np.sort(D, axis=1)
    sure = S[:, -1] - S[:, -2] > 1e-7 * sc
    rec.check(tag + "predictions are the labels of the most probable class",
              np.array_equal(pred[sure], labs[D.argmax(1)][sure]), n=int(sure.sum()))
    rec.event("rows classified", int(sure.sum()))
    w = rng.rand(len(y))
    hit = (da.predict(X) == y)
    rec.close("score is the accuracy", da.score(X, y), hit.mean(), rtol=1e-12)
    rec.close("score weights the samples", da.score(X, y, sample_weight=w), (w * hit).sum() / w.sum(),
              rtol=1e-12)


def draw(rng):
    T, p = size(rng, 2, 6, 8), size(rng, 2, 6, 20)
    Xs, mode = gen_data(rng, T, p)
    Xs = [np.vstack([x, rng.randn(2, p)]) + rng.randn(p) * 2 for x in Xs]
    Xs = [x[:rng.randint(2, len(x) + 1)] for x in Xs]
    r = rng.rand()
    priors = None if r < 0.5 else rng.dirichlet(np.ones(T) * 2)
    if priors is not None and rng.rand() < 0.5:
        priors = list(priors)
    return T, p, Xs, mode, priors


def setup(rng, T, Xs):
    labs, lt = labels(rng, T)
    if lt == "floats":      # classification targets: floats must be integral
        labs = np.round(labs) + 2.0 * np.arange(T)
    X = np.vstack(Xs)
    y = np.repeat(labs, [len(x) for x in Xs])
    o = rng.permutation(len(y))
    return X[o], y[o], labs, lt


def fitted(rng, rec):
    from regain.discriminant_analysis import DiscriminantAnalysis

    T, p, Xs, mode, priors = draw(rng)
    name = str(rng.choice(TIME))
    est, _, kw = build(rng, name, T, p, covs(Xs), max_iter=60, init=False)
    X, y, labs, lt = setup(rng, T, Xs)
    latent = name in ("LTGL", "KLTGL", "SLTGL")
    rep = bool(rng.rand() < 0.3) and not latent
    rec.describe(estimator=name, T=T, p=p, labels=labs, priors=priors, regime=mode, repair=rep)
    X0, y0 = X.copy(), y.copy()
    da = DiscriminantAnalysis(est, ensure_posdef=rep, priors=priors)
    with quiet():
        out = da.fit(X, y)
    rec.check("fit returns the classifier", out is da)
    rec.check("data untouched", np.array_equal(X, X0) and np.array_equal(y, y0))
    rec.check("classes are the sorted labels", np.array_equal(da.classes_, labs))
    mu = np.array([x.mean(0) for x in Xs])
    pr = np.array([len(x) for x in Xs]) / len(y) if priors is None else np.array(priors)
    rec.close("priors", da.priors_, pr, rtol=1e-12)
    rec.close("means are the class means", da.means_, mu, rtol=1e-9, atol=1e-9)
    with quiet():
        ref, _, _ = build(np.random.RandomState(0), name, T, p, covs(Xs), max_iter=60, init=False)
        ref.set_params(**est.get_params()).fit(X, np.searchsorted(labs, y))
    C = np.array(ref.covariance_)
    if rep and np.linalg.eigvalsh(C)[:, 0].min() < 0:
        rec.event("fits with a repaired precision")
        rec.nontrivial(name, lt, T, p, priors is None, rep)
        return
    K = np.linalg.inv(C)
    ok = all(np.linalg.eigvalsh((k + k.T) / 2)[0] > 1e-8 * np.abs(k).max() for k in K)
    if rep:
        for k in da.precision_:
            rec.check("repaired precisions are positive definite", np.linalg.eigvalsh(k)[0] > 0)
    if not ok or max(np.linalg.cond(k) for k in K) > 1e8 or \
            max(np.abs(k - k.T).max() / np.abs(k).max() for k in K) > 1e-9:
        rec.inconclusive("unconverged fit without a usable class density")
        return
    judge(rng, rec, da, X, y, labs, mu, K, pr, "")
    rec.nontrivial(name, lt, T, p, priors is None, rep)


def given(rng, rec):
    from regain.discriminant_analysis import DiscriminantAnalysis

    T, p, Xs, mode, priors = draw(rng)
    X, y, labs, lt = setup(rng, T, Xs)
    K, bad = [], 0
    for _ in range(T):
        Q = np.linalg.qr(rng.randn(p, p))[0]
        w = 10 ** rng.uniform(-1.5, 1.5, size=p)
        K.append((Q * w).dot(Q.T))
    K = np.array([(k + k.T) / 2 for k in K])
    rep, with_cov = bool(rng.rand() < 0.6), bool(rng.rand() < 0.5)
    if rep:
        for t in range(T):
            if rng.rand() < 0.4:
                np.fill_diagonal(K[t], np.diag(K[t]) - np.linalg.eigvalsh(K[t])[0] - rng.rand() - 0.01)
                bad += 1
    est = Fixed(K.copy(), with_cov)
    rec.describe(T=T, p=p, labels=labs, priors=priors, repair=rep, with_cov=with_cov, indefinite=bad)
    da = DiscriminantAnalysis(est, ensure_posdef=rep, priors=priors)
    with quiet():
        da.fit(X, y)
    rec.check("the estimator sees the rows with class codes", np.array_equal(est.seen[0], X) and
              np.array_equal(est.seen[1], np.searchsorted(labs, y)))
    rec.check("the estimator's own precision is kept", np.array_equal(est.precision_, K))
    R = K.copy()
    for t in range(T):
        if rep and np.linalg.eigvalsh(K[t])[0] <= 0:
            off = R[t] - np.diag(np.diag(R[t]))
            rec.close("repair leaves off-diagonal entries",
                      da.precision_[t] - np.diag(np.diag(da.precision_[t])), off, rtol=1e-12)
            rec.check("repair makes the precision positive definite",
                      np.linalg.eigvalsh(da.precision_[t])[0] > 0)
            R[t] = da.precision_[t]
        else:
            rec.check("definite precisions are used as they are", np.array_equal(da.precision_[t], K[t]))
    pr = np.array([len(x) for x in Xs]) / len(y) if priors is None else np.array(priors)
    judge(rng, rec, da, X, y, labs, np.array([x.mean(0) for x in Xs]), R, pr, "")
    rec.nontrivial("given", lt, T, p, priors is None, rep, with_cov, bad)


def refused(rng, rec):
    from regain.discriminant_analysis import DiscriminantAnalysis

    T, p, Xs, mode, _ = draw(rng)
    X, y, labs, lt = setup(rng, T, Xs)
    K = np.array([np.eye(p)] * T)
    which = str(rng.choice(["one class", "single sample", "no fit", "nan", "rows", "continuous"]))
    est = Fixed(K, True)
    if which == "one class":
        y = np.array([labs[0]] * len(y))
    elif which == "single sample":
        X, y = np.vstack([X, X[:1]]), np.concatenate([y, np.array(["zzzz"] if lt == "strings" else [9999]).astype(
            y.dtype if lt != "strings" else "U8")])
    elif which == "no fit":
        est = object()
    elif which == "nan":
        X[rng.randint(len(X)), rng.randint(p)] = np.nan
    elif which == "rows":
        y = y[:-1]
    else:
        y = rng.rand(len(y)) + np.arange(len(y)) % 2
    try:
        with quiet():
            DiscriminantAnalysis(est).fit(X, y)
        rec.check("refused: " + which, False)
    except ValueError:
        rec.check("refused: " + which, True)
    rec.nontrivial(which, lt, T, p)


KINDS = {"fitted": (fitted, 120, 1500), "given": (given, 250, 4000), "refused": (refused, 60, 400)}
