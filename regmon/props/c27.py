"""C27: the Wishart process reports the chain it ran, and its best state."""
import warnings

import numpy as np
from scipy import linalg

from ..core import Inconclusive

RULE = ("random data over 2..6 times (equal or unequal sample counts, any row order and label values), 2..4 "
        "variables, radial or periodic kernel, scale factor learned or given, 1..60 iterations and any burn-in; the "
        "likelihood handed to the chain is wrapped and records every state it is asked about, the returned chain is "
        "re-evaluated offline state by state, and the estimator, its score and its predictions against the Gaussian "
        "formulas; keyed by (times, variables, kernel, learning, iterations, burn-in)")
ASSUMPTIONS = ["the law of the whole chain is not claimed (its moves are, in C24)",
               "a chain stopped by an arithmetic failure of scipy is skipped and counted"]
CASE_LIMIT = 60


def logpdf(groups, covs):
    """Log-density of zero-mean normal samples, from the definition."""
    total = 0.
    for x, c in zip(groups, covs):
        w, V = np.linalg.eigh((c + c.T) / 2)
        if w.min() <= 0:
            return -np.inf
        z = x.dot(V) / np.sqrt(w)
        total -= 0.5 * ((z ** 2).sum() + len(x) * (np.log(w).sum() + len(w) * np.log(2 * np.pi)))
    return total


def construct(u, L):
    """Covariance of every time: sum of outer products of the columns L u_i(t)."""
    return np.array([sum(np.outer(L.dot(ui[:, t]), L.dot(ui[:, t])) for ui in u)
                     for t in range(u.shape[2])])


def well(covs):
    w = np.linalg.eigvalsh(covs)
    return w.min() > 1e-9 * w.max()


def data(rng, equal):
    T, p = int(rng.randint(2, 7)), int(rng.randint(2, 5))
    counts = [int(rng.randint(4, 12))] * T if equal else [int(k) for k in rng.randint(3, 15, size=T)]
    mix = rng.randn(p, p) * 10 ** rng.uniform(-1, 1)
    groups = [rng.randn(k, p).dot(mix) * rng.uniform(0.5, 2) + rng.randn(p) for k in counts]
    return groups, T, p


def kernel_of(rng):
    name = str(rng.choice(["rbf", "periodic"]))

    def values(A, B, width):
        d = np.abs(A[:, None] - B[None])
        if name == "rbf":
            return np.exp(-0.5 * width * d ** 2)
        return np.exp(-2 * (np.sin(np.pi * d) / width) ** 2)
    return name, values


def chain(rng, rec):
    from scipy import stats
    from regain.bayesian import wishart_process_ as wp
    from regain.bayesian.stats import t_mvn_logpdf

    groups, T, p = data(rng, bool(rng.rand() < 0.5))
    groups = [g - g.mean(0) for g in groups]
    kept = [g.copy() for g in groups]
    n_iter = int(rng.choice([1, 3, 15, 40]))
    nu = None if rng.rand() < 0.5 else int(rng.randint(p, p + 4))
    learn = bool(rng.rand() < 0.6)
    name, values = kernel_of(rng)
    times = np.sort(rng.choice(np.arange(3 * T), T, replace=False)) * (1. if name == "rbf" else 0.13)
    base = wp._rbf_kernel if name == "rbf" else wp._periodic_kernel
    asked = []

    def likelihood(V):
        out = t_mvn_logpdf(groups, V)
        asked.append((np.array(V), out))
        return out

    widths_asked = []

    def kern(*args, **kwargs):
        widths_asked.append(float(kwargs["inverse_width"]))
        return base(times[:, None], *args, **dict({"var": 1} if name == "rbf" else {}, **kwargs))

    G = rng.randn(p, p)
    L = None if learn else np.linalg.cholesky(G.dot(G.T) + 0.3 * np.eye(p))
    given = None if L is None else L.copy()
    theta = float(rng.choice([0.1, 1., 5.]))
    kw = dict(theta=theta, var_prop=float(rng.choice([0.3, 1.])), var_Lprop=float(rng.choice([0.1, 1., 10.])),
              prior_theta_kernel=stats.lognorm(s=1.), prior_ell=stats.norm(loc=0, scale=2.), kern=kern, p=p,
              nu=nu, n_iter=n_iter, likelihood=likelihood)
    rec.describe(T=T, p=p, nu=nu, learn=learn, kernel=name, n_iter=n_iter, theta=theta)
    seed = int(rng.randint(2 ** 31 - 1))
    runs = []
    for _ in range(2):
        np.random.seed(seed)
        del asked[:]
        del widths_asked[:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                runs.append(wp.fit(L=L, **kw))
            except (np.linalg.LinAlgError, ValueError) as e:
                raise Inconclusive("chain stopped: %s" % type(e).__name__)
    out, two = runs
    rec.check("equal seeds give equal chains", all(np.array_equal(np.array(a), np.array(b))
                                                   for a, b in zip(out, two)))
    rec.check("the chain returns samples, likelihoods, widths and, if learned, scale factors",
              len(out) == (4 if learn else 3), got=len(out))
    us, logs, widths = two[:3]
    Ls = two[3] if learn else [L] * n_iter
    rec.check("one record per iteration", len(us) == len(logs) == len(widths) == len(Ls) == n_iter,
              got=(len(us), len(logs), len(widths), len(Ls)), want=n_iter)
    want = (p + 1 if nu is None else nu, p, T)
    rec.check("states have the requested degrees of freedom, variables and times",
              all(np.shape(u) == want for u in us), got=np.shape(us[0]), want=want)
    rec.check("widths are positive", (np.asarray(widths) > 0).all())
    # proposals are continuous: a width once left is never proposed again
    path = [float(widths[0])] + [float(b) for a, b in zip(widths[:-1], widths[1:]) if b != a]
    rec.check("a width stays until another is accepted", len(set(path)) == len(path), path=path)
    seen = [next((k for k, a in enumerate(widths_asked) if abs(a - w) <= 1e-12 * w), -1) for w in path]
    rec.check("recorded widths were proposed, in the order recorded", min(seen) >= 0 and sorted(seen) == seen,
              path=path, first_asked=seen)
    rec.stat("distinct widths in the chain", len(path))
    reported = 0
    for i in range(n_iter):
        C = construct(us[i], np.asarray(Ls[i]))
        if not well(C):
            rec.event("states skipped: near-singular covariance")
            continue
        ref = logpdf(groups, C)
        rec.close("the recorded likelihood is that of the recorded state", logs[i], ref,
                  atol=1e-6 * (1 + abs(ref)), iteration=i)
        seen = any(abs(v - logs[i]) <= 1e-8 * (1 + abs(v)) for _, v in asked)
        rec.check("every recorded likelihood was evaluated", seen, iteration=i)
        reported += 1
    if learn:
        rec.check("scale factors are lower triangular", all(np.allclose(np.triu(l, 1), 0) for l in Ls))
        rec.stat("distinct scale factors in the chain", len({np.asarray(l).tobytes() for l in Ls}))
    else:
        rec.check("a given scale factor is not modified", np.array_equal(L, given))
    rec.check("data are not modified", all(np.array_equal(a, b) for a, b in zip(groups, kept)))
    rec.event("chain states re-evaluated", reported)
    rec.event("likelihood evaluations observed", len(asked))
    if reported:
        rec.nontrivial(T, p, nu, learn, name, n_iter)


def estimator(rng, rec):
    from sklearn.base import clone
    from regain.bayesian.wishart_process_ import WishartProcess

    equal = bool(rng.rand() < 0.4)
    groups, T, p = data(rng, equal)
    labels = np.sort(rng.choice(np.arange(-5, 40), T, replace=False)).astype(float)
    if rng.rand() < 0.5:
        labels = np.arange(T).astype(float)
    X, y = np.vstack(groups), np.concatenate([[l] * len(g) for l, g in zip(labels, groups)])
    order = rng.permutation(len(X))
    n_iter = int(rng.choice([4, 12, 30]))
    burn = None if rng.rand() < 0.5 else int(rng.randint(0, n_iter))
    kernel = [None, "rbf", "RBF", "ess"][int(rng.randint(4))]
    centred = bool(rng.rand() < 0.4)
    params = dict(theta=float(rng.choice([0.5, 2., 100.])), n_iter=n_iter, burn_in=burn, kernel=kernel,
                  learn_ell=bool(rng.rand() < 0.6), assume_centered=centred, var_prop=float(rng.choice([0.5, 1.])),
                  var_Lprop=float(rng.choice([0.5, 10.])), mu_prior=float(rng.choice([1, 2])),
                  var_prior=float(rng.choice([1, 10])), mu_Lprior=0.5, var_Lprior=2.)
    rec.describe(T=T, p=p, equal=equal, **params)
    seed = int(rng.randint(2 ** 31 - 1))
    Xs, ys = X[order].copy(), y[order].copy()

    def run(est, A, b):
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return est.fit(A, b)
            except np.linalg.LinAlgError:
                raise Inconclusive("chain stopped: LinAlgError")
    est = run(WishartProcess(**params), Xs, ys)
    rec.check("data are not modified", np.array_equal(Xs, X[order]) and np.array_equal(ys, y[order]))
    rec.check("labels are the sorted distinct ones", np.array_equal(est.classes_, labels))
    loc = np.zeros((T, p)) if centred else np.array([g.mean(0) for g in groups])
    rec.close("one location per label", est.location_, loc, atol=1e-9 * (1 + np.abs(loc).max()))
    first = n_iter // 4 if burn is None else burn
    rec.check("the burn-in is dropped and the rest kept", len(est.samples_u_after_burnin) ==
              len(est.loglikes_after_burnin) == len(est.lps_after_burnin) == n_iter - first,
              kept=len(est.loglikes_after_burnin), want=n_iter - first)
    centredg = [g - l for g, l in zip(groups, loc)]
    best = np.max(est.loglikes_after_burnin)
    where = int(np.argmax(est.loglikes_after_burnin))
    rec.check("the likelihood of the best state is finite", np.isfinite(best), best=best)
    rec.check("width and state reported are those of the best state", est.lmap == est.lps_after_burnin[where] and
              np.array_equal(est.u_map, est.samples_u_after_burnin[where]))
    C = construct(np.asarray(est.u_map), np.asarray(est.Lmap))
    rec.close("covariances are those of the best state", est.covariance_, C, atol=1e-8 * (1 + np.abs(C).max()))
    rec.check("covariances are symmetric", np.allclose(est.covariance_, est.covariance_.transpose(0, 2, 1)))
    if not well(C):
        raise Inconclusive("near-singular covariance")
    cond = max(np.linalg.cond(c) for c in C)
    rec.check("covariances are positive definite", np.linalg.eigvalsh(est.covariance_).min() > 0)
    ref = logpdf(centredg, C)
    rec.close("the reported covariances have the best likelihood of the chain", best, ref,
              atol=1e-6 * (1 + abs(ref)))
    if cond < 1e7:
        rec.close("precision inverts covariance", est.precision_ @ est.covariance_, np.tile(np.eye(p), (T, 1, 1)),
                  atol=1e-6)
    rec.close("the score of the training data is the best likelihood", est.score(Xs, ys), ref,
              atol=1e-6 * (1 + abs(ref)))
    other = [rng.randn(int(rng.randint(2, 9)), p) * 3 for _ in range(T)]
    Xo, yo = np.vstack(other), np.concatenate([[l] * len(g) for l, g in zip(labels, other)])
    mix = rng.permutation(len(Xo))
    ref = logpdf([g - l for g, l in zip(other, loc)], C)
    rec.close("the score of other data is their likelihood around the fitted means", est.score(Xo[mix], yo[mix]),
              ref, atol=1e-6 * (1 + abs(ref)))
    rec.event("best states re-evaluated")
    again = run(clone(est), X, y)
    rec.close("a clone with the same seed gives the same fit, whatever the row order", again.covariance_,
              est.covariance_, atol=1e-6 * (1 + np.abs(C).max()))
    refit = run(est, X + 0., y)
    rec.close("a refit with the same seed gives the same fit", refit.covariance_, again.covariance_,
              atol=1e-6 * (1 + np.abs(C).max()))
    rec.nontrivial(T, p, kernel, params["learn_ell"], n_iter, first, equal)


def prediction(rng, rec):
    from functools import partial
    from regain.bayesian import wishart_process_ as wp

    T, p = int(rng.randint(2, 8)), int(rng.randint(1, 5))
    nu, m = int(rng.randint(1, 6)), int(rng.randint(1, 7))
    name, values = kernel_of(rng)
    step = float(rng.choice([0.5, 1., 3.])) if name == "rbf" else 0.9 / T
    t = np.arange(T) * step
    width = float(rng.choice([0.3, 1., 4.]))
    u, L = rng.randn(nu, p, T), np.tril(rng.randn(p, p))
    new = np.concatenate([t, rng.uniform(t.min() - 1, t.max() + 1, size=m)])
    rec.describe(T=T, p=p, nu=nu, kernel=name, width=width)
    if name == "rbf":
        var = float(rng.choice([1., 0.3, 5.]))
        kern = partial(wp._rbf_kernel, var=var)
        norm = bool(rng.rand() < 0.4)
        scale = var * (np.sqrt(width / (2 * np.pi)) if norm else 1)
        rec.close("radial kernel values", kern(t[:, None], new[:, None], inverse_width=width, normalised=norm),
                  scale * values(t, new, width), atol=1e-10 * (1 + scale))
    else:
        kern, var = wp._periodic_kernel, 1.
        rec.close("periodic kernel values", kern(t[:, None], new[:, None], inverse_width=width),
                  values(t, new, width), atol=1e-10)
    K = var * values(t, t, width)
    if np.linalg.cond(K) > 1e8:
        raise Inconclusive("kernel near singular")
    keep = u.copy(), L.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        D = wp.predict(new, t, u, L, kern, width)
    rec.check("one covariance per test time, time last", D.shape == (p, p, T + m), got=D.shape)
    W = np.linalg.solve(K, var * values(t, new, width))
    ref = construct(u.dot(W), L)
    tol = 1e-5 * (1 + np.abs(ref).max())
    rec.close("predictions use the conditional mean of the process", D.T, ref, atol=tol)
    rec.close("predictions at the training times are the fitted covariances", D.T[:T], construct(u, L), atol=tol)
    # as many test times as training times, but other ones
    Dm = wp.predict(new[m:], t, u, L, kern, width)
    rec.close("predictions depend on the test times only", Dm.T, ref[m:], atol=tol)
    rec.check("arguments are not modified", np.array_equal(u, keep[0]) and np.array_equal(L, keep[1]))
    rec.event("covariances predicted", T + m)
    rec.nontrivial(T, p, nu, name, width)


KINDS = {"chain": (chain, 300, 5000), "estimator": (estimator, 250, 4000), "prediction": (prediction, 200, 3000)}
