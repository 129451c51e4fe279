"""C03: kernel time graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..core import not_converged, quiet
from ..solvers import (PENS, admm_options, convergence_rate, covs, dims, gen_data, init_option,
                       judge, kernel_matrix, learned_kernel, power, run_watched, similarity_of, stress, decade, weight)

RULE = ("(auto) a kernel family logged as its parameter is searched for; (learned) the similarity estimator without a kernel, judged at the kernel of its own "
        "similarity; (large: p up to 31 or T up to 32; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random sequences of T in 1..5 unbalanced data sets, p in 2..6, random symmetric "
        "kernel matrices (with unrelated pairs), no kernel, or RBF / constant / periodic "
        "kernel functions evaluated on irregularly spaced numeric labels; alpha over three "
        "decades, every temporal penalty, random ADMM options and starting point; keyed by "
        "(entry, kernel, penalty, regime, T, p, alpha decade)")
ASSUMPTIONS = ["tol=rtol=1e-7 and 6000 iterations stand for 'run to convergence'"]


def case(rng, rec, hard=False, big=False):
    from regain.covariance.kernel_time_graphical_lasso_ import (
        KernelTimeGraphicalLasso, SimilarityTimeGraphicalLasso,
        kernel_time_graphical_lasso)
    from sklearn.gaussian_process import kernels as gk

    p = int(rng.choice([2, 3, 4, 6]))
    T = int(rng.choice([1, 2, 3, 3, 4, 5]))
    if big:
        p, T = dims(rng)
    Xs, mode = gen_data(rng, T, p, big=big)
    n = np.array([x.shape[0] for x in Xs])
    alpha = weight(rng, 10 ** rng.uniform(-2 if "n<p" not in mode else -0.5, 1.2), mode, 0 if hard else 0.05)
    beta = weight(rng, 10 ** rng.uniform(-2, 1.3), share=0 if hard else 0.05)
    psi = str(rng.choice(PENS))
    entry = str(rng.choice(["function", "function-unweighted", "estimator-matrix",
                            "estimator-none", "estimator-function", "similarity-matrix"]))
    assume = bool(rng.rand() < 0.4)
    kw = admm_options(rng)
    if hard:
        entry = str(rng.choice(["function", "function-unweighted", "estimator-matrix"]))
        s, s2, kw = stress(rng)
        Xs, alpha, beta = [x * s for x in Xs], alpha * s2, beta * s2 ** power(psi)
    S = covs(Xs, centered=assume)
    kw.update(tol=1e-7, rtol=1e-7, max_iter=6000, init=init_option(rng, S), psi=psi)
    W = kernel_matrix(rng, T, beta)
    times = np.arange(T, dtype=float)
    w, kname = n, "matrix"
    if entry.startswith("function"):
        w = n if entry == "function" else None
        k = None if rng.rand() < 0.1 else W
        S0, W0 = S.copy(), W.copy()
        a = alpha
        if rng.rand() < 0.3:
            a = rng.uniform(0.3, 2, size=(T, 1, 1)) * alpha
        out, warned = run_watched(rec, lambda: kernel_time_graphical_lasso(
            S, alpha=a, kernel=k, n_samples=w, **kw))
        K = out[0]
        rec.check("inputs untouched", np.array_equal(S, S0) and np.array_equal(W, W0))
        if k is None:
            W, kname = np.eye(T), "none"
        P = rs.Problem(S, w, a, W, psi)
    else:
        if rng.rand() < 0.5:      # irregular, unordered label values
            times = np.sort(rng.uniform(0, 6, size=T))
        X, y = np.vstack(Xs), np.repeat(times, n)
        # numeric labels are compared by value: use integers when regular
        if np.allclose(times, np.arange(T)):
            y = y.astype(int)
        else:
            y = np.repeat(np.sort(rng.choice(30 + T, size=T, replace=False)), n)
            times = np.unique(y).astype(float)
        o = rng.permutation(len(y))
        kwe = dict(kw, alpha=alpha, assume_centered=assume)
        if entry == "similarity-matrix":
            est = SimilarityTimeGraphicalLasso(kernel=W, **kwe)
        elif entry == "estimator-none":
            est, W, kname = KernelTimeGraphicalLasso(kernel=None, **kwe), np.eye(T), "none"
        elif entry == "estimator-matrix":
            est = KernelTimeGraphicalLasso(kernel=W, **kwe)
        else:
            kname = str(rng.choice(["rbf", "constant", "periodic"]))
            theta = float(rng.uniform(0.5, 5))
            f = dict(rbf=gk.RBF, constant=gk.ConstantKernel, periodic=gk.ExpSineSquared)[kname]
            D = times[:, None] - times[None]
            if kname == "rbf":
                W = np.exp(-0.5 * D ** 2 / theta ** 2)
            elif kname == "constant":
                W = np.full((T, T), theta)
            else:
                W = np.exp(-2 * np.sin(np.pi * np.abs(D)) ** 2 / theta ** 2)
            est = KernelTimeGraphicalLasso(kernel=f, ker_param=theta, **kwe)
        _, warned = run_watched(rec, lambda: est.fit(X[o], y[o]))
        K = est.precision_
        P = rs.Problem(S, w, alpha, W, psi)
    rec.describe(entry=entry, p=p, T=T, n=n, regime=mode, alpha=alpha, kernel=kname, W=W,
                 psi=psi, options={k: v for k, v in kw.items() if k != "init"},
                 init=type(kw["init"]).__name__)
    judge(rec, P, K, None, ("large/" if big else "stress/" if hard else "kernel/") + psi, warned)
    rec.nontrivial(entry, kname, psi, mode, T, p, decade(alpha))


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


def chain_equivalence(rng, rec):
    """A kernel linking only consecutive times is the time-varying problem."""
    from regain.covariance.kernel_time_graphical_lasso_ import kernel_time_graphical_lasso
    from regain.covariance.time_graphical_lasso_ import time_graphical_lasso

    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    S = covs(Xs)
    alpha, beta = float(10 ** rng.uniform(-1, 1)), float(10 ** rng.uniform(-1, 1))
    psi = str(rng.choice(PENS))
    W = rs.chain(T, beta) + np.eye(T)
    kw = dict(tol=1e-7, rtol=1e-7, max_iter=6000, psi=psi, n_samples=n, alpha=alpha)
    rec.describe(p=p, T=T, n=n, alpha=alpha, beta=beta, psi=psi)
    a, wa = run_watched(rec, lambda: kernel_time_graphical_lasso(S, kernel=W, **kw))
    b, wb = run_watched(rec, lambda: time_graphical_lasso(S, beta=beta, **kw))
    if wa or wb:
        return rec.inconclusive("did not converge")
    P = rs.Problem(S, n, alpha, rs.chain(T, beta), psi)
    oa, ob = P.evaluate(a[0]), P.evaluate(b[0])
    rec.check("a chain kernel attains the time-varying optimum",
              abs(oa - ob) <= 1e-4 * (1 + abs(ob)) + 1e-5 * beta * p * p * T, ours=oa, tgl=ob)
    rec.nontrivial(psi, mode, T, p, decade(alpha), decade(beta))


def learned(rng, rec):
    """Without a kernel, the similarity estimator settles on a kernel consistent with its own estimates."""
    from regain.covariance.kernel_time_graphical_lasso_ import SimilarityTimeGraphicalLasso

    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 6))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    alpha, beta = float(10 ** rng.uniform(-0.5, 1)), float(rng.uniform(0.3, 3))
    psi = str(rng.choice(PENS))
    nc = None if rng.rand() < 0.4 else int(rng.randint(1, T + 1))
    labs = np.sort(rng.choice(30 + T, size=T, replace=False))
    o = rng.permutation(n.sum())
    X, y = np.vstack(Xs)[o], np.repeat(labs, n)[o]
    rec.describe(p=p, T=T, n=n, regime=mode, alpha=alpha, beta=beta, psi=psi, n_clusters=nc)
    hist = bool(rng.rand() < 0.5)
    est = SimilarityTimeGraphicalLasso(return_history=hist, alpha=alpha, beta=beta, psi=psi, n_clusters=nc, tol=1e-7, rtol=1e-7,
                                       max_iter=4000, max_iter_ext=20)
    with rec.watching_warnings() as w:
        est.fit(X, y)
    if any("not converge" in str(x.message) for x in w):
        return rec.inconclusive("did not converge")
    K = est.precision_
    D = np.array([[rs.pen(psi, K[s] - K[t]) for t in range(T)] for s in range(T)])
    rec.check("transforming gives the learned similarity", np.array_equal(est.transform(X), est.similarity_matrix_))
    if hist:
        rec.check("the history is that of the last run", len(est.history_) - est.n_iter_ in (0, 1),
                  entries=len(est.history_), n_iter=est.n_iter_)
    rec.close("the learned similarity is that of the returned precisions", est.similarity_matrix_, similarity_of(D),
              rtol=1e-7, atol=1e-7)
    W = learned_kernel(est.similarity_matrix_, nc, beta)
    judge(rec, rs.Problem(covs(Xs), n, alpha, W, psi), K, None, "learned/" + psi, False)
    rec.nontrivial("learned", psi, T, p, nc, mode)


def auto(rng, rec):
    """A kernel parameter that is searched for: it minimises the coupling, and the estimates are optimal for it."""
    from regain.covariance.kernel_time_graphical_lasso_ import KernelTimeGraphicalLasso

    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 6))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    alpha, beta = float(10 ** rng.uniform(-0.5, 1)), float(10 ** rng.uniform(-1, 1))
    psi = str(rng.choice(PENS))
    labs = np.sort(rng.choice(12, size=T, replace=False))
    o = rng.permutation(n.sum())
    X, y = np.vstack(Xs)[o], np.repeat(labs, n)[o]
    kind = str(rng.choice(["rbf", "constant", "valley", "valley"]))
    where = float(rng.uniform(0.1, 0.9) * T)
    base = beta * np.exp(-0.3 * np.abs(labs[:, None] - labs[None]))
    asked = []

    def W(theta):
        if kind == "rbf":
            return np.exp(-0.5 * (labs[:, None] - labs[None]) ** 2 / theta ** 2)
        return np.full((T, T), theta) if kind == "constant" else base * (1 + (theta - where) ** 2)

    def evaluated(theta):
        asked.append(float(theta))
        return lambda times: W(theta)

    def by_length(length_scale):
        return evaluated(length_scale)

    def by_constant(constant_value):
        return evaluated(constant_value)

    rec.describe(p=p, T=T, n=n, regime=mode, alpha=alpha, beta=beta, psi=psi, kernel=kind, valley=where)
    est = KernelTimeGraphicalLasso(alpha=alpha, psi=psi, kernel=by_constant if kind == "constant" else by_length,
                                   ker_param="auto", tol=1e-7, rtol=1e-7, max_iter=6000)
    with quiet(), rec.watching_warnings() as w:
        est.fit(X, y)
    if not_converged(w):
        return rec.inconclusive("did not converge")
    K, theta = est.precision_, asked[-1]
    rec.check("the parameter stays in its range", all(0 <= a <= T for a in asked))
    D = np.array([[rs.pen(psi, K[s] - K[t]) for t in range(T)] for s in range(T)])
    cost = lambda v: np.triu(D * W(v), 1).sum()
    best = min(asked, key=cost)
    grid = np.linspace(1e-3 * T, T, 300)
    rec.check("no other parameter couples the estimates less", cost(best) <= min(map(cost, grid)) + 1e-6 * D.sum(),
              best=best, cost=cost(best))
    if kind == "valley" and D.sum() > 1e-6:
        rec.close("the search ends at the best parameter", theta, where, atol=1e-2 * T)
    judge(rec, rs.Problem(covs(Xs), n, alpha, W(best), psi), K, None, "auto/" + psi, False)
    rec.event("kernel parameters tried", len(asked))
    rec.nontrivial("auto", kind, psi, T, p, mode)


KINDS = {"auto": (auto, 40, 400), "learned": (learned, 40, 400), "optimum": (case, 480, 3000), "large": (large_case, 36, 300), "stress": (hard_case, 120, 1200),
         "chain": (chain_equivalence, 20, 200)}


def aggregate(results):
    return convergence_rate(results, ["kernel"])
