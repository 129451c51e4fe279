"""C07: forward-backward solver descends to the same documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..core import quiet
from ..solvers import MODES, convergence_rate, covs, gen_data, judge, run_watched, sample_cov

RULE = ("(optimum) well-conditioned random sequences, T in 2..4, p in 2..5, both temporal "
        "penalties, step chosen by line search on gamma, on lamda (three criteria) or fixed, "
        "through function and estimator, run to tol 1e-8; (descent) any data regime, few "
        "iterations, every accepted step observed through the returned history; keyed by "
        "(entry, penalty, step rule, regime, T, p, alpha decade, beta decade)")
ASSUMPTIONS = ["optimum cases use delta=0.45 (the line-search constant) so that a run ends in "
               "a few hundred steps; runs that warn about non-convergence are inconclusive"]
CASE_LIMIT = 150


def nice_data(rng, T, p):
    Xs = []
    B = np.eye(p) + 0.15 * rng.randn(p, p)
    for t in range(T):
        n = rng.randint(3 * p + 4, 40)
        Xs.append(rng.randn(n, p).dot(B))
    return Xs


def optimum(rng, rec):
    from regain.forward_backward.time_graphical_lasso_ import (
        TimeGraphicalLassoForwardBackward, tgl_forward_backward)

    p, T = int(rng.randint(2, 6)), int(rng.choice([2, 2, 3, 4]))
    Xs = nice_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    assume = bool(rng.rand() < 0.4)
    S = covs(Xs, centered=assume)
    alpha, beta = float(10 ** rng.uniform(-1, 1.2)), float(10 ** rng.uniform(-1, 1.2))
    lap = bool(rng.rand() < 0.5)
    vareps = float(rng.choice([0, 1e-5, 0.5]))
    choose = str(rng.choice(["gamma", "lamda", "fixed"]))
    crit = str(rng.choice(["a", "b", "c"]))
    # data in other units: the same problem with precisions and steps on another scale
    unit = float(rng.choice([1, 1, 0.3, 0.1]))
    Xs = [x * unit for x in Xs]
    S = covs(Xs, centered=assume)
    alpha, beta, vareps = alpha * unit ** 2, beta * unit ** 2, vareps * unit ** 4
    gamma = (1.0 if choose == "gamma" else 0.15 / max(n)) / unit ** 4
    if lap and choose != "gamma":
        gamma = 1.0 / (1.0 / gamma + 8 * beta)
    entry = str(rng.choice(["function", "function-unweighted", "estimator"]))
    w = None if entry == "function-unweighted" else n
    if w is None and choose != "gamma":
        gamma *= max(n) / 2.0 if not lap else 1.0
    kw = dict(max_iter=1500, tol=1e-8, choose=choose, lamda_criterion=crit, gamma=gamma,
              delta=0.45, laplacian_penalty=lap, vareps=vareps)
    rec.describe(entry=entry, p=p, T=T, n=n, alpha=alpha, beta=beta, laplacian=lap, **kw)
    if entry == "estimator":
        X, y = np.vstack(Xs), np.repeat(np.arange(T), n)
        o = rng.permutation(len(y))
        est = TimeGraphicalLassoForwardBackward(alpha=alpha, beta=beta, assume_centered=assume,
                                                **kw)
        _, warned = run_watched(rec, lambda: est.fit(X[o], y[o]))
        K = est.precision_
    else:
        out, warned = run_watched(rec, lambda: tgl_forward_backward(
            S, alpha=alpha, beta=beta, n_samples=w, **kw))
        K = out[0]
    P = rs.Problem(S, w, alpha, rs.chain(T, beta), "laplacian" if lap else "l1", jitter=vareps)
    judge(rec, P, K, None, "forward-backward/%s" % ("laplacian" if lap else "l1"), warned,
          tol=1e-7, tol_gap=1e-7, noise=0.1)
    rec.nontrivial(entry, lap, choose, crit, T, p, round(np.log10(alpha)),
                   round(np.log10(beta)), vareps)


def descent(rng, rec):
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward

    p, T = int(rng.randint(2, 6)), int(rng.choice([2, 3, 4]))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    S = covs(Xs)
    alpha, beta = float(10 ** rng.uniform(-1, 1.2)), float(10 ** rng.uniform(-1, 1.2))
    lap = bool(rng.rand() < 0.5)
    choose, crit = [("gamma", "b"), ("lamda", "b"), ("lamda", "c"), ("both", "b"),
                    ("both", "c")][rng.randint(5)]
    vareps = float(rng.choice([0, 1e-5, 0.5]))
    delta = float(rng.choice([1e-4, 0.1, 0.45]))
    init = np.array([np.diag(rng.uniform(0.5, 1.5, p)) / s.diagonal() for s in S])
    init = np.array([np.diag(i.diagonal()) for i in init])
    kw = dict(max_iter=int(rng.randint(3, 40)), tol=1e-12, choose=choose, lamda_criterion=crit,
              gamma=1.0 if choose == "gamma" else 0.1, delta=delta, laplacian_penalty=lap,
              vareps=vareps, init=init, return_history=True)
    rec.describe(p=p, T=T, n=n, regime=mode, alpha=alpha, beta=beta,
                 **{k: v for k, v in kw.items() if k != "init"})
    (K, C, hist, it), warned = run_watched(rec, lambda: tgl_forward_backward(
        S, alpha=alpha, beta=beta, n_samples=n, **kw))
    P = rs.Problem(S, n, alpha, rs.chain(T, beta), "laplacian" if lap else "l1", jitter=vareps)
    objs = np.array([h.obj for h in hist], float)
    rec.event("accepted steps observed", len(objs) - 1)
    o0, o1 = P.evaluate(init), P.evaluate(K)
    tolr = 1e-9 * (1 + np.abs(objs[np.isfinite(objs)]).max())
    rec.check("first reported objective is the documented one at the start",
              abs(objs[0] - o0) <= 1e-6 * (1 + abs(o0)), reported=objs[0], recomputed=o0)
    if np.isfinite(o1) and np.isfinite(objs[-1]):
        rec.check("last reported objective is the documented one at the result",
                  abs(objs[-1] - o1) <= 1e-6 * (1 + abs(o1)), reported=objs[-1], recomputed=o1)
    up = np.diff(objs)
    rec.check("no accepted step increases the objective",
              np.isfinite(objs).all() and (up <= tolr + 1e-7 * abs(objs[:-1])).all(),
              objectives=objs, worst=up.max() if len(up) else 0)
    ev = min(np.linalg.eigvalsh((k + k.T) / 2)[0] for k in K)
    rec.check("iterates stay symmetric positive definite",
              ev > 0 and np.abs(K - K.transpose(0, 2, 1)).max() <= 1e-8 * (1 + np.abs(K).max()),
              min_eig=ev)
    rec.check("iteration count matches the history", it == len(hist) - 1 and it <= kw["max_iter"],
              n_iter=it, history=len(hist))
    rec.nontrivial(mode, lap, choose, crit, delta, T, p, round(np.log10(alpha)),
                   round(np.log10(beta)))


KINDS = {"optimum": (optimum, 140, 800), "descent": (descent, 120, 800)}


def aggregate(results):
    return convergence_rate(results, ["forward-backward"], max_fraction=0.35)
