"""Random estimators of the covariance family with the solver call they stand for."""
import numpy as np

from .solvers import PENS, admm_options, init_option, kernel_matrix

STATIC = ["GL", "LGL"]
TIME = ["TGL", "LTGL", "KTGL", "KLTGL", "STGL", "SLTGL", "FB"]


def build(rng, name, T, p, S, max_iter=300, tol=None, kernel_fn=False, init=True):
    """-> (estimator, solver(S, n) giving dict(precision=, latent=, covariance=, n_iter=))."""
    from regain.covariance import (GraphicalLasso, LatentGraphicalLasso,
                                   LatentTimeGraphicalLasso, TimeGraphicalLasso)
    from regain.covariance.graphical_lasso_ import graphical_lasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import (
        KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso,
        kernel_latent_time_graphical_lasso)
    from regain.covariance.kernel_time_graphical_lasso_ import (
        KernelTimeGraphicalLasso, SimilarityTimeGraphicalLasso, kernel_time_graphical_lasso)
    from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
    from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
    from regain.covariance.time_graphical_lasso_ import time_graphical_lasso

    tol = float(10 ** rng.uniform(-6, -3)) if tol is None else tol
    kw = admm_options(rng)
    kw.update(tol=tol, rtol=float(tol * rng.choice([0.5, 1, 3])), max_iter=max_iter,
              alpha=float(10 ** rng.uniform(-1, 0.7)))
    if init:
        kw["init"] = init_option(rng, S if name in TIME else S[0])
    extra = {}
    if name == "GL":
        kw["over_relax"] = float(rng.choice([1.0, 1.3]))
        est = GraphicalLasso(**kw)

        def solve(S, n):
            o = graphical_lasso(S[0], return_history=True, **kw)
            return dict(precision=o[0], covariance=o[1], history=o[2], n_iter=o[3])
        return est, solve, kw
    if name == "LGL":
        kw["tau"] = float(10 ** rng.uniform(-0.5, 1))
        est = LatentGraphicalLasso(**kw)

        def solve(S, n):
            o = latent_graphical_lasso(S[0], return_history=True, **kw)
            return dict(precision=o[0], latent=o[1], covariance=o[2], history=o[3], n_iter=o[4])
        return est, solve, kw
    kw["psi"] = str(rng.choice(PENS))
    if name == "TGL":
        kw["beta"] = float(10 ** rng.uniform(-1, 1))
        hist = bool(rng.rand() < 0.5)
        est = TimeGraphicalLasso(return_history=hist, **kw)

        def solve(S, n):
            o = time_graphical_lasso(S, n_samples=n, return_history=True, **kw)
            return dict(precision=o[0], covariance=o[1], history=o[2], n_iter=o[3])
        return est, solve, kw
    if name == "FB":
        from regain.forward_backward.time_graphical_lasso_ import (
            TimeGraphicalLassoForwardBackward, tgl_forward_backward)
        lap = bool(rng.rand() < 0.5)
        ch = str(rng.choice(["gamma", "lamda"]))
        kf = dict(alpha=kw["alpha"], beta=float(10 ** rng.uniform(-1, 1)), tol=tol,
                  max_iter=min(max_iter, 40), choose=ch, gamma=1.0 if ch == "gamma" else 0.01,
                  delta=0.45, laplacian_penalty=lap, vareps=float(rng.choice([1e-5, 0.1])),
                  lamda=1.0, eps=float(rng.choice([0.5, 0.7])),
                  lamda_criterion=str(rng.choice(["b", "c"])))
        if init:
            kf["init"] = kw["init"] if not (isinstance(kw["init"], str) and
                                            kw["init"] == "zeros") else "empirical"
        est = TimeGraphicalLassoForwardBackward(**kf)

        def solve(S, n):
            o = tgl_forward_backward(S, n_samples=n, return_history=True, **kf)
            return dict(precision=o[0], covariance=o[1], history=o[2], n_iter=o[3])
        return est, solve, kf
    if name in ("LTGL", "KLTGL", "SLTGL"):
        kw["tau"] = float(10 ** rng.uniform(0, 1.3))
        kw["phi"] = str(rng.choice(PENS))
    if name == "LTGL":
        kw["beta"], kw["eta"] = float(10 ** rng.uniform(-1, 1)), float(10 ** rng.uniform(-1, 1))
        est = LatentTimeGraphicalLasso(**kw)

        def solve(S, n):
            o = latent_time_graphical_lasso(S, n_samples=n, return_history=True, **kw)
            return dict(precision=o[0], latent=o[1], covariance=o[2], history=o[3], n_iter=o[4])
        return est, solve, kw
    if name in ("KTGL", "STGL"):
        W = kernel_matrix(rng, T, 2.0)
        hist = bool(rng.rand() < 0.5)
        cls = KernelTimeGraphicalLasso if name == "KTGL" else SimilarityTimeGraphicalLasso
        est = cls(kernel=W, return_history=hist, **kw)

        def solve(S, n):
            o = kernel_time_graphical_lasso(S, n_samples=n, kernel=W, return_history=True, **kw)
            return dict(precision=o[0], covariance=o[1], history=o[2], n_iter=o[3])
        return est, solve, kw
    if name in ("KLTGL", "SLTGL"):
        W, V = kernel_matrix(rng, T, 2.0), kernel_matrix(rng, T, 2.0)
        hist = bool(rng.rand() < 0.5)
        cls = KernelLatentTimeGraphicalLasso if name == "KLTGL" \
            else SimilarityLatentTimeGraphicalLasso
        est = cls(kernel_psi=W, kernel_phi=V, return_history=hist, **kw)

        def solve(S, n):
            o = kernel_latent_time_graphical_lasso(
                S, n_samples=n, kernel_psi=W, kernel_phi=V, return_history=True, **kw)
            return dict(precision=o[0], latent=o[1], covariance=o[2], history=o[3], n_iter=o[4])
        return est, solve, kw
    raise ValueError(name)


def labels(rng, T):
    """T distinct ordered labels of several types."""
    r = rng.randint(4)
    if r == 0:
        return np.arange(T), "0..T-1"
    if r == 1:
        return np.sort(rng.choice(np.arange(-20, 60), size=T, replace=False)), "integers"
    if r == 2:
        return np.round(np.cumsum(rng.uniform(0.01, 3, size=T)) - 5, 3), "floats"
    return np.array(sorted("%s%02d" % (c, rng.randint(100)) for c in "kdwbzqam"[:T])), "strings"


def stack(rng, Xs, labs, shuffle=True):
    X = np.vstack(Xs)
    y = np.repeat(labs, [x.shape[0] for x in Xs])
    if shuffle:
        o = rng.permutation(len(y))
        X, y = X[o], y[o]
    return X, y
