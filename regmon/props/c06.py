"""C06: kernel latent time graphical lasso reaches the documented optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import (PENS, admm_options, convergence_rate, covs, dims, gen_data, init_option, judge,
                       kernel_matrix, power, run_watched, stress, learned_kernel, similarity_of, decade, weight)

RULE = ("(learned: the similarity estimator without kernels, judged at the kernels of its own "
        "similarities; large: p up to 31 or T up to 32, up to 260 samples per time; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random sequences of T in 1..4 unbalanced data sets, p in 2..5, random symmetric "
        "kernel matrices or RBF kernel functions for the sparse and the latent part (each may "
        "be absent), alpha/tau over two to three decades, every pair of temporal penalties, "
        "random ADMM options and starting point; keyed by (entry, penalties, kernels, regime, "
        "T, p, decades of alpha and tau)")
ASSUMPTIONS = ["tol=rtol=1e-6 and 6000 iterations stand for 'run to convergence'; runs that "
               "warn about non-convergence are inconclusive"]


def case(rng, rec, hard=False, big=False):
    from regain.covariance.kernel_latent_time_graphical_lasso_ import (
        KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso,
        kernel_latent_time_graphical_lasso)
    from sklearn.gaussian_process import kernels as gk

    p = int(rng.choice([2, 3, 4, 5]))
    T = int(rng.choice([1, 2, 3, 3, 4]))
    if big:
        p, T = dims(rng)
    Xs, mode = gen_data(rng, T, p, big=big)
    n = np.array([x.shape[0] for x in Xs])
    alpha = weight(rng, 10 ** rng.uniform(-2 if "n<p" not in mode else -0.5, 1.2), mode, 0 if hard else 0.05)
    tau = float(10 ** rng.uniform(-0.5, 1.5))
    beta = weight(rng, 10 ** rng.uniform(-2, 1.0), share=0 if hard else 0.05)
    eta = weight(rng, 10 ** rng.uniform(-2, 1.0), share=0 if hard else 0.05)
    psi, phi = str(rng.choice(PENS)), str(rng.choice(PENS))
    entry = str(rng.choice(["function", "function-unweighted", "estimator-matrix",
                            "estimator-function", "similarity-matrix"]))
    assume = bool(rng.rand() < 0.4)
    kw = admm_options(rng)
    if hard:
        entry = "estimator-matrix" if entry == "estimator-function" else entry
        s, s2, kw = stress(rng)
        Xs, alpha, tau = [x * s for x in Xs], alpha * s2, tau * s2
        beta, eta = beta * s2 ** power(psi), eta * s2 ** power(phi)
    S = covs(Xs, centered=assume)
    kw.update(tol=1e-6, rtol=1e-6, max_iter=6000, init=init_option(rng, S), psi=psi, phi=phi)
    W, V = kernel_matrix(rng, T, beta), kernel_matrix(rng, T, eta)
    kpsi, kphi = W, V
    kn = "both"
    r = rng.rand()
    if r < 0.15:
        kphi, V, kn = None, np.eye(T), "no latent kernel"
    elif r < 0.3 and entry != "similarity-matrix":
        kpsi, W, kn = None, np.eye(T), "no sparse kernel"
    w = n
    if entry.startswith("function"):
        w = None if entry.endswith("unweighted") else n
        keep = (S.copy(), W.copy(), V.copy())
        out, warned = run_watched(rec, lambda: kernel_latent_time_graphical_lasso(
            S, alpha=alpha, tau=tau, kernel_psi=kpsi, kernel_phi=kphi, n_samples=w, **kw))
        K, L = out[0], out[1]
        rec.check("inputs untouched", all(map(np.array_equal, keep, (S, W, V))))
    else:
        labels = np.sort(rng.choice(20 + T, size=T, replace=False))
        X, y = np.vstack(Xs), np.repeat(labels, n)
        o = rng.permutation(len(y))
        kwe = dict(kw, alpha=alpha, tau=tau, assume_centered=assume)
        if entry == "similarity-matrix":
            est = SimilarityLatentTimeGraphicalLasso(kernel_psi=kpsi, kernel_phi=kphi, **kwe)
        elif entry == "estimator-matrix":
            est = KernelLatentTimeGraphicalLasso(kernel_psi=kpsi, kernel_phi=kphi, **kwe)
        else:
            D = (labels[:, None] - labels[None]).astype(float)
            t1, t2 = float(rng.uniform(1, 6)), float(rng.uniform(1, 6))
            kinds = dict(rbf=(gk.RBF, lambda t: np.exp(-0.5 * D ** 2 / t ** 2)),
                         constant=(gk.ConstantKernel, lambda t: np.full((T, T), t)),
                         periodic=(gk.ExpSineSquared,
                                   lambda t: np.exp(-2 * np.sin(np.pi * np.abs(D)) ** 2 / t ** 2)))
            k1, k2 = (str(k) for k in rng.choice(sorted(kinds), size=2))
            if kpsi is not None:
                kwe.update(kernel_psi=kinds[k1][0], ker_psi_param=t1)
                W = kinds[k1][1](t1)
            if kphi is not None:
                kwe.update(kernel_phi=kinds[k2][0], ker_phi_param=t2)
                V = kinds[k2][1](t2)
            kn = "functions %s %s" % (k1 if kpsi is not None else None, k2 if kphi is not None else None)
            cls = SimilarityLatentTimeGraphicalLasso if kpsi is not None and rng.rand() < 0.4 \
                else KernelLatentTimeGraphicalLasso
            est = cls(**kwe)
        _, warned = run_watched(rec, lambda: est.fit(X[o], y[o]))
        K, L = est.precision_, est.latent_
        rec.close("observed precision is sparse minus latent part",
                  est.get_observed_precision(), K - L, atol=1e-12)
    rec.describe(entry=entry, p=p, T=T, n=n, regime=mode, alpha=alpha, tau=tau, kernels=kn,
                 W=W, V=V, psi=psi, phi=phi,
                 options={k: v for k, v in kw.items() if k != "init"},
                 init=type(kw["init"]).__name__)
    P = rs.Problem(S, w, alpha, W, psi, tau, V, phi)

    judge(rec, P, K, L, ("large" if big else "stress" if hard else "kernel-latent") + "/%s-%s" % (psi, phi), warned, tol=1e-6, ref_iters=1200)
    rec.nontrivial(entry, psi, phi, kn, mode, T, p, decade(alpha),
                   decade(tau))


def large_case(rng, rec):
    case(rng, rec, big=True)


def hard_case(rng, rec):
    case(rng, rec, hard=True)


def learned(rng, rec):
    """Without a kernel for the sparse part, the similarity estimator settles on one consistent with its estimates."""
    from regain.covariance.kernel_latent_time_graphical_lasso_ import SimilarityLatentTimeGraphicalLasso

    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    alpha, tau = float(10 ** rng.uniform(-0.5, 1)), float(10 ** rng.uniform(0, 1.3))
    beta, eta = float(rng.uniform(0.3, 3)), float(10 ** rng.uniform(-1, 0.5))
    psi, phi = str(rng.choice(PENS)), str(rng.choice(PENS))
    nc = None if rng.rand() < 0.4 else int(rng.randint(1, T + 1))
    V = None if rng.rand() < 0.5 else kernel_matrix(rng, T, eta)
    labs = np.sort(rng.choice(30 + T, size=T, replace=False))
    o = rng.permutation(n.sum())
    X, y = np.vstack(Xs)[o], np.repeat(labs, n)[o]
    rec.describe(p=p, T=T, n=n, regime=mode, alpha=alpha, tau=tau, beta=beta, eta=eta, psi=psi, phi=phi,
                 n_clusters=nc, kernel_phi=V)
    hist = bool(rng.rand() < 0.5)
    est = SimilarityLatentTimeGraphicalLasso(return_history=hist, alpha=alpha, tau=tau, beta=beta, eta=eta, psi=psi, phi=phi,
                                             kernel_phi=V, n_clusters=nc, tol=1e-6, rtol=1e-6, max_iter=4000,
                                             max_iter_ext=20)
    with rec.watching_warnings() as w:
        est.fit(X, y)
    if any("not converge" in str(x.message) for x in w):
        return rec.inconclusive("did not converge")
    K, L = est.precision_, est.latent_
    G = est.get_precision()
    D = np.array([[rs.pen(psi, G[s] - G[t]) for t in range(T)] for s in range(T)])
    rec.check("transforming gives the learned similarity", np.array_equal(est.transform(X), est.similarity_matrix_))
    if hist:
        rec.check("the history is that of the last run", len(est.history_) - est.n_iter_ in (0, 1),
                  entries=len(est.history_), n_iter=est.n_iter_)
    rec.close("the learned similarity is that of the returned precisions", est.similarity_matrix_, similarity_of(D),
              rtol=1e-7, atol=1e-7)
    W = learned_kernel(est.similarity_matrix_, nc, beta)
    if V is None:
        V = np.eye(T) + rs.chain(T, eta)
    judge(rec, rs.Problem(covs(Xs), n, alpha, W, psi, tau, V, phi), K, L, "learned/%s-%s" % (psi, phi), False,
          tol=1e-6, ref_iters=1200)
    rec.nontrivial("learned", psi, phi, T, p, nc, mode)


KINDS = {"learned": (learned, 40, 400), "optimum": (case, 420, 3000), "large": (large_case, 24, 240), "stress": (hard_case, 120, 1200)}


def aggregate(results):
    return convergence_rate(results, ["kernel-latent"])
