"""C08: sparse + low-rank matrix decomposition reaches its optimum."""
import numpy as np

from .. import refsolve as rs
from ..solvers import PENS, admm_options, convergence_rate, dims, judge, power, run_watched, stress

RULE = ("(large: p up to 36 or T up to 11, up to 260 samples per time; stress: data scale 1e-1..1e2, rho 1e-4..1e4, adaptation off or "
        "aggressive) random symmetric matrices (sparse minus low-rank plus noise, indefinite, or positive "
        "definite), p in 2..8, single matrix (infimal convolution) or T in 1..5 matrices with "
        "every pair of temporal penalties, regularisation over three decades, time on first "
        "or last axis through the estimator; keyed by (entry, regime, penalties, T, p, "
        "decades of alpha and tau)")
ASSUMPTIONS = ["tol=rtol=1e-7 (single) / 1e-6 (temporal) and 6000 iterations stand for 'run to "
               "convergence'"]


def target(rng, T, p):
    mode = str(rng.choice(["sparse-lowrank", "indefinite", "definite"]))
    out = []
    B = rng.randn(p, p) * (rng.rand(p, p) < 0.4)
    V = rng.randn(p, max(1, p // 3))
    for t in range(T):
        if mode == "sparse-lowrank":
            M = (B + B.T) / 2 + np.diag(rng.uniform(0.5, 2, p)) - V.dot(V.T)
            M = M + 0.1 * (lambda a: a + a.T)(rng.randn(p, p))
            V = V + 0.2 * rng.randn(*V.shape)
        elif mode == "indefinite":
            M = rng.randn(p, p)
            M = M + M.T
        else:
            M = rng.randn(p + 3, p)
            M = M.T.dot(M) / 3
        out.append(M)
    return np.array(out), mode


def single(rng, rec, hard=False, big=False):
    from regain.covariance.infimal_convolution_ import infimal_convolution

    p = int(rng.randint(2, 9) if not big else rng.randint(12, 26))
    S, mode = target(rng, 1, p)
    alpha, tau = float(10 ** rng.uniform(-2, 0.7)), float(10 ** rng.uniform(-2, 1))
    kw = admm_options(rng)
    if hard:
        s, s2, kw = stress(rng)
        S, alpha, tau = S * s, alpha * s, tau * s
    kw.update(tol=1e-7, rtol=1e-7, max_iter=6000)
    rec.describe(p=p, regime=mode, alpha=alpha, tau=tau, **kw)
    S0 = S.copy()
    out, warned = run_watched(rec, lambda: infimal_convolution(S[0], alpha=alpha, tau=tau, **kw))
    rec.check("input untouched", np.array_equal(S, S0))
    P = rs.Problem(S, None, alpha, tau=tau, loss="quad", quad=0.5)
    judge(rec, P, out[0][None], out[1][None], "large" if big else "stress" if hard else "single", warned)
    rank = int((np.linalg.eigvalsh(out[1]) > 1e-8).sum())
    rec.nontrivial(mode, p, round(np.log10(alpha)), round(np.log10(tau)), rank)


def large_case(rng, rec):
    (single if rng.rand() < 0.4 else temporal)(rng, rec, big=True)


def hard_case(rng, rec):
    (single if rng.rand() < 0.4 else temporal)(rng, rec, hard=True)


def temporal(rng, rec, hard=False, big=False):
    from regain.covariance.latent_time_matrix_decomposition import (
        LatentTimeMatrixDecomposition, latent_time_matrix_decomposition)

    p, T = int(rng.randint(2, 6)), int(rng.choice([1, 2, 3, 4, 5]))
    if big:
        p, T = dims(rng)
    S, mode = target(rng, T, p)
    alpha, tau = float(10 ** rng.uniform(-2, 0.7)), float(10 ** rng.uniform(-1.5, 1))
    beta, eta = float(10 ** rng.uniform(-2, 1)), float(10 ** rng.uniform(-2, 1))
    psi, phi = str(rng.choice(PENS)), str(rng.choice(PENS))
    kw = admm_options(rng)
    if hard:
        s, s2, kw = stress(rng)
        S, alpha, tau = S * s, alpha * s, tau * s
        beta, eta = beta * s ** (2 - power(psi)), eta * s ** (2 - power(phi))
    kw.update(tol=1e-6, rtol=1e-6, max_iter=6000, psi=psi, phi=phi, alpha=alpha, tau=tau,
              beta=beta, eta=eta)
    entry = str(rng.choice(["function", "estimator-first", "estimator-last", "estimator-list"]))
    rec.describe(entry=entry, p=p, T=T, regime=mode, **kw)
    S0 = S.copy()
    if entry == "function":
        out, warned = run_watched(rec, lambda: latent_time_matrix_decomposition(S, **kw))
        K, L = out[0], out[1]
    else:
        last = entry.endswith("last")
        est = LatentTimeMatrixDecomposition(time_on_axis="last" if last else "first", **kw)
        X = S.transpose(1, 2, 0) if last else S
        if entry.endswith("list"):
            # a list of matrices, or one matrix for one time
            X = [s for s in S] if T > 1 or rng.rand() < 0.5 else S[0]
        _, warned = run_watched(rec, lambda: est.fit(X))
        K, L = est.precision_, est.latent_
        rec.close("observed part is sparse minus latent", est.get_observed_precision(), K - L,
                  atol=1e-12)
        rec.close("reported reconstruction error", est.reconstruction_err_,
                  ((S - K + L) ** 2).sum(), rtol=1e-8)
    rec.check("input untouched", np.array_equal(S, S0))
    P = rs.Problem(S, None, alpha, rs.chain(T, beta), psi, tau, rs.chain(T, eta), phi,
                   loss="quad", quad=1.0)
    judge(rec, P, K, L, ("large" if big else "stress" if hard else "temporal") + "/%s-%s" % (psi, phi), warned, tol=1e-6, ref_iters=1200)
    rec.nontrivial(entry, mode, psi, phi, T, p, round(np.log10(alpha)), round(np.log10(tau)))


KINDS = {"single": (single, 250, 2000), "temporal": (temporal, 250, 2000),
         "large": (large_case, 48, 400), "stress": (hard_case, 200, 1500)}


def aggregate(results):
    return convergence_rate(results, ["single", "temporal"])
