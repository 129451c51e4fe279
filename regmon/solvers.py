"""Workloads and oracle shared by the optimum properties (C01-C06)."""
import numpy as np

from . import refsolve as rs
from .core import not_converged, quiet

PENS = ["laplacian", "l1", "l2", "linf"]


# ------------------------------------------------------------- workloads
def sample_cov(rng, p, n, mode):
    """Data matrix of one time point in one of several regimes."""
    A = rng.randn(p, p) / np.sqrt(p) + np.eye(p)
    if mode == "plain":
        X = rng.randn(n, p).dot(A)
    elif mode == "scaled":            # badly scaled variables
        X = rng.randn(n, p).dot(A) * 10 ** rng.uniform(-0.7, 0.7, size=p)
    elif mode == "correlated":        # one dominating factor
        X = rng.randn(n, p) + 2.5 * rng.randn(n, 1)
    elif mode == "independent":
        X = rng.randn(n, p)
    elif mode == "discrete":          # ties and exact zeros
        X = rng.randint(-2, 3, size=(n, p)).astype(float)
        X[0] = np.arange(1, p + 1)
        X[1] = -np.arange(p, 0, -1)
    else:
        raise ValueError(mode)
    return X


MODES = ["plain", "scaled", "correlated", "independent", "discrete"]


def dims(rng, p=(10, 16), T=(7, 11)):
    """Sizes well above the usual ones: many variables or many times, not both."""
    if rng.rand() < 0.5:
        if rng.rand() < 0.3:
            return int(rng.randint(p[1], 2 * p[1])), 2
        return int(rng.randint(*p)), int(rng.randint(2, 4))
    if rng.rand() < 0.25:               # long histories of few variables
        return 2, int(rng.randint(T[1], 3 * T[1]))
    return int(rng.randint(2, 4)), int(rng.randint(*T))


def weight(rng, value, mode="", share=0.05):
    """A penalty weight, now and then switched off (where the data alone determine the estimate)."""
    return 0.0 if rng.rand() < share and "n<p" not in mode else float(value)


def decade(value):
    return round(np.log10(value)) if value > 0 else "zero"


def relayout(A):
    """The same numbers in another memory layout (Fortran order, a strided view), chosen by the numbers."""
    r = int(abs(float(A.sum())) * 1e5) % 6
    if r == 0:
        return np.asfortranarray(A)
    if r == 1:
        B = np.full(A.shape[:-2] + (2 * A.shape[-2], 2 * A.shape[-1]), np.nan)
        B[..., ::2, ::2] = A
        return B[..., ::2, ::2]
    if r == 2:
        return np.ascontiguousarray(A[..., ::-1])[..., ::-1]
    return A


def gen_data(rng, T, p, small=False, same=False, big=False):
    """List of T data matrices (unbalanced), raw (uncentered)."""
    mode = MODES[rng.randint(len(MODES))]
    hd = small or rng.rand() < 0.2      # fewer samples than variables
    far = rng.randint(T) if rng.rand() < 0.1 and T > 1 else -1   # one time with far more samples
    out = []
    for t in range(T):
        n = rng.randint(max(3, p // 2 + 2), p + 2) if hd else rng.randint(p + 2, 40 if not big else 260)
        if t == far:
            n *= rng.randint(20, 120)
        X = sample_cov(rng, p, n, mode)
        if same and t:
            X = out[0]
        out.append(X)
    return out, mode + ("/n<p" if hd else "") + ("/uneven" if far >= 0 else "")


def covs(Xs, centered=False):
    S = []
    for X in Xs:
        Y = X if centered else X - X.mean(0)
        S.append(Y.T.dot(Y) / X.shape[0])
    return relayout(np.array(S))


def kernel_matrix(rng, T, scale):
    k = rng.rand(T, T) * scale
    k = (k + k.T) / 2
    if T > 2 and rng.rand() < 0.5:      # some pairs unrelated
        m = rng.rand(T, T) < 0.3
        m = m | m.T
        k[m] = 0
    np.fill_diagonal(k, 1.0)
    return k


def admm_options(rng):
    kw = dict(rho=float(10 ** rng.uniform(-0.5, 1.0)))
    r = rng.randint(4)
    if r == 1:
        kw["update_rho_options"] = dict(mu=5)
    elif r == 2:
        kw["update_rho_options"] = dict(mu=20, tau_inc=1.5, tau_dec=1.5)
    kw["compute_objective"] = bool(rng.rand() < 0.7)
    return kw


def stress(rng):
    """Extreme but legal run options: data scale, penalty parameter far off, adaptation off."""
    s = float(10 ** rng.uniform(-1.2, 2.2))
    kw = dict(rho=float(10 ** rng.uniform(-4, 4)), compute_objective=bool(rng.rand() < 0.5))
    r = rng.randint(3)
    if r == 0:
        kw["update_rho_options"] = dict(mu=1e12)
    elif r == 1:
        kw["update_rho_options"] = dict(mu=2, tau_inc=3)
    return s, s * s, kw


def power(name):
    """How a temporal weight scales with the covariance (squared for the quadratic penalty)."""
    return 2 if name == "laplacian" else 1


def init_option(rng, S):
    r = rng.randint(4)
    if r == 0:
        return "zeros"
    if r == 1:
        B = np.array([np.diag(rng.uniform(0.3, 2, size=s.shape[0])) for s in np.atleast_3d(S)]) \
            if S.ndim == 3 else np.diag(rng.uniform(0.3, 2, size=S.shape[0]))
        return B
    return "empirical"


# ------------------------------------------------------------- oracle
def judge(rec, P, K, L, tag, warned, must_converge=False, ref_iters=1500, tol_gap=1e-6,
          noise=8.0, tol=1e-7):
    """The returned point must be feasible and as good as any point we find.

    ``tol`` is the tolerance the solver was asked for: it bounds how far the
    split variables may disagree, hence how much of a non-smooth penalty is
    numerical noise.
    """
    K = np.asarray(K, float)
    L = None if L is None else np.asarray(L, float)
    T, p = P.T, P.p
    fam = tag.split("/")[0]
    ok = rec.check(tag + ": finite estimate of the documented shape",
                   K.shape == (T, p, p) and np.isfinite(K).all()
                   and (L is None or (L.shape == K.shape and np.isfinite(L).all())),
                   K=K, L=L)
    if not ok:
        return
    rec.event("solver runs observed: " + fam)
    if warned:
        rec.event("runs that warned about non-convergence: " + fam)
        if must_converge:
            rec.check(tag + ": reaches the requested tolerance on a well-posed problem", False)
        else:
            rec.inconclusive(tag + " warned that it did not converge")
        return
    if must_converge:
        rec.check(tag + ": reaches the requested tolerance on a well-posed problem", True)
    sym = np.abs(K - K.transpose(0, 2, 1)).max()
    # the column-wise penalties are symmetric only in the limit
    colwise = P.psi in ("l2", "linf") or (L is not None and P.phi in ("l2", "linf"))
    if not (colwise and P.loss == "quad"):   # there the optimum itself need not be symmetric
        rec.check(tag + ": symmetric", sym <= (3000 * tol if colwise else 1e-7) *
                  (1 + np.abs(K).max()), asym=sym)
    R = K if L is None else K - L
    if P.loss == "gauss":
        ev = min(np.linalg.eigvalsh((r + r.T) / 2)[0] for r in R)
        rec.check(tag + ": observed precision positive definite", ev > 0, min_eig=ev)
        if not ev > 0:
            return
    obj = P.evaluate(K, L)
    rec.check(tag + ": feasible (finite objective, latent part psd)", np.isfinite(obj),
              obj=obj)
    if not np.isfinite(obj):
        return
    best, bK, bL = P.improve(K0=K, L0=L, iters=ref_iters)
    b2, bK2, bL2 = P.improve(iters=ref_iters)
    if b2 < best:
        best, bK, bL = b2, bK2, bL2
    gap = obj - best
    d = tol * (np.sqrt(K.size * (2 * T if P.W.any() else 1)) + np.linalg.norm(K)
               + (0 if L is None else np.linalg.norm(L)))
    g = p * (P.alpha.max() + np.triu(P.W, 1).sum() + np.triu(P.V, 1).sum()
             + (0 if P.tau is None else P.tau.max()))
    if P.psi == "laplacian" and (L is None or P.phi == "laplacian"):
        noise *= 0.05           # smooth coupling: no first-order noise
    allowed = tol_gap * (1 + abs(obj)) + noise * d * g
    if P.loss == "gauss":       # curvature of the likelihood: what an error of the asked tolerance costs
        allowed += sum(n / np.linalg.eigvalsh((r + r.T) / 2)[0] ** 2 for n, r in zip(P.n, R)) * d * d
    rec.stat("gap/allowed " + tag, gap / allowed)
    rec.stat("gap/(1+|obj|) " + tag, gap / (1 + abs(obj)))
    rec.event("independent optima computed")
    rec.check(tag + ": no feasible point has a lower documented objective",
              gap <= allowed, obj=obj, better=best, gap=gap, allowed=allowed,
              better_K=bK, returned_K=K)
    return gap


def convergence_rate(results, fams, max_fraction=0.2, least=15):
    """Aggregate oracle: runs given thousands of iterations nearly always converge."""
    out = []
    for fam in fams:
        n = sum(r["events"].get("solver runs observed: " + fam, 0) for r in results)
        bad = sum(r["events"].get("runs that warned about non-convergence: " + fam, 0)
                  for r in results)
        if n >= least:
            out.append((fam + ": given thousands of iterations, runs converge",
                        bad <= max_fraction * n, dict(runs=n, unconverged=bad)))
    return out


def run_watched(rec, f):
    with rec.watching_warnings() as w, quiet():
        out = f()
    return out, not_converged(w)


def similarity_of(D):
    """Distances between the networks of all pairs of times, turned into similarities."""
    return 1 - D / (D.max() or 1)


def learned_kernel(sim, n_clusters, beta):
    """The kernel a similarity estimator settles on: same cluster of the learned similarity, plus closeness in time."""
    import warnings
    from sklearn.cluster import AgglomerativeClustering
    T = len(sim)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lab = AgglomerativeClustering(n_clusters=n_clusters or T, metric="precomputed",
                                      linkage="complete").fit_predict(sim)
    t = np.arange(T, dtype=float)
    return (lab[:, None] == lab[None]) * 1.0 + np.exp(-0.5 * (t[:, None] - t[None]) ** 2 / beta ** 2)
