"""C13: likelihoods and information criteria."""
import numpy as np

from ..core import size

RULE = ("random positive definite precisions (dense, sparse, diagonal, with one edge, with tiny edges; in units from 1e-40 to 1e40), covariances "
        "(also from data), single matrices and stacks of T in 1..6, n in 3..500, epsilon in 0..2; "
        "each criterion is compared with its formula evaluated here, with its additivity over time "
        "and with its monotonicity in the number of edges; keyed by (criterion, T, p, sparsity)")
ASSUMPTIONS = ["criteria are scores (higher is better): log-likelihood minus a multiple of the "
               "number of non-zero off-diagonal entries"]


def precision(rng, p):
    mode = str(rng.choice(["dense", "sparse", "diagonal", "edge", "faint"]))
    A = rng.randn(p, p)
    K = A.dot(A.T) / p
    if mode != "dense":
        if mode == "faint":         # tiny edges are edges
            K = K * 10 ** rng.uniform(-14, -4)
        if mode in ("sparse", "faint"):
            m = rng.rand(p, p) < 0.3
        elif mode == "edge":
            m = np.zeros((p, p), bool)
            if p > 1:
                m[0, 1] = True
        else:
            m = np.zeros((p, p), bool)
        m = np.triu(m, 1)
        K = K * (m + m.T)
    np.fill_diagonal(K, 0)
    np.fill_diagonal(K, np.abs(K).sum(1) + rng.uniform(0.2, 2, size=p))
    return K, mode


def covariance(rng, p):
    n = rng.randint(2, 30)
    X = rng.randn(n, p) * rng.uniform(0.3, 3)
    return X.T.dot(X) / n


def units(rng):
    """A change of units large enough for determinants (not their logarithms) to leave the floating point range."""
    return 10 ** rng.uniform(-40, 40) if rng.rand() < 0.25 else 1.0


def ll(S, K):
    return float(np.log(np.linalg.eigvalsh(K)).sum() - np.trace(S.dot(K)))


def single(rng, rec):
    from regain import scores as sc

    p = size(rng, 2, 9, 60)
    K, mode = precision(rng, p)
    u = units(rng)
    S, K = covariance(rng, p) / u, K * u
    n = int(rng.randint(3, 500))
    eps = float(rng.choice([0, 0.25, 0.5, 1, 2]))
    d = int((np.abs(K - np.diag(np.diag(K))) > 0).sum())
    L = ll(S, K)
    rec.describe(p=p, mode=mode, n=n, eps=eps, edges=d // 2)
    rec.close("log-likelihood", sc.log_likelihood(S, K), L, rtol=1e-9)
    rec.close("BIC", sc.BIC(S, K), L - d, rtol=1e-9)
    rec.close("EBIC", sc.EBIC(S, K, n=n, epsilon=eps),
              L - d * np.log(n) / n - 4 * eps * d * np.log(p) / n, rtol=1e-9)
    rec.close("EBIC_m", sc.EBIC_m(S, K, n=n, epsilon=eps),
              L - d * np.log(n) / n - 4 * eps * d * np.log(p * (p - 1) / 2) / n, rtol=1e-9)
    rec.close("EBIC defaults", sc.EBIC(S, K), sc.EBIC(S, K, n=100, epsilon=0.5), rtol=1e-12)
    rec.close("EBIC_m defaults", sc.EBIC_m(S, K), sc.EBIC_m(S, K, n=100, epsilon=0.5), rtol=1e-12)
    # indefinite with a negative determinant: impossible under the model
    B = K.copy()
    w, Q = np.linalg.eigh(B)
    w[0] = -w[0]
    rec.check("a matrix with negative determinant has likelihood minus infinity",
              sc.log_likelihood(S, (Q * w).dot(Q.T)) == -np.inf)
    # the likelihood is maximal at the inverse covariance
    C = (covariance(rng, p) + np.eye(p)) / u
    best = sc.log_likelihood(C, np.linalg.inv(C))
    rec.check("likelihood is maximal at the inverse of the covariance",
              sc.log_likelihood(C, K) <= best + 1e-9 * (1 + abs(best)))
    # permuting variables changes nothing
    q = rng.permutation(p)
    rec.close("criteria are invariant under permuting the variables",
              [f(S[q][:, q], K[q][:, q]) for f in (sc.BIC, sc.EBIC, sc.EBIC_m)],
              [f(S, K) for f in (sc.BIC, sc.EBIC, sc.EBIC_m)], rtol=1e-9)
    rec.event("criteria evaluated", 6)
    rec.nontrivial(p, mode, d, n > 100, eps)


def stacked(rng, rec):
    from regain import scores as sc

    p, T = size(rng, 2, 7, 40), size(rng, 1, 7, 20)
    Ks, modes = zip(*[precision(rng, p) for _ in range(T)])
    K = np.array(Ks)
    S = np.array([covariance(rng, p) for _ in range(T)])
    u = units(rng)
    S, K = S / u, K * u
    n = int(rng.randint(3, 500))
    eps = float(rng.choice([0, 0.25, 0.5, 1]))
    d = sum(int((np.abs(k - np.diag(np.diag(k))) > 0).sum()) for k in K)
    L = sum(ll(s, k) for s, k in zip(S, K))
    m = T * p
    rec.describe(p=p, T=T, n=n, eps=eps, modes=modes)
    rec.close("log-likelihood per time", sc.log_likelihood(S, K), [ll(s, k) for s, k in zip(S, K)],
              rtol=1e-9)
    rec.close("log-likelihood adds over time", sc.log_likelihood_t(S, K), L, rtol=1e-9)
    rec.close("BIC_t", sc.BIC_t(S, K), L - d, rtol=1e-9)
    rec.close("BIC_t adds over time", sc.BIC_t(S, K), sum(sc.BIC(s, k) for s, k in zip(S, K)),
              rtol=1e-9)
    rec.close("BIC_t accepts a list of matrices", sc.BIC_t(S, list(K)), L - d, rtol=1e-9)
    rec.close("EBIC_t", sc.EBIC_t(S, K, n=n, epsilon=eps),
              L - d * np.log(n) / n - 4 * eps * d * np.log(m) / n, rtol=1e-9)
    rec.close("EBIC_m_t", sc.EBIC_m_t(S, K, n=n, epsilon=eps),
              L - d * np.log(n) / n - 4 * eps * d * np.log(m * (m - 1) / 2) / n, rtol=1e-9)
    o = rng.permutation(T)
    rec.close("criteria do not depend on the order of the times",
              [f(S[o], K[o]) for f in (sc.BIC_t, sc.EBIC_t, sc.EBIC_m_t)],
              [f(S, K) for f in (sc.BIC_t, sc.EBIC_t, sc.EBIC_m_t)], rtol=1e-9)
    rec.event("criteria evaluated", 5)
    rec.nontrivial(p, T, modes[0], eps, n > 100)


def objectives(rng, rec):
    """Losses and likelihood helpers used for reporting agree with the same definition."""
    from regain.covariance.time_graphical_lasso_ import loss
    from regain.math import batch_logdet, create_from_diagonal, fill_diagonal, get_diagonal

    p, T = size(rng, 1, 7, 30), size(rng, 1, 6, 15)
    K = np.array([precision(rng, max(p, 2))[0] for _ in range(T)])
    S = np.array([covariance(rng, max(p, 2)) for _ in range(T)])
    n = rng.randint(1, 40, size=T)
    u = units(rng)
    S, K = S / u, K * u
    l = np.array([ll(s, k) for s, k in zip(S, K)])
    rec.close("weighted loss", loss(S, K, n_samples=n), -(n * l).sum(), rtol=1e-9)
    rec.close("unweighted loss", loss(S, K), -l.sum(), rtol=1e-9)
    rec.close("batch log-determinant", batch_logdet(K), [np.log(np.linalg.eigvalsh(k)).sum()
                                                         for k in K], rtol=1e-9, atol=1e-10)
    d = rng.randn(T, p)
    D = create_from_diagonal(d)
    rec.close("diagonal matrices", D, np.array([np.diag(x) for x in d]))
    A = rng.randn(T, p, p)
    B = A.copy()
    fill_diagonal(B, d)
    rec.check("filling the diagonal changes nothing else", np.array_equal(
        get_diagonal(B), d) and np.array_equal(B * (1 - np.eye(p)), A * (1 - np.eye(p))))
    rec.describe(p=p, T=T)
    rec.event("criteria evaluated", 3)
    rec.nontrivial(p, T)


KINDS = {"single": (single, 600, 8000), "stacked": (stacked, 500, 6000),
         "losses": (objectives, 200, 2000)}
