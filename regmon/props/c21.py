"""C21: graphical models with Gaussian, Ising and Poisson conditionals reach their optimum."""
import numpy as np

from ..core import internal, quiet, size

RULE = ("random Gaussian, binary (-1/1 and 0/1) and count data sets with 4..30 samples and 2..6 variables, "
        "regularisation over three decades, step sizes below the stability limit, tolerance 1e-9; KKT "
        "residuals of the penalised pseudo-likelihood on the returned network, monotone objective along "
        "the recorded path, truthful history, symmetrisation of neighbourhoods; keyed by (model, n, d, "
        "decade of alpha, edges kept, reconstruction)")
ASSUMPTIONS = ["a run that stops at the iteration limit is undecided",
               "the fixed-step models are given a step below the inverse Lipschitz constant of the loss",
               "the Poisson model is used without intercept"]
CASE_LIMIT = 120


def grads(kind, X, theta, r, sel):
    """(mean negative conditional log-likelihood, gradient) of variable r given the others."""
    n = len(X)
    Z, x = X[:, sel], X[:, r]
    e = Z.dot(theta)
    if kind == "gaussian":
        return (0.5 * e.dot(e) - x.dot(e)) / n, Z.T.dot(e - x) / n
    if kind == "poisson":
        return (np.exp(e).sum() - x.dot(e)) / n, Z.T.dot(np.exp(e) - x) / n
    return (np.logaddexp(e, -e).sum() - x.dot(e)) / n, Z.T.dot(np.tanh(e) - x) / n


def others(d, r):
    return [j for j in range(d) if j != r]


def l1_kkt(theta, g, alpha):
    nz = np.abs(theta) > 1e-9
    v = np.where(nz, np.abs(g + alpha * np.sign(theta)), np.maximum(np.abs(g) - alpha, 0))
    return float(v.max()) if v.size else 0.0


def full(X, K, alpha):
    """Ising objective of a symmetric network."""
    d = X.shape[1]
    v = sum(grads("ising", X, K[others(d, r), r], r, others(d, r))[0] for r in range(d))
    return v + alpha * (np.abs(K).sum() - np.abs(np.diag(K)).sum())


def ising_gradient(X, K):
    d = X.shape[1]
    G = np.zeros((d, d))
    for r in range(d):
        G[r, others(d, r)] = grads("ising", X, K[others(d, r), r], r, others(d, r))[1]
    return (G + G.T) / 2


def binary(rng):
    n, d = size(rng, 6, 26, 150), size(rng, 2, 6, 10)
    base = rng.randn(n, d) + rng.uniform(0, 1) * rng.randn(n, 1)
    X = np.where(base > rng.uniform(-0.5, 0.5), 1.0, -1.0)
    return (X + 1) / 2 if rng.rand() < 0.4 else X


def path(rec, thetas, checks, skip, tol, limit, obj, tag, mono=True):
    """Truthfulness of the recorded path; True when the run converged."""
    rec.check(tag + ": one check per iteration, within the limit",
              len(checks) == len(thetas) - 1 - skip and len(thetas) - 1 <= limit,
              checks=len(checks), iterates=len(thetas), limit=limit)
    rec.event("iterations observed", len(thetas) - 1)
    vals = [obj(t) for t in thetas]
    rec.close(tag + ": recorded objectives are those of the iterates", [c.obj for c in checks],
              vals[1 + skip:], rtol=1e-8, atol=1e-10)
    steps = [np.linalg.norm(b - a) for a, b in zip(thetas[skip:], thetas[1 + skip:])]
    rec.close(tag + ": recorded steps are those of the iterates", [c.iter_norm for c in checks], steps,
              rtol=1e-8, atol=1e-14)
    if mono:
        worst = max([b - a for a, b in zip(vals, vals[1:])] or [0.0])
        rec.check(tag + ": the objective never increases", worst <= 1e-9 * (1 + abs(vals[0])), rise=worst)
    below = [k for k, s in enumerate(steps) if s < tol * (1 - 1e-9)]
    conv = bool(below)
    rec.check(tag + ": stops at the first step below the tolerance, and only then",
              (not conv and len(thetas) - 1 == limit) or (conv and below[0] >= len(steps) - 2) or
              abs(steps[-1] - tol) <= 1e-9 * tol, steps=steps[-3:], n=len(thetas))
    if not conv:
        rec.inconclusive("iteration limit reached")
        rec.event("runs at the iteration limit")
    else:
        rec.event("runs converged")
    return conv


def ising(rng, rec):
    from regain.generalized_linear_model import glm_ising
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel, loss, objective

    inner = internal(glm_ising, "_fit", "X", "A", "rho", "T", "warm_start")

    X = binary(rng)
    n, d = X.shape
    L = np.linalg.eigvalsh(X.T.dot(X) / n)[-1] + 1e-3
    alpha = float(10 ** rng.uniform(-2.3, -0.2))
    gamma = float(rng.uniform(0.5, 1.0) / L)
    limit = int(rng.choice([3, 20, 6000, 6000]))
    tol = float(10 ** rng.uniform(-9, -7)) if limit == 6000 else 1e-3
    rec.describe(n=n, d=d, values=np.unique(X), alpha=alpha, gamma=gamma, limit=limit, tol=tol)
    X0 = X.copy()
    with quiet():
        m = IsingGraphicalModel(alpha=alpha, gamma=gamma, tol=tol, max_iter=limit).fit(X)
    rec.check("data untouched", np.array_equal(X, X0))
    K = m.precision_
    thetas, checks = m.history
    rec.check("the network is the last iterate", np.array_equal(K, thetas[-1]) and
              np.array_equal(m.get_precision(), K))
    rec.check("the network is symmetric without self-loops", np.array_equal(K, K.T) and
              not np.diag(K).any())
    A = rng.randn(d, d)
    A = (A + A.T) / 2
    np.fill_diagonal(A, 0)
    rec.close("loss is the pseudo-likelihood", loss(X, A), full(X, A, 0), rtol=1e-9)
    rec.close("objective adds the off-diagonal norm", objective(X, A, alpha), full(X, A, alpha), rtol=1e-9)
    B = A.copy()
    B[0, 1] += 0.5
    rec.check("a non-symmetric matrix is infeasible", np.isinf(loss(X, B)) and loss(X, B) > 0)
    conv = path(rec, thetas, checks, 0, tol, limit, lambda t: full(X, t, alpha), "Ising")
    if conv and limit == 6000:
        off = ~np.eye(d, dtype=bool)
        r = l1_kkt(K[off], ising_gradient(X, K)[off], alpha)
        rec.stat("largest KKT residual: Ising", r)
        rec.check("Ising: optimality conditions hold", r <= 2e-5 * (1 + alpha) + 10 * tol / gamma, residual=r,
                  alpha=alpha)
        rec.nontrivial("ising", n, d, round(np.log10(alpha)), int((K != 0).sum()))
    if inner is not None and rng.rand() < 0.5:     # the proximal problem solved inside the temporal model
        rho, T = float(10 ** rng.uniform(-1, 0.7)), int(rng.randint(1, 5))
        g2 = float(0.9 / (L + rho * T))
        Aq = A + np.diag(rng.randn(d))
        with quiet():
            warm = None
            if rng.rand() < 0.5:
                warm = rng.randn(d, d)
                warm = warm + warm.T
            w0 = None if warm is None else warm.copy()
            K2, th2, ch2 = inner(X, alpha=alpha, gamma=g2, tol=1e-10, max_iter=4000, A=Aq, T=T, rho=rho,
                                 warm_start=warm)
        rec.check("the starting point is used and left alone", warm is None or
                  (np.array_equal(warm, w0) and np.array_equal(th2[0], w0)))
        if len(ch2) < 4000:
            G = ising_gradient(X, K2) + rho * T * (K2 - Aq)
            off = ~np.eye(d, dtype=bool)
            r = max(l1_kkt(K2[off], G[off], alpha), np.abs(np.diag(G)).max())
            rec.check("Ising with a quadratic term: optimality conditions hold", r <= 1e-4 * (1 + rho * T),
                      residual=r, rho=rho, T=T)
            rec.event("proximal problems judged")


def neighbours(rng, d):
    out = [rng.randn(d - 1) * (rng.rand(d - 1) < 0.6) for _ in range(d)]
    return [v[None] if rng.rand() < 0.2 else v for v in out]


def want_matrix(nb, how):
    d = len(nb)
    F = np.zeros((d, d))
    for i in range(d):
        F[i, others(d, i)] = np.ravel(nb[i])
    M = np.eye(d)
    for i in range(d):
        for j in range(d):
            if i != j and (how == "union" or (F[i, j] != 0 and F[j, i] != 0)):
                M[i, j] = (F[i, j] + F[j, i]) / 2
    return M


def combine(rng, rec):
    from regain.generalized_linear_model.base import build_adjacency_matrix

    d = size(rng, 2, 9, 30)
    nb = neighbours(rng, d)
    how = str(rng.choice(["union", "intersection", "UNION", "Intersection"]))
    copies = [v.copy() for v in nb]
    M = build_adjacency_matrix(nb, how=how)
    rec.describe(d=d, how=how)
    rec.close("edges average the two neighbourhood estimates, under the rule chosen", M,
              want_matrix(nb, how.lower()), rtol=1e-12)
    rec.check("neighbourhoods untouched", all(np.array_equal(a, b) for a, b in zip(nb, copies)))
    rec.nontrivial(d, how, int((M != 0).sum()))


def node_problems(rng, rec):
    kind = str(rng.choice(["gaussian", "poisson"]))
    n, d = size(rng, 5, 31, 150), size(rng, 2, 7, 10)
    alpha = float(10 ** rng.uniform(-2, 0.2))
    how = str(rng.choice(["union", "intersection"]))
    limit = int(rng.choice([2, 15, 8000, 8000, 8000]))
    tol = float(10 ** rng.uniform(-9, -7)) if limit == 8000 else 1e-3
    if kind == "gaussian":
        from regain.generalized_linear_model.glm_gaussian import Gaussian_GLM_GM
        X = rng.randn(n, d) + rng.uniform(0, 1) * rng.randn(n, 1)
        if rng.rand() < 0.3:
            sc = float(10 ** rng.uniform(-0.6, 0.4))
            X, alpha = X * sc, alpha * sc ** 2
        L = max(np.linalg.eigvalsh(X.T.dot(X) / n)[-1], 1e-3)
        gamma = float(rng.uniform(0.6, 1.0) / L)
        est = Gaussian_GLM_GM(alpha=alpha, tol=tol, max_iter=limit, reconstruction=how)
        args = dict(gamma=gamma)
    else:
        from regain.generalized_linear_model.glm_poisson import PoissonGraphicalModel
        X = rng.poisson(rng.uniform(0.3, 2, size=d), size=(n, d)).astype(float)
        if rng.rand() < 0.3:
            # large, positively dependent counts: large predictors, tiny steps
            d = int(rng.choice([2, 2, 3, 4]))
            X = (rng.poisson(rng.uniform(3, 15, size=d), size=(n, d)) +
                 rng.poisson(rng.uniform(5, 20), size=(n, 1))).astype(float)
            limit = 8000 if d == 2 else int(rng.choice([15, 60, 300]))
            tol = 1e-9 if d == 2 else tol
        gamma = float(10 ** rng.uniform(-2, 0))
        est = PoissonGraphicalModel(alpha=alpha, tol=tol, max_iter=limit, gamma=gamma, reconstruction=how)
        args = {}
    rec.describe(model=kind, n=n, d=d, alpha=alpha, how=how, gamma=gamma, limit=limit, tol=tol)
    X0 = X.copy()
    with quiet():
        est.fit(X, **args)
    rec.check("data untouched", np.array_equal(X, X0))
    rec.check("one history per variable", len(est.history) == d)
    if kind == "poisson":
        from regain.generalized_linear_model.glm_poisson import loss, objective
        A = rng.randn(d, d) * 0.3 * (rng.rand(d, d) < 0.7) / (1 + X.max())
        A = (A + A.T) / 2
        want = sum(grads(kind, X, A[r, others(d, r)], r, others(d, r))[0] for r in range(d))
        rec.close("poisson: loss is the pseudo-likelihood", loss(X, A), want, rtol=1e-9)
        rec.close("poisson: objective adds the off-diagonal norm", objective(X, A, alpha),
                  want + alpha * (np.abs(A).sum() - np.abs(np.diag(A)).sum()), rtol=1e-9)
        A[0, 1] += 0.5
        rec.check("poisson: a non-symmetric matrix is infeasible", objective(X, A, alpha) == np.inf)
    nb, kept = [], 0
    for r, (thetas, checks) in enumerate(est.history):
        sel = others(d, r)
        conv = path(rec, thetas, checks, int(kind == "poisson"), tol, limit,
                    lambda t: grads(kind, X, t, r, sel)[0] + alpha * np.abs(t).sum(), kind)
        z = thetas[-1]
        nb.append(z)
        kept += int((z != 0).sum())
        if conv and limit == 8000:
            g = grads(kind, X, z, r, sel)[1]
            res = l1_kkt(z, g, alpha)
            # the accepted step is at least a fraction of the inverse curvature at the solution
            H = X[:, sel].T.dot(X[:, sel] * (np.exp(X[:, sel].dot(z)) if kind == "poisson" else
                                             np.ones(n))[:, None]) / n
            lim = 1e-5 * (1 + alpha) + 40 * tol * max(np.linalg.eigvalsh(H)[-1], 1 / gamma)
            rec.stat("largest KKT residual: " + kind, res / lim)
            rec.check(kind + ": optimality conditions hold for every variable", res <= lim, residual=res,
                      limit=lim, alpha=alpha)
            rec.nontrivial(kind, n, d, round(np.log10(alpha)), kept, how)
    rec.close("the network combines the neighbourhoods", est.precision_, want_matrix(nb, how), rtol=1e-12)


def logistic(rng, rec):
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel

    X = binary(rng)
    if rng.rand() < 0.5:
        X = np.vstack([X, X[rng.randint(len(X), size=int(rng.randint(60, 400)))]])
    n, d = X.shape
    for j in range(d):          # both values present in every column
        X[0, j], X[1, j] = X.min(), X.max()
    alpha, how = float(10 ** rng.uniform(-1.5, 1)), str(rng.choice(["union", "intersection"]))
    rec.describe(n=n, d=d, alpha=alpha, how=how)
    with quiet():
        m = IsingGraphicalModel(alpha=alpha, mode="logistic_regression", reconstruction=how).fit(X)
    K = m.precision_
    rec.check("logistic: symmetric with unit diagonal", np.array_equal(K, K.T) and
              np.all(np.diag(K) == 1))
    from sklearn.linear_model import LogisticRegression
    nb = []
    for r in range(d):
        with quiet():
            c = LogisticRegression(C=1 / alpha, penalty="l1", solver="liblinear", random_state=0).fit(
                X[:, others(d, r)], X[:, r]).coef_[0]
        nb.append(c)
    F = np.zeros((d, d))
    for r in range(d):
        F[r, others(d, r)] = nb[r]
    # entries whose presence does not hinge on the accuracy of the regressions
    sure = ((np.abs(F) > 0.1) | (F == 0)) & ((np.abs(F.T) > 0.1) | (F.T == 0)) & ~np.eye(d, dtype=bool)
    want = want_matrix(nb, how)
    rec.check("logistic: edges are those of the penalised regressions",
              np.allclose(K[sure], want[sure], rtol=0.05, atol=0.03), got=K, want=want)
    rec.event("edges judged", int(sure.sum()))
    rec.nontrivial("logistic", n, d, round(np.log10(alpha)), how)


def aggregate(results):
    long = [r for r in results if r["kind"] in ("ising", "node_problems")]
    bad = sum(1 for r in long if r["inconclusive"])
    return [("well-posed problems converge", bad <= 0.75 * len(long) + 2, {"limit reached": bad, "of": len(long)})]


KINDS = {"ising": (ising, 160, 1200), "node_problems": (node_problems, 240, 1500),
         "combine": (combine, 200, 3000), "logistic": (logistic, 100, 600)}
