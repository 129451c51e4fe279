"""C25: the Bayesian search over graphs fits, scores and averages what it says."""
import numpy as np

from ..core import quiet

RULE = ("random graphs and samples (2..6 variables; unscaled and scaled, fewer samples than variables "
        "included); every fit against the likelihood equations of its graph, every score against a formula "
        "written here, and the whole search watched through its own calls (candidates it scores, result it "
        "returns); keyed by (graph size, edges, scoring, mode)")
ASSUMPTIONS = ["the posterior scale is scatter + prior scale, its mode the completion of (scatter + prior) / "
               "(n + d0 - 2), as in Roverato (2002) and the file's own comments",
               "the 'gl' mode is judged at the tolerance of its ADMM, the 'covsel' mode at that of BFGS"]
CASE_LIMIT = 120


def spd(rng, p, lo=-0.5, hi=0.5):
    Q = np.linalg.qr(rng.randn(p, p))[0]
    M = (Q * 10 ** rng.uniform(lo, hi, size=p)).dot(Q.T)
    return (M + M.T) / 2


def ld(M):
    return np.linalg.slogdet(M)[1]


def data(rng, scales=True):
    p = int(rng.randint(2, 7))
    n = int(rng.choice([2, 4, 10, 40, 150]))
    X = rng.randn(n, p).dot(np.linalg.cholesky(spd(rng, p)).T) + rng.randn(p) * rng.choice([0, 3])
    if scales:
        X = X * 10 ** rng.uniform(-0.6, 0.6)
    return X


def graph(rng, p):
    A = np.triu(rng.rand(p, p) < rng.choice([0, 0.3, 0.6, 1.0]), 1)
    return A + np.eye(p, dtype=bool)


def scatter(X):
    D = X - X.mean(0)
    return D.T.dot(D)


# ---------------------------------------------------------------- graphs
def graphs(rng, rec):
    from regain.bayesian import gwishart_inference as B

    p = int(rng.randint(2, 6)) if rng.rand() < 0.3 else int(rng.randint(2, 5))
    Gs = [np.asarray(g) for g in B.mk_all_ugs(p)]
    keys = {g.astype(bool).tobytes() for g in Gs}
    rec.describe(p=p)
    rec.check("every graph is generated once", len(Gs) == 2 ** (p * (p - 1) // 2) == len(keys))
    rec.check("every graph is symmetric, without loops",
              all(np.array_equal(g, g.T) and not g.diagonal().any() for g in Gs))
    e = [int(g.astype(bool).sum()) // 2 for g in Gs]
    rec.check("graphs come in order of their number of edges", e == sorted(e))
    rec.event("graphs", len(Gs))

    m, q = int(rng.randint(1, 9)), int(rng.randint(2, 7))
    tol = float(10 ** rng.uniform(-9, -2))
    prec = []
    for _ in range(m):
        M = np.where(rng.rand(q, q) < 0.5, rng.randn(q, q), tol * rng.uniform(-0.9, 0.9, (q, q)))
        M = np.triu(M, 1)
        prec.append(M + M.T + np.diag(1 + rng.rand(q)))
    if m > 2:
        prec[-1] = prec[0] * 1.0
    prec0 = [x.copy() for x in prec]
    want = [{tuple(bool(abs(P[i, j]) >= tol and i != j) for j in range(q)) for P in prec} for i in range(q)]
    mb = B.markov_blankets(prec, tol=tol)
    rec.check("inputs untouched", all(np.array_equal(a, b) for a, b in zip(prec, prec0)))
    rec.check("a blanket per variable and graph: the neighbours of the variable in that graph", all(
        np.array_equal(np.asarray(mb[i]), [[abs(P[i, j]) >= tol and i != j for j in range(q)] for P in prec])
        for i in range(q)))
    un = B.markov_blankets(prec, tol=tol, unique=True)
    got = [[tuple(bool(v) for v in row) for row in un[i]] for i in range(q)]
    rec.check("unique blankets are exactly the distinct blankets of every variable",
              all(set(got[i]) == want[i] for i in range(q)))
    rec.check("joint duplicates are dropped", len(set(zip(*[tuple(g) for g in got]))) == len(got[0]))
    val = B.markov_blankets(prec, tol=tol, boolean=False)
    rec.check("weighted blankets keep the weights of the neighbours", all(
        np.array_equal(val[i][k], np.where(np.arange(q) == i, 0, np.where(np.abs(P[i]) < tol, 0, P[i])))
        for i in range(q) for k, P in enumerate(prec)))

    X = rng.randn(30, q).dot(spd(rng, q))
    with quiet():
        s = B.score_blankets(un, X, alphas=(0.01, 0.5))
    s = np.asarray(s, float)
    rec.check("scores of blankets are a distribution per variable", s.shape == np.asarray(un).shape[:2] and
              np.all(s > 0) and np.allclose(s.sum(1), 1, atol=1e-10))
    from sklearn.linear_model import LassoLars
    raw = np.empty(s.shape)
    with quiet():
        for i in range(q):
            for k in range(s.shape[1]):
                cols = [j for j in range(q) if un[i][k][j]]
                raw[i, k] = sum(LassoLars(alpha=a).fit(X[:, cols], X[:, i]).score(X[:, cols], X[:, i])
                                for a in (0.01, 0.5)) if cols else 0.0
    w = np.exp(raw)
    rec.close("the score of a blanket grows with how well it predicts its variable", s,
              w / w.sum(1, keepdims=True), rtol=1e-8, atol=1e-10)
    np.random.seed(rng.randint(2 ** 31))
    draw = getattr(B, "_get_graphs", None)  # internal: judged only while it exists
    if draw is not None:
        gs = np.asarray(draw(np.asarray(un), s, n_dim=q, n_resampling=40))
        rec.check("resampled graphs are symmetric, without loops", gs.shape == (40, q, q) and all(
            np.array_equal(g, g.T) and not g.diagonal().any() for g in gs))
        union = [set().union(*[{j for j in range(q) if row[j]} for row in got[i]]) for i in range(q)]
        rec.check("an edge of a resampled graph is in a blanket of both its ends", all(
            (not g[i, j]) or (j in union[i] and i in union[j]) for g in gs for i in range(q) for j in range(q)))
        # with one blanket per variable the graph is determined: the AND of both ends
        one = np.asarray(un)[:, :1]
        g1 = np.asarray(draw(one, np.ones((q, 1)), n_dim=q, n_resampling=2))
        both = np.array([[bool(one[i, 0, j] and one[j, 0, i]) for j in range(q)] for i in range(q)])
        rec.check("an edge needs both its ends", all(np.array_equal(g.astype(bool), both) for g in g1))
    rec.nontrivial("graphs", p, q, m, len(got[0]))


# ---------------------------------------------------------------- fit
def kkt(rec, tag, P, G, C, tol):
    p = len(C)
    sym = (G | G.T)
    rec.check(tag + ": symmetric and positive definite", np.allclose(P, P.T, atol=1e-9 * np.abs(P).max()) and
              np.linalg.eigvalsh(P)[0] > 0)
    rec.check(tag + ": no edge outside of the graph", np.all(P[~sym] == 0))
    s = np.sqrt(np.diag(C))
    if s.min() < 0.15 or s.max() / s.min() > 30 or np.linalg.cond(C / np.outer(s, s)) > 1e4:
        rec.event("fits too badly scaled for an absolute gradient tolerance")
        return
    gap = np.abs((np.linalg.inv(P) - C) / np.outer(s, s))[sym].max()
    rec.stat(tag + " gap", float(gap))
    rec.check(tag + ": the covariance agrees with the target on every edge", gap < tol, gap=gap)


def fit(rng, rec):
    from regain.bayesian import gwishart_inference as B
    from sklearn.utils import Bunch

    X = data(rng)
    n, p = X.shape
    G = graph(rng, p)
    d0 = float(rng.choice([3, 3 + p - 1, 7.5]))
    S0 = spd(rng, p) * rng.choice([0.3, 1, 3])
    X0, G0, S00 = X.copy(), G.copy(), S0.copy()
    rec.describe(n=n, p=p, edges=int(np.triu(G, 1).sum()), d0=d0)
    prior = Bunch(d0=d0, S0=S0)
    C = (scatter(X) + S0) / (n + d0 - 2)
    with quiet():
        P, S = B.GWishartFit(X, G, prior, mode="covsel")
    rec.close("the scatter of the samples", S, scatter(X), rtol=1e-8, atol=1e-8 * np.abs(S).max())
    kkt(rec, "covsel", P, G, C, 5e-3)
    with quiet():
        Pg, Sg = B.GWishartFit(X, G, prior, mode="gl")
    s = np.sqrt(np.diag(C))
    if s.max() / s.min() < 4 and np.linalg.cond(C) < 300 and 0.3 < s.max() < 3:
        kkt(rec, "gl", Pg, G, C, 0.12)
    else:
        rec.check("gl: no edge outside of the graph", np.all(Pg[~(G | G.T)] == 0))
    rec.check("arguments untouched", np.array_equal(X, X0) and np.array_equal(G, G0) and np.array_equal(S0, S00))
    for bad in ("graph", "prior"):
        try:
            with quiet():
                B.GWishartFit(X, np.eye(p + 1, dtype=bool) if bad == "graph" else G,
                              Bunch(d0=d0, S0=np.eye(p + 1) if bad == "prior" else S0))
            rec.check("a %s of the wrong size is refused" % bad, False)
        except ValueError:
            rec.check("a %s of the wrong size is refused" % bad, True)
    # objective and gradient
    x = spd(rng, p, -0.3, 0.3)[G]
    full = np.zeros((p, p))
    full[G] = x
    full = np.triu(full) + np.triu(full, 1).T
    while np.linalg.eigvalsh(full)[0] < 0.1:
        full += 0.3 * np.eye(p)
    x = full[G]
    f, g = B.covsel(x, p, G, C)
    rec.close("covariance selection objective", f, -ld(full) + (C * full).sum(), rtol=1e-9, atol=1e-9)
    for k in range(len(x)):
        h = 1e-6
        e = np.zeros(len(x))
        e[k] = h
        num = (B.covsel(x + e, p, G, C)[0] - B.covsel(x - e, p, G, C)[0]) / (2 * h)
        rec.close("covariance selection gradient", g[k], num, rtol=1e-4, atol=1e-4 * (1 + np.abs(g).max()))
    neg = full - (np.linalg.eigvalsh(full)[-1] + 1) * np.eye(p)
    f, g = B.covsel(neg[G], p, G, C)
    rec.check("the likelihood is zero outside of the positive definite cone", f == np.inf)
    rec.nontrivial("fit", p, n, int(np.triu(G, 1).sum()), d0)


# ---------------------------------------------------------------- score
def hessian(P, G, dn):
    p = len(P)
    W = np.linalg.inv(P)
    par = [(i, j) for i in range(p) for j in range(i, p) if G[i, j]]
    mats = []
    for i, j in par:
        M = np.zeros((p, p))
        M[i, j] += 1
        M[j, i] += 1
        mats.append(W.dot(M))
    return np.array([[(dn - 2) / 2.0 * np.trace(a.dot(b)) for b in mats] for a in mats])


def norm_const(P, G, dn, diag):
    H = hessian(P, G, dn)
    k = len(H)
    lh = np.log(np.diag(H)).sum() if diag else ld(H)
    return k * np.log(2 * np.pi) / 2 + (dn - 2) / 2.0 * (len(P) + ld(P)) - lh / 2.0


def score(rng, rec):
    from regain.bayesian import gwishart_inference as B
    from sklearn.utils import Bunch

    X = data(rng)
    n, p = X.shape
    G = graph(rng, p)
    d0 = float(rng.choice([3, 3 + p - 1, 7.5]))
    S0 = spd(rng, p) * rng.choice([0.3, 1, 3]) if rng.rand() < 0.8 else None
    mode = str(rng.choice(["covsel", "gl"]))
    how = str(rng.choice(["bic", "laplace", "diaglaplace"]))
    X0, G0 = X.copy(), G.copy()
    rec.describe(n=n, p=p, edges=int(np.triu(G, 1).sum()), d0=d0, mode=mode, scoring=how,
                 prior="given" if S0 is not None else "default")
    with quiet():
        post = B.GWishartScore(X, G, d0=d0, S0=None if S0 is None else S0.copy(), score_method=how, mode=mode)
    S = scatter(X)
    prior = (d0 - 2) * np.diag(X.var(0)) if S0 is None else S0
    P = post.P
    dn = n + d0
    k = int(G.sum())
    rec.check("edges and parameters counted", post.num_edges == k - p and post.dof == k)
    rec.close("degrees of freedom of the posterior", post.dn, dn, rtol=1e-12)
    rec.close("scale of the posterior", post.Sn, S + prior, rtol=1e-8, atol=1e-8 * np.abs(S + prior).max())
    if mode == "covsel":
        kkt(rec, "posterior mode", P, G, (S + prior) / (dn - 2), 5e-3)
    loglik = n / 2.0 * (ld(P) - np.trace(S.dot(P)) / n - p * np.log(2 * np.pi))
    rec.close("log-likelihood", post.loglik, loglik, rtol=1e-7, atol=1e-7 * (1 + abs(loglik)))
    rec.close("log-determinant", post.logdetP, ld(P), rtol=1e-8, atol=1e-8)
    if how == "bic":
        want = loglik - k * np.log(n) / 2
    else:
        with quiet():
            P0 = B.GWishartFit(np.zeros((0, p)), G, Bunch(d0=d0, S0=prior))[0]
        kkt(rec, "prior mode", P0, G, prior / (d0 - 2), 5e-3)
        want = norm_const(P, G, dn, how == "diaglaplace") - norm_const(P0, G, d0, how == "diaglaplace") \
            - n * p * np.log(2 * np.pi) / 2
        rec.close("normalising constant of the posterior", post.lognormconst,
                  norm_const(P, G, dn, how == "diaglaplace"), rtol=1e-6, atol=1e-6)
    rec.close("score of the graph", post.score, want, rtol=1e-7, atol=1e-6)
    rec.check("arguments untouched", np.array_equal(X, X0) and np.array_equal(G, G0))
    rec.nontrivial("score", how, mode, p, n, k)


# ---------------------------------------------------------------- search
def search(rng, rec):
    from regain.bayesian import gwishart_inference as B

    p, n = int(rng.randint(2, 6)), int(rng.choice([8, 30, 80]))
    X = rng.randn(n, p).dot(np.linalg.cholesky(spd(rng, p)).T) + rng.randn(p) * rng.choice([0, 2])
    how = str(rng.choice(["bic", "laplace", "diaglaplace"]))
    mode = str(rng.choice(["covsel", "gl"]))
    top, nres = int(rng.choice([1, 1, 2, 5])), int(rng.randint(5, 25))
    alphas = [None, np.logspace(-2, 0, 6), [0.05, 0.3]][rng.randint(3)]
    seed = int(rng.randint(2 ** 31))
    X0 = X.copy()
    rec.describe(n=n, p=p, scoring=how, mode=mode, top_n=top, n_resampling=nres)
    seen = []
    orig = B.GWishartScore

    def watched(X_, G_, *a, **k):
        out = orig(X_, G_, *a, **k)
        seen.append((np.array(G_), float(out.score), np.array(out.P), k, a))
        return out

    kw = dict(n_resampling=nres, alphas=alphas, mode=mode, scoring=how, top_n=top)
    B.GWishartScore = watched
    try:
        np.random.seed(seed)
        with quiet():
            est = B.BayesianGraphicalLasso(**kw).fit(X)
    finally:
        B.GWishartScore = orig
    P = est.precision_
    rec.check("samples untouched", np.array_equal(X, X0))
    rec.check("the estimate is a symmetric positive definite matrix", P.shape == (p, p) and
              np.allclose(P, P.T, atol=1e-9) and np.linalg.eigvalsh(P)[0] > 0)
    rec.close("the covariance is the inverse of the precision", est.covariance_.dot(P), np.eye(p), atol=1e-6)
    rec.close("location", est.location_, X.mean(0), rtol=1e-9, atol=1e-9)
    S = scatter(X) / n
    rec.close("score is the log-likelihood of the samples", est.score(X),
              0.5 * (ld(P) - np.trace(S.dot(P)) - p * np.log(2 * np.pi)), rtol=1e-7, atol=1e-7)
    np.random.seed(seed)
    with quiet():
        again = B.bayesian_graphical_lasso(X, tol=est.tol, max_iter=est.max_iter,
                                           assume_centered=est.assume_centered, **kw)
    rec.check("the same random state gives the same estimate", np.allclose(again, P, rtol=1e-10, atol=1e-12))
    if not seen:
        rec.inconclusive("the search does not score its candidates through GWishartScore")
        return
    rec.event("candidate graphs scored", len(seen))
    sc = np.array([s for _, s, _, _, _ in seen])
    # a candidate scored at most once per distinct graph is fine: average of the best ones, ties allowed
    k = min(top, len(seen))
    best = np.sort(sc)[::-1][:k]
    tie = 1e-9 * (1 + abs(best[-1]))
    sure = [P_ for _, s, P_, _, _ in seen if s > best[-1] + tie]
    edge = [P_ for _, s, P_, _, _ in seen if abs(s - best[-1]) <= tie]
    miss = k - len(sure)
    if all(np.allclose(e, edge[0], rtol=1e-8, atol=1e-10) for e in edge):
        want = (np.sum(sure, axis=0) + miss * edge[0]) / k if sure else edge[0]
        rec.close("the estimate averages the best scored candidates", P, want, rtol=1e-8, atol=1e-10)
    for G_, _, P_, _, _ in seen:
        rec.check("every candidate has the diagonal", np.all(G_.diagonal()))
    distinct = {G_.tobytes() for G_, _, _, _, _ in seen}
    rec.event("distinct candidate graphs", len(distinct))
    rec.nontrivial("search", how, mode, p, top, len(distinct))


KINDS = {"graphs": (graphs, 120, 1200), "fit": (fit, 300, 4000), "score": (score, 400, 5000),
         "search": (search, 120, 1500)}
