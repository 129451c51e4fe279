"""C19: lasso, group lasso and overlapping group lasso reach their optimum."""
import numpy as np

from ..core import quiet, size

RULE = ("random design matrices (tall, wide, correlated columns, duplicated columns, scales 1e-1..1e1), "
        "responses with sparse signal plus noise, regularisation from nothing selected to nearly "
        "unpenalised, random partitions or overlapping covers with ungrouped variables, ADMM penalty "
        "and over-relaxation; solutions judged by KKT residuals or a duality gap computed here; keyed "
        "by (problem, shape, groups, decade of lambda, share selected)")
ASSUMPTIONS = ["tol=rtol=1e-8 and 8000 iterations stand for 'run to convergence'; a run that stops at "
               "the limit is undecided", "wide overlapping problems are judged on the objective only "
               "through disjoint covers"]
CASE_LIMIT = 90
RUN = dict(tol=1e-8, rtol=1e-8, max_iter=8000)


def problem(rng, wide=None):
    d = size(rng, 2, 11, 30)
    wide = bool(rng.rand() < 0.3) if wide is None else wide
    n = int(rng.randint(max(2, d // 2), d)) if wide and d > 2 else int(rng.randint(d + 1, 4 * d + 6))
    A = rng.randn(n, d)
    kind = str(rng.choice(["plain", "correlated", "duplicate", "scaled"]))
    if kind == "correlated":
        A = A + 1.0 * rng.randn(n, 1)
    elif kind == "duplicate" and d > 2 and (wide is None or wide):
        A[:, 1] = A[:, 0]
    elif kind == "scaled":
        A = A * 10 ** rng.uniform(-0.7, 0.7, size=d)
    x = rng.randn(d) * (rng.rand(d) < 0.5)
    b = A.dot(x) + 0.5 * rng.randn(n)
    return A, b, kind


def partition(rng, d):
    cuts = np.sort(rng.choice(np.arange(1, d), size=int(rng.randint(0, d)), replace=False)) if d > 1 else []
    order = np.arange(d) if rng.rand() < 0.5 else rng.permutation(d)
    return [list(map(int, g)) for g in np.split(order, cuts)]


def lam(rng, A, b):
    return float(np.abs(A.T.dot(b)).max() * 10 ** rng.uniform(-2.5, 0.2))


def kkt(rec, A, b, z, lamda, groups, tag, free=()):
    """Largest violation of the optimality conditions of disjoint groups, relative to lambda."""
    g = A.T.dot(b - A.dot(z))
    sc = lamda + 1e-3 * np.abs(A.T.dot(b)).max()
    worst = 0.0
    for G in groups:
        nz, ng = np.linalg.norm(z[G]), np.linalg.norm(g[G])
        if nz > 1e-7 * (1 + np.abs(z).max()):
            worst = max(worst, np.linalg.norm(g[G] - lamda * z[G] / nz))
        else:
            worst = max(worst, ng - lamda)
    for j in free:
        worst = max(worst, abs(g[j]))
    rec.stat("largest KKT residual: " + tag, worst / sc)
    rec.check(tag + ": optimality conditions hold", worst <= 2e-4 * sc, residual=worst, scale=sc, z=z,
              gradient=g, lamda=lamda)


def done(rec, hist):
    ok = hist[-1][1] < hist[-1][3] and hist[-1][2] < hist[-1][4]
    rec.check("a run stops before the limit only within its tolerances", ok or len(hist) >= RUN["max_iter"],
              last=hist[-1], n=len(hist))
    if not ok:
        rec.inconclusive("iteration limit reached")
        rec.event("runs at the iteration limit")
    else:
        rec.event("runs converged")
    return ok


def history(rec, hist, kw, obj, tag):
    rec.check(tag + ": the history has one entry per iteration, within the limit",
              1 <= len(hist) <= kw["max_iter"])
    early = [h for h in hist[:-1] if h[1] < h[3] and h[2] < h[4]]
    rec.close(tag + ": the last objective is the documented one", hist[-1][0], obj, rtol=1e-5, atol=1e-7)
    return early


def plain(rng, rec):
    from regain.linear_model.lasso_ import lasso

    A, b, kind = problem(rng)
    l = lam(rng, A, b)
    kw = dict(rho=float(10 ** rng.uniform(-1.7 if len(A) < A.shape[1] else -0.5, 1.5)), alpha=float(rng.choice([1.0, 1.0, 1.4, 1.8])), **RUN)
    rec.describe(shape=A.shape, kind=kind, lamda=l, **kw)
    A0, b0 = A.copy(), b.copy()
    with quiet():
        out = lasso(A, b, lamda=l, return_history=True, **kw)
        x = lasso(A, b, lamda=l, **kw)
    rec.check("arguments untouched", np.array_equal(A, A0) and np.array_equal(b, b0))
    rec.check("without history only the solution is returned", isinstance(x, np.ndarray) and
              x.shape == (A.shape[1],))
    z, hist = out
    rec.close("the history option changes nothing", z, x, rtol=1e-12)
    if done(rec, hist):
        early = history(rec, hist, kw, 0.5 * ((A.dot(z) - b) ** 2).sum() + l * np.abs(z).sum(), "lasso")
        rec.check("lasso: stops at the first iteration within tolerance", not early, n=len(early))
        kkt(rec, A, b, z, l, [[j] for j in range(len(z))], "lasso")
        rec.nontrivial(A.shape, kind, round(np.log10(l)), int((z != 0).sum()))


def grouped(rng, rec):
    from regain.linear_model.group_lasso_ import group_lasso

    A, b, kind = problem(rng)
    d = A.shape[1]
    groups = partition(rng, d)
    l = lam(rng, A, b)
    kw = dict(rho=float(10 ** rng.uniform(-1.7 if len(A) < A.shape[1] else -0.5, 1.5)), alpha=float(rng.choice([1.0, 1.0, 1.4])), **RUN)
    rec.describe(shape=A.shape, kind=kind, lamda=l, groups=groups, **kw)
    with quiet():
        z, hist = group_lasso(A, b, lamda=l, groups=groups, return_history=True, **kw)
        x = group_lasso(A, b, lamda=l, groups=groups, **kw)
    rec.close("the history option changes nothing", z, x, rtol=1e-12)
    if done(rec, hist):
        early = history(rec, hist, kw, 0.5 * ((A.dot(z) - b) ** 2).sum() +
                        l * sum(np.linalg.norm(z[g]) for g in groups), "group lasso")
        rec.check("group lasso: stops at the first iteration within tolerance", not early, n=len(early))
        kkt(rec, A, b, z, l, groups, "group lasso")
        sel = sum(1 for g in groups if np.abs(z[g]).max() > 1e-7)
        rec.nontrivial(A.shape, kind, round(np.log10(l)), len(groups), sel)
    bad = [g for g in groups[:-1]] + [[groups[0][0]]]
    if len(groups) > 1:
        try:
            group_lasso(A, b, groups=bad)
            rec.check("groups that are not a partition are refused", False, groups=bad)
        except ValueError:
            rec.check("groups that are not a partition are refused", True)


def dual_bound(A, b, lamda, groups, iters=4000):
    """Lower bound on the optimum of the overlapping problem (projected accelerated ascent)."""
    d = A.shape[1]
    Q = A.T.dot(A)
    Qi = np.linalg.inv(Q)
    Atb = A.T.dot(b)
    y = [np.zeros(len(g)) for g in groups]
    w = [v.copy() for v in y]
    count = np.zeros(d)
    for g in groups:
        count[g] += 1
    L = np.linalg.eigvalsh(Qi)[-1] * max(1, count.max())
    t, best = 1.0, -np.inf
    for k in range(iters):
        v = Atb.copy()
        for g, u in zip(groups, w):
            np.subtract.at(v, g, u)
        z = Qi.dot(v)
        new = []
        for g, u in zip(groups, w):
            q = u + z[g] / L
            nq = np.linalg.norm(q)
            new.append(q * min(1, lamda / nq) if nq > 0 else q)
        tn = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        w = [a + (t - 1) / tn * (a - c) for a, c in zip(new, y)]
        y, t = new, tn
        if k % 100 == 99 or k == iters - 1:
            v = Atb.copy()
            for g, u in zip(groups, y):
                np.subtract.at(v, g, u)
            best = max(best, 0.5 * b.dot(b) - 0.5 * v.dot(Qi).dot(v))
    return best


def cover(rng, d):
    k = int(rng.randint(1, 5))
    gs = [[int(v) for v in rng.choice(d, size=int(rng.randint(1, d + 1)), replace=False)] for _ in range(k)]
    return gs if rng.rand() < 0.5 else [sorted(g) for g in gs]


def overlap(rng, rec):
    from regain.linear_model.group_lasso_overlap_ import group_lasso_overlap

    A, b, kind = problem(rng, wide=False)
    d = A.shape[1]
    groups = cover(rng, d)
    l = lam(rng, A, b)
    kw = dict(rho=float(10 ** rng.uniform(-0.5, 1.5)), **RUN)
    rec.describe(shape=A.shape, kind=kind, lamda=l, groups=groups, **kw)
    A0, b0 = A.copy(), b.copy()
    with quiet():
        z, hist, n_iter = group_lasso_overlap(A, b, lamda=l, groups=groups, **kw)
    rec.check("arguments untouched", np.array_equal(A, A0) and np.array_equal(b, b0))
    obj = 0.5 * ((A.dot(z) - b) ** 2).sum() + l * sum(np.linalg.norm(z[g]) for g in groups)
    rec.check("overlap: the iteration count is that of the history", n_iter == len(hist),
              got=n_iter, want=len(hist))
    if done(rec, hist):
        history(rec, hist, kw, obj, "overlap")
        low = dual_bound(A, b, l, groups)
        gap = (obj - low) / (1 + abs(low))
        rec.stat("largest duality gap", gap)
        if gap > 3e-5:      # the bound itself may be loose: give it more effort before judging
            low = max(low, dual_bound(A, b, l, groups, 60000))
            gap = (obj - low) / (1 + abs(low))
        rec.check("overlap: no other point improves the objective", gap <= 1e-4, objective=obj,
                  bound=low, gap=gap)
        inside = set(j for g in groups for j in g)
        rec.nontrivial(A.shape, kind, round(np.log10(l)), len(groups), d - len(inside),
                       int((np.abs(z) > 1e-6).sum()))


def estimator(rng, rec):
    from regain.linear_model import GroupLassoOverlap
    from regain.linear_model.group_lasso_overlap_ import group_lasso_overlap

    A, b, kind = problem(rng, wide=False)
    A = A + 2 * rng.randn(A.shape[1])
    n, d = A.shape
    K = int(rng.randint(1, 4))
    Y = b[:, None] + rng.randn(n, K) + 3 * rng.randn(K)
    if K == 1 and rng.rand() < 0.7:
        Y = Y[:, 0]
    groups = cover(rng, d)
    icpt = bool(rng.rand() < 0.7)
    l = lam(rng, A - A.mean(0), b)
    kw = dict(rho=float(10 ** rng.uniform(-0.5, 1)), tol=1e-6, rtol=1e-6, max_iter=300)
    if rng.rand() < 0.5:
        A, Y = np.asfortranarray(A), np.asfortranarray(Y)
    A0, Y0 = A.copy(), Y.copy()
    # options that must not matter (workers, copies, storage order), and scaling to unit norm
    opts = dict(n_jobs=int(rng.choice([1, 1, 2, 3])), normalize=bool(icpt and rng.rand() < 0.25),
                copy_X=bool(rng.rand() < 0.7))
    given = (A.copy(order="F") if rng.rand() < 0.5 else A.copy()) if not opts["copy_X"] else A
    rec.describe(shape=A.shape, targets=Y.shape, groups=groups, intercept=icpt, lamda=l, **opts)
    with quiet():
        m = GroupLassoOverlap(alpha=l, groups=groups, fit_intercept=icpt, **dict(kw, **opts))
        r = m.fit(given, Y)
    rec.check("fit returns the estimator", r is m)
    rec.check("data untouched", np.array_equal(A, A0) and np.array_equal(Y, Y0))
    Y2 = Y0.reshape(n, -1)
    mx, my = (A.mean(0), Y2.mean(0)) if icpt else (np.zeros(d), np.zeros(Y2.shape[1]))
    sx = np.linalg.norm(A - mx, axis=0) if opts["normalize"] else np.ones(d)
    coef, its = [], []
    for k in range(Y2.shape[1]):
        with quiet():
            z, h, it = group_lasso_overlap((A - mx) / sx, Y2[:, k] - my[k], lamda=l, groups=groups, **kw)
        coef.append(z / sx)
        its.append(it)
    coef = np.array(coef)
    want = coef[0] if Y2.shape[1] == 1 else coef
    rec.close("coefficients solve the centred problem of every target", m.coef_, want, rtol=1e-6, atol=1e-8)
    wi = my - coef.dot(mx)
    rec.close("the intercept restores the means", np.ravel(m.intercept_) if icpt else
              np.zeros(Y2.shape[1]) + m.intercept_, wi, rtol=1e-6, atol=1e-8)
    B = rng.randn(5, d)
    rec.close("predictions are linear", np.asarray(m.predict(B)).reshape(5, -1), B.dot(coef.T) + wi,
              rtol=1e-6, atol=1e-8)
    rec.check("iterations are reported per target", list(np.ravel(m.n_iter_)) == its,
              got=m.n_iter_, want=its)
    rec.close("the sparse coefficients are the coefficients", m.sparse_coef_.toarray(), np.atleast_2d(m.coef_), rtol=0)
    rec.close("the score is the determination of the predictions", m.score(A0, Y0),
              np.mean(1 - ((Y2 - A0.dot(coef.T) - wi) ** 2).sum(0) / ((Y2 - Y2.mean(0)) ** 2).sum(0)),
              rtol=1e-5, atol=1e-7)
    from regain.linear_model import group_lasso_overlap_ as module
    keep = sorted(set(j for g in groups for j in g))
    drop = getattr(module, "_remove_unused_features", lambda data, groups: (data[:, keep], [
        [keep.index(j) for j in g] for g in groups]))
    D, moved = drop(A0, groups)
    rec.check("dropping unused features keeps the groups on the same columns",
              np.array_equal(D, A0[:, keep]) and [[keep[j] for j in g] for g in moved] == [list(g) for g in groups])
    rec.event("targets fitted", Y2.shape[1])
    rec.nontrivial(A.shape, Y2.shape[1], len(groups), icpt)


def classifier(rng, rec):
    from regain.linear_model import GroupLassoOverlap, GroupLassoOverlapClassifier

    n, d, k = size(rng, 20, 40, 150), size(rng, 2, 7, 20), size(rng, 2, 5, 8)
    A = rng.randn(n, d)
    labs = np.array([["a", "b", "c", "d", "zz", "B", "x", "k"], [3, -1, 7, 0, 12, -9, 5, 100]][rng.randint(2)][:k])
    y = np.concatenate([labs, labs[rng.randint(k, size=n - k)]])
    centre = rng.randn(k, d) * 2
    A = A + centre[[list(labs).index(v) for v in y]]
    groups = cover(rng, d)
    kw = dict(alpha=float(10 ** rng.uniform(-1, 1)), groups=groups, tol=1e-6, rtol=1e-6, max_iter=200)
    with quiet():
        c = GroupLassoOverlapClassifier(**kw).fit(A, y)
    cl = np.unique(y)
    rec.describe(n=n, d=d, classes=cl, groups=groups)
    rec.check("classes are the sorted labels", np.array_equal(c.classes_, cl))
    B = np.vstack([A, rng.randn(10, d) * 3])
    S = []
    for v in (cl[1:] if k == 2 else cl):
        with quiet():
            S.append(GroupLassoOverlap(**kw).fit(A, np.where(y == v, 1.0, -1.0)).predict(B))
    S = np.array(S).T
    rec.close("decision values are those of one-against-rest regressions",
              np.asarray(c.decision_function(B)).reshape(S.shape), S, rtol=1e-6, atol=1e-8)
    margin = np.abs(S[:, 0]) if k == 2 else np.diff(np.sort(S, axis=1)[:, -2:], axis=1)[:, 0]
    want = cl[(S[:, 0] > 0).astype(int)] if k == 2 else cl[S.argmax(1)]
    sure = margin > 1e-6
    rec.check("predictions are the labels of the largest decision value",
              np.array_equal(np.asarray(c.predict(B))[sure], want[sure]))
    rec.event("predictions checked", int(sure.sum()))
    rec.nontrivial(n, d, k, len(groups))


def aggregate(results):
    tot = [r for r in results if r["kind"] in ("plain", "grouped", "overlap")]
    bad = sum(1 for r in tot if r["inconclusive"])
    return [("well-posed problems converge", bad <= 0.25 * len(tot) + 3, {"limit reached": bad,
                                                                        "of": len(tot)})]


KINDS = {"plain": (plain, 160, 1500), "grouped": (grouped, 160, 1500), "overlap": (overlap, 160, 1500),
         "estimator": (estimator, 150, 1000), "classifier": (classifier, 80, 600)}
