"""C16: fitting is pure, repeatable and independent of history."""
import copy

import numpy as np

from ..core import quiet
from ..estimators import STATIC, TIME, build, labels, stack
from ..solvers import covs, gen_data

RULE = ("(zoo: every estimator of the package, fitted twice, refitted after other data of another size "
        "and cloned) random estimator of the covariance family with random options (including array initial "
        "points, kernels and per-entry regularisation) driven through sequences of fit, score, "
        "refit on other data, set_params, clone and pickling; after every call the data, labels and "
        "parameters handed in are compared with copies taken before, and fitted attributes with "
        "those of a fresh estimator; keyed by (estimator, number of calls, order, T, p)")
ASSUMPTIONS = ["repeated runs of the same arithmetic on the same machine agree to 1e-8 relative and take the "
               "same number of iterations; inputs and parameters are compared bit for bit"]

ATTRS = ("precision_", "covariance_", "latent_", "location_", "classes_", "n_iter_")


def snapshot(est):
    return {k: copy.deepcopy(v) for k, v in est.get_params(deep=False).items()}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.shape == b.shape and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def same_params(rec, est, snap, what):
    now = est.get_params(deep=False)
    bad = [k for k in snap if k not in now or not same(now[k], snap[k])]
    rec.check("parameters are as given after " + what, not bad and set(now) == set(snap), changed=bad)


def fitted(est):
    return {k: copy.deepcopy(getattr(est, k)) for k in ATTRS if hasattr(est, k)}


def repeat(a, b):
    """Equal up to rounding (summation order may depend on memory alignment)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind != "f":
        return np.array_equal(a, b)
    sc = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1
    return np.allclose(a, b, rtol=1e-8, atol=1e-9 * sc, equal_nan=True)


def same_fit(rec, oracle, a, b):
    bad = [k for k in a if k not in b or not repeat(a[k], b[k])]
    rec.check(oracle, not bad and set(a) == set(b), differing=bad)


def sequence(rng, rec):
    from sklearn.base import clone
    import pickle

    name = str(rng.choice(STATIC + TIME))
    time = name in TIME
    p, T = int(rng.randint(2, 6)), int(rng.randint(2, 5)) if time else 1
    sets = []
    for _ in range(int(rng.randint(2, 4))):
        Xs, _ = gen_data(rng, T, p)
        labs, _ = labels(rng, T)
        sets.append(stack(rng, [x + rng.randn(p) for x in Xs], labs) if time else (Xs[0], None))
    est, solve, kw = build(rng, name, T, p, covs(gen_data(rng, T, p)[0]),
                           max_iter=int(rng.choice([1, 5, 60])))
    if name not in ("FB",) and rng.rand() < 0.3:
        M = rng.uniform(0.05, 1, size=(p, p))
        est.set_params(alpha=(M + M.T) / 2)
    if name == "FB" and rng.rand() < 0.4:
        est.set_params(alpha="max")
    est.set_params(assume_centered=bool(rng.rand() < 0.3))
    proto = clone(est)
    snap = snapshot(est)
    rec.describe(estimator=name, p=p, T=T, datasets=len(sets))
    state = np.random.get_state()
    ref = []
    for X, y in sets:
        c = clone(proto)
        with quiet():
            c.fit(X, y)
        ref.append(fitted(c))
    steps = int(rng.randint(2, 6))
    last, order = None, []
    for _ in range(steps):
        op = "fit" if last is None else str(rng.choice(["fit", "fit", "score", "pickle", "clone"]))
        order.append(op)
        k = int(rng.randint(len(sets))) if op == "fit" else last
        X, y = sets[k]
        X0, y0 = X.copy(), None if y is None else y.copy()
        flags = X.flags.writeable
        if rng.rand() < 0.5:
            X.flags.writeable = False       # any write to the data raises
        with quiet():
            if op == "fit":
                r = est.fit(X, y)
                rec.check("fit returns the estimator", r is est)
                last = k
            elif op == "score":
                s1 = est.score(X, y)
                s2 = est.score(X, y)
                rec.check("scoring twice gives the same score", repeat(s1, s2))
            elif op == "pickle":
                est = pickle.loads(pickle.dumps(est))
            else:
                c = clone(est)
                same_params(rec, c, snap, "clone")
                c.fit(X, y)
                same_fit(rec, "a clone fits to the same result", ref[k], fitted(c))
        X.flags.writeable = flags
        rec.event("calls observed: " + op)
        rec.check("data and labels are untouched", np.array_equal(X, X0) and
                  (y is None or np.array_equal(y, y0)), op=op)
        same_params(rec, est, snap, op)
        same_fit(rec, "fitted attributes are those of a fresh estimator on the same data",
                 ref[last], fitted(est))
    a, b = state, np.random.get_state()
    rec.check("the global random state is not consumed", a[2] == b[2] and np.array_equal(a[1], b[1]))
    # the result belongs to the caller: overwriting it must not reach parameters or data
    X, y = sets[last]
    X0 = X.copy()
    for k in ("precision_", "covariance_", "latent_", "location_"):
        v = getattr(est, k, None)
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = -7.0
    rec.check("results share no memory with data or parameters", np.array_equal(X, X0))
    same_params(rec, est, snap, "overwriting the results")
    rec.nontrivial(name, p, T, len(sets), tuple(order))


def functions(rng, rec):
    """Solver functions leave every array argument alone and repeat exactly."""
    from regain.covariance.infimal_convolution_ import infimal_convolution
    from regain.covariance.latent_time_matrix_decomposition import latent_time_matrix_decomposition
    name = str(rng.choice(STATIC + TIME + ["IC", "LTMD"]))
    p, T = int(rng.randint(2, 6)), 1 if name in STATIC + ["IC"] else int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    n = np.array([x.shape[0] for x in Xs])
    mi = int(rng.choice([1, 4, 40]))
    if name == "IC":
        def run():
            return infimal_convolution(S[0], alpha=0.3, tau=0.5, max_iter=mi)
        kw = {}
    elif name == "LTMD":
        def run():
            return latent_time_matrix_decomposition(S, alpha=0.3, tau=0.5, beta=0.4, eta=0.2,
                                                    max_iter=mi)
        kw = {}
    else:
        _, solve, kw = build(rng, name, T, p, S, max_iter=mi)

        def run():
            return [v for k, v in sorted(solve(S, n).items()) if k != "history"]
    S0, n0 = S.copy(), n.copy()
    kw0 = copy.deepcopy(kw)
    rec.describe(solver=name, p=p, T=T, max_iter=mi)
    with quiet():
        a = run()
        a = [np.array(v, copy=True) for v in a]
        rec.check("covariances and counts are untouched", np.array_equal(S, S0) and
                  np.array_equal(n, n0))
        bad = [k for k in kw0 if not same(kw[k], kw0[k])]
        rec.check("options are untouched", not bad, changed=bad)
        b = run()
        out = [np.asarray(v) for v in b]
    rec.check("a second run repeats the first", len(a) == len(out) and all(map(repeat, a, out)))
    for v in b:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = -3
    bad = [k for k in kw0 if not same(kw[k], kw0[k])]
    rec.check("results share no memory with the arguments", np.array_equal(S, S0) and not bad,
              changed=bad)
    rec.event("solver runs repeated")
    rec.nontrivial(name, p, T, mi, mode)


def search(rng, rec):
    """Grid search over a parameter scores what separate fits score."""
    from sklearn.base import clone
    from sklearn.model_selection import GridSearchCV, ShuffleSplit, StratifiedShuffleSplit

    name = str(rng.choice(STATIC + ["TGL", "LTGL", "KTGL", "KLTGL", "FB"]))
    time = name in TIME
    p, T = int(rng.randint(2, 5)), 3 if time else 1
    Xs = [rng.randn(int(rng.randint(14, 25)), p) + rng.randn(p) for _ in range(T)]
    labs, _ = labels(rng, T)
    X, y = stack(rng, Xs, labs) if time else (Xs[0], None)
    est, _, kw = build(rng, name, T, p, covs(Xs), max_iter=20)
    grid = [float(v) for v in 10 ** rng.uniform(-1, 0.7, size=3)]
    cls = StratifiedShuffleSplit if time else ShuffleSplit
    seed = int(rng.randint(10 ** 6))
    cv = list(cls(n_splits=2, test_size=0.4, random_state=seed).split(X, y))
    snap = snapshot(est)
    rec.describe(estimator=name, p=p, grid=grid)
    with quiet():
        gs = GridSearchCV(est, {"alpha": grid}, cv=cv, refit=True, error_score="raise").fit(X, y)
    same_params(rec, est, snap, "grid search")
    means = []
    for a in grid:
        sc = []
        for tr, te in cv:
            c = clone(est).set_params(alpha=a)
            with quiet():
                c.fit(X[tr], None if y is None else y[tr])
                sc.append(c.score(X[te], None if y is None else y[te]))
        means.append(np.mean(sc))
    rec.close("grid search scores are those of separate fits", gs.cv_results_["mean_test_score"],
              means, rtol=1e-9, atol=1e-12)
    with quiet():
        best = clone(est).set_params(alpha=grid[int(np.argmax(means))]).fit(X, y)
    if np.sort(means)[-1] > np.sort(means)[-2]:
        same_fit(rec, "the refitted best estimator is the fresh one", fitted(best),
                 fitted(gs.best_estimator_))
    rec.event("grid points compared", len(grid))
    rec.nontrivial(name, p, seed % 7)


# ---------------------------------------------------------------- every estimator of the package
def zoo(rng):
    """(name, estimator, data generator): data sets of one estimator may differ in size and times."""
    from regain.bayesian.gwishart_inference import BayesianGraphicalLasso
    from regain.covariance.graphical_lasso_ import GraphicalLasso
    from regain.covariance.kernel_latent_time_graphical_lasso_ import (
        KernelLatentTimeGraphicalLasso, SimilarityLatentTimeGraphicalLasso)
    from regain.covariance.kernel_time_graphical_lasso_ import (
        KernelTimeGraphicalLasso, SimilarityTimeGraphicalLasso)
    from regain.covariance.latent_graphical_lasso_ import LatentGraphicalLasso
    from regain.covariance.latent_time_graphical_lasso_ import LatentTimeGraphicalLasso
    from regain.covariance.missing_graphical_lasso_ import MissingGraphicalLasso
    from regain.covariance.time_graphical_lasso_ import TimeGraphicalLasso
    from regain.discriminant_analysis import DiscriminantAnalysis
    from regain.forward_backward.time_graphical_lasso_ import TimeGraphicalLassoForwardBackward
    from regain.generalized_linear_model.glm_gaussian import Gaussian_GLM_GM
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel
    from regain.generalized_linear_model.glm_poisson import PoissonGraphicalModel
    from regain.generalized_linear_model.glm_time_ising import (
        SimilarityTemporalIsingModel, TemporalIsingModel)
    from regain.linear_model.group_lasso_overlap_ import GroupLassoOverlap, GroupLassoOverlapClassifier
    from sklearn.gaussian_process import kernels as gk

    a = float(10 ** rng.uniform(-1, 0.5))
    b = float(rng.uniform(0.3, 3))
    mi = int(rng.choice([2, 20, 60]))
    cen = bool(rng.rand() < 0.3)

    def static(r):
        p = int(r.randint(2, 6))
        return r.randn(int(r.randint(8, 25)), p).dot(np.eye(p) + 0.3 * r.randn(p, p)), None

    def temporal(r, lo=2):
        p, T = int(r.randint(2, 6)), int(r.randint(lo, 6))
        labs = np.sort(r.choice(np.arange(-9, 20), size=T, replace=False))
        return stack(r, [r.randn(int(r.randint(6, 20)), p) * r.uniform(0.5, 2) + r.randn(p) for _ in labs], labs)

    def holes(r):
        X = static(r)[0]
        X[r.rand(*X.shape) < 0.15] = np.nan
        X[:, 0] = r.randn(len(X))
        return X, None

    def binary(r):
        X = np.sign(r.randn(int(r.randint(10, 30)), int(r.randint(2, 6))) + 0.1)
        X[0], X[1] = -1, 1
        return X, None

    def binary_t(r):
        p, T, n = int(r.randint(2, 5)), int(r.randint(2, 5)), int(r.randint(6, 12))
        X = np.sign(r.randn(T * n, p) + 0.1)
        X[0, :2] = -1, 1
        return X, r.permutation(np.repeat(np.arange(T), n))

    def counts(r):
        return r.poisson(1.5, size=(int(r.randint(10, 30)), int(r.randint(2, 5)))).astype(float), None

    def regression(r):
        X = r.randn(int(r.randint(10, 30)), 6)
        return X, X[:, :3].sum(1) + r.randn(len(X))

    def classes(r):
        X = r.randn(int(r.randint(20, 40)), 6)
        y = np.argsort(np.argsort(X[:, 0] + 0.3 * r.randn(len(X)))) * int(r.randint(2, 4)) // len(X)
        return X, np.array(["u", "b", "q"])[y]

    t = dict(alpha=a, max_iter=mi, assume_centered=cen)
    groups = [[0, 1, 2], [2, 3], [4, 5]]
    table = {
        "GL": lambda: (GraphicalLasso(**t), static),
        "LGL": lambda: (LatentGraphicalLasso(tau=b, **t), static),
        "MGL": lambda: (MissingGraphicalLasso(alpha=a, max_iter=min(mi, 20)), holes),
        "BGL": lambda: (BayesianGraphicalLasso(
            alpha=a, n_resampling=3, top_n=2, alphas=[0.1, 0.5] if rng.rand() < 0.5 else None), static),
        "TGL": lambda: (TimeGraphicalLasso(beta=b, psi=str(rng.choice(["laplacian", "l1"])), **t), temporal),
        "LTGL": lambda: (LatentTimeGraphicalLasso(beta=b, eta=b, tau=1.5, **t), temporal),
        "KTGL": lambda: (KernelTimeGraphicalLasso(kernel=gk.RBF, ker_param=b, **t), temporal),
        "KTGL-none": lambda: (KernelTimeGraphicalLasso(**t), temporal),
        "KLTGL": lambda: (KernelLatentTimeGraphicalLasso(
            kernel_psi=gk.RBF, ker_psi_param=b, kernel_phi=gk.ConstantKernel, ker_phi_param=b, tau=2, **t), temporal),
        "STGL": lambda: (SimilarityTimeGraphicalLasso(beta=b, n_clusters=None if rng.rand() < 0.7 else 2, max_iter_ext=4,
                                                      **t), temporal),
        "SLTGL": lambda: (SimilarityLatentTimeGraphicalLasso(
            beta=b, tau=2, n_clusters=None if rng.rand() < 0.7 else 2, max_iter_ext=4, **t), temporal),
        "FB": lambda: (TimeGraphicalLassoForwardBackward(
            alpha="max" if rng.rand() < 0.5 else a, beta=b, max_iter=min(mi, 10), delta=0.45), temporal),
        "DA": lambda: (DiscriminantAnalysis(TimeGraphicalLasso(beta=b, **t),
                                            ensure_posdef=bool(rng.rand() < 0.5)), temporal),
        "GaussianGLM": lambda: (Gaussian_GLM_GM(alpha=a, max_iter=mi), static),
        "Ising": lambda: (IsingGraphicalModel(
            alpha=0.2 * a, gamma=0.1, max_iter=mi,
            mode=str(rng.choice(["symmetric_fbs", "logistic_regression"]))), binary),
        "Poisson": lambda: (PoissonGraphicalModel(alpha=a, gamma=0.01, max_iter=mi), counts),
        "TIsing": lambda: (TemporalIsingModel(alpha=0.1, max_iter=3, kernel=gk.RBF, ker_param=b), binary_t),
        "STIsing": lambda: (SimilarityTemporalIsingModel(alpha=0.1, max_iter=3, max_iter_ext=3, beta=b), binary_t),
        "GroupLasso": lambda: (GroupLassoOverlap(alpha=a, groups=groups, max_iter=mi), regression),
        "GroupLassoClassifier": lambda: (GroupLassoOverlapClassifier(alpha=0.2 * a, groups=groups, max_iter=mi), classes),
    }
    name = str(rng.choice(sorted(table)))
    est, data = table[name]()
    return name, est, data


def learned(est):
    out = {}
    for k, v in vars(est).items():
        if k.endswith("_") and not k.startswith("_") and isinstance(
                v, (np.ndarray, float, int, np.floating, np.integer)):
            out[k] = copy.deepcopy(v)
    return out


def whole_zoo(rng, rec):
    """Any estimator of the package, refitted on data sets of other sizes: no trace of earlier fits remains."""
    from sklearn.base import clone
    import pickle

    name, est, data = zoo(rng)
    sets = [data(rng) for _ in range(int(rng.randint(2, 4)))]
    proto = clone(est)
    snap = {k: copy.deepcopy(v) for k, v in est.get_params(deep=True).items() if not hasattr(v, "get_params")}
    rec.describe(estimator=name, shapes=[x.shape for x, _ in sets])
    state = np.random.get_state()
    ref = []
    for X, y in sets:
        c = clone(proto)
        if name == "BGL":           # randomised by design: resampling
            np.random.seed(5)
        with quiet():
            c.fit(X.copy(), None if y is None else y.copy())
        ref.append(learned(c))
    order, last = [], None
    for _ in range(int(rng.randint(2, 5))):
        op = "fit" if last is None else str(rng.choice(["fit", "fit", "score", "pickle", "clone"]))
        k = int(rng.randint(len(sets))) if op == "fit" else last
        X, y = sets[k]
        X0, y0 = X.copy(), None if y is None else y.copy()
        if name == "BGL":
            np.random.seed(5)
        with quiet():
            if op == "fit":
                rec.check("fit returns the estimator", est.fit(X, y) is est)
                last = k
            elif op == "score" and hasattr(est, "score") and name != "MGL":
                try:
                    est.score(X, y)
                except NotImplementedError:
                    pass
            elif op == "pickle":
                est = pickle.loads(pickle.dumps(est))
            elif op == "clone":
                c = clone(est).fit(X, y)
                same_fit(rec, "a clone fits to the same result", ref[k], learned(c))
        order.append(op)
        rec.event("calls observed: " + op)
        rec.check("data and labels are untouched", np.array_equal(X, X0, equal_nan=True) and
                  (y is None or np.array_equal(y, y0)), op=op)
        now = est.get_params(deep=True)
        bad = [q for q in snap if q not in now or not same(now[q], snap[q])]
        rec.check("parameters are as given after " + op, not bad, changed=bad)
        same_fit(rec, "fitted attributes are those of a fresh estimator on the same data", ref[last], learned(est))
    s = np.random.get_state()
    rec.check("the global random state is not consumed", name == "BGL" or s[2] == state[2] and np.array_equal(s[1], state[1]))
    rec.nontrivial("zoo", name, tuple(order), len(sets))


KINDS = {"sequence": (sequence, 240, 4000), "functions": (functions, 160, 3000),
         "search": (search, 40, 500), "zoo": (whole_zoo, 200, 3000)}
