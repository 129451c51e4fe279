"""C30: requests outside the documented domain are refused, and a refusal leaves nothing behind."""
import os
import shutil
import tempfile

import numpy as np
import scipy.sparse as sp

from ..core import quiet
from ..estimators import STATIC, TIME, build, stack
from ..solvers import covs, gen_data, kernel_matrix

RULE = ("random component (estimators and solver functions of every family, samplers, helpers) with random "
        "valid arguments, and one of them replaced by a value outside its documented domain; the request must "
        "raise, the same request without the defect must succeed, arguments must be left alone, and an estimator "
        "that refused must afterwards fit as a new one does; keyed by (component, defect, sizes)")
ASSUMPTIONS = ["a refusal is an exception of the kinds a caller can expect for a bad argument (value, type, "
               "index, assertion or not-implemented error); its wording is not judged",
               "only defects which the documentation or the code's own validation declares invalid are tried"]

REFUSAL = (ValueError, TypeError, AssertionError, NotImplementedError, IndexError)
NAMES = ["huber", "L3", "", "l1 ", "Laplacian", "l-2", "node2", "none", "inf"]


def word(rng, options=NAMES):
    return str(rng.choice(options))


def refuses(rec, what, f):
    try:
        with quiet():
            f()
    except REFUSAL as e:
        rec.event("refusals observed")
        rec.check("refused: " + what, True)
        return e
    except Exception as e:          # an accident is not a refusal
        rec.check("refused: " + what, False, raised=repr(e)[:300])
        return e
    rec.check("refused: " + what, False, raised=None)


def accepts(rec, what, f):
    with quiet():
        out = f()
    rec.check("the valid twin is served: " + what, True)
    return out


def fitted_state(est):
    return {k: v for k, v in vars(est).items() if k.endswith("_") and not k.startswith("_")}


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (np.allclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)
                                       if a.dtype.kind in "fiub" else np.array_equal(a, b))
    return True if isinstance(a, (list, tuple, dict)) else a == b


def graphical(rng, rec):
    """Estimators and solvers of the covariance family."""
    name = str(rng.choice(STATIC + TIME))
    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    est, solve, kw = build(rng, name, T, p, S, max_iter=4, init=False)
    X, y = stack(rng, Xs, np.arange(T))
    time = name in TIME
    defects = ["sparse", "complex", "text", "three dims", "empty"]
    if time:
        defects += ["no labels", "column labels"]
        if name != "FB":
            defects += ["psi"] * 3
    if name in ("LTGL", "KLTGL", "SLTGL"):
        defects += ["phi"] * 3
    if name in ("KTGL", "STGL"):
        defects += ["kernel"] * 3
    if name == "KTGL":
        defects += ["auto"] * 2
    if name in ("KLTGL", "SLTGL"):
        defects += ["kernel_psi"] * 2 + ["kernel_phi"] * 2
    if name == "FB":
        defects += ["choose"] * 3 + ["criterion"] * 2
    what = str(rng.choice(defects))
    rec.describe(estimator=name, T=T, p=p, defect=what)
    Xb, yb, bad = X, y, {}
    if what == "sparse":
        Xb = sp.csr_matrix(X)
    elif what == "complex":
        Xb = X + 1j
    elif what == "text":
        Xb = X.astype(object)
        Xb[0, 0] = "spam"
    elif what == "three dims":
        Xb = X[None]
    elif what == "empty":
        Xb, yb = X[:0], y[:0]
    elif what == "no labels":
        yb = None
    elif what == "column labels":
        yb = np.column_stack([y, y])
    elif what in ("psi", "phi"):
        bad = {what: word(rng)}
    elif what.startswith("kernel"):
        bad = {what: kernel_matrix(rng, T + int(rng.choice([-1, 1, 3])), 1.0)}
    elif what == "auto":
        bad = dict(ker_param="auto")
    elif what == "choose":
        bad = dict(choose=word(rng, ["Gamma", "lambda", "none", "", "all", "gammas"]))
    elif what == "criterion":
        bad = dict(choose="lamda", gamma=0.01, lamda_criterion=word(rng, ["d", "A", "", "ab"]))
    good = {k: est.get_params()[k] for k in bad}
    X0, y0 = X.copy(), y.copy()
    est.set_params(**bad)
    before = dict(vars(est))
    refuses(rec, what, lambda: est.fit(Xb, yb) if time else est.fit(Xb))
    for k, v in before.items():
        rec.check("a refused fit keeps the parameters", est.get_params().get(k, v) is v or
                  same(est.get_params().get(k, v), v), parameter=k)
    rec.check("a refused fit leaves no estimate", "precision_" not in fitted_state(est) and
              "covariance_" not in fitted_state(est))
    est.set_params(**good)
    fit = (lambda e: e.fit(X, y)) if time else (lambda e: e.fit(X))
    accepts(rec, what, lambda: fit(est))
    from sklearn.base import clone
    with quiet():
        ref = fitted_state(fit(clone(est)))
    got = fitted_state(est)
    rec.check("after a refusal the estimator fits as a new one", set(ref) == set(got) and
              all(same(got[k], ref[k]) for k in ref), got=sorted(got), want=sorted(ref))
    rec.check("data untouched", np.array_equal(X, X0) and np.array_equal(y, y0))
    # a fitted estimator that refuses keeps its estimates
    was = {k: np.array(v, copy=True) for k, v in got.items() if isinstance(v, np.ndarray)}
    if what in ("sparse", "complex", "text", "three dims", "empty", "column labels"):
        refuses(rec, what, lambda: est.fit(Xb, yb) if time else est.fit(Xb))
        rec.check("a refused refit keeps the previous estimates", all(
            same(getattr(est, k), was[k]) for k in ("precision_", "covariance_")))
    # the functions behind the estimators validate the same options
    if what in ("psi", "phi", "choose", "criterion"):
        n = np.array([x.shape[0] for x in Xs])
        keep = {k: kw[k] for k in bad if k in kw}
        kw.update(bad)
        refuses(rec, what + " (function)", lambda: solve(S, n))
        for k in bad:
            if k in keep:
                kw[k] = keep[k]
            else:
                kw.pop(k)
        accepts(rec, what + " (function)", lambda: solve(S, n))
    rec.nontrivial(name, what, T, p, str(bad)[:20])


def not_fitted(rng, rec):
    """Asking a model that was never fitted for its results, or a fitted one about something else."""
    name = str(rng.choice(STATIC + TIME))
    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    est, solve, kw = build(rng, name, T, p, S, max_iter=4, init=False)
    X, y = stack(rng, Xs, np.arange(T))
    what = str(rng.choice(["score", "error", "precision"] + ["mahalanobis"] * (name in STATIC)))
    ask = {"score": lambda: est.score(X, y) if name in TIME else est.score(X),
           "mahalanobis": lambda: est.mahalanobis(X),
           "error": lambda: est.error_norm(S if name in TIME else S[0]),
           "precision": lambda: (est.get_observed_precision if name in TIME else est.get_precision)()}
    rec.describe(estimator=name, asked=what)
    try:
        with quiet():
            ask[what]()
        ok = False
    except (ValueError, AttributeError):      # NotFittedError is both
        ok = True
    rec.check("an estimator that was not fitted reports nothing", ok)
    with quiet():
        est.fit(X, y) if name in TIME else est.fit(X)
    accepts(rec, what, ask[what])
    # asking a fitted model about data or matrices that are not of its kind
    score = (lambda X, y: est.score(X, y)) if name in TIME else (lambda X, y: est.score(X))      # noqa: E731
    C = S if name in TIME else S[0]
    wrong = str(rng.choice(["features", "nan", "norm", "shape"] + ["length", "unseen"] * (name in TIME)))
    Z = X.copy()
    Z[rng.randint(len(Z)), rng.randint(p)] = rng.choice([np.nan, np.inf])
    extra = rng.randn(len(X), p + int(rng.choice([-1, 1, 2] if p > 2 else [1, 2])))
    was = {k: np.array(v, copy=True) for k, v in fitted_state(est).items() if isinstance(v, np.ndarray)}
    refuses(rec, "asked with wrong " + wrong, dict(
        features=lambda: score(extra, y), nan=lambda: score(Z, y), length=lambda: score(X, y[:-1]),
        unseen=lambda: score(X, y + 50), norm=lambda: est.error_norm(C, norm=word(rng)),
        shape=lambda: est.error_norm(C[..., :-1, :-1] if p > 2 else np.kron(C, np.ones((1, 2, 2)))))[wrong])
    rec.check("a refused question changes nothing", all(same(getattr(est, k), v) for k, v in was.items()))
    rec.nontrivial(name, what, wrong, T, p)


def networks(rng, rec):
    """Graphical models with non-Gaussian conditionals."""
    from regain.generalized_linear_model.base import build_adjacency_matrix  # noqa: F401
    from regain.generalized_linear_model.glm_gaussian import Gaussian_GLM_GM
    from regain.generalized_linear_model.glm_ising import IsingGraphicalModel
    from regain.generalized_linear_model.glm_poisson import PoissonGraphicalModel

    n, d = int(rng.randint(8, 30)), int(rng.randint(2, 6))
    B = (rng.rand(n, d) < 0.5).astype(float)
    B[0], B[1] = 0, 1
    model = str(rng.choice(["ising", "ising", "poisson", "gaussian"]))
    what = str(rng.choice(["mode", "not available", "nan", "one dim"]))
    if model == "gaussian" and what in ("mode", "not available"):
        what = "nan"
    cls, X = dict(ising=(IsingGraphicalModel, B if rng.rand() < 0.5 else 2 * B - 1),
                  poisson=(PoissonGraphicalModel, rng.poisson(1.0, size=(n, d)).astype(float)),
                  gaussian=(Gaussian_GLM_GM, rng.randn(n, d)))[model]
    kw = dict(alpha=float(10 ** rng.uniform(-2, 0)), max_iter=3)
    bad, Xb = {}, X
    if what == "mode":
        bad = dict(mode=word(rng, ["newton", "", "fbs", "symmetric", "logistic"]))
    elif what == "not available":
        bad = dict(mode="coordinate_descent" if model == "ising" else "symmetric_fbs")
    elif what == "nan":
        Xb = X.copy()
        Xb[rng.randint(n), rng.randint(d)] = np.nan
    else:
        Xb = X[:, 0]
    rec.describe(model=model, n=n, d=d, defect=what, options=bad)
    est = cls(**dict(kw, **bad))
    X0 = X.copy()
    refuses(rec, model + " " + what, lambda: est.fit(Xb))
    rec.check("a refused fit leaves no estimate", not hasattr(est, "precision_"))
    got = accepts(rec, model + " " + what, lambda: cls(**kw).fit(X))
    rec.check("data untouched", np.array_equal(X, X0) and got.precision_.shape == (d, d))
    rec.nontrivial(model, what, n, d)


def helpers(rng, rec):
    """Validation and helper functions."""
    from regain import utils, validation
    from regain.bayesian import sampling as B
    from regain.prox import prox_laplacian

    p, T = int(rng.randint(2, 6)), int(rng.randint(2, 5))
    X3 = rng.randn(T, int(rng.randint(3, 8)), p)
    what = str(rng.choice(["penalty", "dims", "sparse", "labels", "variables", "norm", "copy", "separator",
                           "likelihood", "prior"]))
    rec.describe(request=what, T=T, p=p)
    X0 = X3.copy()
    if what == "penalty":
        refuses(rec, what, lambda: validation.check_norm_prox(rng.choice(NAMES)))
        out = accepts(rec, what, lambda: validation.check_norm_prox("laplacian"))
        rec.check("the known penalty is found", out[1] is prox_laplacian)
    elif what == "dims":
        bad = X3[None] if rng.rand() < 0.5 else X3[0, 0]
        refuses(rec, what, lambda: validation.check_input(bad))
        X, n, d, t = accepts(rec, what, lambda: validation.check_input(X3))
        rec.check("sizes are those of the data", (list(n), d, t) == ([X3.shape[1]] * T, p, T) and np.array_equal(X, X3))
    elif what == "sparse":
        refuses(rec, what, lambda: validation.check_input(sp.csr_matrix(X3[0])))
        accepts(rec, what, lambda: validation.check_input(X3))
    elif what == "labels":
        refuses(rec, what, lambda: validation.check_input(X3, np.arange(T)))
        accepts(rec, what, lambda: validation.check_input(X3))
    elif what == "variables":
        refuses(rec, what, lambda: validation.check_input([X3[0], rng.randn(X3.shape[1], p + 1)]))
        accepts(rec, what, lambda: validation.check_input(list(X3)))
    elif what == "norm":
        a, b = (np.cov(rng.randn(p, 9)) for _ in range(2))
        refuses(rec, what, lambda: utils.error_norm(a, b, norm=word(rng)))
        accepts(rec, what, lambda: utils.error_norm(a, b, norm="spectral"))
    elif what == "copy":
        M = rng.randn(p, p)
        M = M + M.T
        M0 = M.copy()
        refuses(rec, what, lambda: utils.ensure_posdef(M, inplace=False))
        rec.check("a refused repair changes nothing", np.array_equal(M, M0))
        accepts(rec, what, lambda: utils.ensure_posdef(M))
    elif what == "separator":
        folder = tempfile.mkdtemp(prefix="regmon-")
        try:
            for ext, ok in (("dat", False), ("tsv", True)):
                path = os.path.join(folder, "net." + ext)
                with open(path, "w") as f:
                    f.write("".join("G%d\tG%d\t%g\n" % (i + 1, j + 1, rng.rand())
                                    for i in range(3) for j in range(3) if i != j))
                g = lambda: utils.read_network(path, threshold=1.0)      # noqa: E731
                accepts(rec, what, g) if ok else refuses(rec, what, g)
        finally:
            shutil.rmtree(folder)
    else:
        v = int(rng.randint(2, 4))
        u, L = rng.randn(v, p, T), np.eye(p)
        from sklearn.utils import Bunch
        st = Bunch(xx=u, V=B.GWP_construct(u, L), L=L, log_likelihood=None)
        like = lambda V: -float(np.sum(np.asarray(V) ** 2))      # noqa: E731
        nu = rng.randn(*u.shape)
        if what == "likelihood":
            refuses(rec, what, lambda: B.elliptical_slice(st, nu))
        else:
            D = u.size
            refuses(rec, what, lambda: B.elliptical_slice(st, rng.randn(D + 1), likelihood=like))
            refuses(rec, what, lambda: B.elliptical_slice(st, rng.randn(D, D + 1), likelihood=like))
        rec.check("a refused move keeps the state", st.xx is u)
        accepts(rec, what, lambda: B.elliptical_slice(st, nu, likelihood=like))
    rec.check("data untouched", np.array_equal(X3, X0))
    rec.nontrivial(what, T, p, rng.randint(100))


def regressions(rng, rec):
    """Group lasso family and stability selection."""
    from regain.linear_model import GroupLassoOverlap, GroupLassoOverlapClassifier
    from regain.linear_model.group_lasso_ import group_lasso

    n, d = int(rng.randint(8, 30)), int(rng.randint(3, 7))
    A, b = rng.randn(n, d), rng.randn(n)
    groups = [[0, 1], list(range(1, d))]
    kw = dict(alpha=0.3, groups=groups, max_iter=5)
    what = str(rng.choice(["overlap", "missing", "outside", "mode", "selection", "precompute", "rows", "nan",
                           "multilabel", "refit"]))
    rec.describe(request=what, n=n, d=d)
    A0, b0 = A.copy(), b.copy()
    if what in ("overlap", "missing", "outside"):
        part = np.array_split(rng.permutation(d), int(rng.randint(1, d)))
        ok = [list(map(int, g)) for g in part]
        bad = [list(g) for g in ok]
        if what == "overlap":
            bad[0].append(bad[-1][0] if len(bad) > 1 else bad[0][0])
        elif what == "missing":
            bad[0] = bad[0][1:]
        else:
            bad[0][0] = d + int(rng.randint(3))
        refuses(rec, what, lambda: group_lasso(A, b, lamda=0.1, groups=bad))
        accepts(rec, what, lambda: group_lasso(A, b, lamda=0.1, groups=ok))
    elif what == "refit":
        from regain.covariance import GraphicalLasso
        from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection
        two = dict(one=lambda e, X, y=None: 1.0, other=lambda e, X, y=None: 2.0)
        X = rng.randn(40, 3)

        def select(**k):
            return GraphicalModelStabilitySelection(
                GraphicalLasso(max_iter=3), {"alpha": [0.1, 1.0]}, n_repetitions=2, sampling_size=20, **k).fit(X)
        refuses(rec, what, lambda: select(scoring=two, refit=bool(rng.rand() < 2)))
        refuses(rec, what, lambda: select(scoring=two, refit="third"))
        pick = [-1, 2, 7, -3, 0.5, "best", None][rng.randint(7)]
        refuses(rec, what + " rule", lambda: select(refit=lambda results: pick))
        m = accepts(rec, what + " rule", lambda: select(refit=lambda results: 1))
        rec.check("the rule's choice is the one reported", m.best_index_ == 1)
        m = accepts(rec, what, lambda: select(scoring=two, refit=False))
        rec.check("every metric is reported", {"mean_test_one", "mean_test_other"} <= set(m.results_ if hasattr(
            m, "results_") else m.cv_results_))
    elif what == "multilabel":
        Y = (rng.rand(n, 3) < 0.5).astype(int)
        Y[0], Y[1] = 1, 0
        refuses(rec, what, lambda: GroupLassoOverlapClassifier(**kw).fit(A, Y))
        y = np.concatenate([[0, 1], (rng.rand(n - 2) < 0.5).astype(int)])
        accepts(rec, what, lambda: GroupLassoOverlapClassifier(**kw).fit(A, y))
    else:
        Ab, bb, bad = A, b, {}
        if what == "mode":
            bad = dict(mode=word(rng, ["fista", "", "ADMM!", "matlab"]), n_jobs=int(rng.choice([1, 2])))
        elif what == "selection":
            bad = dict(selection=word(rng, ["greedy", "", "Cyclic"]))
        elif what == "precompute":
            bad = dict(precompute="auto")
        elif what == "rows":
            bb = b[:-1]
        else:
            Ab = A.copy()
            Ab[rng.randint(n), rng.randint(d)] = np.nan
        est = GroupLassoOverlap(**dict(kw, **bad))
        refuses(rec, what, lambda: est.fit(Ab, bb))
        rec.check("a refused fit leaves no estimate", getattr(est, "coef_", None) is None)
        accepts(rec, what, lambda: GroupLassoOverlap(**kw).fit(A, b))
    rec.check("data untouched", np.array_equal(A, A0) and np.array_equal(b, b0))
    rec.nontrivial(what, n, d)


def generators(rng, rec):
    """Data sets, samplers and Bayesian models."""
    from regain.bayesian import gwishart_inference as G
    from regain.bayesian.wishart_process_ import WishartProcess
    from regain.datasets.base import make_dataset
    from regain.datasets.ising import direct_sampling, ising_sampler, ising_theta_generator
    from regain.datasets.poisson import poisson_theta_generator
    from sklearn.utils import Bunch

    p = int(rng.randint(3, 6))
    A = np.triu(rng.randint(-1, 2, size=(p, p)), 1).astype(float)
    A = A + A.T
    B = A.copy()
    ring = rng.permutation(p)[:int(rng.randint(3, p + 1))]
    if rng.rand() < 0.5:                 # one direction only
        B[ring[0], ring[1]] += 1
    else:                                # a directed cycle: row and column sums agree
        B[ring, np.roll(ring, 1)] += float(rng.choice([1, 0.5, -2]))
    thr, resp = np.zeros(p), [[0, 1], [-1, 1]][rng.randint(2)]
    what = str(rng.choice(["option", "evolution", "poisson evolution", "graph", "direct graph", "responses",
                           "direct responses", "method", "graph size", "prior size", "score prior", "process",
                           "search"]))
    np.random.seed(rng.randint(2 ** 31))
    rec.describe(request=what, p=p)
    keep = A.copy()
    if what == "option":
        bad = [{"mode": word(rng, ["nope", "evolve", "Evolving!", ""])},
               {"distribution": word(rng, ["cauchy", "", "gamma"])}, {"update_theta": word(rng, ["l3", "", "none"])},
               {"update_ell": word(rng, ["l3", "", "none"])}][rng.randint(4)]
        refuses(rec, what + " " + min(bad), lambda: make_dataset(n_samples=3, n_dim_obs=8, n_dim_lat=1, T=2, **bad))
    elif what == "evolution":
        refuses(rec, what, lambda: ising_theta_generator(n_dim_obs=p, T=3, mode=str(rng.choice(["switch", "diffusion"]))))
        accepts(rec, what, lambda: ising_theta_generator(n_dim_obs=p, T=3, mode="l1"))
    elif what == "poisson evolution":
        refuses(rec, what, lambda: poisson_theta_generator(n_dim_obs=p, T=3, mode="reshuffle"))
        accepts(rec, what, lambda: poisson_theta_generator(n_dim_obs=p, T=3, mode="l1"))
    elif what in ("graph", "responses", "method"):
        good = dict(n=2, responses=resp, method=str(rng.choice(["MH", "direct"])))
        bad = dict(good)
        if what == "responses":
            bad["responses"] = [[0, 1, 2], [1], []][rng.randint(3)]
        elif what == "method":
            bad["method"] = word(rng, ["gibbs", "", "exact", "mh2"])
        refuses(rec, what, lambda: ising_sampler(B if what == "graph" else A, thr, **bad))
        accepts(rec, what, lambda: ising_sampler(A, thr, **good))
    elif what in ("direct graph", "direct responses"):
        refuses(rec, what, lambda: direct_sampling(B if what == "direct graph" else A, thr, n=2,
                                                   responses=resp if what == "direct graph" else [0, 1, 2]))
        accepts(rec, what, lambda: direct_sampling(A, thr, n=2, responses=resp))
    elif what in ("graph size", "prior size", "score prior"):
        X = rng.randn(20, p)
        g = np.triu(np.ones((p, p), dtype=bool))
        prior, q = Bunch(d0=3, S0=np.eye(p)), p + int(rng.choice([-1, 1]))
        wrong = Bunch(d0=3, S0=[np.eye(q), np.ones((p, q)), np.ones((1, 1)), np.ones((1, p)),
                                np.ones((p, 1))][rng.randint(5)])
        P, S = accepts(rec, what, lambda: G.GWishartFit(X, g, prior))
        if what == "graph size":
            refuses(rec, what, lambda: G.GWishartFit(
                X, np.triu(np.ones((q, q), dtype=bool)) if rng.rand() < 0.6 else np.ones((p, q), dtype=bool), prior))
        elif what == "prior size":
            refuses(rec, what, lambda: G.GWishartFit(X, g, wrong))
        else:
            refuses(rec, what, lambda: G.compute_score(X, g, P, S, GWprior=wrong))
    else:
        n = int(rng.randint(8, 20))
        X, y = rng.randn(n, p), np.repeat([0, 1], [4, n - 4])
        Xb, yb = X.copy(), y
        defect = str(rng.choice(["nan", "one variable", "sparse"] + ["rows"] * (what == "process")))
        if defect == "nan":
            Xb[rng.randint(n), rng.randint(p)] = np.nan
        elif defect == "one variable":
            Xb = X[:, :1]
        elif defect == "sparse":
            Xb = sp.csr_matrix(X)
        else:
            yb = y[:-1]
        if what == "process":
            est = WishartProcess(n_iter=2, burn_in=0)
            refuses(rec, what + ": " + defect, lambda: est.fit(Xb, yb))
        else:
            est = G.BayesianGraphicalLasso()
            refuses(rec, what + ": " + defect, lambda: est.fit(Xb))
        rec.check("a refused fit leaves no estimate", not hasattr(est, "precision_"))
    rec.check("the graph is left alone", np.array_equal(A, keep))
    rec.nontrivial(what, p, rng.randint(50))


def discriminant(rng, rec):
    from .c20 import refused
    refused(rng, rec)


def temporal(rng, rec):
    from .c22 import refused
    refused(rng, rec)
    from regain.generalized_linear_model.glm_time_ising import TemporalIsingModel
    X, y = (rng.rand(24, 3) < 0.5).astype(float), np.repeat([0, 1, 2], 8)
    for k in (np.eye(3), None):
        refuses(rec, "searching the parameter of no function",
                lambda: TemporalIsingModel(kernel=k, ker_param="auto", max_iter=1).fit(X, y))


KINDS = {"generators": (generators, 200, 2000), "discriminant": (discriminant, 60, 500),
         "temporal": (temporal, 60, 500), "graphical": (graphical, 300, 2500), "not_fitted": (not_fitted, 160, 1200),
         "networks": (networks, 120, 1000), "helpers": (helpers, 150, 1200),
         "regressions": (regressions, 120, 1000)}
