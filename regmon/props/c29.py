"""C29: stability selection refits on subsamples and selects by the instability it reports."""
import itertools
import sys
import threading
import types
import warnings

import numpy as np
from sklearn.base import BaseEstimator

from ..core import quiet

RULE = ("random data of 30..120 rows, 3..7 variables, one network or 2..5 labels (equal or unequal counts), grids of "
        "1..7 values of one or two parameters in any order, 2..9 repetitions, given or default sampling size, "
        "sequential and threaded schedules, edge and graphlet mode (graphlet distances by a stand-in), several "
        "scorings and refit rules, with an estimator whose network is a set function of subsample and parameters, "
        "and with the graphical lasso itself; every fit and every score is logged as it happens and the reported "
        "instabilities, scores, ranks and the selection are recomputed from the log; keyed by (times, variables, "
        "grid, repetitions, schedule, mode)")
ASSUMPTIONS = ["graphlet distances come from a package that is not installed; a stand-in with a simple distance takes "
               "its place", "rows are continuous draws, so a row identifies its sample"]
CASE_LIMIT = 120

LOCK = threading.Lock()
LOG = []


def key(A):
    return tuple(sorted(r.tobytes() for r in np.ascontiguousarray(A, dtype=float)))


def uniform(*parts):
    """A repeatable number in [0, 1) made of the parts."""
    import hashlib
    h = hashlib.sha1(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2. ** 48


class Model(BaseEstimator):
    """Network that depends on the subsample with a chance set by the parameters."""

    def __init__(self, alpha=1., beta=0., table=None):
        self.alpha, self.beta, self.table = alpha, beta, table

    def fit(self, X, y=None):
        p = X.shape[1]
        labels = np.unique(y) if y is not None and len(np.unique(y)) > 1 else [None]
        out = []
        for l in labels:
            k = key(X if l is None else X[y == l])
            a, b = float(self.alpha), float(self.beta)
            q, base = self.table[(a, b)]
            K = np.eye(p) * 2
            for i, j in itertools.combinations(range(p), 2):
                on = uniform("base", i, j, str(l)) < base
                if uniform(k, i, j, a, b) < q:
                    on = not on
                K[i, j] = K[j, i] = (0.1 - uniform(k, j, i)) * 10 ** (6 * uniform(j, k) - 5) * on
            out.append(K)
        self.precision_ = np.array(out) if labels[0] is not None else out[0]
        with LOCK:
            LOG.append(("fit", float(self.alpha), float(self.beta), key(X), X.copy(), None if y is None else
                        np.array(y), self.precision_.copy()))
        self.rows_ = key(X)
        return self

    def get_precision(self):
        return self.precision_

    def score(self, X, y=None):
        v = uniform(self.rows_, key(X), float(self.alpha), float(self.beta))
        with LOCK:
            LOG.append(("score", float(self.alpha), float(self.beta), self.rows_, key(X), v))
        return v


def instability(Ks):
    """Mean over pairs of nodes (and times) of 2 f (1 - f), f the frequency of the edge."""
    Ks = np.array(Ks)
    Ks = Ks[:, None] if Ks.ndim == 3 else Ks
    p, vals = Ks.shape[2], []
    for t in range(Ks.shape[1]):
        for i, j in itertools.combinations(range(p), 2):
            f = np.mean([K[t, i, j] != 0 for K in Ks])
            vals.append(2 * f * (1 - f))
    return np.mean(vals)


def graphlets(Ks):
    """Mean distance between pairs of networks, by the stand-in distance."""
    Ks = np.array(Ks)
    Ks = Ks[:, None] if Ks.ndim == 3 else Ks
    sets = [[{(i, j) for i, j in itertools.combinations(range(Ks.shape[2]), 2) if K[t, i, j] != 0}
             for t in range(Ks.shape[1])] for K in Ks]
    return np.mean([np.mean([distance(a, b) for a, b in zip(A, B)]) for A, B in itertools.combinations(sets, 2)])


def distance(a, b):
    return float(len(a ^ b)) + 0.25 * abs(len(a) - len(b))


def stand_in():
    mod, sub = types.ModuleType("netanalytics"), types.ModuleType("netanalytics.graphlets")

    def graphlet_degree_vectors(nodes, edges, graphlet_size=5):
        return {tuple(sorted(e[:2])) for e in edges}
    sub.graphlet_degree_vectors = graphlet_degree_vectors
    sub.GCD = lambda a, b: (None, distance(a, b))
    mod.graphlets = sub
    sys.modules["netanalytics"], sys.modules["netanalytics.graphlets"] = mod, sub


def problem(rng, unequal=True):
    T = int(rng.choice([1, 1, 2, 3, 5]))
    p, n = int(rng.randint(3, 8)), int(rng.randint(30, 121))
    X = rng.randn(n, p).dot(np.eye(p) + 0.4 * rng.randn(p, p))
    if T == 1:
        return X, None, T, p, n
    if unequal and rng.rand() < 0.5:
        w = rng.uniform(0.5, 2, size=T)
        y = np.concatenate([np.arange(T), np.arange(T), np.arange(T), rng.choice(T, n - 3 * T, p=w / w.sum())])
    else:
        y = np.arange(n) % T
    y = np.sort(rng.choice(np.arange(-9, 30), T, replace=False))[rng.permutation(y)]
    return X, y, T, p, n


def sizes(sampling, n, T):
    s = int(min(10 * np.sqrt(n), n - 10)) if sampling is None else sampling
    return s // T * T


def subsamples(rec, fits, X, y, size, reps, n, T):
    """Every candidate is fitted on the same repeated subsamples of the right size, without replacement."""
    rows = {r.tobytes(): i for i, r in enumerate(np.ascontiguousarray(X))}
    per = {}
    for f in fits:
        per.setdefault((f[1], f[2]), []).append(f[3])
        idx = [rows.get(r.tobytes(), -1) for r in np.ascontiguousarray(f[4])]
        rec.check("a subsample holds distinct rows of the data", min(idx) >= 0 and len(set(idx)) == len(idx))
        rec.check("a subsample has the requested size", len(idx) == size, got=len(idx), want=size)
        if y is not None:
            rec.check("rows keep their labels", np.array_equal(f[5], y[idx]))
            share = [abs(np.sum(f[5] == l) - size * np.mean(y == l)) for l in np.unique(y)]
            rec.check("labels keep their proportions", max(share) < 1 + 1e-9, off=share)
    sets = [sorted(v) for v in per.values()]
    rec.check("every candidate is fitted once per repetition", all(len(s) == reps for s in sets))
    rec.check("all candidates see the same subsamples", all(s == sets[0] for s in sets))
    if size <= 0.8 * n:
        rec.check("repetitions draw different subsamples", len(set(sets[0])) == reps, distinct=len(set(sets[0])))


def rule(mono, threshold=0.05):
    ok = [i for i, m in enumerate(mono) if m <= threshold]
    return min(ok, key=lambda i: (-mono[i], i)) if ok else 0


def judge(rec, sel, fits, cands, names, mode, refit_rule=None):
    """Reported instabilities, their running maximum and the selection, from the logged networks."""
    by = {}
    for f in fits:
        by.setdefault((f[1], f[2]), []).append(f[6])
    r = sel.cv_results_
    got = [tuple(float(c.get(k, d)) for k, d in (("alpha", 1.), ("beta", 0.))) for c in r["params"]]
    rec.check("candidates are all combinations, from the largest values down", got == cands, got=got, want=cands)
    raw = np.array([instability(by[c]) for c in cands])
    mono = np.array([raw[:i + 1].max() for i in range(len(raw))])
    rec.close("reported instabilities are those of the fitted networks", r["raw_test_instability"], raw, atol=1e-12)
    rec.close("monotonised instabilities are the largest so far", sel.monotonized_instabilities, mono, atol=1e-12)
    if np.abs(mono - 0.05).min() < 1e-9:
        return None
    if mode == "stars":
        want = rule(mono)
        m = np.where(mono <= 0.05, mono, -np.inf)
    else:
        g = np.array([graphlets(by[c]) for c in cands])
        rec.close("graphlet instabilities average the distances", sel.graphlets_instabilities, g, atol=1e-9)
        up = np.array([4 * v * (1 - v) for v in raw])
        up = np.array([up[:i + 1].max() for i in range(len(up))])
        rec.close("upper bounds are the largest so far", sel.upper_bounds, up, atol=1e-12)
        if np.abs(up - 0.05).min() < 1e-9:
            return None
        low = np.flatnonzero(mono <= 0.05)
        high = np.flatnonzero(up <= 0.05)
        a, b = (high[-1] if high.size else 0), (low[-1] if low.size else len(g) - 1)
        inside = [i for i in range(a, b + 1)]
        want = min(inside, key=lambda i: (round(g[i], 9), i))
        if len(inside) > 1 and np.diff(np.sort(np.round(g[inside], 9)))[0] == 0:
            want = None if g[inside].min() == np.sort(g[inside])[1] else want
        m = mono
    rec.close("mean instabilities", np.where(np.isfinite(r["mean_test_instability"]), r["mean_test_instability"], -1.),
              np.where(np.isfinite(m), m, -1.), atol=1e-12)
    if want is None:
        return None
    if refit_rule is not None:
        want = refit_rule
    rec.check("the selected candidate is the least stable of the stable ones", sel.best_index_ == want,
              got=int(sel.best_index_), want=want, monotonised=mono, mode=mode)
    rec.check("best parameters are those of the selected candidate",
              tuple(float(sel.best_params_.get(k, d)) for k, d in (("alpha", 1.), ("beta", 0.))) == cands[want])
    rec.check("best parameters name the grid", set(sel.best_params_) == set(names))
    rec.event("selections judged")
    rec.stat("candidates kept as stable", int(np.sum(mono <= 0.05)))
    return want


def selection(rng, rec):
    import joblib
    from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection

    stand_in()
    X, y, T, p, n = problem(rng)
    two = bool(rng.rand() < 0.3)
    alphas = [float(a) for a in np.round(10 ** rng.uniform(-2, 1, size=rng.randint(1, 4 if two else 8)), 6)]
    betas = [float(b) for b in np.round(10 ** rng.uniform(-2, 1, size=rng.randint(1, 4)), 6)] if two else [0.]
    alphas, betas = list(dict.fromkeys(alphas)), list(dict.fromkeys(betas))
    cands = list(itertools.product(sorted(alphas)[::-1], sorted(betas)[::-1]))
    table, q = {}, 10 ** rng.uniform(-3.5, -1)
    for c in cands:
        table[c] = (q, float(rng.choice([0.1, 0.4])))
        q = min(0.5, q * rng.choice([0.3, 1, 1.5, 2.5]))
    grid = {"alpha": alphas}
    if two:
        grid["beta"] = betas
    reps = int(rng.randint(2, 10))
    sampling = None if rng.rand() < 0.5 else int(rng.randint(3 * T, n - 2 * T))
    size = sizes(sampling, n, T)
    mode = str(rng.choice(["stars", "stars", "StARS", "gstars"]))
    jobs = int(rng.choice([1, 1, 1, 3]))
    refit = bool(rng.rand() < 0.8)
    train = bool(rng.rand() < 0.3)
    multi = bool(rng.rand() < 0.2)
    pick = bool(rng.rand() < 0.15)
    kw = dict(n_repetitions=reps, mode=mode, refit=refit, return_train_score=train, sampling_size=sampling,
              n_jobs=None if jobs == 1 else jobs)
    if multi:
        kw["scoring"] = {"first": lambda e, A, b: e.score(A, b), "second": lambda e, A, b: -2 * e.score(A, b),
                         "coarse": lambda e, A, b: float(e.alpha > 1)}
        kw["refit"] = refit = ["first", "second"][int(rng.randint(2))]
    elif pick:
        where = int(rng.randint(len(cands)))
        kw["refit"] = refit = lambda results: where
    if rng.rand() < 0.2:
        kw["iid"] = bool(rng.rand() < 0.5)
    rec.describe(T=T, p=p, n=n, grid=grid, reps=reps, size=size, mode=mode, jobs=jobs, multi=multi,
                 refit=str(refit), given=sampling)
    given = {k: list(v) for k, v in grid.items()}
    Xk, yk = X.copy(), None if y is None else y.copy()
    seed = int(rng.randint(2 ** 31 - 1))

    def run(sel, A, b):
        np.random.seed(seed)
        del LOG[:]
        with warnings.catch_warnings(), quiet(), joblib.parallel_backend("threading"):
            warnings.simplefilter("ignore")
            sel.fit(A, b) if b is not None else sel.fit(A)
        return list(LOG)

    base = Model(table=table)
    sel = GraphicalModelStabilitySelection(base, grid, **kw)
    log = run(sel, X, y)
    rec.check("data, grid and the given estimator are not modified", np.array_equal(X, Xk) and grid == given and
              (y is None or np.array_equal(y, yk)) and not hasattr(base, "precision_") and base.alpha == 1.)
    allfits = [e for e in log if e[0] == "fit"]
    whole = key(X)
    fits, full = [e for e in allfits if e[3] != whole], [e for e in allfits if e[3] == whole]
    rec.event("fits observed", len(allfits))
    rec.check("one fit per candidate and repetition", len(fits) == len(cands) * reps, got=len(fits))
    subsamples(rec, fits, X, y, size, reps, n, T)
    r = sel.cv_results_
    # scores: every candidate scored on the rows left out of each subsample
    out = sorted(whole)
    per = {c: [] for c in cands}
    for e in log:
        if e[0] == "score":
            if sorted(e[3] + e[4]) == out:
                per[(e[1], e[2])].append(e[5])
            else:
                rec.check("scores are taken on the rows left out, or on the fitted rows if asked",
                          train and e[3] == e[4])
    if multi:
        want = np.array([float(c[0] > 1) for c in cands])
        rec.close("mean scores", r["mean_test_coarse"], want, atol=1e-12)
        rec.check("equal scores share the better rank", list(r["rank_test_coarse"]) ==
                  [1 + int(np.sum(want > v)) for v in want], got=r["rank_test_coarse"])
    for name, factor in (("score", 1),) if not multi else (("first", 1), ("second", -2)):
        table_ = np.array([r["split%d_test_%s" % (s, name)] for s in range(reps)]).T
        want = np.array([sorted(set(factor * v for v in per[c])) for c in cands])
        rec.close("split scores are those of the models on the rows left out", np.sort(table_, axis=1), want,
                  atol=1e-12)
        rec.close("mean scores", r["mean_test_" + name], want.mean(1), atol=1e-12)
        rec.close("standard deviations of the scores", r["std_test_" + name], want.std(1), atol=1e-10)
        means = np.asarray(r["mean_test_" + name])
        rank = [1 + int(np.sum(means > v)) for v in means]
        rec.check("scores are ranked from the best", list(r["rank_test_" + name]) == rank, got=r["rank_test_" + name])
    if multi:
        means = np.asarray(r["mean_test_" + refit])
        best = int(np.argmax(means))
    else:
        best = where if pick else None
    names = list(grid)
    want = judge(rec, sel, fits, cands, names, mode.lower(), best)
    if not pick:
        metric = refit if multi else "instability"
        rec.check("the best score is that of the selected candidate",
                  sel.best_score_ == r["mean_test_" + metric][sel.best_index_])
    if refit:
        c = cands[sel.best_index_]
        rec.check("the best estimator is refitted once on all the data", len(full) == 1 and full[0][1:3] == c and
                  np.array_equal(full[0][4], X) and (y is None or np.array_equal(full[0][5], y)))
        rec.check("the best estimator is the refitted one", np.array_equal(sel.best_estimator_.precision_, full[0][6])
                  and float(sel.best_estimator_.alpha) == c[0])
    else:
        rec.check("nothing is refitted unless asked", not full and not hasattr(sel, "best_estimator_"))
    rec.check("the number of repetitions is reported", sel.n_splits_ == reps)
    again = GraphicalModelStabilitySelection(Model(table=table), grid, **kw)
    first = np.asarray(r["raw_test_instability"]).copy(), int(sel.best_index_)
    run(again, X, y)
    rec.check("equal seeds give equal selections", np.array_equal(again.cv_results_["raw_test_instability"], first[0])
              and again.best_index_ == first[1])
    # the same object on other data: sizes follow the new data
    if sampling is None or rng.rand() < 0.5:
        m = int(rng.randint(30, 121)) if sampling is None else n
        X2 = rng.randn(m, p)
        y2 = None if y is None or rng.rand() < 0.3 else rng.permutation(np.arange(m) % int(rng.randint(2, 6)))
        T2 = 1 if y2 is None else len(np.unique(y2))
        size2 = sizes(sampling, m, T2)
        if size2 >= T2 and m - size2 >= T2:
            log = run(sel, X2, y2)
            fits = [e for e in log if e[0] == "fit" and e[3] != key(X2)]
            rec.check("a second fit samples the new data by their own size",
                      len(fits) == len(cands) * reps and all(len(e[3]) == size2 for e in fits),
                      got=sorted({len(e[3]) for e in fits}), want=size2)
            judge(rec, sel, fits, cands, names, mode.lower(),
                  int(np.argmax(sel.cv_results_["mean_test_" + refit])) if multi else best)
            rec.event("second fits observed")
    rec.nontrivial(T, p, len(cands), reps, mode, jobs, two, sampling is None, multi, pick)


def lasso(rng, rec):
    """The selection around the library's own estimators."""
    from regain.covariance import GraphicalLasso, TimeGraphicalLasso
    from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection

    X, y, T, p, n = problem(rng, unequal=False)
    kind = GraphicalLasso if T == 1 else TimeGraphicalLasso
    log = []

    class Logged(kind):
        def __init__(self, alpha=0.01, mode="admm", rho=1., beta=1., tol=1e-4, max_iter=100, assume_centered=False):
            args = dict(alpha=alpha, rho=rho, tol=tol, max_iter=max_iter, assume_centered=assume_centered)
            if kind is TimeGraphicalLasso:
                args["beta"] = beta
            kind.__init__(self, **args)
            self.beta = beta

        def fit(self, A, b=None):
            kind.fit(self, A, b) if b is not None and kind is TimeGraphicalLasso else kind.fit(self, A)
            log.append(("fit", float(self.alpha), 0., key(A), np.array(A), b, np.array(self.get_precision())))
            return self

    alphas = [float(a) for a in np.unique(np.round(10 ** rng.uniform(-1.3, 0.5, size=rng.randint(2, 6)), 5))]
    rng.shuffle(alphas)
    reps = int(rng.randint(2, 6))
    rec.describe(T=T, p=p, n=n, alphas=alphas, reps=reps)
    np.random.seed(int(rng.randint(2 ** 31 - 1)))
    sel = GraphicalModelStabilitySelection(Logged(max_iter=60), {"alpha": alphas}, n_repetitions=reps)
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        sel.fit(X, y) if y is not None else sel.fit(X)
    fits = [e for e in log if e[3] != key(X)]
    size = sizes(None, n, T)
    rec.check("one fit per candidate and repetition", len(fits) == len(alphas) * reps, got=len(fits))
    subsamples(rec, fits, X, None, size, reps, n, T)
    judge(rec, sel, fits, [(a, 0.) for a in sorted(alphas)[::-1]], ["alpha"], "stars")
    rec.event("fits observed", len(log))
    rec.nontrivial("lasso", T, p, len(alphas), reps)


def figure(rng, rec):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from regain.model_selection.stability_optimization import GraphicalModelStabilitySelection

    stand_in()
    X, y, T, p, n = problem(rng)
    alphas = [float(a) for a in np.unique(np.round(10 ** rng.uniform(-2, 1, size=rng.randint(2, 7)), 6))]
    cands = [(a, 0.) for a in alphas[::-1]]
    q = np.sort(10 ** rng.uniform(-3, -0.5, size=len(cands)))
    mode = str(rng.choice(["stars", "gstars"]))
    rec.describe(T=T, p=p, n=n, alphas=alphas, mode=mode)
    np.random.seed(int(rng.randint(2 ** 31 - 1)))
    sel = GraphicalModelStabilitySelection(Model(table={c: (v, 0.3) for c, v in zip(cands, q)}), {"alpha": alphas},
                                           n_repetitions=int(rng.randint(2, 6)), mode=mode)
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        sel.fit(X, y) if y is not None else sel.fit(X)
        fig, axes = plt.subplots(2 if mode == "gstars" else 1)
        sel.plot(axis=axes)
    lines = [np.asarray(l.get_ydata(), float) for a in np.ravel(axes) for l in a.get_lines()]
    shown = [l for l in lines if len(l) == len(alphas)]
    want = [sel.monotonized_instabilities]
    if mode == "gstars":
        want += [sel.upper_bounds, sel.graphlets_instabilities]
    for w in want:
        rec.check("the curves reported are drawn", any(np.allclose(w, l) for l in shown), curve=w)
    top = np.ravel(axes)[0]
    rec.check("the threshold is drawn", any(np.allclose(np.asarray(l.get_ydata(), float), 0.05)
                                            for l in top.get_lines()))
    ticks = [t.get_text() for t in top.get_xticklabels()]
    rec.check("every candidate is named, in order", ticks == [str(c) for c in sel.cv_results_["params"]], got=ticks)
    plt.close(fig)
    rec.event("figures read back")
    rec.nontrivial("figure", T, len(alphas), mode)


KINDS = {"selection": (selection, 500, 8000), "lasso": (lasso, 40, 400), "figure": (figure, 30, 200)}
