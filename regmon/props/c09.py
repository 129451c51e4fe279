"""C09: estimators see the data only as per-label sample counts and covariances."""
import numpy as np

from ..core import quiet
from ..estimators import STATIC, TIME, build, labels, stack
from ..solvers import covs, gen_data

RULE = ("random estimator (static, latent, time, kernel, latent-time, kernel-latent, "
        "similarity, forward-backward) with random options, data groups of different sizes "
        "(1 to 700 samples, also integers and single precision) and means in random row order under integer, float, negative or string labels; a "
        "case compares the fitted attributes with the corresponding solver call on per-label "
        "covariances computed here; keyed by (estimator, label type, T, p, centering, memory "
        "layout, data regime)")
ASSUMPTIONS = ["agreement to 1e-7 relative (same arithmetic up to summation order); runs whose "
               "iteration counts differ because of rounding at the stopping threshold are "
               "compared with a tolerance scaled to the requested one"]


def close_enough(rec, tag, a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return rec.check(tag, False, got=a.shape, want=b.shape)
    sc = 1 + np.abs(b).max()
    d = np.abs(a - b).max()
    return rec.check(tag, d <= tol * sc, max_abs_diff=d, got=a, want=b)


def compare(rec, tag, est, ref, latent, tol_run, solve, S, n):
    # how much the solver itself reacts to rounding of its input (a singular start, a line search)
    sc = 1 + np.abs(ref["precision"]).max()
    if est.precision_.shape == ref["precision"].shape and \
            np.abs(est.precision_ - ref["precision"]).max() > 1e-7 * sc:
        noise = np.random.RandomState(7).randn(*S.shape)
        with quiet():
            near = solve(S + 1e-11 * np.abs(S).max() * (noise + noise.transpose(0, 2, 1)), n)
        move = np.abs(near["precision"] - ref["precision"]).max()
        if move > 1e-8 * sc and near["n_iter"] == ref["n_iter"]:
            rec.event("fits too sensitive to rounding to compare")
            return
    same_it = est.n_iter_ == ref["n_iter"]
    rec.event("fits with identical iteration count" if same_it else
              "fits whose iteration count differs by rounding")
    tol = 1e-7 if same_it else 300 * tol_run
    close_enough(rec, tag + "precision_ is the solver's on per-label covariances",
                 est.precision_, ref["precision"], tol)
    close_enough(rec, tag + "covariance_ is the solver's", est.covariance_,
                 ref["covariance"], max(tol, 1e-6) * 100)
    if latent:
        close_enough(rec, tag + "latent_ is the solver's", est.latent_, ref["latent"], tol)


def groups(rng, T, p):
    """Data groups; sometimes many samples, a single one, whole numbers, single precision, odd scales."""
    Xs, mode = gen_data(rng, T, p)
    how = str(rng.choice(["plain"] * 6 + ["many", "single", "whole", "float32", "scale", "offset"]))
    if how == "many":
        Xs = [x[rng.randint(len(x), size=rng.randint(100, 700))] + 0.3 * rng.randn(1, p) for x in Xs]
        Xs = [x + 0.2 * rng.standard_exponential(x.shape) for x in Xs]
    if how == "single" and T > 1:
        t = rng.randint(T)
        Xs[t] = Xs[t][:1]
    if how == "scale":
        Xs = [x * 10 ** rng.uniform(-1, 1, size=p) for x in Xs]
    Xs = [x + rng.randn(p) * (300 if how == "offset" else 3) for x in Xs]
    if how == "whole":
        Xs = [np.round(2 * x).astype(int) for x in Xs]
    if how == "float32" and T > 1:
        Xs = [x.astype(np.float32) for x in Xs]
    return Xs, mode + "/" + how


def moments(Xs, assume):
    return covs([np.asarray(x, float) for x in Xs], centered=assume)


def time_case(rng, rec):
    name = str(rng.choice(TIME))
    p, T = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    if rng.rand() < 0.06:
        p, T = int(rng.randint(6, 16)), int(rng.randint(2, 9))
    Xs, mode = groups(rng, T, p)
    n = np.array([x.shape[0] for x in Xs])
    assume = bool(rng.rand() < 0.4)
    S = moments(Xs, assume)
    est, solve, kw = build(rng, name, T, p, S)
    est.set_params(assume_centered=assume)
    labs, lt = labels(rng, T)
    X, y = stack(rng, Xs, labs)
    layout = str(rng.choice(["plain", "fortran", "strided", "list"]))
    if layout == "fortran":
        X = np.asfortranarray(X)
    elif layout == "strided":
        X = np.repeat(X, 2, axis=0)[::2]
    Xin, yin = (X.tolist(), y.tolist()) if layout == "list" else (X, y)
    rec.describe(estimator=name, labels=labs, p=p, T=T, n=n, centered=assume, layout=layout,
                 regime=mode, options={k: v for k, v in kw.items() if k != "init"})
    with quiet():
        r = est.fit(Xin, yin)
        ref = solve(S, n)
    rec.check("fit returns the estimator", r is est)
    rec.check("classes_ are the sorted distinct labels",
              list(est.classes_) == list(labs), got=list(est.classes_), want=list(labs))
    want_loc = np.zeros((T, p)) if assume else np.array([np.mean(x, 0, dtype=float) for x in Xs])
    rec.close("location_ holds the mean of each label's rows (zeros when assumed centered)",
              est.location_, want_loc, rtol=1e-9, atol=1e-9)
    compare(rec, "", est, ref, "latent" in ref, kw["tol"], solve, S, n)
    rec.nontrivial(name, lt, T, p, assume, layout, mode)


def static_case(rng, rec):
    name = str(rng.choice(STATIC))
    p = int(rng.randint(2, 9))
    if rng.rand() < 0.1:
        p = int(rng.randint(9, 30))
    (X,), mode = groups(rng, 1, p)
    assume = bool(rng.rand() < 0.4)
    S = moments([X], assume)
    est, solve, kw = build(rng, name, 1, p, S)
    est.set_params(assume_centered=assume)
    Xin = X[rng.permutation(len(X))]
    rec.describe(estimator=name, p=p, n=X.shape[0], centered=assume, regime=mode,
                 options={k: v for k, v in kw.items() if k != "init"})
    with quiet():
        r = est.fit(Xin)
        ref = solve(S, None)
    rec.check("fit returns the estimator", r is est)
    rec.close("location_ is the mean of the rows (zeros when assumed centered)",
              est.location_, np.zeros(p) if assume else np.mean(X, 0, dtype=float), rtol=1e-9, atol=1e-9)
    compare(rec, "static: ", est, ref, "latent" in ref, kw["tol"], solve, S, None)
    from sklearn.base import clone
    q = rng.permutation(p)
    perm = clone(est)
    if not isinstance(kw.get("init"), str) and kw.get("init") is not None:
        perm.set_params(init=np.asarray(kw["init"])[q][:, q].copy())
    with quiet():
        perm.fit(Xin[:, q])
    close_enough(rec, "static: permuted variables give permuted estimates", perm.precision_,
                 est.precision_[q][:, q], 1e-6 if perm.n_iter_ == est.n_iter_ else 300 * kw["tol"])
    rec.nontrivial(name, p, assume, mode, kw["alpha"] > 1)


def invariance(rng, rec):
    """Metamorphic: relabelling, row order and per-label shifts change nothing."""
    name = str(rng.choice(TIME))
    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    est, solve, kw = build(rng, name, T, p, S)
    from sklearn.base import clone

    X, y = stack(rng, Xs, np.arange(T))
    base = clone(est)
    labs, lt = labels(rng, T)
    other = clone(est)
    shifted = [x + 5 * rng.randn(p) for x in Xs]
    X2, y2 = stack(rng, shifted, labs)
    rec.describe(estimator=name, p=p, T=T, labels=labs, regime=mode)
    with quiet():
        base.fit(X, y)
        other.fit(X2, y2)
    tol = 1e-6 if base.n_iter_ == other.n_iter_ else 300 * kw["tol"]
    close_enough(rec, "relabelled, reordered and shifted data give the same precisions",
                 other.precision_, base.precision_, tol)
    # reversing the time order reverses the estimates of order-symmetric models
    if name in ("TGL", "LTGL"):
        rev = clone(est)
        if not isinstance(kw.get("init"), str) and kw.get("init") is not None:
            rev.set_params(init=kw["init"][::-1].copy())
        X3, y3 = stack(rng, Xs[::-1], np.arange(T))
        with quiet():
            rev.fit(X3, y3)
        tol = 1e-6 if base.n_iter_ == rev.n_iter_ else 300 * kw["tol"]
        close_enough(rec, "reversed time gives reversed estimates",
                     rev.precision_[::-1], base.precision_, tol)
    # permuting the variables permutes the estimates
    q = rng.permutation(p)
    perm = clone(est)
    if not isinstance(kw.get("init"), str) and kw.get("init") is not None:
        perm.set_params(init=kw["init"][:, q][:, :, q].copy())
    with quiet():
        perm.fit(X[:, q], y)
    tol = 1e-6 if base.n_iter_ == perm.n_iter_ else 300 * kw["tol"]
    if name != "FB":
        close_enough(rec, "permuted variables give permuted estimates", perm.precision_,
                     base.precision_[:, q][:, :, q], tol)
    rec.nontrivial(name, lt, T, p, mode)


def rejects(rng, rec):
    """Inputs on which a covariance is meaningless are refused, not fitted."""
    name = str(rng.choice(TIME + STATIC))
    p, T = int(rng.randint(2, 5)), 3
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    est, solve, kw = build(rng, name, T, p, S, max_iter=5, init=False)
    X, y = stack(rng, Xs, np.arange(T))
    what = str(rng.choice(["nan", "inf", "one feature", "length", "one dim"]))
    if name in STATIC and what == "length":
        what = "nan"
    if what == "nan":
        X = X.copy(); X[rng.randint(len(X)), rng.randint(p)] = np.nan
    elif what == "inf":
        X = X.copy(); X[rng.randint(len(X)), rng.randint(p)] = np.inf
    elif what == "one feature":
        X = X[:, :1]
    elif what == "length":
        y = y[:-1]
    else:
        X = X[:, 0]
    rec.describe(estimator=name, defect=what)
    try:
        with quiet():
            est.fit(X, y) if name in TIME else est.fit(X)
        ok = False
    except ValueError:
        ok = True
    rec.check("malformed data raise ValueError", ok, defect=what)
    rec.nontrivial(name, what)


KINDS = {"time": (time_case, 260, 2500), "static": (static_case, 120, 1200),
         "invariance": (invariance, 80, 800), "rejects": (rejects, 80, 300)}
