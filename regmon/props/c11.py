"""C11: solver reports (history, iteration counts, warnings, flags) are truthful."""
import numpy as np

from .. import refsolve as rs
from ..core import not_converged, quiet
from ..estimators import STATIC, TIME, build, stack
from ..solvers import covs, gen_data

RULE = ("random solver (static, latent, time, kernel, latent-time, kernel-latent, forward-backward, "
        "decomposition) with random problem, tolerances 1e-2..1e-6 and iteration limits 1..300, run "
        "several times with different limits, tolerances and reporting flags (variances 1e-5..1e5; one regularisation, or one per entry, time or transition); a case compares the "
        "recorded histories; keyed by (solver, penalties, T, p, converged or cut, flags)")
ASSUMPTIONS = ["reported objective at the last iterate is compared with an independent evaluation "
               "within the recorded primal residual times the Lipschitz constant of the penalties"]


def solver(name):
    from regain.covariance.graphical_lasso_ import graphical_lasso
    from regain.covariance.infimal_convolution_ import infimal_convolution
    from regain.covariance.kernel_latent_time_graphical_lasso_ import \
        kernel_latent_time_graphical_lasso
    from regain.covariance.kernel_time_graphical_lasso_ import kernel_time_graphical_lasso
    from regain.covariance.latent_graphical_lasso_ import latent_graphical_lasso
    from regain.covariance.latent_time_graphical_lasso_ import latent_time_graphical_lasso
    from regain.covariance.latent_time_matrix_decomposition import \
        latent_time_matrix_decomposition
    from regain.covariance.time_graphical_lasso_ import time_graphical_lasso
    return dict(GL=graphical_lasso, LGL=latent_graphical_lasso, IC=infimal_convolution,
                TGL=time_graphical_lasso, LTGL=latent_time_graphical_lasso,
                KTGL=kernel_time_graphical_lasso, KLTGL=kernel_latent_time_graphical_lasso,
                LTMD=latent_time_matrix_decomposition)[name]


NARR = dict(GL=2, LGL=3, IC=3, TGL=2, LTGL=3, KTGL=2, KLTGL=3, LTMD=2)
FIRST = dict(TGL=1, KTGL=1)            # histories that start with the initial objective
ADMM = list(NARR)


def problem(rng, name):
    """-> (positional input, keyword arguments without tolerances, Problem or None, T, p)."""
    p, T = int(rng.randint(2, 6)), int(rng.randint(2, 5))
    if name in ("GL", "LGL", "IC"):
        T = 1
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    n = np.array([x.shape[0] for x in Xs])
    kw = {}
    if name not in ("IC", "LTMD"):
        _, _, kw = build(rng, name, T, p, S)
        kw = {k: v for k, v in kw.items() if k not in ("tol", "rtol", "max_iter")}
    else:
        from ..solvers import PENS, admm_options
        kw = admm_options(rng)
        kw.update(alpha=float(10 ** rng.uniform(-1, 0.3)), tau=float(10 ** rng.uniform(-0.5, 0.7)))
        if name == "LTMD":
            kw.update(beta=float(10 ** rng.uniform(-1, 1)), eta=float(10 ** rng.uniform(-1, 1)),
                      psi=str(rng.choice(PENS)), phi=str(rng.choice(PENS)))
    if name in ("TGL", "LTGL", "KTGL", "KLTGL"):
        kw["n_samples"] = n
    from ..solvers import kernel_matrix
    if name == "KTGL":
        kw["kernel"] = kernel_matrix(rng, T, 2.0)
    if name == "KLTGL":
        kw["kernel_psi"], kw["kernel_phi"] = kernel_matrix(rng, T, 2.0), kernel_matrix(rng, T, 2.0)
    if name in ("GL", "TGL", "KTGL", "LTGL") and rng.rand() < 0.3:      # one regularisation per entry or time
        shape = (p, p) if name == "GL" else (T, p, p) if name == "TGL" and rng.rand() < 0.5 else (T, 1, 1)
        a = rng.uniform(0.3, 2, size=shape) * kw["alpha"]
        kw["alpha"] = (a + np.swapaxes(a, -1, -2)) / 2
        for k in ("beta", "eta"):
            if k in kw and rng.rand() < 0.7:
                kw[k] = rng.uniform(0.3, 2, size=(T - 1, 1, 1)) * kw[k]
        mode += "/arrays"
    if name not in ("IC", "LTMD") and rng.rand() < 0.25:      # variances far from one
        s = float(10 ** rng.uniform(-5, 5))
        S = S * s
        mode = "%s x %.0e" % (mode, s)
        for k in ("alpha", "tau", "beta", "eta", "kernel", "kernel_psi", "kernel_phi"):
            if k in kw:
                kw[k] = kw[k] * s
    arg = S[0] if T == 1 and name in ("GL", "LGL", "IC") else S
    return arg, kw, T, p, mode


def count_vars(name, T, p):
    return p * p * dict(GL=1, LGL=1, IC=1, TGL=3 * T - 2, LTGL=5 * T - 4, LTMD=5 * T - 4,
                        KTGL=T * T, KLTGL=T * (2 * T - 1))[name]


def objective_of(name, arg, kw, T, p):
    if name in ("GL", "LGL", "IC"):
        S = np.asarray(arg)[None]
    else:
        S = np.asarray(arg)
    W = np.zeros((T, T))
    V = np.zeros((T, T))
    if name in ("TGL", "LTGL", "LTMD"):
        W = rs.chain(T, kw["beta"] if np.isscalar(kw["beta"]) else np.ravel(kw["beta"]))
    if name in ("LTGL", "LTMD"):
        V = rs.chain(T, kw["eta"] if np.isscalar(kw["eta"]) else np.ravel(kw["eta"]))
    if name == "KTGL":
        W = kw["kernel"].copy()
    if name == "KLTGL":
        W, V = kw["kernel_psi"].copy(), kw["kernel_phi"].copy()
    np.fill_diagonal(W, 0), np.fill_diagonal(V, 0)
    return rs.Problem(S, n=kw.get("n_samples"), alpha=kw["alpha"], tau=kw.get("tau"), W=W, V=V,
                      psi=kw.get("psi", "l1"), phi=kw.get("phi", "l1"),
                      loss="quad" if name in ("IC", "LTMD") else "gauss",
                      quad=0.5 if name == "IC" else 1.0)


def unpack(name, out):
    k = NARR[name]
    return [np.asarray(o) for o in out[:k]], out[k], out[k + 1]


def same_check(a, b, tol=1e-9):
    for f in ("obj", "rnorm", "snorm"):
        u, v = float(getattr(a, f)), float(getattr(b, f))
        if np.isnan(u) and np.isnan(v) or u == v:
            continue
        if not abs(u - v) <= tol * (1 + abs(v)):
            return False
    return True


def met(c):
    return c.rnorm <= c.e_pri and c.snorm <= c.e_dual


def documented(rec, name, arg, kw, T, p, K3, L, last, frac=0.05):
    """The recorded objective against its independent value at the returned estimate."""
    P = objective_of(name, arg, kw, T, p)
    obj = P.evaluate(K3, None if L is None else (L if L.ndim == 3 else L[None]))
    if not (np.isfinite(obj) and np.isfinite(last.obj)):
        return False
    R = K3 if L is None else K3 - (L if L.ndim == 3 else L[None])
    nn = np.ones(T) if kw.get("n_samples") is None else np.asarray(kw["n_samples"], float)
    if P.loss == "gauss":
        iv = [np.linalg.inv((r + r.T) / 2) for r in R]
        S3 = np.asarray(arg) if np.ndim(arg) == 3 else np.asarray(arg)[None]
        lip = sum(nn[t] * (np.linalg.norm(S3[t]) + np.linalg.norm(iv[t])) for t in range(T))
        quad = sum(nn[t] * np.linalg.norm(iv[t]) ** 2 for t in range(T))
    else:
        lip, quad = np.linalg.norm(R) * 4 + 4 * np.linalg.norm(np.asarray(arg)), 1.0
    r = last.rnorm
    diffs = 2 * np.abs(K3).max() * p + (0 if L is None else 2 * np.abs(L).max() * p)
    pen = (np.max(P.alpha) + (0 if P.tau is None else np.max(P.tau))
           + 2 * (np.triu(P.W, 1).sum() + np.triu(P.V, 1).sum()) * (2 + 2 * diffs)) * p * np.sqrt(2 * T)
    if quad * r * r >= frac * (1 + abs(obj)):
        return False
    allow = 4 * (lip + pen) * r + 4 * quad * r * r + 1e-7 * (1 + abs(obj))
    if allow >= frac * (1 + abs(obj)):
        return False
    rec.stat("objective mismatch/allowed", abs(obj - last.obj) / allow)
    rec.check("the last recorded objective is the documented one at the estimate",
              abs(obj - last.obj) <= allow, recorded=last.obj, documented=obj, allowed=allow)
    return True


def precise(rng, rec):
    """Long runs, so that the recorded objective must agree with the documented one to many digits; weak temporal
    penalties, so that every term of it counts."""
    name = str(rng.choice(ADMM))
    f = solver(name)
    arg, kw, T, p, mode = problem(rng, name)
    kw["compute_objective"] = True
    for k in ("alpha", "tau", "beta", "eta", "kernel", "kernel_psi", "kernel_phi"):
        if k in kw:
            kw[k] = kw[k] * 10 ** rng.uniform(-1.5, 0.3)
    rec.describe(solver=name, T=T, p=p, regime=mode,
                 options={k: v for k, v in kw.items() if k not in ("init", "n_samples")})
    with quiet():
        arrs, hist, n_iter = unpack(name, f(arg, max_iter=1500, tol=1e-9, rtol=0, return_history=True, **kw))
    K = arrs[0]
    L = arrs[1] if name in ("LGL", "LTGL", "KLTGL", "IC", "LTMD") else None
    if not documented(rec, name, arg, kw, T, p, K if K.ndim == 3 else K[None], L, hist[-1], frac=1e-3):
        rec.inconclusive("residual too large for a precise comparison")
    rec.event("history entries observed", len(hist))
    rec.nontrivial("precise", name, kw.get("psi"), kw.get("phi"), T, p)


def admm(rng, rec):
    name = str(rng.choice(ADMM))
    f = solver(name)
    arg, kw, T, p, mode = problem(rng, name)
    tol = float(10 ** rng.uniform(-6, -2))
    rtol = float(tol * rng.choice([0, 0.3, 1, 3]))
    cap = int(rng.choice([1, 2, 3, 5, 20, 100, 300, 3000, 3000]))
    rec.describe(solver=name, T=T, p=p, regime=mode, tol=tol, rtol=rtol, max_iter=cap,
                 options={k: v for k, v in kw.items() if k not in ("init", "n_samples")})
    full = dict(kw, tol=tol, rtol=rtol, return_history=True)
    with rec.watching_warnings() as w, quiet():
        arrs, hist, n_iter = unpack(name, f(arg, max_iter=cap, **full))
    warned = not_converged(w)
    off = FIRST.get(name, 0)
    steps = hist[off:]
    rec.event("history entries observed", len(hist))
    rec.check("iteration count equals the recorded iterations and respects the limit",
              n_iter == len(steps) and 1 <= n_iter <= cap, n_iter=n_iter, entries=len(hist),
              limit=cap)
    conv = met(steps[-1])
    rec.check("a run that stops before the limit met its stopping criterion",
              conv or n_iter == cap, n_iter=n_iter, limit=cap, last=str(steps[-1]))
    rec.check("no earlier iteration met the stopping criterion",
              not any(met(c) for c in steps[:-1]))
    rec.check("a warning is raised exactly when the criterion was not met", warned == (not conv),
              warned=warned, met=conv, last=str(steps[-1]))
    K = arrs[0]
    L = arrs[1] if name in ("LGL", "LTGL", "KLTGL", "IC", "LTMD") else None
    # tolerances follow the requested ones
    N = count_vars(name, T, p)
    last = steps[-1]
    K3 = K if K.ndim == 3 else K[None]
    size = np.linalg.norm(K3) + (0 if L is None else np.linalg.norm(L))
    cap_pri = np.sqrt(N) * tol + rtol * (size * np.sqrt(2 * T) + 2 * last.rnorm)
    rec.check("primal tolerance is no looser than the requested absolute and relative ones",
              last.e_pri <= cap_pri * (1 + 1e-9), e_pri=last.e_pri, bound=cap_pri)
    if rtol == 0:
        rec.check("with no relative tolerance both thresholds are the absolute one",
                  np.isclose(last.e_pri, np.sqrt(N) * tol, rtol=1e-9)
                  and np.isclose(last.e_dual, np.sqrt(N) * tol, rtol=1e-9),
                  e_pri=last.e_pri, e_dual=last.e_dual, want=np.sqrt(N) * tol)
    rec.check("residuals and thresholds are finite and non-negative", all(
        np.isfinite([c.rnorm, c.snorm, c.e_pri, c.e_dual]).all()
        and min(c.rnorm, c.snorm, c.e_pri, c.e_dual) >= 0 for c in steps))
    # objective
    if kw.get("compute_objective", True):
        rec.check("the objective is recorded at every iteration",
                  not any(np.isnan(c.obj) for c in steps))
        if conv:
            documented(rec, name, arg, kw, T, p, K3, L, last)
    else:
        rec.check("no objective is recorded when not asked for",
                  all(np.isnan(c.obj) for c in steps))
    # reported covariance
    if name != "LTMD":
        cv = arrs[-1]
        cv = cv if cv.ndim == 3 else cv[None]
        for t in range(T):
            ev = np.abs(np.linalg.eigvalsh((K3[t] + K3[t].T) / 2))
            if ev.min() < 1e-9 * ev.max():
                continue
            rec.check("reported covariance is the inverse of the reported precision",
                      np.abs(cv[t].dot((K3[t] + K3[t].T) / 2) - np.eye(p)).max()
                      <= 1e-6 * ev.max() / ev.min() + np.abs(K3[t] - K3[t].T).max() * 10
                      * (1 + np.abs(cv[t]).max()),
                      product=cv[t].dot(K3[t]))
    # shorter limit: a prefix of the same run
    cut = int(rng.randint(1, n_iter + 1))
    with rec.watching_warnings() as w, quiet():
        a2, h2, n2 = unpack(name, f(arg, max_iter=cut, **full))
    ok = n2 == cut and len(h2) == cut + off and all(same_check(x, y) for x, y in zip(h2, hist))
    rec.check("limiting the iterations reproduces a prefix of the longer run", ok, cut=cut, n=n2,
              got=[str(h) for h in h2[-2:]], want=[str(h) for h in hist[:len(h2)][-2:]])
    rec.check("a cut run warns", not_converged(w) == (not met(h2[-1])))
    # tighter tolerance: the looser run is its prefix
    tight = dict(full, tol=tol * 0.2, rtol=rtol * 0.2)
    with quiet():
        a3, h3, n3 = unpack(name, f(arg, max_iter=cap, **tight))
    rec.check("a tighter tolerance only continues the same run",
              n3 >= n_iter and all(same_check(x, y) for x, y in zip(hist, h3)), loose=n_iter,
              tight=n3)
    # reporting flags change nothing
    flags = dict(full, return_history=bool(rng.rand() < 0.5), verbose=bool(rng.rand() < 0.5),
                 compute_objective=bool(rng.rand() < 0.5), return_n_iter=bool(rng.rand() < 0.5))
    with quiet():
        out = f(arg, max_iter=cap, **flags)
    k = NARR[name]
    want = k + flags["return_history"] + flags["return_n_iter"]
    rec.check("the requested extras are returned", len(out) == want, got=len(out), want=want)
    rec.check("reporting flags do not change the estimates",
              all(np.allclose(x, y, rtol=1e-10, atol=1e-12) for x, y in zip(out[:k], arrs)),
              flags=flags)
    if flags["return_n_iter"]:
        rec.check("reporting flags do not change the iteration count", out[-1] == n_iter)
    if flags["return_history"]:
        rec.check("the history has one entry per iteration", len(out[k]) == len(hist))
    rec.nontrivial(name, kw.get("psi"), kw.get("phi"), T, p, conv, cap, flags["verbose"])


def stop_at(rng, rec):
    """Target-objective stopping of the solvers that offer it."""
    name = str(rng.choice(["TGL", "KTGL"]))
    f = solver(name)
    arg, kw, T, p, mode = problem(rng, name)
    kw["compute_objective"] = True
    full = dict(kw, tol=1e-6, rtol=1e-6, return_history=True)
    with quiet():
        _, hist, n = unpack(name, f(arg, max_iter=80, **full))
    i = int(rng.randint(1, len(hist)))
    target = float(hist[i].obj)
    if not np.isfinite(target) or abs(target) < 1e-6:
        rec.inconclusive("degenerate target")
        return
    when = float(10 ** rng.uniform(-6, -1))
    first = next((j for j in range(1, len(hist))
                  if abs(hist[j].obj - target) / abs(target) < when), None)
    rec.describe(solver=name, T=T, p=p, target_iteration=i, stop_when=when, expected=first)
    if any(np.isfinite(h.obj) and abs(abs(h.obj - target) / abs(target) - when) < 1e-6 * when
           for h in hist[1:]):
        rec.inconclusive("objective on the edge of the stopping window")
        return
    with rec.watching_warnings() as w, quiet():
        _, h2, n2 = unpack(name, f(arg, max_iter=80, stop_at=target, stop_when=when, **full))
    rec.check("a target objective stops the run at the first iteration that reaches it",
              n2 == first, got=n2, want=first)
    rec.check("stopping at the target is not reported as non-convergence",
              not not_converged(w) or first == n and n == 80)
    rec.nontrivial(name, T, p, i, first)


def forward_backward(rng, rec):
    from regain.forward_backward.time_graphical_lasso_ import tgl_forward_backward as f

    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    n = np.array([x.shape[0] for x in Xs])
    _, _, kw = build(rng, "FB", T, p, S)
    kw.pop("max_iter")
    cap = int(rng.choice([1, 2, 5, 15, 40]))
    rec.describe(solver="FB", T=T, p=p, regime=mode, max_iter=cap,
                 options={k: v for k, v in kw.items() if k != "init"})

    def go(**k):
        with rec.watching_warnings() as w, quiet():
            o = f(S, n_samples=n, **dict(kw, **k))
        return o, not_converged(w)

    (K, C, hist, n_iter), warned = go(max_iter=cap, return_history=True)
    rec.event("history entries observed", len(hist))
    rec.check("iteration count equals the recorded iterations and respects the limit",
              len(hist) == n_iter + 1 and 1 <= n_iter <= cap, n_iter=n_iter, entries=len(hist))
    rec.check("a run stops early or warns, never both", warned <= (n_iter == cap) and
              (warned or n_iter <= cap))
    cut = int(rng.randint(1, n_iter + 1))
    (K2, C2, h2, n2), w2 = go(max_iter=cut, return_history=True)
    rec.check("limiting the iterations reproduces a prefix of the longer run",
              n2 == cut and all(same_check(x, y) for x, y in zip(h2, hist)))
    (K3, C3, n3), _ = go(max_iter=cap)
    rec.check("reporting flags do not change the estimates", np.allclose(K, K3) and n3 == n_iter)
    if cut < n_iter:
        rec.check("a cut run warns", w2)
    (K4, C4, n4, ls), _ = go(max_iter=cap, return_n_linesearch=True, verbose=2)
    rec.check("the requested extras are returned and change nothing",
              np.allclose(K, K4) and n4 == n_iter and ls >= 0)
    rec.check("the line-search count is positive exactly when lamda is searched",
              (ls > 0) == (kw["choose"] in ("lamda", "both")), count=ls, choose=kw["choose"])
    for t in range(T):
        rec.check("reported covariance is the inverse of the reported precision",
                  np.abs(C[t].dot(K[t]) - np.eye(p)).max() <= 1e-6 * np.linalg.cond(K[t]))
    rec.nontrivial(kw["choose"], kw["laplacian_penalty"], T, p, cap, warned)


def estimator(rng, rec):
    """The history, counts and target options of the estimators are those of the solver call they stand for."""
    name = str(rng.choice(["TGL", "KTGL", "KLTGL", "STGL", "SLTGL", "FB", "FB", "TGL"]))
    p, T = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S, n = covs(Xs), np.array([x.shape[0] for x in Xs])
    cap = int(rng.choice([3, 10, 60]))
    est, solve, kw = build(rng, name, T, p, S, max_iter=cap)
    X, y = stack(rng, Xs, np.arange(T))
    flags = dict(return_history=bool(rng.rand() < 0.7))
    target = name in ("TGL", "FB") and rng.rand() < 0.5
    if name == "FB":
        flags["return_n_linesearch"] = bool(rng.rand() < 0.6)
    with quiet():
        ref = solve(S, n)
    if target and len(ref["history"]) > 2:
        i = int(rng.randint(1, len(ref["history"]) - 1))
        flags["stop_at"] = float(ref["history"][i].obj)
        flags["stop_when"] = float(10 ** rng.uniform(-6, -2))
        if not np.isfinite(flags["stop_at"]) or abs(flags["stop_at"]) < 1e-6:
            rec.inconclusive("degenerate target")
            return
    rec.describe(estimator=name, T=T, p=p, regime=mode, max_iter=cap, **flags)
    with rec.watching_warnings() as w, quiet():
        est.set_params(**flags).fit(X, y)
    full = ref["history"]
    if "stop_at" in flags:
        d = [abs(h.obj - flags["stop_at"]) / abs(flags["stop_at"]) / flags["stop_when"] for h in full]
        if any(abs(v - 1) < 1e-4 for v in d if np.isfinite(v)):
            rec.inconclusive("objective on the edge of the stopping window")
            return
        want = next((j for j in range(1, len(full)) if d[j] < 1), None)
        rec.check("a target objective stops the estimator at the first iteration that reaches it",
                  est.n_iter_ == want, got=est.n_iter_, want=want)
    else:
        want = ref["n_iter"]
        rec.check("the estimator reports the iterations of its solver", est.n_iter_ == want,
                  got=est.n_iter_, want=want)
        rec.close("the estimates are those of the solver", est.precision_, ref["precision"], rtol=1e-6,
                  atol=1e-8)
    if flags["return_history"]:
        rec.check("the history of the estimator is that of its solver",
                  len(est.history_) == want + (len(full) - ref["n_iter"])
                  and all(same_check(a, b, 1e-6) for a, b in zip(est.history_, full)),
                  got=[str(h) for h in est.history_[-2:]], want=[str(h) for h in full[:want + 1][-2:]])
        rec.event("history entries observed", len(est.history_))
    else:
        rec.check("no history unless asked for", not hasattr(est, "history_"))
    if flags.get("return_n_linesearch"):
        rec.check("the line-search count is positive exactly when lamda is searched",
                  (est.n_linesearch_ > 0) == (kw["choose"] in ("lamda", "both")),
                  count=est.n_linesearch_, choose=kw["choose"])
        if kw["choose"] == "lamda":
            rec.check("every iteration searches at least once", est.n_linesearch_ >= est.n_iter_)
    rec.nontrivial(name, T, p, cap, target, est.n_iter_ == cap, *sorted(flags))


def wild(rng, rec):
    """A penalty parameter that never settles makes runs diverge: they may not be reported as converged."""
    name = str(rng.choice(["KLTGL", "KLTGL", "LTGL", "LTGL", "KTGL", "TGL", "LTMD", "LGL", "GL", "IC"]))
    arg, kw, T, p, mode = problem(rng, name)
    f = float(rng.choice([3, 10, 10, 30]))
    kw.update(rho=float(10 ** rng.uniform(-0.7, 0.7)), compute_objective=False, return_history=True, tol=1e-6,
              rtol=1e-6, max_iter=1500, update_rho_options=dict(mu=1.01, tau_inc=f, tau_dec=f))
    kw.pop("init", None)
    if name == "KLTGL" and rng.rand() < 0.5:
        kw["kernel_psi"] = None
    rec.describe(solver=name, T=T, p=p, factor=f, regime=mode)
    try:
        with rec.watching_warnings() as w:
            parts = solver(name)(arg, **kw)
    except (np.linalg.LinAlgError, ValueError) as e:      # an error claims nothing
        if isinstance(e, ValueError) and "infs or NaNs" not in str(e):
            raise
        return rec.inconclusive("stopped by an error on overflowed numbers")
    arrs, hist, it = unpack(name, parts)
    last = hist[-1]
    inside = bool(np.isfinite([last.rnorm, last.snorm, last.e_pri, last.e_dual]).all() and
                  last.rnorm <= last.e_pri and last.snorm <= last.e_dual)
    rec.check(name + ": convergence is claimed exactly when finite residuals are below finite thresholds",
              inside == (not not_converged(w)), last=str(last), iterations=it)
    if inside:
        rec.check(name + ": converged estimates are finite", all(np.isfinite(a).all() for a in arrs))
    lost = not np.isfinite(last.e_pri + last.e_dual)
    rec.event("runs that overflowed" if lost else "runs that converged" if inside else "runs cut at the limit")
    rec.nontrivial("wild", name, T, p, f, lost, inside)


KINDS = {"wild": (wild, 120, 800), "estimator": (estimator, 160, 1000), "admm": (admm, 700, 5000), "precise": (precise, 250, 2500), "target": (stop_at, 120, 600),
         "forward-backward": (forward_backward, 80, 600)}
