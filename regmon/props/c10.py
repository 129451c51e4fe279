"""C10: proximal operators minimise what they claim, in isolation and inside solver runs."""
import sys

import numpy as np

from ..core import quiet, size
from ..estimators import STATIC, TIME, build, stack
from ..solvers import PENS, covs, gen_data

RULE = ("(direct) random inputs per operator: dense, with ties, with zero entries/columns, huge or "
        "tiny, with scalar and per-time thresholds from 0 to larger than the input, batches of "
        "symmetric and non-symmetric matrices; the optimality conditions of the proximal problem "
        "are evaluated on the output; (pairs) every temporal penalty name: value and operator agree "
        "under random competitors; (in-situ) operators observed during random estimator fits; keyed "
        "by (operator, shape, threshold regime, input regime)")
ASSUMPTIONS = ["optimality conditions hold to 1e-7 relative to the size of the input"]


# ---- optimality conditions: residual of 0 in x - a + lam * dpenalty(x)
def _lam(lam, a):
    return np.broadcast_to(np.asarray(lam, float), a.shape)


def res_l1(a, lam, x):
    lam = _lam(lam, a)
    g = a - x
    return np.max(np.where(x != 0, np.abs(g - lam * np.sign(x)),
                           np.maximum(np.abs(g) - lam, 0)), initial=0)


def res_l1_od(a, lam, x):
    lam = _lam(lam, a).copy()
    p = a.shape[-1]
    lam[..., np.arange(p), np.arange(p)] = 0
    return res_l1(a, lam, x)


def res_cols(a, lam, x):
    """penalty = sum of Euclidean norms of columns (axis -2 is the column)."""
    lam = np.broadcast_to(np.asarray(lam, float), a.shape)[..., :1, :]
    nx = np.linalg.norm(x, axis=-2, keepdims=True)
    g = a - x
    ng = np.linalg.norm(g, axis=-2, keepdims=True)
    on = np.linalg.norm(g - lam * x / np.where(nx > 0, nx, 1), axis=-2, keepdims=True)
    return np.max(np.where(nx > 0, on, np.maximum(ng - lam, 0)), initial=0)


def res_linf_cols(a, lam, x):
    lam = np.broadcast_to(np.asarray(lam, float), a.shape)[..., 0, :]
    g = a - x
    l1 = np.abs(g).sum(-2)
    m = np.abs(x).max(-2)
    inner = (g * x).sum(-2)
    r = np.maximum(l1 - lam, 0)
    r = np.where(m > 0, np.maximum(r, np.abs(inner - lam * m) / np.where(m > 0, m, 1)), r)
    return np.max(r, initial=0)


def res_lap(a, lam, x):
    return np.max(np.abs(x + 2 * np.asarray(lam, float) * x - a), initial=0)


def res_trace(a, lam, x):
    """psd cone indicator + lam * trace."""
    p = a.shape[-1]
    lam = np.asarray(lam, float)
    lam = np.broadcast_to(lam[..., None] if lam.ndim and lam.shape[-1] == 1 else lam, a.shape)
    G = a - x - lam * np.eye(p)
    r = 0.0
    for g, y in zip(G.reshape(-1, p, p), x.reshape(-1, p, p)):
        r = max(r, -np.linalg.eigvalsh((y + y.T) / 2)[0], np.linalg.eigvalsh((g + g.T) / 2)[-1],
                np.abs(g.dot(y)).max() / (1 + np.abs(y).max()), np.abs(y - y.T).max())
    return r


def res_logdet(a, lam, x):
    """-logdet x + <a, x> + |x|^2/(2 lam): -inv(x) + a + x/lam = 0, x positive definite."""
    p = a.shape[-1]
    lam = np.asarray(lam, float)
    if lam.ndim:
        lam = lam.reshape(lam.shape + (1,) * (a.ndim - lam.ndim))
    lam = np.broadcast_to(lam, a.shape)
    r = 0.0
    for A, l, X in zip(a.reshape(-1, p, p), lam.reshape(-1, p, p), x.reshape(-1, p, p)):
        ev = np.linalg.eigvalsh((X + X.T) / 2)
        if ev[0] <= 0 and ev[0] <= -1e-13 * p * ev[-1]:    # definite up to rounding
            return np.inf
        # multiply by x to stay well scaled: -I + (a + x/lam) x
        r = max(r, np.abs(-np.eye(p) + (A + X / l).dot(X)).max())
    return r


def res_logdet_ma(a, lam, x):
    p = a.shape[-1]
    r = 0.0
    for A, X in zip(a.reshape(-1, p, p), x.reshape(-1, p, p)):
        ev = np.linalg.eigvalsh((X + X.T) / 2)
        if ev[0] <= 0 and ev[0] <= -1e-13 * p * ev[-1]:    # definite up to rounding
            return np.inf
        r = max(r, np.abs(-lam * np.eye(p) + (A + X).dot(X)).max())
    return r


def res_tv(y, a, beta):
    """total variation prox along axis 0, exact optimality in the cumulative dual."""
    sc = 1e-9 * (1 + np.abs(a).max())
    u = np.cumsum(a - y, axis=0)          # u_t = beta * sign(y_t - y_{t+1}) (t < T)
    r = np.abs(u[-1]).max()
    d = y[:-1] - y[1:]
    if len(d):
        on = np.abs(u[:-1] - beta * np.sign(d))
        r = max(r, np.max(np.where(np.abs(d) > sc, on, np.maximum(np.abs(u[:-1]) - beta, 0))))
    return r


# ---------------------------------------------------------------- inputs
def matrix_input(rng, shape, sym=False, psd=False):
    reg = str(rng.choice(["dense", "ties", "zeros", "scaled", "lowrank"]))
    a = rng.randn(*shape)
    if reg == "ties":
        a = rng.randint(-2, 3, size=shape).astype(float)
    elif reg == "zeros":
        a *= rng.rand(*shape) < 0.4
        if rng.rand() < 0.5:
            a[..., :, 0] = 0
            a[..., 0, :] = 0
        if rng.rand() < 0.2:
            a[:] = 0
    elif reg == "scaled":
        a *= 10 ** rng.uniform(-4, 3)
    elif reg == "lowrank":
        u = rng.randn(*(shape[:-1] + (1,)))
        a = u * np.swapaxes(u, -1, -2) * rng.choice([-1, 1])
    if sym:
        a = (a + np.swapaxes(a, -1, -2)) / 2
    return a, reg


def threshold(rng, a):
    r = rng.randint(5)
    s = np.abs(a).max() if a.size and np.abs(a).max() > 0 else 1.0
    if r == 0:
        return 0.0, "zero"
    if r == 1:
        return float(s * 10), "beyond"
    if r == 2 and np.any(a != 0):           # exactly an entry: boundary of the threshold
        v = np.abs(a[a != 0])
        return float(v[rng.randint(v.size)]), "boundary"
    return float(s * 10 ** rng.uniform(-2.5, 0)), "inside"


def direct(rng, rec):
    from regain import prox as P

    op = str(rng.choice(["soft", "soft_od", "vector", "block", "block_sym", "linf", "linf_1d",
                         "logdet", "logdet_ma", "trace", "laplacian", "FL"]))
    p, T = size(rng, 1, 8, 30), size(rng, 1, 6, 12)
    sym = op in ("logdet", "logdet_ma", "trace", "block_sym") or rng.rand() < 0.3
    batch = op in ("linf", "FL") or (rng.rand() < 0.6 and op != "linf_1d")
    shape = (T, p, p) if batch else (p, p)
    a, reg = matrix_input(rng, shape, sym)
    lam, lreg = threshold(rng, a)
    per_time = False
    if batch and rng.rand() < 0.4 and op in ("soft", "soft_od", "block", "linf", "laplacian"):
        lam = lam * rng.uniform(0.2, 2, size=(T, 1, 1))
        per_time = True
    a0 = a.copy()
    sc = 1 + np.abs(a).max()
    tag = op
    if op == "soft":
        x, r = P.soft_thresholding(a, lam), None
        r = res_l1(a, lam, x)
    elif op == "soft_od":
        if not per_time and rng.rand() < 0.3:
            w = rng.uniform(0, 1, size=a.shape)
            lam = lam * (w + np.swapaxes(w, -1, -2))
        x = P.soft_thresholding_off_diagonal(a, lam)
        r = res_l1_od(a, lam, x)
    elif op == "vector":
        x = P.soft_thresholding_vector(a, lam)
        r = res_cols(np.swapaxes(a, -1, -2), lam, np.swapaxes(x, -1, -2))
    elif op == "block":
        x = P.blockwise_soft_thresholding(a, lam)
        r = res_cols(a, lam, x)
    elif op == "block_sym":
        x = P.blockwise_soft_thresholding_symmetric(a, lam)
        r = res_cols(a, lam, x)
    elif op == "linf":
        x = P.prox_linf(a, lam)
        r = res_linf_cols(a, lam, x)
    elif op == "linf_1d":
        a = a.ravel() if rng.rand() < 0.5 else a[0]
        a0 = a.copy()
        x = P.prox_linf_1d(a, lam)
        r = res_linf_cols(a[:, None], lam, x[:, None])
    elif op == "logdet":
        if lam == 0:
            lam = 0.7
        lam = float(np.clip(lam, 1e-3, 1e3))
        if batch and rng.rand() < 0.5:
            lam = lam * rng.uniform(0.3, 3, size=(T, 1))
            per_time = True
        if rng.rand() < 0.5:            # data far from unit scale
            a = a * 10 ** rng.uniform(-5, 7)
            a0, reg = a.copy(), reg + "/rescaled"
        x = P.prox_logdet(a, lam)
        r = res_logdet(a, lam, x)
        # only rounding of the products scales with their size
        sc = 1 + 1e-5 * (np.abs(a).max() + np.abs(x).max() / np.min(lam)) * np.abs(x).max()
    elif op == "logdet_ma":
        lam = float(np.clip(lam, 1e-3, 1e3))
        if rng.rand() < 0.5:
            a = a * 10 ** rng.uniform(-5, 7)
            a0, reg = a.copy(), reg + "/rescaled"
        x = P.prox_logdet_ala_ma(a, lam)
        r = res_logdet_ma(a, lam, x) / lam
        sc = 1 + 1e-5 * (np.abs(a).max() + np.abs(x).max()) * np.abs(x).max() / lam
    elif op == "trace":
        if batch and rng.rand() < 0.4:
            lam = lam * rng.uniform(0.3, 3, size=(T, 1))
            per_time = True
        x = P.prox_trace_indicator(a, lam)
        r = res_trace(a, lam, x)
    elif op == "laplacian":
        x = P.prox_laplacian(a, lam)
        r = res_lap(a, lam, x)
    else:
        beta = threshold(rng, a)[0]
        style = rng.randint(3)
        kw = [dict(optimize=True), dict(optimize=False), dict(optimize=False, symmetric=True)][style]
        if style == 2 or sym:
            a = (a + a.transpose(0, 2, 1)) / 2
            a0 = a.copy()
        tag = "FL/" + ["general", "entrywise", "upper triangle"][style]
        x = P.prox_FL(a, beta, lam, p=1, **kw)
        y = P.prox_FL(a, beta, 0.0, p=1, **kw)
        r = max(res_tv(y, a, beta), res_l1_od(y, lam, x))
    rec.describe(operator=tag, shape=a.shape, input=reg, threshold=lreg, per_time=per_time, a=a,
                 lam=lam)
    rec.event("operator calls: " + op)
    rec.check(tag + ": output has the input's shape and is finite",
              np.shape(x) == a.shape and np.isfinite(x).all(), x=x)
    if op.startswith("logdet") and np.abs(a).max() <= 1e3:
        rec.check(tag + ": output is positive definite", all(
            np.linalg.eigvalsh((m + m.T) / 2)[0] > 0 for m in x.reshape(-1, p, p)), x=x)
    rec.stat("residual/scale " + op, r / sc)
    rec.check(tag + ": output satisfies the optimality conditions of its proximal problem",
              r <= 1e-7 * sc, residual=r, scale=sc, x=x)
    rec.check(tag + ": input left untouched", np.array_equal(a, a0))
    if sym and op not in ("vector", "block", "block_sym", "linf", "linf_1d"):
        rec.check(tag + ": symmetric input gives symmetric output",
                  np.allclose(x, np.swapaxes(x, -1, -2), atol=1e-9 * sc), x=x)
    rec.nontrivial(tag, a.shape, lreg, reg, per_time)


def pairs(rng, rec):
    """The penalty value and the operator handed to the solvers belong together."""
    from regain.validation import check_norm_prox

    name = str(rng.choice(PENS))
    norm, prox, node = check_norm_prox(name)
    p, T = size(rng, 1, 6, 14), size(rng, 1, 5, 10)
    a, reg = matrix_input(rng, (T, p, p), rng.rand() < 0.5)
    lam, lreg = threshold(rng, a)
    if rng.rand() < 0.4:
        lam = lam * rng.uniform(0.2, 2, size=(T, 1, 1))
    lams = np.broadcast_to(np.ravel(lam), (T,)) if np.ndim(lam) else np.full(T, lam)
    x = prox(a, lamda=lam)
    rec.describe(penalty=name, shape=a.shape, input=reg, threshold=lreg)
    ref = {"laplacian": lambda m: (m ** 2).sum(), "l1": lambda m: np.abs(m).sum(),
           "l2": lambda m: np.sqrt((m ** 2).sum(0)).sum(),
           "linf": lambda m: np.abs(m).max(0).sum()}[name]
    for m in list(a) + list(x):
        rec.close(name + ": penalty value", norm(m), ref(m), rtol=1e-10, atol=1e-12)
    rec.check("penalty is not the node penalty", not node)

    def f(z, t):
        return 0.5 * ((z - a[t]) ** 2).sum() + lams[t] * norm(z)

    for t in range(T):
        base = f(x[t], t)
        for _ in range(12):
            s = 10 ** rng.uniform(-5, 0)
            kind = rng.randint(5)
            if kind == 0:
                z = x[t] + s * rng.randn(p, p)
            elif kind == 1:
                z = x[t] * (1 + s * rng.randn())
            elif kind == 2:
                z = (1 - s) * x[t] + s * a[t]
            elif kind == 3:
                z = x[t].copy()
                j = rng.randint(p)
                z[:, j] *= 1 + s * rng.randn()
            else:
                z = x[t].copy()
                z[rng.randint(p), rng.randint(p)] += s * rng.randn()
            rec.check(name + ": no competitor beats the operator's output for its penalty",
                      f(z, t) >= base - 1e-10 * (1 + abs(base)), t=t, better=f(z, t), value=base)
    # a norm (or squared norm) is zero at zero, non-negative, even
    rec.check(name + ": zero at zero, non-negative and even",
              norm(np.zeros((p, p))) == 0 and norm(a[0]) >= 0
              and np.isclose(norm(-a[0]), norm(a[0])))
    rec.nontrivial(name, a.shape, lreg, reg)


CHECKERS = {
    "soft_thresholding": res_l1, "soft_thresholding_off_diagonal": res_l1_od,
    "blockwise_soft_thresholding": res_cols, "prox_linf": res_linf_cols,
    "prox_laplacian": res_lap, "prox_trace_indicator": res_trace, "prox_logdet": res_logdet,
}


def insitu(rng, rec):
    """Watch the operators as the solvers call them."""
    name = str(rng.choice(TIME + STATIC))
    p, T = int(rng.randint(2, 6)), int(rng.randint(2, 5))
    Xs, mode = gen_data(rng, T, p)
    S = covs(Xs)
    est, solve, kw = build(rng, name, T, p, S, max_iter=15)
    X, y = stack(rng, Xs, np.arange(T))
    from regain import prox as P

    worst, undo = {}, []

    def watched(fname, orig, res):
        def w(a, lamda, *ar, **k):
            a0 = np.array(a, copy=True)
            out = orig(a, lamda, *ar, **k)
            if np.isfinite(a0).all() and np.isfinite(out).all():
                rec.event("solver calls observed: " + fname)
                sc = 1 + np.abs(a0).max()
                if fname == "prox_logdet":
                    mx = np.abs(out).max()
                    sc = 1 + (np.abs(a0).max() + mx / np.min(lamda)) * mx
                r = res(a0, lamda, out) / sc
                worst[fname] = max(worst.get(fname, 0), r)
            else:
                worst[fname] = np.inf
            return out
        return w

    for fname, res in CHECKERS.items():
        orig = getattr(P, fname, None)
        if orig is None:
            continue
        w = watched(fname, orig, res)
        for mname, mod in list(sys.modules.items()):
            if mname.startswith("regain") and mname != "regain.prox" and mod is not None:
                for attr, val in list(vars(mod).items()):
                    if val is orig:
                        setattr(mod, attr, w)
                        undo.append((mod, attr, orig))
    rec.describe(estimator=name, p=p, T=T, regime=mode, options={
        k: v for k, v in kw.items() if k != "init"})
    try:
        with quiet():
            est.fit(X, y) if name in TIME else est.fit(X)
    finally:
        for mod, attr, orig in undo:
            setattr(mod, attr, orig)
    for fname, r in worst.items():
        rec.check("operator calls made by a solver are exact: " + fname, r <= 1e-6, residual=r)
        rec.stat("in-situ residual " + fname, r)
    rec.check("the monitored fit delivers finite estimates", np.isfinite(est.precision_).all())
    rec.nontrivial(name, p, T, mode, kw.get("psi"), kw.get("phi"))


def norms(rng, rec):
    """The norms of the objectives, entry by entry, on matrices and stacks."""
    from regain import norm

    p = size(rng, 1, 9, 40)
    lead = [(), (int(rng.randint(1, 6)),), (2, 3)][rng.randint(3)]
    a = rng.randn(*lead, p, p) * 10.0 ** rng.randint(-6, 6)
    a[rng.rand(*a.shape) < rng.rand() * 0.7] = 0
    if rng.rand() < 0.2:
        a = np.round(a).astype(int)
    a0 = a.copy()
    rec.describe(shape=a.shape)
    mats = a.reshape(-1, p, p)
    full = np.array([sum(abs(float(v)) for v in m.ravel()) for m in mats])
    diag = np.array([sum(abs(float(m[i, i])) for i in range(p)) for m in mats])
    big = 1e-12 * (np.abs(a).sum() + 1e-300)
    rec.check("l1_norm", abs(norm.l1_norm(a) - full.sum()) <= big)
    rec.check("matrix_l1_norm", np.shape(norm.matrix_l1_norm(a)) == lead and
              np.abs(np.ravel(norm.matrix_l1_norm(a)) - full).max() <= big)
    got = np.ravel(norm.l1_od_norm(a))
    rec.check("l1_od_norm", np.shape(norm.l1_od_norm(a)) == lead and np.abs(got - (full - diag)).max() <= big,
              got=got, expected=full - diag)
    m = mats[0].astype(float)
    for q in (1, 2, np.inf):
        cols = [abs(m[:, j]) for j in range(p)]
        want = sum(c.sum() if q == 1 else np.sqrt((c * c).sum()) if q == 2 else c.max() for c in cols)
        got = norm.column_norm(m, q) if q != 2 or rng.rand() < 0.5 else norm.column_norm(m)
        rec.close("column_norm %s" % q, got, want, rtol=1e-12, atol=big)
    for q in (1, 2):
        want = sum(np.abs(mats[:, i, j]).sum() if q == 1 else np.sqrt((mats[:, i, j].astype(float) ** 2).sum())
                   for i in range(p) for j in range(p))
        got = norm.vector_p_norm(mats, q) if q != 1 or rng.rand() < 0.5 else norm.vector_p_norm(mats)
        rec.close("vector_p_norm %s" % q, got, want, rtol=1e-11, atol=big)
    rec.check("arguments untouched", np.array_equal(a, a0))
    rec.nontrivial("norms", a.shape, str(a.dtype), int(np.count_nonzero(a)))


KINDS = {"direct": (direct, 4000, 40000), "norms": (norms, 400, 6000), "pairs": (pairs, 800, 8000),
         "in-situ": (insitu, 120, 1200)}
