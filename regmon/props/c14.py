"""C14: structure and norm errors between estimates and truth."""
import numpy as np

from ..core import size

RULE = ("random pairs of true and predicted networks (signed weights, empty, full, tiny entries "
        "around the threshold), single or stacks over time, with and without diagonal and "
        "thresholding; counts recomputed by looping over entries, ratios from the counts, average "
        "precision and MCC from scratch; keyed by (stacked, size, density of both, options)")
ASSUMPTIONS = ["ratios with an empty denominator follow the convention 0 (precision, recall, f1) "
               "stated in the returned dictionary; only defined ratios are compared with formulas"]


def network(rng, p, dens):
    m = np.triu(rng.rand(p, p) < dens, 1)
    w = rng.uniform(0.02, 1.5, size=(p, p)) * rng.choice([-1, 1], size=(p, p))
    if rng.rand() < 0.3:
        w = np.where(rng.rand(p, p) < 0.4, 0.004 * np.sign(w), w)
    A = w * m
    A = A + A.T
    np.fill_diagonal(A, 0)
    if rng.rand() < 0.8:
        np.fill_diagonal(A, np.abs(A).sum(1) + 0.5)
    return A


def average_precision(y, s):
    """Step-wise area under precision-recall with ties grouped."""
    pos = y.sum()
    out, prev = 0.0, 0.0
    for t in sorted(set(s), reverse=True):
        sel = s >= t
        tp = (y & sel).sum()
        out += (tp / pos - prev) * (tp / sel.sum())
        prev = tp / pos
    return out


def structure(rng, rec):
    from regain.utils import structure_error

    stackd = bool(rng.rand() < 0.5)
    p, T = size(rng, 2, 9, 30), size(rng, 1, 5, 12)
    dt, dp = float(rng.choice([0, 0.1, 0.4, 0.9])), float(rng.choice([0, 0.1, 0.4, 0.9]))
    N = T if stackd else 1
    A = np.array([network(rng, p, dt) for _ in range(N)])
    B = np.array([network(rng, p, dp) for _ in range(N)])
    if rng.rand() < 0.3:            # partially right prediction
        keep = np.triu(rng.rand(N, p, p) < 0.6, 1)
        B = B * 0.1 + A * (keep + keep.transpose(0, 2, 1))
    nodiag, thr = bool(rng.rand() < 0.6), bool(rng.rand() < 0.4)
    eps = float(rng.choice([1e-2, 0.1, 0.5]))
    a, b = (A, B) if stackd else (A[0], B[0])
    a0, b0 = a.copy(), b.copy()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = structure_error(a, b, thresholding=thr, eps=eps, no_diagonal=nodiag)
    rec.describe(stacked=stackd, p=p, T=N, no_diagonal=nodiag, thresholding=thr, eps=eps,
                 density=(dt, dp))
    rec.check("inputs untouched", np.array_equal(a, a0) and np.array_equal(b, b0))
    tp = tn = fp = fn = 0
    for x, y in zip(A, B):
        for i in range(p):
            for j in range(p):
                if nodiag and i == j:
                    continue
                t = x[i, j] != 0
                e = y[i, j] != 0 and not (thr and abs(y[i, j]) < eps)
                tp += t and e
                tn += (not t) and (not e)
                fp += (not t) and e
                fn += t and (not e)
    rec.event("entries classified", tp + tn + fp + fn)
    got = tuple(int(r[k]) for k in ("tp", "tn", "fp", "fn"))
    rec.check("true/false positives/negatives count the entries", got == (tp, tn, fp, fn),
              got=got, want=(tp, tn, fp, fn))
    n = tp + tn + fp + fn

    def ratio(name, num, den):
        if den:
            rec.close(name, r[name], num / den, rtol=1e-10, atol=1e-12)

    ratio("precision", tp, tp + fp)
    ratio("recall", tp, tp + fn)
    ratio("miss_rate", fn, tp + fn)
    ratio("accuracy", tp + tn, n)
    ratio("prevalence", tp + fn, n)
    ratio("fall_out", fp, fp + tn)
    ratio("specificity", tn, fp + tn)
    ratio("fdr", fp, tp + fp)
    ratio("false_omission_rate", fn, fn + tn)
    ratio("npv", tn, fn + tn)
    if 2 * tp + fp + fn and tp + fn:
        rec.close("f1", r["f1"], 2 * tp / (2 * tp + fp + fn), rtol=1e-10, atol=1e-12)
    if tp + fn and fp + tn:
        rec.close("balanced_accuracy", r["balanced_accuracy"],
                  0.5 * (tp / (tp + fn) + tn / (fp + tn)), rtol=1e-10)
        if fp:
            rec.close("plr", r["plr"], (tp / (tp + fn)) / (fp / (fp + tn)), rtol=1e-9)
        if tn:
            rec.close("nlr", r["nlr"], (fn / (tp + fn)) / (tn / (fp + tn)), rtol=1e-9)
        if fp and fn and tn:
            rec.close("dor", r["dor"], tp * tn / (fp * fn), rtol=1e-9)
    for k in ("precision", "recall", "f1", "accuracy", "fdr", "npv", "prevalence", "miss_rate",
              "fall_out", "specificity", "balanced_accuracy", "false_omission_rate"):
        rec.check("ratios lie between 0 and 1 even when undefined", 0 <= r[k] <= 1, metric=k,
                  value=r[k])
    for k, l in (("precision", "fdr"), ("recall", "miss_rate"), ("specificity", "fall_out"),
                 ("npv", "false_omission_rate")):
        rec.close("complementary ratios add to one", r[k] + r[l], 1.0, rtol=1e-12, pair=(k, l))
    iu = np.triu_indices(p, 1)
    yt = np.concatenate([x[iu] for x in A]) != 0
    yp = np.concatenate([np.abs(x[iu]) for x in B])
    if yt.any():
        rec.close("average precision ranks edges by weight", r["average_precision"],
                  average_precision(yt, yp), rtol=1e-8, atol=1e-10)
    c = [int((yt & (yp > 0)).sum()), int((~yt & (yp == 0)).sum()), int((~yt & (yp > 0)).sum()),
         int((yt & (yp == 0)).sum())]
    den = np.sqrt(float((c[0] + c[2]) * (c[0] + c[3]) * (c[1] + c[2]) * (c[1] + c[3])))
    if den and not thr:
        rec.close("mcc", r["mcc"], (c[0] * c[1] - c[2] * c[3]) / den, rtol=1e-8, atol=1e-10)
    rec.nontrivial(stackd, p, N, dt, dp, nodiag, thr, eps)


def perfect(rng, rec):
    """A perfect prediction is reported as perfect, whatever the weights."""
    from regain.utils import mean_structure_error, structure_error

    p = size(rng, 3, 9, 25)
    A = network(rng, p, float(rng.choice([0.2, 0.5, 0.8])))
    A[0, 1] = A[1, 0] = -0.3
    A[0, 2] = A[2, 0] = 0
    B = np.where(A != 0, rng.uniform(0.5, 3) * np.sign(A), 0)
    r = structure_error(A, B, no_diagonal=True)
    rec.describe(p=p)
    for k in ("precision", "recall", "f1", "accuracy", "specificity", "npv", "balanced_accuracy",
              "average_precision", "mcc"):
        rec.close("perfect prediction scores one", r[k], 1.0, rtol=1e-12)
    for k in ("fp", "fn", "fdr", "fall_out", "miss_rate", "false_omission_rate"):
        rec.close("perfect prediction has no errors", r[k], 0.0, atol=1e-12)
    preds = [network(rng, p, 0.4) for _ in range(int(rng.randint(1, 4)))]
    m = mean_structure_error(A, preds)
    one = [structure_error(A, q, no_diagonal=True) for q in preds]
    rec.check("averages cover every metric", set(m) == set(one[0]))
    for k in one[0]:
        mean, std = map(float, m[k].split("+/-"))
        vals = [o[k] for o in one]
        rec.close("mean and deviation over predictions", [mean, std],
                  [np.mean(vals), np.std(vals)], rtol=1e-8, atol=1e-10, metric=k)
    rec.nontrivial(p, len(preds))


def norms(rng, rec):
    from regain.utils import error_norm, error_norm_time, error_rank

    p, T = size(rng, 2, 8, 25), size(rng, 1, 6, 12)
    A, B = rng.randn(T, p, p), rng.randn(T, p, p)
    A, B = A + A.transpose(0, 2, 1), B + B.transpose(0, 2, 1)
    A0, B0 = A.copy(), B.copy()
    rec.describe(p=p, T=T)
    for norm in ("frobenius", "spectral"):
        for scaling in (True, False):
            for sq in (True, False):
                per = []
                for a, b in zip(A, B):
                    D = b - a
                    v = (D ** 2).sum() if norm == "frobenius" else np.linalg.norm(D, 2) ** 2
                    v = v / p if scaling else v
                    per.append(v if sq else np.sqrt(v))
                rec.close("error_norm " + norm, error_norm(A[0], B[0], norm=norm, scaling=scaling,
                                                           squared=sq), per[0], rtol=1e-7)
                rec.close("error_norm_time " + norm, error_norm_time(
                    A, B, norm=norm, scaling=scaling, squared=sq), np.mean(per), rtol=1e-7)
    rec.close("zero error for equal inputs", error_norm(A[0], A[0]), 0.0)
    D = np.triu(B[0] - A[0], 1)
    rec.close("upper triangular error ignores the rest", error_norm(
        A[0], B[0], scaling=False, upper_triangular=True), (D ** 2).sum(), rtol=1e-9)
    rec.close("upper triangular error averages over a stack", error_norm(
        A, B, upper_triangular=True),
        (np.triu(B - A, 1) ** 2).sum() / (T * p * (p - 1) / 2), rtol=1e-9)
    D = rng.randn(p, p) if p > 2 and rng.rand() < 0.5 else np.tril(rng.randn(p, p), -1)
    rec.close("spectral error of a matrix that is not symmetric", error_norm(
        A[0], A[0] + D, norm="spectral", scaling=False), np.linalg.norm(D, 2) ** 2, rtol=1e-7)
    rec.close("spectral error above the diagonal", error_norm(
        A[0], B[0], norm="spectral", scaling=False, upper_triangular=True),
        np.linalg.norm(np.triu(B[0] - A[0], 1), 2) ** 2, rtol=1e-7)
    C, E = (np.array([v.dot(v.T) for v in rng.randn(T, p, p + 2)]) for _ in range(2))
    C0, E0 = C.copy(), E.copy()

    def unit(s):
        d = np.sqrt(np.diagonal(s, axis1=1, axis2=2))
        return s / d[:, :, None] / d[:, None, :]

    for up in (True, False):
        D = unit(E0) - unit(C0)
        want = (np.triu(D, 1) ** 2).sum() if up else (D ** 2).sum()
        rec.close("error between stacks of normalised matrices", error_norm(
            C, E, n=True, scaling=False, upper_triangular=up), want, rtol=1e-7, atol=1e-12)
    rec.check("inputs untouched", np.array_equal(A, A0) and np.array_equal(B, B0)
              and np.array_equal(C, C0) and np.array_equal(E, E0))
    try:
        error_norm(A[0], B[0], norm="nuclear")
        ok = False
    except NotImplementedError:
        ok = True
    rec.check("an unknown norm is refused", ok)
    ra, rb = rng.randint(0, p + 1, size=T), rng.randint(0, p + 1, size=T)

    def low(r):
        V = rng.randn(p, r)
        return V.dot(V.T)

    rec.close("rank error is the mean absolute difference of ranks",
              error_rank([low(r) for r in ra], [low(r) for r in rb]), np.mean(np.abs(ra - rb)))
    rec.nontrivial(p, T, tuple(ra))


KINDS = {"structure": (structure, 2800, 8000), "perfect": (perfect, 600, 1500),
         "norms": (norms, 600, 1500)}
