"""C15: conversion, repair and persistence helpers."""
import os
import pickle
import shutil
import tempfile

import numpy as np

from ..core import size

RULE = ("random nested lists, per-class sample lists of unequal sizes, symmetric matrices with chosen "
        "spectra (definite, barely definite, singular, indefinite) single or stacked, thresholds, "
        "function chains, and objects and networks written to and read from scratch files; each "
        "result is compared with an element-by-element reconstruction; keyed by (kind, sizes, option)")
ASSUMPTIONS = ["definiteness is judged only where the smallest eigenvalue is away from zero by more "
               "than rounding error", "networks written to files have non-negative symmetric weights "
               "and vertex names of the documented form (a letter and a number)"]


def rebuild(rng, depth=0):
    """Random nested list -> (nested, leaves in order)."""
    out, leaves = [], []
    for _ in range(int(rng.randint(0 if depth else 1, 5))):
        if depth < 4 and rng.rand() < 0.45:
            o, l = rebuild(rng, depth + 1)
            if o and rng.rand() < 0.3 and all(isinstance(v, int) for v in o):
                o = np.array(o)
            out.append(o)
            leaves += l
        else:
            v = int(rng.randint(-50, 50))
            out.append(v)
            leaves.append(v)
    return out, leaves


def convert(rng, rec):
    from regain.utils import compose, convert_data_to_2d, flatten, upper_to_full

    nested, leaves = rebuild(rng)
    rec.check("flatten lists every leaf once, in order", list(flatten(nested)) == leaves,
              nested=nested, got=flatten(nested))
    p, T = size(rng, 1, 9, 30), size(rng, 1, 7, 15)
    data = [rng.randn(int(rng.randint(1, 9)), p) for _ in range(T)]
    if rng.rand() < 0.4:
        data = [rng.randn(4, p) for _ in range(T)]
        arg = np.array(data)
    else:
        arg = data
    before = [d.copy() for d in data]
    X, y = convert_data_to_2d(arg)
    n = [len(d) for d in data]
    rec.check("one row per sample", X.shape == (sum(n), p) and len(y) == sum(n), n=n, got=X.shape)
    k = 0
    ok = True
    for t, d in enumerate(before):
        for row in d:
            ok = ok and np.array_equal(X[k], row) and y[k] == t
            k += 1
    rec.event("samples converted", k)
    rec.check("each sample keeps its values and its class, in order", ok, n=n)
    rec.check("inputs untouched", all(np.array_equal(a, b) for a, b in zip(before, data)))
    q = size(rng, 1, 9, 40)
    vals = rng.randn(q * (q + 1) // 2)
    A = upper_to_full(vals)
    want = np.zeros((q, q))
    it = iter(vals)
    for i in range(q):
        for j in range(i, q):
            want[i, j] = want[j, i] = next(it)
    rec.check("upper triangle expands to the symmetric matrix", np.array_equal(A, want), q=q)
    fs = [lambda x, a=a, b=b: a * x + b for a, b in rng.randint(-4, 5, size=(int(rng.randint(0, 6)), 2))]
    x = int(rng.randint(-9, 9))
    v = x
    for f in fs[::-1]:
        v = f(v)
    rec.check("compose applies the functions right to left", compose(*fs)(x) == v)
    rec.nontrivial(p, tuple(n), q, len(fs), len(leaves))


def spectrum(rng, p):
    kind = str(rng.choice(["definite", "barely", "singular", "indefinite", "negative"]))
    w = rng.uniform(0.2, 3, size=p)
    if kind == "barely":
        w[0] = 1e-6
    elif kind == "singular":
        w[0] = 0
    elif kind == "indefinite":
        w[0] = -float(rng.choice([1e-6, 0.1, 2.0]))
        if p > 2 and rng.rand() < 0.5:
            w[1] = w[0] * 0.7       # an even number of negative ones
    elif kind == "negative":
        w = -w
    Q = np.linalg.qr(rng.randn(p, p))[0]
    A = (Q * w).dot(Q.T)
    return kind, (A + A.T) / 2, w


def definite(rng, rec):
    from regain.utils import ensure_posdef, is_pos_def, is_pos_semidef, positive_definite

    p, T = size(rng, 2, 9, 30), size(rng, 1, 5, 12)
    kinds, mats, ws = zip(*[spectrum(rng, p) for _ in range(T)])
    A = np.array(mats)
    A0 = A.copy()
    rec.describe(p=p, T=T, kinds=kinds)
    for k, a, w in zip(kinds, A, ws):
        if k != "singular":
            rec.check("is_pos_def says whether all eigenvalues are positive",
                      is_pos_def(a) == (w.min() > 0) and
                      is_pos_def(a, chol=False) == (w.min() > 0), w=w, kind=k)
            rec.check("is_pos_semidef says whether no eigenvalue is negative",
                      is_pos_semidef(a) == (w.min() > 0), w=w, kind=k)
        else:
            rec.check("a singular semidefinite matrix is semidefinite within the tolerance, not definite",
                      is_pos_semidef(a, tol=1e-10) and not is_pos_def(a, tol=1e-10, chol=False), w=w)
    rec.check("inputs untouched", np.array_equal(A, A0))
    if "singular" not in kinds:
        rec.check("a stack is definite when every matrix is",
                  positive_definite(A) == all(w.min() > 0 for w in ws) and
                  positive_definite(A[0]) == (ws[0].min() > 0), kinds=kinds)
        B = A.copy()
        if rng.rand() < 0.5:
            ensure_posdef(B)
        else:
            for b in B:
                ensure_posdef(b)
        for b, a, w in zip(B, A0, ws):
            if w.min() > 0:
                rec.check("definite matrices are left alone", np.array_equal(a, b), w=w)
            else:
                rec.event("matrices repaired")
                rec.check("a repaired matrix is positive definite", np.linalg.eigvalsh(b).min() > 0,
                          eig=np.linalg.eigvalsh(b))
                off = ~np.eye(p, dtype=bool)
                rec.check("repair keeps the off-diagonal entries", np.array_equal(a[off], b[off]))
    rec.nontrivial(p, kinds)


def normal(rng, rec):
    from regain.utils import normalize_matrix, threshold

    p = size(rng, 2, 9, 40)
    V = rng.randn(p, p + 2) * 10 ** rng.uniform(-3, 3, size=(p, 1))
    A = V.dot(V.T)
    B = A.copy()
    normalize_matrix(B)
    for i in range(p):
        for j in range(p):
            rec.close("normalisation divides by the standard deviations", B[i, j],
                      A[i, j] / np.sqrt(A[i, i] * A[j, j]), rtol=1e-9, atol=1e-12)
    x = rng.randn(*[int(v) for v in rng.randint(1, 7, size=int(rng.randint(1, 4)))])
    x0 = x.copy()
    lo = None if rng.rand() < 0.3 else float(rng.uniform(-2, 0.5))
    hi = None if rng.rand() < 0.3 else float(rng.uniform(-0.5, 2))
    if rng.rand() < 0.5:
        # bounds and limits that are values of the array itself: they are in range
        lo = lo and float(rng.choice(x.ravel()))
        hi = hi and float(rng.choice(x.ravel()))
    new = float(rng.choice([0, -7.5, 3]))
    r = np.asarray(threshold(x, threshmin=lo, threshmax=hi, newval=new))
    rec.check("threshold keeps the shape", r.shape == x.shape)
    for a, b in zip(x0.ravel(), r.ravel()):
        out = (lo is not None and a < lo) or (hi is not None and a > hi)
        rec.check("threshold replaces exactly the values out of range", b == (new if out else a),
                  value=a, got=b, lo=lo, hi=hi, new=new)
    rec.check("inputs untouched", np.array_equal(x, x0))
    rec.nontrivial(p, x.shape, lo is None, hi is None)


def tensors(rng, rec):
    from regain.math import batch_logdet, create_from_diagonal, fill_diagonal, get_diagonal

    p = size(rng, 1, 7, 30)
    shape = tuple(int(v) for v in rng.randint(1, 4, size=int(rng.randint(0, 3))))
    A = rng.randn(*shape, p, p)
    d = rng.randn(*shape, p)
    flatA, flatd = A.reshape(-1, p, p).copy(), d.reshape(-1, p)
    g = get_diagonal(A).reshape(-1, p)
    rec.check("diagonals are read batch by batch",
              all(np.array_equal(x, np.diag(a)) for x, a in zip(g, flatA)))
    c = create_from_diagonal(d).reshape(-1, p, p)
    rec.check("diagonal matrices are built batch by batch",
              all(np.array_equal(x, np.diag(v)) for x, v in zip(c, flatd)))
    B = A.copy()
    fill_diagonal(B, d)
    off = ~np.eye(p, dtype=bool)
    rec.check("filling a diagonal sets it and nothing else",
              all(np.array_equal(np.diag(b), v) and np.array_equal(b[off], a[off])
                  for b, a, v in zip(B.reshape(-1, p, p), flatA, flatd)))
    s = np.array([np.linalg.det(a) for a in flatA])
    l = np.asarray(batch_logdet(A)).reshape(-1)
    for x, det in zip(l, s):
        if abs(det) > 1e-8:
            rec.close("log-determinants batch by batch", x, np.log(det) if det > 0 else -np.inf,
                      rtol=1e-6, atol=1e-8)
    u = 10 ** rng.uniform(-60, 60)      # units in which the determinants themselves overflow
    for x, det in zip(np.asarray(batch_logdet(A * u)).reshape(-1), s):
        if abs(det) > 1e-8:
            rec.close("log-determinants in any units", x, np.log(det) + p * np.log(u) if det > 0 else -np.inf,
                      rtol=1e-6, atol=1e-6)
    rec.nontrivial(p, shape)


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    return type(a) is type(b) and a == b


def anything(rng, depth=0):
    r = rng.randint(6 if depth < 3 else 3)
    if r == 0:
        return float(rng.randn())
    if r == 1:
        return "s%d\u00e9" % rng.randint(100)
    if r == 2:
        return rng.randn(*rng.randint(0, 4, size=2))
    items = [anything(rng, depth + 1) for _ in range(rng.randint(0, 4))]
    return items if r == 3 else tuple(items) if r == 4 else {"k%d" % i: v for i, v in enumerate(items)}


def files(rng, rec):
    import pandas as pd
    from regain.utils import load_pickle, read_network, save_pickle, write_network

    d = tempfile.mkdtemp(prefix="regmon-")
    try:
        name = os.path.join(d, str(rng.choice(["obj.pkl", "obj", "obj.dat", "a.pkl.v2"])))
        o = anything(rng)
        save_pickle(o, name)
        back = load_pickle(name)
        rec.check("a saved object loads back equal under the same name", equal(o, back),
                  name=os.path.basename(name), obj=repr(o)[:200])
        rec.event("objects saved and loaded")
        other = os.path.join(d, "other.bin")
        with open(other, "wb") as fh:
            pickle.dump(o, fh)
        rec.check("an object pickled elsewhere loads under its own name", equal(o, load_pickle(other)))
        p = size(rng, 2, 13, 60)
        W = np.triu(rng.uniform(0.01, 3, size=(p, p)) * 10 ** rng.uniform(-3, 3, size=(p, p)) * (rng.rand(p, p) < rng.uniform(.1, 1)), 1)
        if rng.rand() < 0.2:
            W = np.zeros((p, p))
        W = W + W.T
        diag = rng.rand() < 0.4
        if diag:
            np.fill_diagonal(W, rng.uniform(0.5, 2, size=p))
        names = ["G%d" % (i + 1) for i in range(p)]
        df = pd.DataFrame(W, index=names, columns=names)
        full = bool(rng.rand() < 0.6)
        ext, sep = [(".csv", ","), (".tsv", "\t"), (".net", ";")][rng.randint(3)]
        f = os.path.join(d, "net" + ext)
        if ext == ".csv" and full:
            write_network(df, f)
            kw = {}
        else:
            rows = [(a, b, W[i, j]) for i, a in enumerate(names) for j, b in enumerate(names)
                    if (full or i <= j)]
            rows = [rows[i] for i in rng.permutation(len(rows))]
            pd.DataFrame(rows).to_csv(f, sep=sep, header=False, index=False)
            kw = {} if ext != ".net" else {"delimiter": sep}
        rec.describe(p=p, full=full, ext=ext)
        # an odd number of rows of a full network cannot be cut into edge pairs without
        # losing the lowest-weight row: only a zero is dropped when there is one
        fd = bool(rng.rand() < 0.5)
        net = read_network(f, full_network=full, fill_diagonal=fd, **kw)
        rec.event("networks written and read")
        rec.check("the network read has the vertices in numeric order", list(net.index) == names
                  and list(net.columns) == names, got=list(net.index))
        N = np.asarray(net.values, float)
        off = ~np.eye(p, dtype=bool)
        lost = full and (p * p) % 2 == 1
        if not lost or (W == 0).any():
            rec.close("edge weights survive a write and a read", N[off], W[off], rtol=1e-14)
            want = N.copy()
            if fd:
                np.fill_diagonal(want, 0 if not diag else W.diagonal())
                rec.close("filled diagonal is the absolute row sum", N.diagonal(), np.abs(W).sum(1),
                          rtol=1e-9)
            else:
                rec.close("diagonal weights survive", N.diagonal(), W.diagonal(), rtol=1e-14)
        if rng.rand() < 0.5 and not full and not diag:
            frac = float(rng.choice([0.1, 0.3, 0.6]))
            net = np.asarray(read_network(f, threshold=frac, full_network=False, fill_diagonal=False,
                                          **kw).values)
            k = int(p * (p + 1) / 2 * frac)
            w = np.sort(W[np.triu_indices(p)])[::-1]
            kept = np.sort(net[np.triu_indices(p)])[::-1]
            want = np.zeros_like(w)
            want[:k] = w[:k]
            rec.close("a threshold keeps the heaviest edges", kept, want, rtol=1e-9, frac=frac)
        rec.nontrivial(p, full, ext, fd, diag)
    finally:
        shutil.rmtree(d)


def penalty(rng, rec):
    """Residual balancing of the penalty parameter."""
    from regain.update_rules import update_gamma, update_rho

    wide = 4 if rng.rand() < 0.6 else 12
    rho = float(10 ** rng.uniform(-wide, wide))
    scale = 10 ** rng.uniform(-wide, wide)
    r, s = (float(scale * 10 ** rng.uniform(-3, 3)) for _ in range(2))
    if rng.rand() < 0.1:
        r, s = [(r, 0.0), (0.0, s), (0.0, 0.0)][rng.randint(3)]
    kw = {}
    if rng.rand() < 0.6:
        kw = dict(mu=float(rng.choice([1.5, 10, 50])), tau_inc=float(rng.choice([1, 1.5, 2, 5])),
                  tau_dec=float(rng.choice([1, 1.5, 2, 5])))
    mu, up, down = kw.get("mu", 10), kw.get("tau_inc", 2), kw.get("tau_dec", 2)
    got = update_rho(rho, r, s, iteration=int(10 ** rng.uniform(0, 4.5)) - 1, **kw)
    want = rho * up if r > mu * s else rho / down if s > mu * r else rho
    rec.close("the penalty parameter balances the residuals", got, want, rtol=1e-12, r=r, s=s, **kw)
    g, eps = float(10 ** rng.uniform(-6, 0)), float(10 ** rng.uniform(-6, -2))
    i = int(rng.randint(0, 200)) if rng.rand() < 0.7 else 20 * int(rng.randint(0, 500))
    rec.close("gamma halves every twentieth iteration down to its floor", update_gamma(g, i, eps=eps),
              max(g / 2 if i % 20 == 0 else g, eps), rtol=1e-12)
    rec.nontrivial(r > mu * s, s > mu * r, bool(kw), i % 20 == 0)


KINDS = {"convert": (convert, 900, 6000), "definite": (definite, 900, 6000),
         "normal": (normal, 450, 2000), "tensors": (tensors, 600, 3000), "files": (files, 750, 3000),
         "penalty": (penalty, 600, 4000)}
