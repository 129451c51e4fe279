"""C23: graph clustering, stability, similarity and ranking helpers compute what they say."""
import itertools

import numpy as np

from ..core import quiet, size

RULE = ("random sets of 2..12 graphs (weighted, signed, duplicates, nested, empty and full graphs included) on "
        "2..8 nodes, static and over time; every value recomputed edge by edge from its definition; k-means "
        "judged through its kernel on many random starts; keyed by (measure, graphs, nodes, times)")
ASSUMPTIONS = ["the starting representatives of the graph k-means are random, so its kernel is judged by "
               "properties every start must have"]


def graph(rng, p, dens=None):
    A = np.triu(rng.rand(p, p) < (rng.choice([0, 0.2, 0.5, 0.8, 1]) if dens is None else dens), 1)
    A = A * rng.randn(p, p)
    return A + A.T


def family(rng, p, m):
    base = [graph(rng, p) for _ in range(max(1, m // 2))]
    out = []
    for _ in range(m):
        g = base[rng.randint(len(base))].copy()
        for _ in range(rng.randint(3)):
            i, j = rng.randint(p, size=2)
            if i != j:
                g[i, j] = g[j, i] = 0 if g[i, j] else rng.randn()
        g = g * rng.uniform(0.5, 2)
        np.fill_diagonal(g, rng.choice([0, 1, 2.5]))
        out.append(g)
    return out


def edges(g):
    p = len(g)
    return {(i, j) for i in range(p) for j in range(i + 1, p) if g[i, j] != 0}


def clustering(rng, rec):
    from regain import clustering as B

    p, m = size(rng, 2, 8, 20), size(rng, 2, 12, 30)
    gs = family(rng, p, m)
    for g in gs:
        np.fill_diagonal(g, 1.0)
    copies = [g.copy() for g in gs]
    rec.describe(p=p, graphs=m)
    r = np.asarray(B.get_representative(gs))
    common = set.intersection(*[edges(g) for g in gs])
    rec.check("the representative has the edges common to all graphs", edges(r) == common and
              np.array_equal(r, r.T) and set(np.unique(r)) <= {0, 1})
    reps = [graph(rng, p) + np.eye(p) for _ in range(int(rng.randint(1, 4)))]
    D = np.asarray(B.compute_distances(gs, reps))
    want = np.array([[len(edges(g) ^ edges(q)) for q in reps] for g in gs], float)
    rec.check("distances count the edges in one graph only", D.shape == want.shape and np.array_equal(D, want))
    k = int(rng.randint(1, m + 1))
    np.random.seed(rng.randint(2 ** 31))
    with quiet():
        W = np.asarray(B.graph_k_means(gs, k, max_iter=int(rng.choice([1, 3, 10]))))
    rec.check("graphs untouched", all(np.array_equal(a, b) for a, b in zip(gs, copies)))
    rec.check("the kernel is finite, one row per graph", W.shape == (m, m) and np.isfinite(W).all())
    if W.shape == (m, m) and np.isfinite(W).all():
        rec.check("the kernel is symmetric positive semidefinite", np.allclose(W, W.T, atol=1e-12) and
                  np.linalg.eigvalsh((W + W.T) / 2)[0] > -1e-9 * (1 + abs(W).max()))
        rec.check("the kernel is between 0 and the number of clusters", W.min() >= -1e-12 and W.max() <= k + 1e-9)
        same = [(i, j) for i in range(m) for j in range(i) if edges(gs[i]) == edges(gs[j])]
        rec.check("graphs with the same edges have the same similarities",
                  all(np.allclose(W[i], W[j], atol=1e-12) for i, j in same))
        rec.event("pairs of equal graphs", len(same))
    # well separated groups: complementary graphs; k = 2 started in both groups is certain after shuffling seeds
    h = rng.rand(p, p) < 0.5
    h = np.triu(h, 1)
    A = (h + h.T).astype(float)
    Bc = np.triu(~h, 1).astype(float)
    Bc = Bc + Bc.T
    if edges(A) and edges(Bc):
        lab = rng.randint(2, size=int(rng.randint(2, 9)))
        fam = [A if t else Bc for t in lab]
        for _ in range(3):
            np.random.seed(rng.randint(2 ** 31))
            with quiet():
                V = np.asarray(B.graph_k_means(fam, 2, max_iter=10))
            rec.check("two groups of equal graphs: similar within, dissimilar across", all(
                abs(V[i, j] - V[i, i]) < 1e-12 if lab[i] == lab[j] else V[i, j] < V[i, i] or V[i, i] == V[j, j]
                for i in range(len(lab)) for j in range(len(lab))), labels=lab.tolist())
            if len(set(lab)) == 2 and abs(V).max() > 0 and len({tuple(np.round(v, 12)) for v in V}) == 2:
                rec.event("separated clusterings")
    rec.nontrivial("clustering", p, m, k, len(common))


class Est:
    def __init__(self, K):
        self.K = K

    def get_precision(self):
        return self.K


def stability(rng, rec):
    from regain.model_selection.stability_optimization import global_instability, upper_bound

    p, m = size(rng, 2, 8, 20), size(rng, 1, 10, 30)
    T = int(rng.choice([0, 0, 1, 2, 4]))
    if T:
        seqs = [family(rng, p, m) for _ in range(T)]
        Ks = [np.array([seqs[t][e] for t in range(T)]) for e in range(m)]
    else:
        Ks = family(rng, p, m)
    copies = [k.copy() for k in Ks]
    rec.describe(p=p, estimators=m, times=T)
    tot = 0.0
    for t in range(max(T, 1)):
        for i, j in itertools.combinations(range(p), 2):
            th = np.mean([(k[t] if T else k)[i, j] != 0 for k in Ks])
            tot += 2 * th * (1 - th)
    want = tot / (p * (p - 1) / 2 * max(T, 1))
    got = global_instability([Est(k) for k in Ks])
    rec.close("instability averages the disagreement over all edges and times", got, want, rtol=1e-9, atol=1e-12)
    ub = upper_bound([Est(k) for k in Ks])
    rec.close("its upper bound", ub, 4 * want * (1 - want), rtol=1e-9, atol=1e-12)
    o = rng.permutation(m)
    rec.close("instability does not depend on the order of the estimators",
              global_instability([Est(Ks[i]) for i in o]), got, rtol=1e-9, atol=1e-12)
    rec.check("identical networks are stable", abs(global_instability([Est(Ks[0])] * 3)) < 1e-12)
    rec.check("precisions untouched", all(np.array_equal(a, b) for a, b in zip(Ks, copies)))
    rec.nontrivial("stability", p, m, T)


def similarity(rng, rec):
    from regain.covariance.kernel_time_graphical_lasso_ import precision_similarity as sim
    from regain.generalized_linear_model.glm_time_ising import precision_similarity as sim_ising
    from regain.norm import l1_norm

    p, T = size(rng, 2, 6, 15), size(rng, 2, 8, 20)
    K = np.array([graph(rng, p, 0.7) + np.diag(rng.rand(p)) for _ in range(T)])
    if rng.rand() < 0.15:
        K[:] = K[0]
    K0 = K.copy()
    rec.describe(p=p, times=T)
    psi = [l1_norm, lambda x: np.sqrt((x ** 2).sum()), lambda x: np.abs(x).max()][rng.randint(3)]
    D = np.array([[psi(K[s] - K[t]) for t in range(T)] for s in range(T)], float)
    if D.max() > 1e-9 or D.max() == 0:
        G = np.asarray(sim(K, psi))
        rec.close("similarity decreases with the distance of the networks, from one to zero", G,
                  1 - D / (D.max() or 1), rtol=1e-9, atol=1e-10)
    off = ~np.eye(p, dtype=bool)
    D = np.array([[np.abs((K[s] - K[t])[off]).sum() for t in range(T)] for s in range(T)])
    if D.max() > 1e-9 or D.max() == 0:
        rec.close("similarity of Ising networks ignores the diagonal", np.asarray(sim_ising(K)),
                  1 - D / (D.max() or 1), rtol=1e-9, atol=1e-10)
    rec.check("networks untouched", np.array_equal(K, K0))
    rec.nontrivial("similarity", p, T)


def ranking(rng, rec):
    import pandas as pd
    from regain import utils as B

    a, b = int(rng.randint(1, 7)), int(rng.randint(1, 7))
    X = rng.randn(a, b)
    if rng.rand() < 0.3:
        # nearly tied, still distinct
        X = float(rng.choice([1, -1])) * (1 + 1e-10 * rng.permutation(a * b).reshape(a, b))
    X0 = X.copy()
    n = int(rng.randint(1, X.size + 1))
    rec.describe(shape=(a, b), n=n)
    got = {tuple(int(v) for v in i) for i in B.top_n_indexes(X, n)}
    order = sorted(((i, j) for i in range(a) for j in range(b)), key=lambda t: -X[t])
    rec.check("the n largest entries are found", got == set(order[:n]))
    R = B.retain_top_n(X, n)
    keep = sorted(((i, j) for i in range(a) for j in range(b)), key=lambda t: -abs(X[t]))[:n]
    want = np.zeros_like(X)
    for t in keep:
        want[t] = X[t]
    rec.check("the n entries of largest magnitude are retained, the others dropped", np.array_equal(R, want))
    rec.check("arguments untouched", np.array_equal(X, X0))
    C = rng.poisson(1.5, size=(int(rng.randint(2, 9)), int(rng.randint(1, 6)))).astype(float)
    C[rng.randint(len(C))] += 1
    with quiet():
        E = np.asarray(B.logentropy_normalize(pd.DataFrame(C)))
    for j in range(C.shape[1]):
        q = C[:, j] / C[:, j].sum()
        g = 1 + sum(v * np.log(v) for v in q if v > 0) / np.log1p(len(C))
        rec.close("log-entropy weights", E[:, j], g * np.log1p(C[:, j]), rtol=1e-9, atol=1e-12)
    k, f, d = size(rng, 1, 4, 6), size(rng, 2, 7, 20), size(rng, 1, 6, 15)
    H, W = rng.rand(k, f), rng.rand(d, k)
    top = int(rng.randint(1, f + 1))
    import contextlib
    import io
    import sys
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        topics = B.display_topics(H, W, ["w%d" % i for i in range(f)], ["doc %d text" % i for i in range(d)], top,
                                  min(2, d))
    want = [" ".join("w%d (%.3f)" % (i, H[t, i]) for i in np.argsort(-H[t])[:top]) for t in range(k)]
    rec.check("topics list their heaviest words in order", list(topics) == want, got=list(topics), want=want)
    for t in range(k):
        rec.check("the best documents of a topic are shown",
                  all("doc %d text" % i in buf.getvalue() for i in np.argsort(-W[:, t])[:min(2, d)]))
    out = sys.stdout
    buf = io.StringIO()
    sys.stdout = buf
    try:
        print("before")
        try:
            with B.suppress_stdout():
                print("hidden")
                what = [None, KeyError, KeyboardInterrupt, SystemExit, GeneratorExit][rng.randint(5)]
                if what is not None:
                    raise what("x")
        except (KeyError, KeyboardInterrupt, SystemExit, GeneratorExit):
            rec.event("exceptions through suppressed output")
        restored = sys.stdout is buf
        print("after")
    finally:
        sys.stdout = out
    rec.check("output is suppressed inside and restored after, also on errors", restored and
              buf.getvalue() == "before\nafter\n", got=buf.getvalue())
    rec.nontrivial("ranking", a, b, n, C.shape)


KINDS = {"clustering": (clustering, 1000, 4000), "stability": (stability, 1000, 4000),
         "similarity": (similarity, 1000, 4000), "ranking": (ranking, 800, 3000)}
