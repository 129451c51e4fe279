"""C28: figures show what they are given; bundled data load as stored.

Every drawing function is run on generated input and the figure it leaves behind (matplotlib artists, plotly
traces) is read back and compared with the geometry, the edges or the curves computed here from the input alone."""
import csv
import os
import pickle
import re
import tempfile

import numpy as np

from ..core import REPO, quiet, size

RULE = ("random 2x2 covariances (round, flat, axis-parallel, singular), networks on 2..20 nodes (empty, one edge, "
        "full), true and predicted networks with ties; every figure is read back (artists, traces, legends) and "
        "compared with geometry, edges and curves computed from the arguments alone; keyed by (figure, sizes, options)")
ASSUMPTIONS = ["only geometry, edges, widths, hover texts, areas and axis labels are read back, not colours or fonts"]


def plt_():
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


# ---------------------------------------------------------------- covariances
def cov2(rng):
    k = rng.rand()
    a = rng.uniform(0, np.pi)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    d = 10 ** rng.uniform(-2, 2, size=2)
    if k < 0.15:
        R = np.eye(2)[:, ::-1] if rng.rand() < 0.5 else np.eye(2)
    elif k < 0.25:
        d[1] = d[0]
    elif k < 0.3:
        d[1] = 0
    C = R.dot(np.diag(d)).dot(R.T)
    return (C + C.T) / 2


def ellipses(rng, rec):
    from regain.plotting.covariance import plot_cov_2d, plot_cov_ellipse

    plt = plt_()
    C, m, s = cov2(rng), rng.randn(2) * 10 ** rng.uniform(-1, 1), float(10 ** rng.uniform(-1, 0.7))
    C0, m0 = C.copy(), m.copy()
    flat = np.linalg.eigvalsh(C)[0] < 1e-9 * np.linalg.eigvalsh(C)[1]
    rec.describe(cov=C.tolist(), mean=m.tolist(), deviations=s)
    own = bool(rng.rand() < 0.5)
    ax = plt.subplots()[1] if own else None
    if not flat:
        n = int(rng.choice([20, 50, 51, 100, 400]))
        with quiet():
            plot_cov_2d(m if rng.rand() < 0.5 else list(m), C, sdwidth=s, npts=n, ax=ax)
        a = ax or plt.gca()
        rec.check("one curve is drawn", len(a.lines) == 1, got=len(a.lines))
        xy = np.array(a.lines[0].get_data()).T
        rec.check("with the requested number of points", len(xy) == n, got=len(xy), want=n)
        z = xy - m
        maha = np.sqrt(np.einsum("ij,jk,ik->i", z, np.linalg.inv(C), z))
        rec.close("points lie at the requested number of deviations", maha, np.full(len(xy), s), rtol=1e-6)
        rec.close("the curve is closed", xy[0], xy[-1], atol=1e-8 * (1 + np.abs(xy).max()))
        # all the way round: directions seen in whitened coordinates leave no gap wider than a step
        w = np.linalg.solve(np.linalg.cholesky(C), z.T)
        ang = np.sort(np.arctan2(w[1], w[0]))
        gaps = np.diff(np.append(ang, ang[0] + 2 * np.pi))
        rec.check("and go all the way round", gaps.max() < 1.5 * 2 * np.pi / (n - 1), got=gaps.max())
    plt.close("all")
    ax = plt.subplots()[1] if own else None
    kw = {} if rng.rand() < 0.3 else dict(nstd=s)
    with quiet():
        e = plot_cov_ellipse(m, C, ax=ax, **kw)
    r = kw.get("nstd", 2)
    a = ax or plt.gca()
    rec.check("the ellipse is on the axes", e in a.get_children())
    if not flat:
        # points of the drawn ellipse, in data coordinates
        t = np.linspace(0, 2 * np.pi, 60)
        th = np.deg2rad(e.angle)
        P = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]]).dot(
            np.array([e.width / 2.0 * np.cos(t), e.height / 2.0 * np.sin(t)])).T
        maha = np.sqrt(np.einsum("ij,jk,ik->i", P, np.linalg.inv(C), P))
        rec.close("the ellipse is the set at that many deviations", maha, np.full(len(t), r), rtol=1e-6)
    else:
        long = 2 * r * np.sqrt(np.linalg.eigvalsh(C)[1])
        rec.check("the long axis of a flat ellipse", min(abs(e.width - long), abs(e.height - long)) < 1e-6 * long,
                  got=[e.width, e.height], want=long)
    rec.close("centred at the mean", np.asarray(e.get_center(), float), m, rtol=1e-12)
    rec.check("arguments untouched", np.array_equal(C, C0) and np.array_equal(m, m0))
    plt.close("all")
    rec.event("figures read back", 2)
    rec.nontrivial("ellipse", flat, own, round(np.log10(s), 1), round(C[0, 1], 2))


# ---------------------------------------------------------------- networks
def network(rng, p=None):
    p = p or size(rng, 2, 8, 20)
    k = str(rng.choice(["sparse", "medium", "full", "empty", "one"]))
    A = np.zeros((p, p))
    U = np.triu(rng.rand(p, p) < {"sparse": 0.2, "medium": 0.5, "full": 1, "empty": 0, "one": 0}[k], 1)
    if k == "one":
        i, j = rng.choice(p, 2, replace=False)
        U[min(i, j), max(i, j)] = True
    A[U] = 10 ** rng.uniform(-1, 1, size=U.sum())
    return A + A.T, k


def edges(A):
    return {(int(i), int(j)) for i, j in zip(*np.nonzero(np.triu(A, 1)))}


def nearest(P, q):
    d = np.linalg.norm(P - q, axis=1)
    return int(d.argmin()), float(d.min())


def drawn(rec, name, segs, P, want, scale=1.0):
    """The segments join exactly the pairs of node positions of the edges."""
    got = []
    for a, b in segs:
        (i, di), (j, dj) = nearest(P, np.asarray(a, float)), nearest(P, np.asarray(b, float))
        rec.check(name + ": lines end at nodes", max(di, dj) < 1e-6 * scale, got=max(di, dj))
        got.append((min(i, j), max(i, j)))
    rec.check(name + ": exactly the edges of the network", sorted(got) == sorted(want), got=sorted(got)[:20],
              want=sorted(want)[:20])


def graphs(rng, rec):
    from matplotlib.collections import LineCollection, PathCollection
    from regain.plotting.graph import plot_graph_with_latent_variables, plot_meinshausen_yuan

    plt = plt_()
    A, k = network(rng)
    p, A0 = len(A), A.copy()
    lat = int(rng.randint(0, p)) if rng.rand() < 0.5 else 0
    labels = {i: "v%d" % (7 * i) for i in range(p)} if rng.rand() < 0.5 else None
    ax = plt.subplots()[1] if rng.rand() < 0.5 else None
    rec.describe(p=p, regime=k, latents=lat, labels=labels is not None)
    with quiet():
        out = plot_graph_with_latent_variables(A, p - lat, title="T%d" % p, n_latents=lat, labels=labels, ax=ax)
    rec.check("the axes are returned", out is ax if ax is not None else out is plt.gcf().axes[0])
    rec.check("the title is shown", out.get_title() == "T%d" % p, got=out.get_title())
    nodes = [c for c in out.collections if isinstance(c, PathCollection)]
    P = np.array(nodes[-1].get_offsets())
    rec.check("every variable is a node", len(P) == p, got=len(P))
    rec.check("latent variables are marked", sorted(len(c.get_offsets()) for c in nodes) == sorted([lat, p] if lat
              else [p]), got=[len(c.get_offsets()) for c in nodes])
    if lat:
        rec.close("as the first nodes", np.array(nodes[0].get_offsets()), P[:lat], atol=1e-9)
    segs = [s for c in out.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    drawn(rec, "graph", [(s[0], s[-1]) for s in segs], P, edges(A))
    if labels is not None:
        seen = {t.get_text(): np.array(t.get_position()) for t in out.texts}
        rec.check("labels sit at their nodes", set(seen) == set(labels.values())
                  and all(np.abs(seen[labels[i]] - P[i]).max() < 1e-9 for i in range(p)))
    plt.close("all")
    loc = rng.rand(p, 2)
    given = loc if rng.rand() < 0.5 else loc.tolist()
    if rng.rand() < 0.3:
        np.fill_diagonal(A, 1.0)
        A0 = A.copy()
    with tempfile.TemporaryDirectory(prefix="regmon-") as tmp:
        f = os.path.join(tmp, "g.png") if rng.rand() < 0.15 else None
        with quiet():
            plot_meinshausen_yuan(given, A, figsize=(3, 3), file=f)
        if f:
            rec.check("the figure is saved", os.path.getsize(f) > 100)
    ls = [np.array(l.get_data(), dtype=float).T for l in plt.gca().lines]
    pts = [l for l in ls if l.shape == loc.shape and np.allclose(l, loc)]
    rec.check("locations are drawn", len(pts) >= 1)
    pairs = []
    rest = list(ls)
    for i, l in enumerate(rest):
        if l.shape == loc.shape and np.allclose(l, loc):
            rest.pop(i)
            break
    for l in rest:
        pairs.append((nearest(loc, l[0])[0], nearest(loc, l[-1])[0]))
    und = {(min(a, b), max(a, b)) for a, b in pairs if a != b}
    rec.check("locations of linked variables are joined, no others", und == edges(A), got=sorted(und)[:20],
              want=sorted(edges(A))[:20])
    rec.check("arguments untouched", np.array_equal(A, A0))
    plt.close("all")
    rec.event("edges read back", len(edges(A)))
    rec.nontrivial("graphs", p, k, lat, len(edges(A)))


def plotly(rng, rec):
    import networkx as nx
    from regain.plotting import plotly as B

    A, k = network(rng)
    p = len(A)
    G = nx.from_numpy_array(A)
    deg = (A != 0).sum(0)
    labels = ["n%d" % i for i in rng.permutation(p)]
    E = edges(A)
    dim = int(rng.choice([2, 3]))
    w = bool(rng.rand() < 0.6)
    rec.describe(p=p, regime=k, dim=dim, weights=w)
    state = np.random.get_state()
    np.random.seed(int(rng.randint(2 ** 31)))
    with quiet():
        fig = B.plot_network(G, labels, with_weights=w, dim=dim, title="net")
    np.random.set_state(state)

    def xyz(t):
        c = [t.x, t.y] + ([t.z] if dim == 3 else [])
        return [[np.nan if v is None else float(v) for v in (u if u is not None else [])] for u in c]

    nodes = [t for t in fig.data if t.text is not None and t.mode == "markers"]
    rec.check("one trace of nodes", len(nodes) == 1, got=len(nodes))
    P = np.array(xyz(nodes[0])).T
    rec.check("every node is drawn", P.shape == (p, dim), got=P.shape)
    rec.check("hover texts give label and number of connections",
              list(nodes[0].text) == ["%s<br># of connections: %d" % (labels[i], deg[i]) for i in range(p)],
              got=list(nodes[0].text)[:5])
    rec.check("nodes are coloured by degree", list(map(int, nodes[0].marker.color)) == list(deg))
    segs, width = [], {}
    for t in fig.data:
        if t.mode != "lines":
            continue
        c = np.array(xyz(t)).T.reshape(-1, dim)
        for a in range(0, len(c), 3):
            segs.append((c[a], c[a + 1]))
            i, j = nearest(P, c[a])[0], nearest(P, c[a + 1])[0]
            width[(min(i, j), max(i, j))] = t.line.width
    drawn(rec, "network", segs, P, E)
    if w and set(width) == E:
        rec.check("widths are proportional to the weights",
                  all(abs(width[e] - 2 * A[e]) < 1e-9 * (1 + A[e]) for e in E))
    # chords
    named = bool(rng.rand() < 0.7)
    with quiet():
        fig = B.plot_circular(G, labels=labels if named else None, title="circ")
    lab = labels if named else [r"$x_%d$" % i for i in range(p)]
    node = [t for t in fig.data if t.mode == "markers" and t.hoverinfo == "text" and len(t.x) == p
            and t.text is not None and not isinstance(t.text, str)]
    rec.check("the nodes are drawn on the circle", len(node) == 1, got=len(node))
    P = np.array([node[0].x, node[0].y], dtype=float).T
    rec.close("a circle", np.linalg.norm(P - P.mean(0), axis=1) if p > 2 else np.ones(2),
              np.full(p, np.linalg.norm(P - P.mean(0), axis=1).mean()) if p > 2 else np.ones(2), rtol=1e-5)
    rec.check("connections counted", list(node[0].text) == ["# of connections: %d" % d for d in deg],
              got=list(node[0].text)[:5])
    chords = [t for t in fig.data if t.mode == "lines"]
    drawn(rec, "chords", [((t.x[0], t.y[0]), (t.x[-1], t.y[-1])) for t in chords], P, E)
    texts = sorted(t.text for t in fig.data if isinstance(t.text, str))
    rec.check("edge texts name both ends and the weight",
              texts == sorted("%s to %s (%.2f)" % (lab[i], lab[j], A[i, j]) for i, j in E), got=texts[:5])
    for t in chords:
        i, j = nearest(P, np.array([t.x[0], t.y[0]]))[0], nearest(P, np.array([t.x[-1], t.y[-1]]))[0]
        rec.check("chord widths are proportional to the weights", abs(t.line.width - A[i, j] / 5.0) < 1e-9)
    ann = [a.text for a in fig.layout.annotations]
    rec.check("names around the circle", ann == lab, got=ann[:5])
    Q = np.array([[a.x, a.y] for a in fig.layout.annotations], dtype=float)
    if p > 2:
        C = (P.min(0) + P.max(0)) / 2
        rec.check("names sit outside their nodes", all(nearest(P, C + (q - C) / 1.2)[0] == i for i, q in enumerate(Q)))
    b = rng.randn(4, 2)
    rec.close("distance", B.dist(b[0], b[1]), np.sqrt(((b[0] - b[1]) ** 2).sum()), rtol=1e-12)
    rec.check("the graph is untouched", np.array_equal(nx.to_numpy_array(G), A))
    rec.event("edges read back", 2 * len(E))
    rec.nontrivial("plotly", p, k, dim, w, named, len(E))


# ---------------------------------------------------------------- curves
def roc(y, s):
    """Vertices of the ROC polyline, thresholds descending, ties taken together."""
    o = np.argsort(-s, kind="mergesort")
    y, s = y[o], s[o]
    last = np.append(np.nonzero(np.diff(s))[0], len(s) - 1)
    tp = np.cumsum(y)[last]
    fp = 1 + last - tp
    return np.append(0, fp / max(1, (1 - y).sum())), np.append(0, tp / max(1, y.sum()))


def pr(y, s):
    """Recall and precision, from the lowest threshold that recalls all to the highest, then (0, 1)."""
    f = []
    for t in np.unique(s):
        k = s >= t
        f.append((y[k].sum() / y.sum(), y[k].mean()))
    f = np.array(f + [(0.0, 1.0)])
    return f[:, 0], f[:, 1]


def area(x, y):
    return float(np.sum(np.diff(x) * (y[1:] + y[:-1]) / 2.0))


def same_curve(a, b, tol=1e-9):
    """Two polylines trace the same path (collinear vertices may be left out)."""
    def dist(p, q):
        best = np.inf
        for u, v in zip(q[:-1], q[1:]):
            d = v - u
            t = np.clip(np.dot(p - u, d) / d.dot(d), 0, 1) if d.dot(d) > 0 else 0
            best = min(best, np.linalg.norm(p - u - t * d))
        return best
    a, b = np.array(a, float).T, np.array(b, float).T
    return max(max(dist(p, b) for p in a), max(dist(p, a) for p in b)) < tol


def predictions(rng, true, n):
    out = []
    for _ in range(n):
        m = rng.randint(4)
        s = rng.randn(*true.shape) if m == 0 else np.abs(true) + rng.randn(*true.shape) if m == 1 else \
            rng.randint(0, 4, size=true.shape).astype(float) if m == 2 else np.abs(true) * 1.0
        out.append(s)
    return out


def area_of(label):
    m = re.search(r"AUC = (-?[\d.]+)(?: \$\\pm\$ ([\d.]+))?", label)
    return (float(m.group(1)), None if m.group(2) is None else float(m.group(2))) if m else None


def curves(rng, rec):
    from regain.plotting import results as B

    plt = plt_()
    T = int(rng.choice([0, 1, 2, 3]))
    p = size(rng, 3, 7, 12)
    true = np.array([network(rng, p)[0] * rng.choice([-1, 1]) for _ in range(max(T, 1))])
    if not true.any():
        true[0, 0, 1] = true[0, 1, 0] = 1.0
    if T == 0:
        true = true[0]
    y = (true != 0).astype(int).ravel()
    mode = str(rng.choice(["roc", "precision_recall"]))
    fun = str(rng.choice(["plot_curve", "plot_curve", "plot_roc_curves", "deprecated", "multiple"]))
    if fun == "plot_roc_curves":
        mode = "roc"
    keys = ["alg%d" % i for i in range(int(rng.randint(1, 4)))]
    counts = [int(rng.choice([1, 2, 3, 5])) for _ in keys]
    trues = [true]
    if fun == "multiple":
        counts = [int(rng.choice([2, 3]))] * len(keys)
        trues = [np.where(rng.permutation(y).reshape(true.shape) > 0, 0.7, 0) for _ in range(counts[0])]
    preds = {k: predictions(rng, true, c) for k, c in zip(keys, counts)}
    ys = [(t != 0).astype(int).ravel() for t in trues]
    keep = [a.copy() for k in keys for a in preds[k]] + [t.copy() for t in trues]
    rec.describe(T=T, p=p, mode=mode, function=fun, counts=counts)
    ax = plt.subplots()[1]
    with tempfile.TemporaryDirectory(prefix="regmon-") as tmp:
        f = os.path.join(tmp, "c.png") if rng.rand() < 0.05 and fun != "plot_roc_curves" else None
        with quiet():
            if fun == "plot_roc_curves":
                keys, counts = keys[:1], counts[:1]
                B.plot_roc_curves(true, list(preds[keys[0]]), ax=ax)
            elif fun == "deprecated":
                keys = keys[:3]
                g = B.plot_roc_comparison if mode == "roc" else B.plot_precision_recall_comparison
                g(true, {k: list(preds[k]) for k in keys}, ax=ax, filename=f)
            elif fun == "multiple":
                B.plot_curve(list(trues), {k: list(preds[k]) for k in keys}, mode=mode, ax=ax, filename=f,
                             multiple_true=True)
            else:
                B.plot_curve(true, {k: list(preds[k]) for k in keys}, mode=mode, ax=ax, filename=f)
        if f:
            rec.check("the figure is saved", os.path.getsize(f) > 100)
    lines = [(l.get_label(), np.array(l.get_data(), dtype=float)) for l in ax.lines if area_of(l.get_label())]
    one = roc if mode == "roc" else pr
    grid = np.linspace(0, 1, 100)
    names = ("False Positive Rate", "True Positive Rate") if mode == "roc" else ("Recall", "Precision")
    rec.check("axes are labelled by the quantities drawn", (ax.get_xlabel(), ax.get_ylabel()) == names,
              got=[ax.get_xlabel(), ax.get_ylabel()])

    def the(label_has, what):
        hit = [(a, b) for a, b in lines if label_has(a)]
        rec.check("one curve for %s" % what, len(hit) == 1, got=[a for a, _ in lines])
        return hit[0] if len(hit) == 1 else (None, None)

    def mean_curve(label, line, cs, areas):
        if label is None:
            return
        a, sd = area_of(label)
        rec.close("deviation of the areas", sd, np.std(areas), atol=0.00501)
        rec.check("the average is drawn on a grid", line.shape[1] >= 50)
        x = line[0]
        vals, clear = [], np.ones(len(x), bool)
        for u, v in cs:
            if mode != "roc":
                u, v = u[::-1], v[::-1]
            vals.append(np.interp(x, u, v))
            clear &= np.abs(x[:, None] - u[None]).min(1) > 1e-9
        clear[[0, -1]] = False
        rec.close("average curve", line[1][clear], np.mean(vals, axis=0)[clear], atol=1e-9)
        rec.close("area under the average curve", a, area(x, line[1]), atol=0.00501)
        rec.event("average curves", 1)

    for k, c in zip(keys, counts):
        cs, areas = [], []
        for i, s in enumerate(preds[k]):
            u, v = one(ys[i if fun == "multiple" else 0], s.ravel())
            cs.append((u, v))
            areas.append(area(u, v) if mode == "roc" else area(u[::-1], v[::-1]))
        if fun == "plot_roc_curves":
            for i in range(c):
                lab, line = the(lambda a: a.startswith("ROC fold %d " % i), "fold %d" % i)
                if lab is not None:
                    rec.check("the curve of the fold", same_curve(line, cs[i]))
                    rec.close("its area", area_of(lab)[0], areas[i], atol=0.00501)
            mean_curve(*the(lambda a: a.startswith("Mean"), "the mean"), cs, areas)
        elif c == 1:
            lab, line = the(lambda a: k in a.split(), "algorithm " + k)
            if lab is not None:
                rec.check("the curve of the predictions", same_curve(line, cs[0]), algorithm=k)
                rec.close("its area", area_of(lab)[0], areas[0], atol=0.00501)
        else:
            mean_curve(*the(lambda a: k in a.split() and a.startswith("Mean"), "the mean of " + k), cs, areas)
    now = [a for k in preds for a in preds[k]] + trues
    rec.check("arguments untouched", all(np.array_equal(a, b) for a, b in zip(keep, now)))
    plt.close("all")
    rec.event("curves read back", len(lines))
    rec.nontrivial("curves", T, p, mode, fun, tuple(counts))


# ---------------------------------------------------------------- bundled data
def bundled(rng, rec):
    import pandas as pd
    from regain.data.base import load_finance, load_food_search_trends

    base = os.path.join(REPO, "regain", "data")

    def table(f):
        rows = list(csv.reader(open(os.path.join(base, f), newline="")))
        return rows[0][1:], [r[0] for r in rows[1:]], [r[1:] for r in rows[1:]]

    def same(name, df, f):
        cols, idx, vals = table(f)
        rec.check(name + ": variables", list(map(str, df.columns)) == cols)
        rec.check(name + ": rows", list(map(str, df.index)) == idx)
        num = np.array([[float(v) if v != "" else np.nan for v in r] for r in vals])
        rec.check(name + ": values", num.shape == df.shape
                  and np.allclose(df.values.astype(float), num, rtol=1e-12, atol=0, equal_nan=True))

    food = load_food_search_trends()
    same("food searches", food, "food_search_trends/food.csv")
    d, con, groups = load_food_search_trends(groups=True)
    rec.check("with groups, the same data", d.equals(food))
    with open(os.path.join(base, "food_search_trends", "groups_of_food.pkl"), "rb") as f:
        stored = pickle.load(f)
    rec.check("groups as stored", {k: list(v) for k, v in groups.items()} == {k: list(v) for k, v in stored.items()})
    rec.check("memberships have one column per food and one row per group",
              list(con.columns) == list(food.columns) and list(con.index) == list(stored))
    want = np.array([[float(c in v) for c in food.columns] for v in stored.values()])
    rec.check("memberships mark exactly the members", con.shape == want.shape and np.array_equal(con.values, want))
    fin = load_finance()
    rec.check("prices are returned", isinstance(fin, pd.DataFrame))
    if isinstance(fin, pd.DataFrame):
        same("prices", fin, "finance/finance.csv")
    fin2, sec = load_finance(sectors=True)
    rec.check("with sectors, the same prices", fin2.equals(fin))
    cols, idx, vals = table("finance/industries_sector.txt")
    rec.check("sectors of the companies", list(sec.columns) == cols and list(sec.index) == idx
              and sec.values.tolist() == vals)
    rec.nontrivial("bundled", int(rng.randint(10 ** 9)))


KINDS = {"ellipses": (ellipses, 80, 800), "graphs": (graphs, 80, 800), "plotly": (plotly, 60, 500),
         "curves": (curves, 100, 1000), "bundled": (bundled, 1, 2)}
