"""C18: Ising, Poisson and multi-class data sets follow the networks they report."""
import itertools
import warnings

import numpy as np
from scipy import stats
from scipy.special import gammaln

RULE = ("random graphs of every documented kind with 2..14 vertices over 1..8 times; Ising samples "
        "from the Gibbs, coupling-from-the-past and direct samplers on 2..4 vertices compared by "
        "chi-square with exact enumeration of the Boltzmann distribution; Poisson samples compared "
        "in mean and covariance with the generating model (exact enumeration for the pairwise "
        "model); multi-class networks and samples; keyed by (sampler, size, responses, couplings)")
ASSUMPTIONS = ["a statistic is a violation only beyond a tail probability of 1e-9",
               "Markov-chain samplers are run for 25 or more sweeps on couplings weak enough to mix"]
TAIL = 1e-9


def seed(rng):
    np.random.seed(int(rng.randint(2 ** 31 - 1)))


def edges(a, b):
    return np.count_nonzero(np.triu(np.asarray(a) != np.asarray(b), 1))


def graphs(rng, rec):
    from regain.datasets.ising import ising_theta_generator
    from regain.datasets.poisson import poisson_theta_generator

    p, T = int(rng.randint(4, 15)), int(rng.randint(1, 9))
    kind = str(rng.choice(["erdos-renyi", "scale-free", "small-world", "random"]))
    deg, prob = int(rng.randint(1, 4)), float(rng.uniform(0.1, 0.9))
    if kind == "small-world":
        deg = max(deg, 2)           # networkx needs two neighbours
    k = int(rng.randint(1, 6))
    seed(rng)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import random
        random.seed(int(rng.randint(10 ** 6)))
        which = str(rng.choice(["ising", "poisson"]))
        if which == "ising":
            G = ising_theta_generator(n_dim_obs=p, T=T, mode=str(rng.choice(["l1", "l2"])), change=k,
                                      random_graph=kind, probability=prob, degree=deg)
            vals = {-1, 0, 1}
        else:
            G = poisson_theta_generator(n_dim_obs=p, T=T, mode="l1", n_to_change=k,
                                        random_graph=kind, probability=prob, degree=deg)
            vals = {0, 1}
    rec.describe(which=which, graph=kind, p=p, T=T, change=k, degree=deg)
    rec.check("one network per time", len(G) == T and all(np.shape(g) == (p, p) for g in G))
    for g in G:
        g = np.asarray(g)
        rec.check("networks are symmetric without self-loops", np.array_equal(g, g.T) and
                  not g.diagonal().any(), g=g)
        rec.check("edge weights are the documented ones", set(np.unique(g)) <= vals, got=np.unique(g))
    for a, b in zip(G, G[1:]):
        rec.check("a step changes at most the requested number of edges", edges(a, b) <= k,
                  changed=edges(a, b), allowed=k)
        rec.event("transitions inspected")
    n = edges(np.zeros((p, p)), G[0])
    if kind == "scale-free":
        rec.check("a scale-free start attaches every new vertex by degree edges", n == deg * (p - deg),
                  edges=n)
    elif kind == "small-world":
        rec.check("a small-world start has degree / 2 edges per vertex", n == p * (deg // 2), edges=n)
    elif kind == "random" and which == "poisson":
        rec.check("a random start has the requested edges", n == deg, edges=n)
    rec.check("times do not share memory", all(not np.shares_memory(a, b)
                                               for a, b in itertools.combinations(G, 2)))
    rec.nontrivial(which, kind, p, T, k, deg)


def boltzmann(theta, thr, beta, resp):
    p = len(thr)
    states = list(itertools.product(resp, repeat=p))
    e = []
    for s in states:
        v = sum(thr[i] * s[i] for i in range(p))
        v += sum(theta[i, j] * s[i] * s[j] for i in range(p) for j in range(i + 1, p))
        e.append(beta * v)
    e = np.array(e)
    w = np.exp(e - e.max())
    return states, w / w.sum()


def fits(rec, oracle, counts, probs, **wit):
    """Pearson chi-square with cells of expectation below 5 merged."""
    n = counts.sum()
    exp = probs * n
    big = exp >= 5
    o, e = list(counts[big]), list(exp[big])
    if (~big).any():
        # rare states: exact binomial tail of their total
        seen = int(counts[~big].sum())
        tail = stats.binom.sf(seen - 1, int(n), min(1.0, float(probs[~big].sum())))
        rec.check(oracle + " (rare states)", tail > TAIL, tail=tail, seen=seen, n=int(n),
                  expected=float(exp[~big].sum()), **wit)
    if (~big).any() and exp[~big].sum() > 0.5:
        o.append(counts[~big].sum())
        e.append(exp[~big].sum())
    o, e = np.array(o, float), np.array(e, float)
    if len(o) < 2:
        return
    q = ((o - e) ** 2 / e).sum()
    tail = stats.chi2.sf(q, len(o) - 1)
    rec.check(oracle, tail > TAIL, tail=tail, observed=o, expected=e, **wit)


def weights(rng, p, strong):
    J = rng.uniform(-strong, strong, size=(p, p))
    J = np.triu(J, 1)
    return J + J.T


def ising(rng, rec):
    from regain.datasets.ising import hamiltonian, ising_sampler, p_plus, p_plus_minmax

    p = int(rng.randint(2, 5))
    resp = [[-1, 1], [0, 1]][rng.randint(2)]
    method = str(rng.choice(["MH", "CFTP", "direct"]))
    beta = float(rng.choice([0.5, 1, 1.3]))
    theta = weights(rng, p, 0.7 if resp[0] else 1.5)
    if rng.rand() < 0.3:
        theta[rng.rand(p, p) < 0.4] = 0
        theta = np.triu(theta, 1) + np.triu(theta, 1).T
    if rng.rand() < 0.3:
        np.fill_diagonal(theta, rng.randn(p))       # ignored by every sampler
    thr = rng.uniform(-0.6, 0.6, size=p)
    sweeps = 25
    regime = str(rng.choice(["plain", "plain", "strong fields", "strong couplings", "short blocks"]))
    if regime == "strong fields":
        thr = rng.uniform(4, 9, size=p) * rng.choice([-1, 1], size=p)
        theta *= 0.5
    elif regime == "strong couplings" and method != "CFTP":
        # slow mixing: a few sweeps are not enough, the requested number is
        p = int(rng.randint(2, 4))
        J = rng.uniform(0.6, 0.75) if p == 3 else rng.uniform(0.9, 1.1)
        theta = (np.ones((p, p)) - np.eye(p)) * J / beta * (1 if resp[0] else 4)
        thr = rng.uniform(0.2, 0.4) * np.ones(p) / beta
        if not resp[0]:
            thr = 2 * thr - theta.sum(1) / 2
        sweeps = 120
    elif regime == "short blocks":
        sweeps = 1 if method == "CFTP" else 25
        if method == "CFTP":
            # blocks of one sweep: most samples take several restarts, whose randomness is reused
            theta = weights(rng, p, 2.0 / p) * (1 if resp[0] else 2)
            thr = rng.uniform(-1, 1, size=p) * float(rng.choice([1, 2])) * (1 if resp[0] else 2)
    n = 900 if method == "direct" or regime != "plain" else 450
    if sweeps == 1:
        n = 2000
    t0, h0 = theta.copy(), thr.copy()
    states, probs = boltzmann(theta, thr, beta, resp)
    seed(rng)
    X = np.asarray(ising_sampler(theta, thr, n=n, beta=beta, responses=list(resp), method=method,
                                 max_iter=sweeps))
    rec.describe(p=p, responses=resp, method=method, beta=beta, regime=regime)
    rec.check("one row per sample, one column per variable", X.shape == (n, p), got=X.shape)
    rec.check("arguments untouched", np.array_equal(theta, t0) and np.array_equal(thr, h0))
    ok = np.isin(X, resp).all()
    rec.check("samples take the two responses", ok, got=np.unique(X))
    idx = {s: i for i, s in enumerate(states)}
    if ok:
        c = np.bincount([idx[tuple(type(resp[0])(v) for v in x)] for x in X], minlength=len(states))
        fits(rec, "samples follow the Boltzmann distribution of the network", c, probs, method=method)
        rec.event("Ising samples tested: " + method, n)
    # conditional probabilities and energy differences
    s = [resp[rng.randint(2)] for _ in range(p)]
    i = int(rng.randint(p))
    hi, lo = list(s), list(s)
    hi[i], lo[i] = resp[1], resp[0]
    cond = probs[idx[tuple(hi)]] / (probs[idx[tuple(hi)]] + probs[idx[tuple(lo)]])
    rec.close("conditional probability of a response", p_plus(i, theta, s, thr, beta, resp), cond,
              rtol=1e-9)
    dH = hamiltonian(theta, np.array(hi), thr) - hamiltonian(theta, np.array(lo), thr)
    rec.close("energy difference matches the conditional", 1 / (1 + np.exp(beta * dH)), cond, rtol=1e-9)
    import sys
    part = np.array([float(v) for v in s])
    hide = rng.rand(p) < 0.6
    part[hide] = -sys.maxsize - 1
    conds = []
    for free in itertools.product(resp, repeat=int(hide.sum())):
        full = np.array(s, float)
        full[hide] = free
        conds.append(p_plus(i, theta, full, thr, beta, resp))
    b = p_plus_minmax(i, theta, part, thr, beta, resp)
    rec.close("bounds over unknown neighbours are the extremes", b, [min(conds), max(conds)], rtol=1e-9)
    rec.nontrivial(p, tuple(resp), method, beta, regime, round(float(thr[0]), 1))


def constrained(rng, rec):
    import sys
    from regain.datasets.ising import ising_sampler

    p, n = 3, 300
    theta, thr = weights(rng, p, 0.8), rng.uniform(-0.5, 0.5, size=p)
    resp = [[-1, 1], [0, 1]][rng.randint(2)]
    i = int(rng.randint(p))
    v = resp[rng.randint(2)]
    C = np.ones((n, p)) * (-sys.maxsize - 1)
    C[:, i] = v
    seed(rng)
    X = np.asarray(ising_sampler(theta, thr, n=n, responses=list(resp), constraints=C, max_iter=25))
    rec.describe(p=p, responses=resp, fixed=(i, v))
    rec.check("constrained variables keep their value", (X[:, i] == v).all())
    states, probs = boltzmann(theta, thr, 1, resp)
    keep = [k for k, s in enumerate(states) if s[i] == v]
    pr = probs[keep] / probs[keep].sum()
    key = {states[k]: m for m, k in enumerate(keep)}
    if (X[:, i] == v).all():
        c = np.bincount([key[tuple(int(u) for u in x)] for x in X], minlength=len(keep))
        fits(rec, "the others follow the conditional distribution", c, pr)
    seed(rng)
    one = np.asarray(ising_sampler(theta, thr, n=1, responses=list(resp),
                                   method=str(rng.choice(["MH", "CFTP", "direct"]))))
    rec.check("a single sample is a one-row matrix", one.shape == (1, p), got=one.shape)
    for bad, err in (((weights(rng, p, 1) + np.triu(np.ones((p, p)), 1), [0, 1], "MH"), AssertionError),
                     ((theta, [0, 1, 2], "MH"), ValueError), ((theta, [0, 1], "nope"), ValueError)):
        try:
            ising_sampler(bad[0], thr, n=2, responses=bad[1], method=bad[2])
            rec.check("invalid sampler arguments are refused", False, case=str(err))
        except err:
            rec.check("invalid sampler arguments are refused", True)
    rec.nontrivial(tuple(resp), i, v)


def moments(rec, X, mean, cov, n, tag):
    sd = np.sqrt(np.diag(cov))
    z = np.abs(X.mean(0) - mean) / (sd / np.sqrt(n))
    rec.check(tag + "means follow the network", z.max() < 7, z=z)
    C = np.cov(X.T)
    # Var(sample covariance) of sums of Poisson variables is below 3 sd^2 sd^2 (kurtosis 3 + 1/mean)
    e = np.abs(C - cov) / (np.outer(sd, sd) * np.sqrt((3 + 1 / min(1, mean.min())) / n))
    rec.check(tag + "covariances follow the network", e.max() < 8, z=e.max(), got=C, want=cov)
    rec.event("Poisson samples tested", n)


def poisson(rng, rec):
    from regain.datasets.poisson import poisson_sampler

    p, n = int(rng.randint(2, 8)), 1500
    A = np.triu((rng.rand(p, p) < rng.uniform(0, 1)).astype(int), 1)
    A = A + A.T
    lam, noise = float(rng.choice([0.4, 1, 1.7, 2, 4])), float(rng.choice([0.0, 0.5, 2]))
    if rng.rand() < 0.5:
        A = A.astype(float)
    A0 = A.copy()
    seed(rng)
    X = poisson_sampler(A, n_samples=n, _lambda=lam, _lambda_noise=noise)
    rec.describe(p=p, lam=lam, noise=noise, edges=int(A.sum() // 2))
    rec.check("one row per sample, one column per variable", X.shape == (n, p), got=X.shape)
    rec.check("arguments untouched", np.array_equal(A, A0))
    rec.check("counts are non-negative integers", (X >= 0).all() and np.array_equal(X, np.round(X)))
    mean = lam * (1 + A.sum(1)) + noise
    cov = lam * A.astype(float)
    np.fill_diagonal(cov, mean)
    moments(rec, X, mean, cov, n, "local model: ")
    rec.nontrivial(p, lam, noise, int(A.sum() // 2))


def gibbs(rng, rec):
    from regain.datasets.poisson import poisson_sampler

    p, n, sweeps = int(rng.randint(2, 4)), 500, 25
    K = {2: 40, 3: 26}[p]
    th = -np.triu(rng.uniform(0, 0.5, size=(p, p)), 1)
    th = th + th.T
    v = rng.uniform(-0.7, 0.5 if rng.rand() < 0.5 else 1.8, size=p)
    given = rng.rand() < 0.75
    if not given:
        v, n, sweeps = np.zeros(p), 10000, 12
    t0 = th.copy()
    seed(rng)
    X = poisson_sampler(th, variances=v.copy() if given else None, n_samples=n, _type="gibbs", max_iter=sweeps)
    rec.describe(p=p, theta=th, v=v)
    rec.check("one row per sample, one column per variable", X.shape == (n, p), got=X.shape)
    rec.check("counts are non-negative integers", (X >= 0).all() and np.array_equal(X, np.round(X)))
    rec.check("arguments untouched", np.array_equal(th, t0))
    st = np.array(list(itertools.product(range(K), repeat=p)))
    e = st.dot(v) + 0.5 * np.einsum("si,ij,sj->s", st, th, st) - gammaln(st + 1.0).sum(1)
    w = np.exp(e)
    w /= w.sum()
    mean = w.dot(st)
    sd = np.sqrt(w.dot(st ** 2) - mean ** 2)
    z = np.abs(X.mean(0) - mean) / (sd / np.sqrt(n))
    rec.check("means follow the pairwise Poisson model", z.max() < 7, z=z)
    small = np.minimum(X, 3)
    ss = np.minimum(st, 3)
    key = {s: i for i, s in enumerate(itertools.product(range(4), repeat=p))}
    pr = np.zeros(len(key))
    for s, q in zip(ss, w):
        pr[key[tuple(s)]] += q
    c = np.bincount([key[tuple(int(u) for u in x)] for x in small], minlength=len(key))
    fits(rec, "counts follow the pairwise Poisson model", c, pr)
    rec.nontrivial(p, round(float(v[0]), 1), round(float(th[0, 1]), 1))


def bunch(rng, rec):
    """make_dataset for the discrete distributions."""
    from regain.datasets import make_dataset

    which = str(rng.choice(["ising", "poisson", "Ising", "POISSON"]))
    p, T, n = int(rng.randint(4, 7)), int(rng.randint(1, 5)), int(rng.choice([1, 4, 9]))
    last = bool(rng.rand() < 0.4)
    s = int(rng.randint(10 ** 6))
    kw = dict(change=2) if which.lower() == "ising" else dict(n_to_change=2)
    out = []
    for _ in range(2):
        np.random.seed(s)
        import random
        random.seed(s)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(make_dataset(distribution=which, n_samples=n, n_dim_obs=p, T=T, update_theta="l1",
                                    time_on_axis="last" if last else "first", **kw))
    d = out[0]
    rec.describe(distribution=which, p=p, T=T, n=n, last=last)
    rec.check("data have the requested shape", d.data.shape == ((n, p, T) if last else (T, n, p)) and
              d.thetas.shape == (T, p, p), got=(d.data.shape, d.thetas.shape))
    D = d.data.transpose(2, 0, 1) if last else d.data
    rec.check("X stacks the samples in time order with their labels",
              np.array_equal(d.X, D.reshape(T * n, p)) and
              np.array_equal(d.y, np.repeat(np.arange(T), n)))
    rec.check("equal seeds give equal data", all(np.array_equal(d[k], out[1][k])
                                                 for k in ("data", "X", "y", "thetas")))
    if which.lower() == "ising":
        rec.check("Ising data are -1 and 1", set(np.unique(d.X)) <= {-1, 1})
    else:
        rec.check("Poisson data are counts", (d.X >= 0).all() and np.array_equal(d.X, np.round(d.X)))
    rec.nontrivial(which.lower(), p, T, n, last)


def classes(rng, rec):
    from regain.datasets.multi_class import make_multiclass_dataset

    p, k, n = int(rng.randint(5, 14)), int(rng.randint(1, 5)), int(rng.choice([2, 800]))
    dist = [["gaussian"], ["poisson"], ["gaussian", "poisson"], "gaussian"][rng.randint(4)]
    if n == 2 and rng.rand() < 0.5:
        dist = ["ising", "gaussian"]
    typ = str(rng.choice(["scale-free", "erdos-renyi"]))
    gs = int(rng.randint(1000))
    seed(rng)
    d, nets = make_multiclass_dataset(n_samples=n, n_dim_obs=p, n_classes=k, _type=typ, n_edges=2,
                                      probability=0.4, distribution=dist, random_state=gs)
    rec.describe(p=p, classes=k, n=n, distribution=dist, graph=typ)
    want = {dist} if isinstance(dist, str) else set(dist)
    rec.check("one data set per distribution", set(d) == want, got=list(d))
    rec.check("one network per class", len(nets) == k)
    base = np.asarray(nets[0])
    for b in nets:
        b = np.asarray(b)
        rec.check("networks are symmetric 0/1 without self-loops", np.array_equal(b, b.T) and
                  not b.diagonal().any() and set(np.unique(b)) <= {0, 1})
        zeros, ones = p * p - p - base.sum(), base.sum()
        rec.check("a class adds at most a tenth of the absent and removes at most a tenth of the "
                  "present edges", np.count_nonzero((b == 1) & (base == 0)) <= 2 * int(0.1 * zeros + 1e-9)
                  and np.count_nonzero((b == 0) & (base == 1)) <= 2 * int(0.1 * ones + 1e-9))
    rec.stat("edges differing from the first class", max(edges(base, b) for b in nets))
    off = ~np.eye(p, dtype=bool)
    for name in want:
        q = d[name]
        rec.check("samples of every class, stacked with their labels", q.data.shape == (k, n, p) and
                  np.array_equal(q.X, q.data.reshape(k * n, p)) and
                  np.array_equal(q.y, np.repeat(np.arange(k), n)), got=q.data.shape)
        for K, b, X in zip(q.thetas, nets, q.data):
            rec.check("the class network has the edges of its binary version", np.array_equal(
                (K != 0)[off], (np.asarray(b) != 0)[off]))
            rec.check("the class network is symmetric", np.allclose(K, K.T))
            if name == "gaussian":
                w = np.linalg.eigvalsh(np.asarray(K, float))
                rec.check("the Gaussian network is a precision matrix", w.min() > 0, eig=w.min())
                if n > 100 and w.min() > 1e-3 * w.max():
                    ww, V = np.linalg.eigh(np.asarray(K, float))
                    Z = X.dot(V * np.sqrt(ww))
                    qs = (Z ** 2).sum(0)
                    tl = np.minimum(stats.chi2.sf(qs, n), stats.chi2.cdf(qs, n)).min() * 2 * p
                    rec.check("Gaussian samples have the class precision", tl > TAIL, tail=tl)
            elif name == "ising":
                rec.check("Ising data are -1 and 1", set(np.unique(X)) <= {-1, 1})
            elif n > 100:
                b = np.asarray(b, float)
                mean = 1 + b.sum(1) + 0.5
                cov = b.copy()
                np.fill_diagonal(cov, mean)
                moments(rec, X, mean, cov, n, "Poisson class: ")
    rec.nontrivial(p, k, n, str(dist), typ)


def aggregate(results):
    """Over many draws, classes and times do change."""
    tot = [r["stats"].get("edges differing from the first class", 0) for r in results
           if r["kind"] == "classes" and not r["inconclusive"]]
    return [("class networks differ over many draws", not tot or max(tot) >= 3, {"max": max(tot or [0])})]


KINDS = {"graphs": (graphs, 400, 6000), "ising": (ising, 160, 2000), "constrained": (constrained, 40, 300),
         "poisson": (poisson, 100, 1500), "gibbs": (gibbs, 80, 600), "bunch": (bunch, 60, 800),
         "classes": (classes, 120, 1500)}
