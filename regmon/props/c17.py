"""C17: Gaussian data sets are drawn from the model they report."""
import io
import warnings
from contextlib import redirect_stdout

import numpy as np
from scipy import stats

from ..core import Inconclusive

RULE = ("make_dataset with every sound Gaussian mode (evolving l1/l2 sparse parts with l1, l2, fixed "
        "or rewired latent parts, fixed sparsity, sin, sin-cos, Gaussian-process, radial, a user-defined "
        "function), p in 2..24, 0..3 latent variables, T in 1..7; returned matrices are checked "
        "against the evolution the mode documents and samples are whitened with the reported "
        "observed precisions and tested against the standard normal; keyed by (mode, updates, p, "
        "latent, T, options)")
ASSUMPTIONS = ["a generator may refuse (its own assertions) a draw that is not positive definite: "
               "refusals are counted, and must stay a minority", "a sample statistic is a violation "
               "only beyond a tail probability of 1e-9"]
CASE_LIMIT = 60
TAIL = 1e-9


def draw(rng, rec, **kw):
    from regain.datasets import make_dataset

    seed = int(rng.randint(2 ** 31 - 1))
    again = rng.rand() < 0.3
    np.random.seed(seed)
    with warnings.catch_warnings(), redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            d = make_dataset(**kw)
            if again:
                np.random.seed(seed)
                e = make_dataset(**kw)
                rec.check("equal seeds give equal data", all(np.array_equal(d[k], e[k]) for k in d))
            return d
        except AssertionError:
            rec.event("generator refused a draw")
            raise Inconclusive("generator refused a draw")


def layout(rec, d, n, p, T, last, h=0):
    rec.check("one precision, observed precision and latent part per time", d.thetas.shape == (T, p + h, p + h) and
              d.thetas_observed.shape == d.ells.shape == (T, p, p),
              got=(d.thetas.shape, d.thetas_observed.shape, d.ells.shape))
    rec.check("data have the requested shape", d.data.shape == ((n, p, T) if last else (T, n, p)),
              got=d.data.shape)
    D = d.data.transpose(2, 0, 1) if last else d.data
    rec.check("X stacks the samples in time order with their labels",
              np.array_equal(d.X, D.reshape(T * n, p)) and
              np.array_equal(d.y, np.repeat(np.arange(T), n)))
    rec.check("data are finite", np.isfinite(d.data).all())
    return D


def model(rec, d):
    for t, o, l in zip(d.thetas, d.thetas_observed, d.ells):
        rec.check("matrices are symmetric", np.allclose(t, t.T, atol=1e-10) and
                  np.allclose(o, o.T, atol=1e-10) and np.allclose(l, l.T, atol=1e-10))
        rec.close("observed precision is the sparse minus the latent part", o, t - l, atol=1e-10)
        rec.check("observed precision is positive definite", np.linalg.eigvalsh(o).min() > 0,
                  eig=np.linalg.eigvalsh(o).min())
        rec.check("latent part is positive semidefinite", np.linalg.eigvalsh(l).min() > -1e-9)
    rec.event("precision matrices inspected", len(d.thetas))


def sampled(rec, D, precisions):
    """Whitened samples must be standard normal."""
    T, n, p = D.shape
    flat = D.reshape(T * n, p)
    rec.check("no sample is repeated", np.unique(flat, axis=0).shape[0] == T * n)
    white = []
    for X, K in zip(D, precisions):
        w, V = np.linalg.eigh(K)
        if w.min() < 1e-7 * w.max():
            rec.event("times skipped: ill-conditioned precision")
            continue
        Z = X.dot(V * np.sqrt(w))
        pm = stats.chi2.sf(n * (Z.mean(0) ** 2).sum(), p)
        rec.check("samples have zero mean", pm > TAIL, tail=pm, n=n)
        q = (Z ** 2).sum()
        tail = 2 * min(stats.chi2.sf(q, n * p), stats.chi2.cdf(q, n * p))
        rec.check("samples have the reported variance", tail > TAIL, tail=tail, ratio=q / (n * p))
        qs = (Z ** 2).sum(0)
        tails = np.minimum(stats.chi2.sf(qs, n), stats.chi2.cdf(qs, n)).min() * 2 * p
        rec.check("samples have the reported variance in every direction", tails > TAIL, tail=tails)
        C = np.abs(Z.T.dot(Z) / n - np.diag(qs / n))
        rec.check("samples have the reported correlations", C.max() < 7.5 / np.sqrt(n) + 30. / n,
                  worst=C.max(), n=n)
        white.append(Z / np.sqrt(qs / n))
        lag = np.abs(Z[1:].T.dot(Z[:-1]) / n).max()
        rec.check("consecutive samples are independent", lag < 7.5 / np.sqrt(n) + 30. / n, worst=lag, n=n)
        rec.event("samples tested", n)
    for i, A in enumerate(white):
        for B in white[:i]:
            worst = np.abs(A.T.dot(B) / n).max()
            rec.check("samples of different times are independent", worst < 7.5 / np.sqrt(n) + 30. / n,
                      worst=worst, n=n)


def evolving(rng, rec):
    p = int(rng.randint(2, 25))
    h, T = int(rng.randint(0, min(p, 4))), int(rng.randint(1, 8))
    n = int(rng.choice([1, 5, 400, 1500]))
    kw = dict(n_samples=n, n_dim_obs=p, n_dim_lat=h, T=T, update_theta=str(rng.choice(["l1", "l2"])),
              update_ell=str(rng.choice(["l1", "l2", "fixed", "yuan"])),
              normalize_starting_matrices=bool(rng.rand() < 0.4), degree=int(rng.randint(1, 5)),
              epsilon=float(rng.choice([1e-3, 1e-2, 0.1, 0.5])), keep_sparsity=bool(rng.rand() < 0.3),
              proportional=bool(rng.rand() < 0.3),
              time_on_axis=str(rng.choice(["first", "first", "last"])))
    if rng.rand() < 0.3:
        # few links: variables without any neighbour
        p = int(rng.randint(2, 6))
        kw.update(n_dim_obs=p, n_dim_lat=0, degree=1, keep_sparsity=True, update_theta="l2", n_samples=1)
        h, n = 0, 1
    rec.describe(**kw)
    d = draw(rng, rec, **kw)
    D = layout(rec, d, n, p, T, kw["time_on_axis"] == "last")
    model(rec, d)
    off = ~np.eye(p, dtype=bool)
    no = int(np.ceil(p / 20)) if kw["proportional"] else 1
    start = d.thetas[0] != 0
    for a, b in zip(d.thetas, d.thetas[1:]):
        D_ = (b - a) * off
        if kw["update_theta"] == "l1":
            rec.check("an l1 step changes at most the requested number of edges",
                      np.count_nonzero(D_) <= 2 * no, changed=np.count_nonzero(D_) // 2, allowed=no)
        else:
            e = kw["epsilon"]
            small = 2 * e / p
            rec.check("an l2 step moves the edges by at most epsilon, up to zeroed small entries",
                      np.linalg.norm(D_) <= e + small * p * (1 + 1e-9), moved=np.linalg.norm(D_), eps=e)
            moved = D_[(b == 0) | (np.abs(b) >= small)]
            rec.check("no edge weaker than the cut-off is left", not ((b != 0) & (np.abs(b) < small)
                                                                      & off).any())
            if kw["keep_sparsity"]:
                rec.check("keep_sparsity adds no edge", not ((b != 0) & ~start & off).any())
        rec.event("transitions inspected")
    for a, b, l in zip(d.thetas, d.thetas[1:], d.ells[1:]):
        kept = b.copy()
        np.fill_diagonal(kept, a.diagonal())
        if min(np.linalg.eigvalsh(kept - l).min(), np.linalg.eigvalsh(kept).min()) > 1e-6 and \
                a.diagonal().min() > 4 * kw["epsilon"] / p:
            rec.check("the diagonal changes only to keep the model positive definite",
                      np.array_equal(a.diagonal(), b.diagonal()), was=a.diagonal(), now=b.diagonal())
    for a, b in zip(d.ells, d.ells[1:]):
        M, e = np.abs(b - a) > 1e-14, kw["epsilon"]
        if kw["update_ell"] in ("l1", "yuan"):
            allowed = no if kw["update_ell"] == "l1" else 1
            few = sum(1 for i in range(p) if M[i].sum() > allowed)
            rec.check("an l1 step of the latent part changes the links of few variables",
                      few <= allowed or np.linalg.matrix_rank(M.astype(float)) <= 2 * allowed,
                      variables=few, allowed=allowed)
        elif kw["update_ell"] == "l2" and h:
            step = 2 * e * (1 + np.sqrt(p)) * np.sqrt(h) + 4 * e * np.sqrt(h / p)
            rec.check("an l2 step moves the latent part by a small norm", np.linalg.norm(b - a) <=
                      step * (4 * np.sqrt(h) + step), moved=np.linalg.norm(b - a), step=step)
        rec.event("latent transitions inspected")
    if h:
        rec.check("latent parts have the requested rank", all(
            np.linalg.matrix_rank(l) == h for l in d.ells))
    else:
        rec.check("no latent variable means no latent part", not d.ells.any())
    if kw["update_ell"] == "fixed":
        rec.check("a fixed latent part stays fixed", all(np.array_equal(d.ells[0], l) for l in d.ells))
    if n >= 100:
        sampled(rec, D, d.thetas_observed)
    rec.nontrivial(kw["update_theta"], kw["update_ell"], p, h, T, kw["keep_sparsity"],
                   kw["proportional"], kw["normalize_starting_matrices"])


def modes(rng, rec):
    mode = str(rng.choice(["fixed_sparsity", "sin", "sincos", "gp", "ma"]))
    p, T = int(rng.randint(3, 12)), int(rng.randint(1, 7))
    h, n = int(rng.randint(1, 3)), int(rng.choice([3, 600]))
    kw = {}
    if mode == "sin":
        kw["shape"] = str(rng.choice(["smooth", "square"]))
        kw["closeness"] = float(rng.choice([1, 3, 10]))
        kw["normalize"] = bool(rng.rand() < 0.3)
        p = int(rng.randint(2, 12))
    if mode == "sincos":
        T = int(rng.randint(8, 14))
    if mode == "ma":
        p = int(rng.randint(20, 45))
        h = int(p * 0.05)
    rec.describe(mode=mode, p=p, T=T, latent=h, n=n, **kw)
    d = draw(rng, rec, mode=mode, n_samples=n, n_dim_obs=p, n_dim_lat=h, T=T, **kw)
    D = layout(rec, d, n, p, T, False)
    off = ~np.eye(p, dtype=bool)
    if mode == "sin":
        for t, o in zip(d.thetas, d.thetas_observed):
            rec.check("sin: no latent part, non-negative edges below one", np.array_equal(t, o) and
                      not d.ells.any() and (t[off] >= 0).all() and (t[off] <= 1).all())
            if kw["normalize"]:
                rec.close("sin: normalised precisions have a unit diagonal", t.diagonal(), np.ones(p))
            else:
                r = t.diagonal() - (t * off).sum(1)
                rec.check("sin: the diagonal dominates its row", r.min() > 1e-3, excess=r)
        model(rec, d)
        E = d.thetas[:, off]
        if kw["normalize"]:
            pass
        elif kw["shape"] == "square":
            rec.check("sin: a square wave takes one value besides zero", all(
                np.unique(np.round(e[e > 0], 9)).size <= 1 for e in E.T))
        else:
            rec.check("sin: edges follow a wave of at most half a turn per unit of time",
                      T < 2 or np.abs(np.diff(E, axis=0)).max() <= np.pi / kw["closeness"] + 1e-9)
    else:
        model(rec, d)
        rec.check("latent part is fixed", all(np.array_equal(d.ells[0], l) for l in d.ells))
        rec.check("latent part has rank of the number of latent variables",
                  np.linalg.matrix_rank(d.ells[0]) == h, rank=np.linalg.matrix_rank(d.ells[0]), want=h)
    if mode == "fixed_sparsity":
        for a, b in zip(d.thetas, d.thetas[1:]):
            rec.check("fixed sparsity: no edge appears", not ((b != 0) & (a == 0) & off).any(),
                      appeared=int(((b != 0) & (a == 0) & off).sum()))
    if mode == "ma":
        rec.check("the model is constant in time", all(np.array_equal(d.thetas[0], t) for t in d.thetas))
    if n >= 100:
        sampled(rec, D, d.thetas_observed)
    rec.event("mode " + mode)
    rec.nontrivial(mode, p, T, h, n, kw.get("shape"))


def custom(rng, rec):
    """A user-defined generator is used as is; equal seeds give equal data."""
    from regain.datasets import make_dataset

    p, T, n = int(rng.randint(2, 8)), int(rng.randint(1, 6)), int(rng.choice([2, 900]))
    Ks = []
    for _ in range(T):
        V = rng.randn(p, p + 2) / np.sqrt(p) * 10 ** rng.uniform(-1, 1)
        Ks.append(V.dot(V.T) + 0.2 * np.eye(p))
    Ls = [0.1 * np.ones((p, p)) / p for _ in range(T)]
    asked = {}

    def gen(n_dim_obs, n_dim_lat, T, **kw):
        asked.update(n_dim_obs=n_dim_obs, n_dim_lat=n_dim_lat, T=T, **kw)
        return [k + l for k, l in zip(Ks, Ls)], Ks, Ls

    seed = int(rng.randint(10 ** 6))
    last = bool(rng.rand() < 0.4)
    out = []
    for _ in range(2):
        np.random.seed(seed)
        out.append(make_dataset(mode=gen, n_samples=n, n_dim_obs=float(p), n_dim_lat=2, T=T, extra=5,
                                time_on_axis="last" if last else "first"))
    rec.describe(p=p, T=T, n=n)
    rec.check("the generator gets the requested sizes and options", asked["n_dim_obs"] == p and
              asked["n_dim_lat"] == 2 and asked["T"] == T and asked["extra"] == 5, got=asked)
    D = layout(rec, out[0], n, p, T, last)
    rec.close("the generator's matrices are reported", out[0].thetas_observed, np.array(Ks))
    rec.close("the generator's latent parts are reported", out[0].ells, np.array(Ls))
    model(rec, out[0])
    rec.check("equal seeds give equal data", all(np.array_equal(out[0][k], out[1][k])
                                                 for k in ("data", "X", "y", "thetas")))
    if n >= 100:
        sampled(rec, D, Ks)
    for bad in ({"mode": "nope"}, {"distribution": "cauchy"}, {"update_theta": "l3", "T": 2},
                {"update_ell": "l3", "T": 2}):
        try:
            make_dataset(n_samples=2, n_dim_obs=8, n_dim_lat=1, **bad)
            rec.check("an unknown mode, distribution or update is refused", False, option=bad)
        except ValueError:
            rec.check("an unknown mode, distribution or update is refused", True)
        except AssertionError:
            rec.event("generator refused a draw")
    rec.nontrivial(p, T, n, last)


def locations(rng, rec):
    """The nearest-neighbour generator of Meinshausen and Yuan."""
    from regain.datasets.gaussian import data_Meinshausen_Yuan

    p, h, T, n = int(rng.randint(4, 25)), int(rng.randint(1, 4)), int(rng.randint(1, 5)), 400
    seed = int(rng.randint(10 ** 6))
    rec.describe(p=p, latent=h, T=T, n=n, seed=seed)
    np.random.seed(int(rng.randint(2 ** 31 - 1)))
    before = np.random.get_state()[1].tolist()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out = data_Meinshausen_Yuan(p=p, h=h, n=n, T=T, random_state=seed)
            two = data_Meinshausen_Yuan(p=p, h=h, n=n, T=T, random_state=seed)
        except AssertionError:
            raise Inconclusive("generator refused a draw")
    rec.check("a random state leaves the global one alone", before == np.random.get_state()[1].tolist())
    where, thetas, observed, covs, latent, samples = out
    rec.check("equal seeds give equal data", all(np.array_equal(a, b) for i in (1, 2, 3, 5)
                                                 for a, b in zip(out[i], two[i])))
    rec.check("one of everything per time", all(len(o) == T for o in
                                                (where, thetas, observed, covs, samples)))
    L = latent.T.dot(latent)
    for t, o, c, x in zip(thetas, observed, covs, samples):
        rec.check("matrices are symmetric with unit diagonal", np.allclose(t, t.T) and
                  np.allclose(t.diagonal(), 1))
        links = (t != 0).sum(1) - 1
        rec.check("no variable has more than four neighbours", links.max() <= 4, links=links)
        rec.close("observed precision is the sparse minus the latent part", o, t - L, atol=1e-12)
        rec.check("observed precision is positive definite", np.linalg.eigvalsh(o).min() > 0)
        rec.close("covariance inverts the observed precision", c.dot(o), np.eye(p), atol=1e-6)
        rec.check("samples have the requested shape", x.shape == (n, p))
    sampled(rec, np.array(samples), observed)
    rec.nontrivial(p, h, T)


def radial(rng, rec):
    """Joint precisions of observed and latent variables that follow a radial kernel in time."""
    from regain.datasets.kernels import make_RBF

    p, h, T = int(rng.randint(2, 9)), int(rng.randint(1, 4)), int(rng.randint(1, 6))
    n = int(rng.choice([3, 500]))
    kw = dict(length_scale=float(rng.choice([0.3, 0.7, 1., 3.])), sparse=bool(rng.rand() < 0.5),
              epsilon=float(rng.choice([0.2, 0.8, 1.5])))
    rec.describe(p=p, latent=h, T=T, n=n, **kw)
    d = draw(rng, rec, mode=make_RBF, n_samples=n, n_dim_obs=p, n_dim_lat=h, T=T, **kw)
    D = layout(rec, d, n, p, T, False, h)
    for J, o, l in zip(d.thetas, d.thetas_observed, d.ells):
        rec.check("matrices are symmetric", np.allclose(J, J.T, atol=1e-12) and np.allclose(o, o.T, atol=1e-9))
        rec.check("joint precision is positive definite", np.linalg.eigvalsh(J).min() > 0)
        rec.check("observed precision is positive definite", np.linalg.eigvalsh(o).min() > 0)
        L = J[h:, :h].dot(np.linalg.solve(J[:h, :h], J[:h, h:]))
        rec.close("the latent part marginalises the latent variables", l, L, atol=1e-9 * (1 + np.abs(L).max()))
        rec.close("observed precision is the marginal one", o, J[h:, h:] - L, atol=1e-9 * (1 + np.abs(J).max()))
        rec.close("links to latent variables are fixed in time", J[h:, :h], d.thetas[0][h:, :h], atol=1e-12)
        off = J - np.diag(J.diagonal())
        rec.close("the diagonal dominates by the stated margin", J.diagonal(), np.abs(off).sum(1) + 0.01, atol=1e-9)
        if kw["sparse"]:
            a, b = np.abs(off[h:, h:]), np.concatenate([np.abs(off[:h, :h]).ravel(), np.abs(off[h:, :h]).ravel()])
            rec.check("links below the thresholds are cut", (a[a != 0] >= kw["epsilon"]).all() and
                      (b[b != 0] >= kw["epsilon"] / 3).all())
    rec.event("precision matrices inspected", T)
    t = np.arange(T)
    G = np.exp(-0.5 * (t[:, None] - t[None]) ** 2 / kw["length_scale"] ** 2)
    if not kw["sparse"] and np.linalg.cond(G) < 1e5:
        iu = np.triu_indices(p, 1)
        U = np.array([J[h:, h:][iu] for J in d.thetas])
        q = (np.linalg.solve(np.linalg.cholesky(G), U) ** 2).sum()
        tail = 2 * min(stats.chi2.sf(q, U.size), stats.chi2.cdf(q, U.size))
        rec.check("links follow the process of the kernel", tail > TAIL, tail=tail, ratio=q / U.size)
        rec.stat("process draws: " + str(U.size // 10 * 10), 1)
    if n >= 100:
        sampled(rec, D, d.thetas_observed)
    rec.nontrivial("radial", p, h, T, kw["sparse"], kw["length_scale"])


def aggregate(results):
    tot = sum(1 for r in results if r["kind"] == "evolving")
    ref = sum(1 for r in results if r["kind"] == "evolving" and r["inconclusive"])
    return [("refusals are a minority of the draws", ref <= 0.35 * tot + 3, {"refused": ref, "of": tot})]


KINDS = {"evolving": (evolving, 2000, 14000), "modes": (modes, 1000, 8000), "custom": (custom, 150, 2000),
         "radial": (radial, 200, 2000), "locations": (locations, 60, 1500)}
