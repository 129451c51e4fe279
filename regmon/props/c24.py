"""C24: Wishart family, conjugate updates and Markov chain moves follow their densities."""
import numpy as np
from scipy import stats as st
from scipy.special import gammaln, multigammaln

from ..core import quiet, size

RULE = ("random scale matrices (1..5 variables), degrees of freedom and means; densities against formulas "
        "written here, conjugacy through random (mean, covariance) points, evidence through sequential "
        "predictions, sample moments and four-step invariance of every Markov chain move started from its "
        "exact target (Kolmogorov-Smirnov, tail below 1e-9); Laplace derivatives by finite differences; "
        "keyed by (law, size, degrees of freedom, samples)")
ASSUMPTIONS = ["a sample statistic is a violation only beyond a tail probability of 1e-9",
               "the chain moves are judged on targets of one dimension, where the exact law can be tabulated"]
CASE_LIMIT = 120


def spd(rng, p, lo=-0.7, hi=0.7):
    Q = np.linalg.qr(rng.randn(p, p))[0]
    M = (Q * 10 ** rng.uniform(lo, hi, size=p)).dot(Q.T)
    return (M + M.T) / 2


def ld(M):
    return np.linalg.slogdet(M)[1]


def mvn(x, m, C):
    d = np.atleast_2d(x) - m
    p = C.shape[0]
    return float((-0.5 * np.einsum("ij,jk,ik->i", d, np.linalg.inv(C), d) - 0.5 * ld(C)
                  - 0.5 * p * np.log(2 * np.pi)).sum())


def mvt(x, df, m, S):
    p = len(m)
    q = (x - m).dot(np.linalg.inv(S)).dot(x - m)
    return gammaln((df + p) / 2) - gammaln(df / 2) - 0.5 * p * np.log(df * np.pi) - 0.5 * ld(S) \
        - 0.5 * (df + p) * np.log1p(q / df)


def wishart_ll(X, nu, S):
    p = len(S)
    return 0.5 * ((nu - p - 1) * ld(X) - np.trace(np.linalg.solve(S, X)) - nu * p * np.log(2) - nu * ld(S)) \
        - multigammaln(nu / 2, p)


def iw_ll(X, nu, S):
    p = len(S)
    return 0.5 * (nu * ld(S) - (nu + p + 1) * ld(X) - np.trace(S.dot(np.linalg.inv(X))) - nu * p * np.log(2)) \
        - multigammaln(nu / 2, p)


def densities(rng, rec):
    from regain.bayesian.wishart_distribution_ import (
        InverseWishartDistribution, NormalInverseWishartDistribution, WishartDistribution)

    p = size(rng, 1, 6, 10)
    nu = float(p + rng.choice([0.5, 1.5, 3, 10, 40])) + float(rng.randint(2))
    wide = rng.rand() < 0.3
    S, X = spd(rng, p, *((-4, 1) if wide else ())), spd(rng, p, *((-4, 1) if wide else ()))
    S0, X0 = S.copy(), X.copy()
    rec.describe(p=p, nu=nu)
    W, I = WishartDistribution(nu, S), InverseWishartDistribution(nu, S)
    rec.close("Wishart log-density", W.log_likelihood(X), wishart_ll(X, nu, S), rtol=1e-8, atol=1e-8)
    rec.close("Wishart density", np.log(W.likelihood(X)) if W.likelihood(X) > 1e-250 else W.log_likelihood(X),
              wishart_ll(X, nu, S), rtol=1e-8, atol=1e-8)
    rec.close("inverse Wishart log-density", I.log_likelihood(X), iw_ll(X, nu, S), rtol=1e-8, atol=1e-8)
    rec.close("Wishart mean", W.mean, nu * S, rtol=1e-12)
    if nu > p + 1:
        rec.close("inverse Wishart mean", I.mean, S / (nu - p - 1), rtol=1e-12)
    if nu > p + 1:
        top = W.log_likelihood(W.mode)
        for _ in range(6):
            E = spd(rng, p, -0.1, 0.1)
            C = np.linalg.cholesky(W.mode)
            rec.check("the Wishart mode maximises the density",
                      wishart_ll(C.dot(E).dot(C.T), nu, S) <= top + 1e-8 * (1 + abs(top)))
    else:
        rec.check("no Wishart mode below p + 1 degrees", np.all(np.isnan(W.mode)))
    top = iw_ll(I.mode, nu, S)
    C = np.linalg.cholesky(I.mode)
    for _ in range(6):
        E = spd(rng, p, -0.1, 0.1)
        rec.check("the inverse Wishart mode maximises the density",
                  iw_ll(C.dot(E).dot(C.T), nu, S) <= top + 1e-8 * (1 + abs(top)))
    mu, m, kappa = rng.randn(p), rng.randn(p), float(10 ** rng.uniform(-1, 1))
    N = NormalInverseWishartDistribution(m, kappa, nu, S)
    rec.close("normal inverse Wishart log-density", N.log_likelihood(mu, X),
              iw_ll(X, nu, S) + mvn(mu, m, X / kappa), rtol=1e-8, atol=1e-8)
    mm, mS = N.mode
    top = iw_ll(mS, nu, S) + mvn(mm, m, mS / kappa)
    C = np.linalg.cholesky(mS)
    for _ in range(6):
        Y = C.dot(spd(rng, p, -0.1, 0.1)).dot(C.T)
        rec.check("the joint mode maximises the density", iw_ll(Y, nu, S) +
                  mvn(mm + 0.1 * rng.randn(p), m, Y / kappa) <= top + 1e-8 * (1 + abs(top)))
    rec.check("arguments untouched", np.array_equal(S, S0) and np.array_equal(X, X0))
    rec.nontrivial(p, nu)


def conjugate(rng, rec):
    from regain.bayesian.wishart_distribution_ import NormalInverseWishartDistribution

    p, n = size(rng, 1, 5, 8), size(rng, 1, 20, 120)
    nu, kappa = p + float(rng.uniform(0.2, 8)), float(10 ** rng.uniform(-1, 1))
    m, S = rng.randn(p) * 2, spd(rng, p)
    X = rng.randn(n, p).dot(np.linalg.cholesky(spd(rng, p))) + rng.randn(p)
    X0 = X.copy()
    rec.describe(p=p, n=n, nu=nu, kappa=kappa)
    prior = NormalInverseWishartDistribution(m, kappa, nu, S)
    post = prior.posterior(X)
    rec.check("data untouched", np.array_equal(X, X0))
    consts = []
    for _ in range(4):
        mu, C = X.mean(0) + 0.5 * rng.randn(p), spd(rng, p, -0.3, 0.5)
        consts.append(prior.log_likelihood(mu, C) + mvn(X, mu, C) - post.log_likelihood(mu, C))
    sc = 1 + np.abs(consts).max()
    rec.close("posterior is prior times likelihood, up to the evidence", np.array(consts) / sc,
              np.full(4, consts[0]) / sc, rtol=1e-6, atol=1e-7)
    ev, cur = 0.0, prior
    for i in range(n):
        pr = cur.predictive()
        v = float(np.ravel(pr.logpdf(X[i]))[0])
        df = cur.nu - p + 1
        rec.close("the predictive law is the documented Student t", v,
                  mvt(X[i], df, np.ravel(cur.mu), (cur.kappa + 1) / (cur.kappa * df) * cur.S), rtol=1e-6,
                  atol=1e-7)
        ev += v
        cur = cur.posterior(X[i:i + 1])
    rec.close("sequential predictions multiply to the evidence", ev / sc, consts[0] / sc, rtol=1e-6, atol=1e-7)
    rec.close("one sample at a time gives the posterior of all", cur.S, post.S, rtol=1e-7, atol=1e-8)
    rec.close("posterior mean, at once and sequentially", np.ravel(cur.mu), np.ravel(post.mu), rtol=1e-7, atol=1e-9)
    tm, tS = post.marginals
    mu = rng.randn(p)
    df = post.nu - p + 1
    rec.close("the marginal of the mean is a Student t", float(np.ravel(tm.logpdf(mu))[0]),
              mvt(mu, df, np.ravel(post.mu), post.S / (post.kappa * df)), rtol=1e-6, atol=1e-7)
    C = spd(rng, p)
    rec.close("the marginal of the covariance is inverse Wishart", tS.log_likelihood(C), iw_ll(C, post.nu, post.S),
              rtol=1e-7, atol=1e-8)
    rec.event("observations absorbed", n)
    rec.nontrivial("conjugate", p, n)


def ks(rec, name, u):
    """u should be uniform: violation only at an astronomically small p-value."""
    v = st.kstest(np.clip(u, 0, 1), "uniform").pvalue
    rec.stat("-log10 p: " + name, -np.log10(max(v, 1e-300)))
    rec.check(name, v > 1e-9, p_value=v, n=len(u))


def samples(rng, rec):
    from regain.bayesian.gaussian_process_ import sample as gp
    from regain.bayesian.wishart_distribution_ import (
        InverseWishartDistribution, NormalInverseWishartDistribution, WishartDistribution)

    p, N = int(rng.randint(2, 5)), 400
    nu = float(p + rng.randint(1, 12))
    S, a = spd(rng, p), rng.randn(p)
    np.random.seed(rng.randint(2 ** 31))
    rec.describe(p=p, nu=nu, N=N)
    X = np.asarray(WishartDistribution(nu, S).sample(N)).reshape(N, p, p)
    # a' W a / a' S a ~ chi2(nu);  a' S^-1 a / a' IW^-1 a ... ~ chi2(nu) for the inverse law
    q = np.einsum("i,nij,j->n", a, X, a) / a.dot(S).dot(a)
    ks(rec, "Wishart samples have the Wishart law", st.chi2.cdf(q, nu))
    Y = np.asarray(InverseWishartDistribution(nu, S).sample(N)).reshape(N, p, p)
    q = np.array([a.dot(np.linalg.solve(y, a)) for y in Y]) / a.dot(np.linalg.solve(S, a))
    ks(rec, "inverse Wishart samples have the inverse Wishart law", st.chi2.cdf(q, nu))
    if p > 1:
        # the determinant is a product of independent chi squares: compare means of log det
        z = np.array([ld(x) for x in X]) - ld(S) - p * np.log(2)
        from scipy.special import digamma, polygamma
        mean = sum(digamma((nu - i) / 2) for i in range(p))
        var = sum(polygamma(1, (nu - i) / 2) for i in range(p))
        rec.check("log-determinant of Wishart samples", abs(z.mean() - mean) < 6.5 * np.sqrt(var / N) + 1e-12,
                  got=z.mean(), want=mean)
    m, kappa = rng.randn(p), float(10 ** rng.uniform(-1.5, 2))
    D = NormalInverseWishartDistribution(m, kappa, nu, S)
    Z = D.sample(N)
    w = np.array([np.sqrt(kappa) * a.dot(mu - m) / np.sqrt(a.dot(C).dot(a)) for mu, C in Z])
    ks(rec, "the mean of a normal inverse Wishart pair is normal given the covariance", st.norm.cdf(w))
    q = np.array([a.dot(np.linalg.solve(C, a)) for _, C in Z]) / a.dot(np.linalg.solve(S, a))
    ks(rec, "the covariance of a pair has the inverse Wishart law", st.chi2.cdf(q, nu))
    w = []
    for _ in range(250):
        mu, C = D.sample(1)
        C = np.asarray(C).reshape(p, p)
        w.append(np.sqrt(kappa) * a.dot(mu - m) / np.sqrt(a.dot(C).dot(a)))
    ks(rec, "pairs drawn one at a time have the same law", st.norm.cdf(w))
    one = D.sample(1)
    rec.check("a single pair is returned as a pair", len(one) == 2 and np.shape(one[0]) == (p,) and
              np.size(one[1]) == p * p)
    T, r = int(rng.randint(2, 5)), int(rng.randint(1, 4))
    K = spd(rng, T)
    u = gp(K, nu=r, p=200)
    rec.check("Gaussian process samples have the documented shape", u.shape == (r, 200, T))
    b = rng.randn(T)
    ks(rec, "Gaussian process samples have the given kernel",
       st.norm.cdf(u.reshape(-1, T).dot(b) / np.sqrt(b.dot(K).dot(b))))
    v = u[0, :, :].dot(np.linalg.inv(np.linalg.cholesky(K)).T)
    rec.check("replicates are independent", abs((v[:100, 0] * v[100:, 0]).mean()) < 7 / np.sqrt(100))
    rec.event("samples drawn", 3 * N + r * 200)
    rec.nontrivial("samples", p, nu, T)


def small(rng, rec):
    from regain.bayesian import stats as B
    from regain.bayesian._laplace_approximation import (
        first_derivative_h, first_derivative_h_version2, h, second_derivative_h_version2)
    from regain.bayesian.sampling import GWP_construct

    mu, s = float(rng.randn()), float(10 ** rng.uniform(-0.7, 0.3))
    x = np.exp(mu + s * rng.randn(5))
    rec.close("lognormal density", B.lognormal_pdf(x, mu, s), st.lognorm.pdf(x, s=s, scale=np.exp(mu)), rtol=1e-9)
    rec.close("lognormal log-density", B.lognormal_logpdf(x, mu, s),
              st.norm.logpdf(np.log(x), mu, s) - np.log(x), rtol=1e-8, atol=1e-9)
    m, v = float(10 ** rng.uniform(-1, 2)), float(10 ** rng.uniform(-2, 2))
    a, b = B.lognstat(m, v)
    rec.close("lognormal parameters give the mean", np.exp(a + b * b / 2), m, rtol=1e-8)
    rec.close("lognormal parameters give the variance", np.expm1(b * b) * np.exp(2 * a + b * b), v, rtol=1e-7)
    p, T, n = size(rng, 1, 5, 8), size(rng, 1, 5, 10), size(rng, 1, 7, 40)
    A, D = rng.randn(p, p), rng.randn(p, p)
    v = float(10 ** rng.uniform(-5, 2))
    rec.close("entrywise Gaussian likelihood", B.log_lik_frob(A, D, v), st.norm.logpdf(A, D, np.sqrt(v)).sum(),
              rtol=1e-8, atol=1e-8)
    C = np.array([spd(rng, p) for _ in range(T)])
    X = [rng.randn(int(rng.randint(1, 7)), p) for _ in range(T)]
    if p > 1:
        want = sum(mvn(X[t], np.zeros(p), C[t]) for t in range(T))
        rec.close("likelihood over time sums the samples of every time", B.t_mvn_logpdf(X, C.T), want,
                  rtol=1e-8, atol=1e-8)
    u, L = rng.randn(n, p, T), np.tril(rng.randn(p, p))
    V = GWP_construct(u, L)
    want = np.zeros((p, p, T))
    for t in range(T):
        for i in range(n):
            want[:, :, t] += np.outer(L.dot(u[i, :, t]), L.dot(u[i, :, t]))
    rec.close("Wishart process covariances are sums of outer products", V, want, rtol=1e-9, atol=1e-10)
    q = int(rng.randint(2, 5))
    K, D, delta = spd(rng, q), spd(rng, q), float(rng.uniform(2.5, 9))
    rec.close("G-Wishart exponent", h(D, K, delta), -0.5 * np.trace(K.dot(D)) + 0.5 * (delta - 2) * ld(K),
              rtol=1e-8, atol=1e-8)
    G1, G2 = first_derivative_h(D, K, delta), first_derivative_h_version2(D, K, delta)
    E = rng.randn(q, q)
    E = (E + E.T) / 2
    e = 1e-5
    num = (h(D, K + e * E, delta) - h(D, K - e * E, delta)) / (2 * e)
    rec.close("its derivative", (G1 * E).sum(), num, rtol=1e-4, atol=1e-5)
    i, j = rng.randint(q, size=2)
    F = np.zeros((q, q))
    F[i, j] = F[j, i] = 1
    num = (h(D, K + e * F, delta) - h(D, K - e * F, delta)) / (2 * e)
    rec.close("its derivative along an edge", G2[i, j], num, rtol=1e-4, atol=1e-5)
    # second derivatives along the edges of the pattern of K (each edge, and each diagonal entry, moved from
    # both sides, as in the scores of graphs); the edges may come in any order
    mask = np.triu(rng.rand(q, q) < rng.choice([0.2, 0.6, 1]), 1)
    Kg = np.where(mask | mask.T | np.eye(q, dtype=bool), K, 0)
    Kg += np.eye(q) * max(0, 0.3 - np.linalg.eigvalsh(Kg)[0])
    W, dirs = np.linalg.inv(Kg), []
    for i in range(q):
        for j in range(i, q):
            if Kg[i, j] != 0:
                M = np.zeros((q, q))
                M[i, j] += 1
                M[j, i] += 1
                dirs.append(W.dot(M))
    want = -(delta - 2) / 2.0 * np.array([[np.trace(a.dot(b)) for b in dirs] for a in dirs])
    H = second_derivative_h_version2(D, Kg, delta)
    big = 1e-8 * (1 + np.abs(want).max())
    rec.check("one second derivative per pair of edges", H.shape == want.shape, got=H.shape, want=want.shape)
    if H.shape == want.shape:
        rec.close("second derivatives are symmetric", H, H.T, rtol=1e-9, atol=big)
        rec.close("second derivatives, edge by edge", np.sort(np.diag(H)), np.sort(np.diag(want)), rtol=1e-8, atol=big)
        rec.close("second derivatives, as a form", np.linalg.eigvalsh(H), np.linalg.eigvalsh(want), rtol=1e-7,
                  atol=10 * big)
    rec.nontrivial("small", p, T, n, q)


class State(dict):
    __getattr__ = dict.__getitem__


def table(logf, grid):
    """Inverse-cdf sampler and cdf of an unnormalised log-density tabulated on a fine grid."""
    v = np.array([logf(g) for g in grid])
    w = np.exp(v - v.max())
    c = np.concatenate([[0], np.cumsum(0.5 * (w[1:] + w[:-1]) * np.diff(grid))])
    c /= c[-1]
    return (lambda u: np.interp(u, c, grid)), (lambda x: np.interp(x, grid, c))


def chains(rng, rec):
    from regain.bayesian import sampling as B

    which = str(rng.choice(["slice", "slices", "width", "factor", "factors"]))
    N = 700
    np.random.seed(rng.randint(2 ** 31))
    moved = 0
    out, first = np.empty(N), np.empty(N)
    if which == "slice":
        c, l = float(10 ** rng.uniform(-0.5, 1.2)), float(10 ** rng.uniform(-0.3, 0.3))
        ang = float(rng.choice([0, 0, 2.0]))

        def like(V):
            return -0.5 * c * float(np.ravel(V)[0])
        sd = 1 / np.sqrt(1 + c * l * l)      # prior N(0,1), V = (l u)^2
        cdf = lambda x: st.norm.cdf(x / sd)
        for k in range(N):
            u = sd * rng.randn(1, 1, 1)
            first[k] = u[0, 0, 0]
            L = np.array([[l]])
            s = State(xx=u, V=B.GWP_construct(u, L), L=L, log_likelihood=None if k % 2 else
                      like(B.GWP_construct(u, L)))
            for _ in range(4):
                s = B.elliptical_slice(s, rng.randn(1, 1, 1), likelihood=like, angle_range=ang, max_iter=200)
            out[k] = s["xx"][0, 0, 0]
            if out[k] != first[k]:
                rec.check("the state carries the likelihood and covariance of its point",
                          np.allclose(s["V"], B.GWP_construct(s["xx"], L)) and
                          np.isclose(s["log_likelihood"], like(s["V"])))
        rec.describe(move=which, precision=c, scale=l, angle=ang)
    elif which == "slices":
        # several coordinates, dependent a priori; the prior as a sample or as the factor of its covariance
        v, p, T = int(rng.randint(1, 3)), int(rng.randint(1, 3)), int(rng.randint(1, 3))
        D = v * p * T
        c, l = float(10 ** rng.uniform(-0.5, 1.2)), np.tril(rng.uniform(0.3, 1.3, size=(p, p)))
        Sig = np.cov(rng.randn(D, 3 * D + 2)).reshape(D, D)
        R = np.linalg.cholesky(Sig).T
        factor = D > 1 and rng.rand() < 0.7
        ang = float(rng.choice([0, 0, 1.0, 6.0]))

        def like(V):
            return -0.5 * c * float(np.einsum("iit->", np.asarray(V).reshape(p, p, T)))
        # trace of L (sum_v u u') L' for every time: quadratic in the values
        Q = np.linalg.inv(Sig) + c * np.kron(np.eye(v), np.kron(l.T.dot(l), np.eye(T)))
        C = np.linalg.cholesky(np.linalg.inv(Q))
        Z = np.empty((N, D))
        for k in range(N):
            u = C.dot(rng.randn(D)).reshape(v, p, T)
            first[k] = u.flat[0]
            s = State(xx=u, V=B.GWP_construct(u, l), L=l, log_likelihood=None)
            for _ in range(4):
                nu = R if factor else R.T.dot(rng.randn(D)).reshape(v, p, T)
                s = B.elliptical_slice(s, nu, likelihood=like, angle_range=ang, max_iter=200)
            out[k] = s["xx"].flat[0]
            Z[k] = np.linalg.solve(C, s["xx"].ravel())
        rec.check("the state carries the likelihood and covariance of its point",
                  np.allclose(s["V"], B.GWP_construct(s["xx"], l)) and np.isclose(s["log_likelihood"], like(s["V"])))
        cdf = lambda x: st.norm.cdf(x / np.sqrt((C[0] ** 2).sum()))
        for j in range(D):
            ks(rec, "slices: coordinate %d keeps its law" % j, st.norm.cdf(Z[:, j]))
        ks(rec, "slices: the spread is kept", st.chi2.cdf((Z ** 2).sum(1), D))
        if D > 1:
            ks(rec, "slices: the dependence is kept", st.norm.cdf(Z.sum(1) / np.sqrt(D)))
        rec.describe(move=which, v=v, p=p, T=T, precision=c, factor=factor, angle=ang)
    elif which == "width":
        t = np.sort(rng.rand(4)) * 3
        kern = lambda inverse_width: np.exp(-0.5 * inverse_width * (t[:, None] - t[None]) ** 2) + 0.05 * np.eye(4)
        us = rng.randn(3, 4)
        prior = st.lognorm(s=0.8, scale=1.5)
        var = float(10 ** rng.uniform(-1, 0.5))

        def target(g):
            K = kern(g)
            d = us - us.mean(0)
            return float(-0.5 * np.einsum("ij,jk,ik->", d, np.linalg.inv(K), d) - 1.5 * ld(K)) + prior.logpdf(g)
        inv, cdf = table(target, np.exp(np.linspace(np.log(1e-3), np.log(300), 4000)))
        N = 350
        out, first = out[:N], first[:N]
        for k in range(N):
            first[k] = inv(rng.rand())
            out[k], acc = B.sample_hyper_kernel(first[k], var, us, kern, prior)
            rec.check("a rejected move keeps the state", bool(acc) == (out[k] != first[k]))
            for _ in range(3):
                out[k], acc = B.sample_hyper_kernel(out[k], var, us, kern, prior)
        rec.describe(move=which, variance=var)
    elif which == "factors":
        # two variables: three entries of L with a Gaussian target, two of them dependent
        v, c = int(rng.randint(2, 5)), float(10 ** rng.uniform(-0.5, 1))
        um = rng.randn(v, 2, 1) + 2.5 * rng.randn(v, 1, 1)
        Q = np.einsum("vi,vj->ij", um[:, :, 0], um[:, :, 0])
        sd = float(10 ** rng.uniform(-0.3, 0.3))
        prior = st.norm(loc=0, scale=sd)
        P = np.eye(3) / sd ** 2
        P[0, 0] += c * Q[0, 0]
        P[1:, 1:] += c * Q                   # lower triangle by rows: l11, l21, l22
        C = np.linalg.cholesky(np.linalg.inv(P))
        var = float(rng.uniform(1, 6) / P[1, 1])
        like = lambda V: -0.5 * c * float(np.trace(np.asarray(V).reshape(2, 2)))
        vs = var if rng.rand() < 0.5 else var * np.ones(3)
        Z = np.empty((N, 3))
        for k in range(N):
            x = C.dot(rng.randn(3))
            first[k] = x[1]
            for _ in range(8):
                x = B.sample_ell(x.copy(), vs, um, prior, likelihood=like)
            out[k] = x[1]
            Z[k] = np.linalg.solve(C, x)
        cdf = lambda x: st.norm.cdf(x / np.sqrt(np.linalg.inv(P)[1, 1]))
        for j in range(3):
            ks(rec, "factors: coordinate %d keeps its law" % j, st.norm.cdf(Z[:, j]))
        ks(rec, "factors: the dependence is kept", st.norm.cdf((Z[:, 1] + Z[:, 2]) / np.sqrt(2)))
        ks(rec, "factors: the spread is kept", st.chi2.cdf((Z ** 2).sum(1), 3))
        rec.describe(move=which, variance=var, precision=c)
    else:
        v = int(rng.randint(1, 4))
        um = rng.randn(v, 1, 1)
        prior = st.norm(loc=float(rng.randn()), scale=float(10 ** rng.uniform(-0.3, 0.3)))
        c = float(10 ** rng.uniform(-0.5, 0.5))
        var = float(10 ** rng.uniform(-1, 0.7))
        like = lambda V: -0.5 * c * float(np.ravel(V)[0])
        q = float((um ** 2).sum())
        inv, cdf = table(lambda g: -0.5 * c * g * g * q + prior.logpdf(g), np.linspace(-14, 14, 6000))
        for k in range(N):
            first[k] = inv(rng.rand())
            new = np.array([first[k]])
            for _ in range(4):
                new = B.sample_ell(new, var, um, prior, likelihood=like)
            out[k] = new[0]
        rec.describe(move=which, variance=var)
    moved = (out != first).mean()
    rec.check(which + ": the move moves", moved > 0.02, moved=moved)
    ks(rec, which + ": the move leaves its target invariant", cdf(out))
    rec.event("chain moves observed", 4 * len(out))
    rec.nontrivial("chain", which, round(moved, 1), rng.randint(1000))


def aggregate(results):
    """Small distortions add up over cases: Fisher's combination of the p-values of every statistic."""
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if k.startswith("-log10 p: "):
                tot.setdefault(k[10:], []).append(v)
    return [("over all cases: " + k, st.chi2.sf(2 * np.log(10) * sum(v), 2 * len(v)) > 1e-9,
             {"cases": len(v), "combined p": float(st.chi2.sf(2 * np.log(10) * sum(v), 2 * len(v)))})
            for k, v in sorted(tot.items())]


KINDS = {"densities": (densities, 200, 3000), "conjugate": (conjugate, 150, 2000), "samples": (samples, 60, 600),
         "small": (small, 200, 3000), "chains": (chains, 110, 900)}
