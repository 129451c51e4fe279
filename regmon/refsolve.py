"""Independent optimisation oracle for the graphical-lasso family.

Every covariance solver of the library claims to minimise

  sum_t n_t (tr(S_t R_t) - logdet R_t) + sum_t alpha_t ||K_t||_{od,1}
  + sum_{s<t} W_st psi(K_t - K_s)
  [ + sum_t tau_t tr(L_t) + sum_{s<t} V_st phi(L_t - L_s),  L_t psd ],
  R_t = K_t - L_t

(or a quadratic data term instead of the likelihood).  ``evaluate`` computes
that objective at a *feasible* point from its definition.  ``improve`` looks
for a better feasible point with an ADMM written from scratch here.  The
verdict never trusts ``improve`` to be exact: whatever it returns is a point
whose objective is evaluated with ``evaluate``, so "the library's point is
worse by more than eps" is always a checkable certificate.
"""
import numpy as np


# ----------------------------------------------------------- penalties
def pen(name, D):
    if name == "laplacian":
        return float((D * D).sum())
    if name == "l1":
        return float(np.abs(D).sum())
    if name == "l2":
        return float(np.sqrt((D * D).sum(axis=0)).sum())
    if name == "linf":
        return float(np.abs(D).max(axis=0).sum())
    raise ValueError(name)


def _proj_l1_ball_cols(A, r):
    """Project every column of A on the l1 ball of radius r."""
    if r <= 0:
        return np.zeros_like(A)
    out = np.empty_like(A)
    for j in range(A.shape[1]):
        v = np.abs(A[:, j])
        if v.sum() <= r:
            out[:, j] = A[:, j]
            continue
        u = np.sort(v)[::-1]
        css = np.cumsum(u)
        ks = np.nonzero(u * np.arange(1, u.size + 1) > css - r)[0]
        k = ks[-1] if ks.size else 0
        th = (css[k] - r) / (k + 1.0)
        out[:, j] = np.sign(A[:, j]) * np.maximum(v - th, 0)
    return out


def prox(name, A, lam):
    """argmin_X lam*pen(X) + 1/2||X-A||^2 for one matrix."""
    if name == "laplacian":
        return A / (1 + 2 * lam)
    if name == "l1":
        return np.sign(A) * np.maximum(np.abs(A) - lam, 0)
    if name == "l2":
        nr = np.sqrt((A * A).sum(axis=0))
        sc = np.array([max(0.0, 1 - lam / x) if x > 0 else 0.0 for x in nr])
        return A * sc[None, :]
    if name == "linf":
        return A - _proj_l1_ball_cols(A, lam)
    raise ValueError(name)


def logdet(M):
    """log det of a positive definite matrix, -inf elsewhere (an even number of negative eigenvalues included)."""
    ev = np.linalg.eigvalsh((M + M.T) / 2)
    return float(np.log(ev).sum()) if ev[0] > 0 else -np.inf


class Problem:
    """One instance; alpha/tau scalars or (T,p,p)-broadcastable arrays."""

    def __init__(self, S, n=None, alpha=0.1, W=None, psi="laplacian", tau=None,
                 V=None, phi="laplacian", loss="gauss", quad=1.0, jitter=0.0):
        self.S = np.asarray(S, float)
        self.T, self.p = self.S.shape[0], self.S.shape[1]
        self.n = np.ones(self.T) if n is None else np.asarray(n, float)
        self.alpha = np.broadcast_to(np.asarray(alpha, float), self.S.shape)
        self.W = np.zeros((self.T, self.T)) if W is None else np.asarray(W, float)
        self.psi, self.phi = psi, phi
        self.latent = tau is not None
        self.tau = None if tau is None else np.broadcast_to(
            np.asarray(tau, float).reshape(-1), (self.T,))
        self.V = np.zeros((self.T, self.T)) if V is None else np.asarray(V, float)
        self.loss, self.quad, self.jitter = loss, quad, jitter
        off = ~np.eye(self.p, dtype=bool)
        self.aod = self.alpha * off[None]

    # ------------------------------------------------------ objective
    def evaluate(self, K, L=None, psd_tol=1e-7):
        K = np.asarray(K, float)
        R = K if L is None else K - np.asarray(L, float)
        o = 0.0
        for t in range(self.T):
            if self.loss == "gauss":
                o += self.n[t] * ((self.S[t] * R[t]).sum() - logdet((R[t] + R[t].T) / 2))
            else:
                o += self.quad * ((self.S[t] - R[t]) ** 2).sum()
        o += (self.aod * np.abs(K)).sum()
        o += 0.5 * self.jitter * (K * K).sum()
        for s in range(self.T):
            for t in range(s + 1, self.T):
                if self.W[s, t]:
                    o += self.W[s, t] * pen(self.psi, K[t] - K[s])
                if L is not None and self.V[s, t]:
                    o += self.V[s, t] * pen(self.phi, L[t] - L[s])
        if L is not None:
            for t in range(self.T):
                ev = np.linalg.eigvalsh((L[t] + L[t].T) / 2)
                if ev[0] < -psd_tol * max(1.0, abs(ev[-1])):
                    return np.inf
                o += self.tau[t] * np.abs(ev).sum()
        return float(o)

    # ------------------------------------------------------ improver
    def _prox_loss(self, A, t, rho):
        """argmin_R loss_t(R) + rho/2 ||R - A||^2"""
        if self.loss == "quad":
            return (2 * self.quad * self.S[t] + rho * A) / (2 * self.quad + rho)
        M = rho * A - self.n[t] * self.S[t]
        w, Q = np.linalg.eigh((M + M.T) / 2)
        x = (w + np.sqrt(w * w + 4 * rho * self.n[t])) / (2 * rho)
        return (Q * x) @ Q.T

    def improve(self, K0=None, L0=None, iters=2000, tol=1e-9, rho=None):
        """Two-block consensus ADMM.

        Block A: (K_t, L_t) consensus variables, solved exactly (quadratic).
        Block B: R_t (loss), Zs (l1), Ds (pairs), Ws (psd), Es (pairs).
        """
        T, p = self.T, self.p
        S = self.S
        lat = self.latent
        if rho is None:
            rho = float(np.median(self.n))
            if self.loss == "quad":
                rho = 2 * self.quad
        if K0 is None:
            K0 = np.array([np.diag(1.0 / np.maximum(np.diag(s), 1e-3)) for s in S])
        K = np.array(K0, float)
        L = np.zeros_like(K) if (L0 is None) else np.array(L0, float)
        pk = [(s, t) for s in range(T) for t in range(s + 1, T) if self.W[s, t] > 0]
        pl = [(s, t) for s in range(T) for t in range(s + 1, T)
              if lat and self.V[s, t] > 0]
        R = K - L
        Z = K.copy()
        Wl = L.copy()
        D = {e: (K[e[1]] - K[e[0]]) for e in pk}
        E = {e: (L[e[1]] - L[e[0]]) for e in pl}
        uR = np.zeros_like(K); uZ = np.zeros_like(K); uW = np.zeros_like(K)
        uD = {e: np.zeros((p, p)) for e in pk}
        uE = {e: np.zeros((p, p)) for e in pl}
        # normal matrix of block A (acts entrywise over the time/latent index)
        m = 2 * T if lat else T
        N = np.zeros((m, m))
        for t in range(T):
            N[t, t] += 2            # Z and R
            if lat:
                N[T + t, T + t] += 2
                N[t, T + t] -= 1
                N[T + t, t] -= 1
        if not lat:
            pass
        for (s, t) in pk:
            N[s, s] += 1; N[t, t] += 1; N[s, t] -= 1; N[t, s] -= 1
        for (s, t) in pl:
            N[T + s, T + s] += 1; N[T + t, T + t] += 1
            N[T + s, T + t] -= 1; N[T + t, T + s] -= 1
        Ninv = np.linalg.inv(N)
        best, bK, bL = np.inf, None, None
        for it in range(iters):
            rhs = np.zeros((m, p, p))
            rhs[:T] = (R - uR) + (Z - uZ)
            if lat:
                rhs[T:] = -(R - uR) + (Wl - uW)
            for e in pk:
                d = D[e] - uD[e]
                rhs[e[1]] += d
                rhs[e[0]] -= d
            for e in pl:
                d = E[e] - uE[e]
                rhs[T + e[1]] += d
                rhs[T + e[0]] -= d
            sol = np.tensordot(Ninv, rhs, axes=1)
            K = sol[:T]
            K = (K + K.transpose(0, 2, 1)) / 2
            if lat:
                L = sol[T:]
                L = (L + L.transpose(0, 2, 1)) / 2
            old = (R, Z, Wl)
            R = np.array([self._prox_loss(K[t] - L[t] + uR[t], t, rho) for t in range(T)])
            A = K + uZ
            Z = np.sign(A) * np.maximum(np.abs(A) - self.aod / rho, 0)
            if self.jitter:
                # l1 + ridge prox
                Z = Z / (1 + self.jitter / rho)
            if lat:
                for t in range(T):
                    w, Q = np.linalg.eigh(L[t] + uW[t])
                    Wl[t] = (Q * np.maximum(w - self.tau[t] / rho, 0)) @ Q.T
                Wl = Wl.copy()
            for e in pk:
                B = K[e[1]] - K[e[0]] + uD[e]
                D[e] = prox(self.psi, B, self.W[e] / rho)
                uD[e] = B - D[e]
            for e in pl:
                B = L[e[1]] - L[e[0]] + uE[e]
                E[e] = prox(self.phi, B, self.V[e] / rho)
                uE[e] = B - E[e]
            uR = uR + K - L - R
            uZ = uZ + K - Z
            if lat:
                uW = uW + L - Wl
            if it % 50 == 49 or it == iters - 1:
                Zs = (Z + Z.transpose(0, 2, 1)) / 2
                o = self.evaluate(Zs, Wl if lat else None)
                if o < best:
                    best, bK, bL = o, Zs.copy(), (Wl.copy() if lat else None)
                r = np.sqrt(((K - L - R) ** 2).sum() + ((K - Z) ** 2).sum()
                            + (((L - Wl) ** 2).sum() if lat else 0)
                            + sum(((K[e[1]] - K[e[0]] - D[e]) ** 2).sum() for e in pk)
                            + sum(((L[e[1]] - L[e[0]] - E[e]) ** 2).sum() for e in pl))
                s = rho * np.sqrt(((R - old[0]) ** 2).sum() + ((Z - old[1]) ** 2).sum())
                sc = 1 + np.sqrt((K ** 2).sum())
                if r < tol * sc and s < tol * sc * max(1, rho):
                    break
                f = 1.0
                if it < 0.7 * iters:
                    if r * max(1, rho) > 10 * s:
                        f = 2.0
                    elif s > 10 * r * max(1, rho):
                        f = 0.5
                if f != 1.0:
                    rho *= f
                    uR, uZ, uW = uR / f, uZ / f, uW / f
                    for e in pk:
                        uD[e] = uD[e] / f
                    for e in pl:
                        uE[e] = uE[e] / f
        return best, bK, bL


def chain(T, b):
    W = np.zeros((T, T))
    for t in range(T - 1):
        W[t, t + 1] = W[t + 1, t] = b if np.isscalar(b) else b[t]
    return W
