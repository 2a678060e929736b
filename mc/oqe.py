"""Reference optimal quadratic estimator, written from the documented formulas (memo 44, docstrings) with plain traces.

Nothing here uses hera_pspec's estimator code; only the third-party taper and DAYENU kernels are shared.
"""

import numpy as np
import uvtools.dspec as dspec


def window(taper, n):
    return np.ones(n) if taper == "none" else dspec.gen_window(taper, n)


def modes(nd, nf, lead=0):
    """m[a, i]: Fourier mode a evaluated at channel i (channel `lead` is the first of the window)."""
    start = -(nd // 2)
    return np.exp(-2j * np.pi * np.outer(start + np.arange(nd), np.arange(nf) - lead) / nd)


def Q(nd, nf, lead=0):
    m = modes(nd, nf, lead)
    return np.conj(m)[:, :, None] * m[:, None, :]


def wcov(d1, w1, d2, w2, c1, c2):
    """Time-averaged covariance <d1 d2> - <d1><d2>, conjugating each factor on request."""
    n1, n2 = w1.sum(1), w2.sum(1)
    m1 = (w1 * d1).sum(1) / np.where(n1 > 0, n1, 1)
    m2 = (w2 * d2).sum(1) / np.where(n2 > 0, n2, 1)
    a, b = w1 * d1, w2 * d2
    if c1:
        a, m1 = a.conj(), m1.conj()
    if c2:
        b, m2 = b.conj(), m2.conj()
    W = w1 @ w2.T
    return a @ b.T / np.where(W > 0, W, 1) - np.outer(m1, m2)


class Estimator:
    """One pair of data vectors, one window."""

    def __init__(self, x1, x2, w1, w2, nf, nd, weight="identity", taper="none", sym=True, ext=(0, 0), freqs=None, rp=None, qnorm=None):
        self.x1, self.x2, self.w1, self.w2 = x1, x2, w1, w2
        self.nf, self.nd, self.ext, self.taper, self.weight = nf, nd, ext, taper, weight
        self.n = nf + sum(ext)
        self.rp, self.freqs = rp, freqs
        self.R1 = self.R(x1, w1, sym)
        self.R2 = self.R(x2, w2, sym)
        one = np.ones((nf, nf))
        self.qn = one if qnorm is None else qnorm
        self.Q1 = Q(nd, nf) * self.qn
        self.E = 0.5 * np.array([self.R1.conj().T @ q @ self.R2 for q in self.Q1])

    def R(self, x, w, sym):
        Y = np.diag(w.max(1))
        if self.weight == "identity":
            K = Y
        elif self.weight == "iC":
            C = wcov(x, w, x, w, False, True)
            K = Y @ (np.linalg.pinv(C) if np.linalg.cond(C) >= 1e9 else np.linalg.inv(C)) @ Y
        else:
            K = np.linalg.pinv(Y @ dspec.dayenu_mat_inv(x=self.freqs, **self.rp) @ Y)
        T = window(self.taper, self.nf)
        if sym:
            s = np.sqrt(np.where(T > 0, T, 0.0))
            return s[:, None] * K * s[None, :]
        T = np.where(T > 0, T, 0.0)
        return T[:, None] * K[self.ext[0] : self.ext[0] + self.nf]

    def q(self):
        return np.array([np.einsum("it,ij,jt->t", self.x1.conj(), E, self.x2) for E in self.E])

    def response(self, damp):
        """1/2 tr[R1^dag Q_a R2 Q_b] with Q_b on the extended band, optionally damped."""
        Q2 = Q(self.nd, self.n, self.ext[0])
        if self.qn.shape[0] == self.n:
            Q2 = Q2 * self.qn
        if damp:
            i = np.arange(self.n)
            Q2 = Q2 * np.sinc((i[:, None] - i[None, :]) / float(self.n))
        out = np.einsum("aij,bji->ab", self.E, Q2)
        return out if np.any(out) else np.eye(self.nd) / 2.0

    def M_W(self, norm, sampling):
        G, H = self.response(False), self.response(not sampling)
        self.G, self.H = G, H
        if norm == "I":
            return np.diag(1.0 / G.sum(1)), H / H.sum(1)[:, None]
        if norm == "H^-1":
            M = np.linalg.inv(H)
            W = M @ H
            return M, W / W.sum(1)[:, None]
        V = self.V()
        lam, U = np.linalg.eigh(V)
        keep = lam > 1e-20 * np.abs(lam).max()
        lam, U = lam[keep], U[:, keep]
        Vh = U @ np.diag(lam**-0.5) @ U.conj().T
        M = Vh / (Vh @ H).sum(1)[:, None]
        return M, M @ H

    def cov_pieces(self):
        x, w = (self.x1, self.x2), (self.w1, self.w2)
        g = lambda a, b, c1, c2: wcov(x[a], w[a], x[b], w[b], c1, c2)  # noqa: E731
        C = {(a, b): g(a, b, False, True) for a in (0, 1) for b in (0, 1)}
        P = {(a, b): g(a, b, False, False) for a in (0, 1) for b in (0, 1)}
        S = {(a, b): g(a, b, True, True) for a in (0, 1) for b in (0, 1)}
        return C, P, S

    @staticmethod
    def tr(A, X, B, Y):
        """tr[A_a X B_b Y] for every a, b."""
        return np.einsum("aij,bji->ab", A @ X, B @ Y)

    def V(self):
        C, P, S = self.cov_pieces()
        Ed = np.conj(np.transpose(self.E, (0, 2, 1)))
        return self.tr(self.E, C[1, 1], Ed, C[0, 0]) + self.tr(self.E, P[1, 0], self.E.conj(), S[1, 0])

    def cov(self, M, qq, qqd, qdqd):
        """(cov of real, cov of imaginary) of p = M q."""
        Mc = M.conj()
        a, b, d = M @ qq @ M.T, M @ qqd @ Mc.T, Mc @ qdqd @ Mc.T
        bc = b.conj()
        return ((a + b + bc + d) / 4.0).real, (-(a - b - bc + d) / 4.0).real

    def q_moments(self, model, t=None, n1=None, n2=None):
        E, Ed = self.E, np.conj(np.transpose(self.E, (0, 2, 1)))
        z = np.zeros((self.nd, self.nd))
        if model == "empirical":
            C, P, S = self.cov_pieces()
            Et = np.transpose(E, (0, 2, 1))
            qq = self.tr(E, C[1, 0], E, C[1, 0]) + self.tr(E, P[1, 1], Et, S[0, 0])
            qqd = self.tr(E, C[1, 1], Ed, C[0, 0]) + self.tr(E, P[1, 0], E.conj(), S[1, 0])
            qdqd = self.tr(Ed, C[0, 1], Ed, C[0, 1]) + self.tr(Ed, P[0, 0], E.conj(), S[1, 1])
            return qq, qqd, qdqd
        N1, N2 = np.diag(n1[:, t]), np.diag(n2[:, t])
        qqd = self.tr(E, N2, Ed, N1)
        if model == "foreground_dependent":
            a, b = self.w1[:, t] * self.x1[:, t], self.w2[:, t] * self.x2[:, t]
            Cs = 0.5 * (np.outer(a, b.conj()) + np.outer(b, a.conj()))
            sn = self.tr(E, Cs, Ed, N1) + self.tr(E, N2, Ed, Cs)
            bad = np.diag(sn).real <= 0
            self.edge = np.any(np.abs(np.diag(sn).real) < 1e-9 * np.max(np.abs(sn))) if np.any(sn) else False
            sn[bad, :] = 0
            sn[:, bad] = 0
            qqd = qqd + sn
        return z, qqd, z

    def adjustment(self):
        """Scalar correction applied with the diagonal normalisation."""
        with np.errstate(all="ignore"):
            r = self.H.sum(1).real / self.G.sum(1).real
        r[~np.isfinite(r)] = 1.0
        t2 = np.mean(window(self.taper, self.nf) ** 2) if self.taper != "none" else 1.0
        if self.weight == "identity":
            r = np.full(self.nd, r.mean())
        return self.nd / (self.nf * r) * t2
