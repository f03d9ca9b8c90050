"""The operators of IALS.tla (Mat, Rhs, Solve, the sweeps and the objective) read
in double precision, for sizes TLC's integers cannot hold."""
import numpy as np


class Problem:
    def __init__(self, alpha0, reg, nu, orig):
        self.alpha0, self.reg, self.nu, self.orig = alpha0, reg, nu, orig
        self.cond = 1.0

    def weight(self, n, m):
        return self.reg * (self.alpha0 * m + n) ** self.nu

    def system(self, x, other, prior=None):
        K = other.shape[1]
        w = self.weight((x != 0).sum(), len(other))
        M = (other.T * (self.alpha0 + x)) @ other + w * np.eye(K)
        b = other.T @ np.where(x != 0, x + (self.alpha0 if self.orig else 0), 0)
        if prior is not None:
            b = b + w * prior
        self.cond = max(self.cond, np.linalg.cond(M))
        return M, b

    def fit(self, rows, other, prior=None):
        out = np.zeros((len(rows), other.shape[1]))
        for j, x in enumerate(np.asarray(rows, dtype=float)):
            if prior is None and not (x != 0).any():
                continue
            M, b = self.system(x, other, None if prior is None else prior[j])
            out[j] = np.linalg.solve(M, b)
        return out

    def sweep(self, rows, other, start, size):
        """one pass over the blocks of that many coordinates, each minimised in turn"""
        out = np.array(start, dtype=float)
        for j, x in enumerate(np.asarray(rows, dtype=float)):
            if not (x != 0).any():
                out[j] = 0
                continue
            M, b = self.system(x, other)
            for k in range(0, other.shape[1], size):
                B = slice(k, k + size)
                out[j, B] -= np.linalg.solve(M[B, B], M[B] @ out[j] - b[B])
        return out

    def steps(self, rows, other, start, n, prior=None):
        """n steps of conjugate gradients"""
        out = np.array(start, dtype=float)
        for j, x in enumerate(np.asarray(rows, dtype=float)):
            if prior is None and not (x != 0).any():
                out[j] = 0
                continue
            M, b = self.system(x, other, None if prior is None else prior[j])
            y = out[j].copy()
            r = b - M @ y
            p = r.copy()
            for _ in range(n):
                if r @ r == 0:
                    break
                a = (r @ r) / (p @ M @ p)
                y, s = y + a * p, r - a * (M @ p)
                p = s + (s @ s) / (r @ r) * p
                r = s
            out[j] = y
        return out

    def loss(self, X, U, V, PU=None, PV=None, maps=()):
        S = U @ V.T
        if self.orig:
            L = np.where(X != 0, (X + self.alpha0) * (S - 1) ** 2, self.alpha0 * S ** 2).sum()
        else:
            L = (X * (S - 1) ** 2).sum() + self.alpha0 * (S ** 2).sum()
        for F, P, N, m in ((U, PU, (X != 0).sum(1), len(V)), (V, PV, (X != 0).sum(0), len(U))):
            D = F if P is None else F - P
            L += sum(self.weight(n, m) * (d @ d) for n, d in zip(N, D))
        return (L + sum(lam * (W ** 2).sum() for lam, W in maps)) / 2
