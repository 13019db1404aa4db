"""An independent statement of the QP a controller is documented to solve, and the judgement of a returned point."""
import numpy as np
from vf.util import kkt_residual


class QP:
    def __init__(self, n, reg=1e-8):
        self.n, self.reg = n, reg
        self.heq, self.hin, self.seq, self.sin = [], [], [], []

    def _full(self, A):
        A = np.atleast_2d(np.asarray(A, dtype=float))
        F = np.zeros((A.shape[0], self.n))
        F[:, :A.shape[1]] = A
        return F

    def eq(self, A, b, w=None, name=""):
        """A x = b, hard when w is None"""
        (self.heq if w is None else self.seq).append((self._full(A), np.atleast_1d(np.asarray(b, dtype=float)), w, name))

    def ge(self, G, h, w=None, name=""):
        """G x + h >= 0, hard when w is None"""
        (self.hin if w is None else self.sin).append((self._full(G), np.atleast_1d(np.asarray(h, dtype=float)), w, name))

    def objective(self, x):
        f = self.reg * x @ x
        for A, b, w, _ in self.seq:
            f += w * np.sum((A @ x - b) ** 2)
        for G, h, w, _ in self.sin:
            f += w * np.sum(np.minimum(G @ x + h, 0) ** 2)
        return f

    def hessian(self, slacks=False):
        H = self.reg * np.eye(self.n)
        for A, b, w, _ in self.seq + (self.sin if slacks else []):
            H += w * A.T @ A
        return H

    def stack(self, which):
        L = getattr(self, which)
        if not L:
            return np.zeros((0, self.n)), np.zeros(0)
        return np.vstack([a for a, *_ in L]), np.concatenate([b for _, b, *_ in L])

    def feasible(self, m, x, tol=2e-6, key="hard"):
        ok = m.ok(np.all(np.isfinite(x)), key + "-non-finite", lambda: str(x))
        if not ok:
            return False
        sx = 1 + np.abs(x).max()
        for A, b, _, name in self.heq:
            r = np.abs(A @ x - b)
            m.count("hard_equality_rows", len(b))
            ok &= m.ok(np.all(r <= tol * (1 + np.abs(A).sum(1) * sx)), f"{key}-equality:{name}", lambda: f"residual {r.max():g}")
        for G, h, _, name in self.hin:
            s = G @ x + h
            m.count("hard_inequality_rows", len(h))
            m.count("hard_inequality_rows_active", int((s < 1e-7).sum()))
            lim = tol * (1 + np.abs(G).sum(1) * sx)
            good = np.all(s >= -lim)
            if not good and np.all(s >= -lim - 2 * self.termination_tol()):
                good = True
                m.count("within_solver_termination_tolerance")
            ok &= m.ok(good, f"{key}-inequality:{name}", lambda: f"worst {s.min():g}")
        return ok

    def optimal(self, m, x, key="not-optimal", tol=1e-6, act_abs=None):
        g = 2 * self.reg * x
        scale = np.zeros(self.n)
        for A, b, w, _ in self.seq:
            g = g + 2 * w * A.T @ (A @ x - b)
            scale += 2 * w * np.abs(A).T @ (np.abs(A) @ np.abs(x) + np.abs(b))
        for G, h, w, _ in self.sin:
            g = g + 2 * w * G.T @ np.minimum(G @ x + h, 0)
            scale += 2 * w * np.abs(G).T @ (np.abs(G) @ np.abs(x) + np.abs(h))
        A, _ = self.stack("heq")
        G, h = self.stack("hin")
        sx = 1 + np.abs(x).max()
        act = (G @ x + h) < (act_abs or 1e-6 * (1 + np.abs(G).sum(1) * sx)) if len(G) else np.zeros(0, bool)
        m.count("active_inequalities_at_optimum", int(act.sum()))
        r, _ = kkt_residual(g, A, G[act])
        lim = tol * (1e-3 + np.linalg.norm(scale))
        m.count("kkt_certificates")
        return m.ok(r <= lim, key, lambda: f"KKT residual {r:g} > {lim:g}, objective {self.objective(x):g}, x={np.round(x, 6).tolist()}")

    def termination_tol(self):
        """eiquadprog stops once the violations sum up to less than this"""
        ns = sum(len(h) for _, h, _, _ in self.sin)
        P = np.zeros((self.n + ns, self.n + ns))
        P[:self.n, :self.n] = self.hessian()
        k = self.n
        for G, h, w, _ in self.sin:
            B = np.zeros((len(h), self.n + ns))
            B[:, :self.n] = G
            B[:, k:k + len(h)] = -np.eye(len(h))
            k += len(h)
            P += w * B.T @ B
        P += 1e-10 * np.eye(len(P))
        nb = 2 * ns + sum(len(h) for _, h, _, _ in self.hin)
        t = nb * 2.3e-16 * np.trace(P) * np.trace(np.linalg.inv(np.linalg.cholesky(P))) * 100
        return min(t, 1e-3)

    def conditioned(self, lmin=1e-4, cond=1e6):
        """Is the Hessian handed to the numerical QP solver (decision variables and slacks) well conditioned?"""
        ns = sum(len(h) for _, h, _, _ in self.sin)
        P = np.zeros((self.n + ns, self.n + ns))
        P[:self.n, :self.n] = self.hessian()
        k = self.n
        for G, h, w, _ in self.sin:
            B = np.zeros((len(h), self.n + ns))
            B[:, :self.n] = G
            B[:, k:k + len(h)] = -np.eye(len(h))
            k += len(h)
            P += w * B.T @ B
        A, _ = self.stack("heq")
        if len(A):  # the solver works in the null space of the hard equalities
            U, sv, Vt = np.linalg.svd(A)
            N = Vt[int((sv > 1e-9 * max(sv[0], 1e-9)).sum()):].T
            B = np.zeros((self.n + ns, N.shape[1] + ns))
            B[:self.n, :N.shape[1]] = N
            B[self.n:, N.shape[1]:] = np.eye(ns)
            P = B.T @ P @ B
            if not P.size:
                return True
        e = np.linalg.eigvalsh(P)
        return e[0] >= lmin and e[-1] / e[0] <= cond

    def soft_optimal(self, m, x, key, coarse=False):
        """Without hard constraints: the objective is as low as an independent solver's (piecewise Newton), up to the documented
        termination tolerance of the third-party dual active-set solver (it stops when the total violation of the slack
        constraints is below nb * eps * trace(P) * trace(L^-1) * 100)"""
        w = max(w for *_, w, _ in self.sin)
        As = np.vstack([np.sqrt(w) * A for A, b, w, _ in self.seq] + [np.sqrt(self.reg) * np.eye(self.n)])
        bs = np.concatenate([np.sqrt(w) * b for A, b, w, _ in self.seq] + [np.zeros(self.n)])
        G = np.vstack([np.sqrt(w) * g for g, h, w, _ in self.sin])
        h = np.concatenate([np.sqrt(w) * h for g, h, w, _ in self.sin])
        y, f = x.copy(), self.objective(x)
        f0 = f
        for _ in range(60):
            a = (G @ y + h) < 0
            d = np.linalg.lstsq(np.vstack([As, G[a]]), np.concatenate([bs, -h[a]]), rcond=None)[0] - y
            s = 1.0
            while s > 1e-6 and self.objective(y + s * d) >= f:
                s /= 2
            if s <= 1e-6:
                break
            y = y + s * d
            last, f = f, self.objective(y)
            if last - f < 1e-12 * f:
                break
        ns = len(h)
        P = np.zeros((self.n + ns, self.n + ns))
        P[:self.n, :self.n] = self.hessian() + G.T @ G
        ws = np.concatenate([np.full(len(q), np.sqrt(v)) for g, q, v, _ in self.sin])
        P[:self.n, self.n:] = -G.T * ws
        P[self.n:, :self.n] = P[:self.n, self.n:].T
        P[self.n:, self.n:] = np.diag(ws ** 2) + 1e-12 * np.eye(ns)
        tol = ns * 2.3e-16 * np.trace(P) * np.trace(np.linalg.inv(np.linalg.cholesky(P))) * 100
        m.count("soft_optima_compared")
        m.count("soft_optima_compared_tightly", int(tol < 2e-4))
        # coarse: far from feasibility, that solver was observed up to 7 % above the optimum (ill-conditioned slacks)
        lim = np.sqrt(f) * (1.5 if coarse else 1 + 1e-4) + (30 if coarse else 3) * np.sqrt(w) * tol + 1e-6
        m.ok(np.sqrt(f0) <= lim, key, lambda: f"sqrt objective {np.sqrt(f0):g}, optimum {np.sqrt(f):g}, allowed {lim:g}")
