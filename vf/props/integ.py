"""Integrators, LIPM, polynomials: expressions, values and trajectories against an independent simulation."""
import numpy as np
import placo
from scipy.linalg import expm
from vf.util import M2


class Sim:
    """Exact piecewise-constant-input simulation of dX = M [X; u]."""

    def __init__(self, M, dt, X0, u):
        self.M, self.dt, self.u = M, dt, u
        self.o = M.shape[0] - 1
        self.X = [np.asarray(X0, float)]
        Ad = expm(M * dt)
        Z = np.abs(self.X[0])     # magnitude of the terms summed up, before cancellation
        self.mag = Z.max()
        for k in range(len(u)):
            Z = np.abs(Ad[:self.o, :self.o]) @ Z + np.abs(Ad[:self.o, self.o] * u[k])
            self.mag = max(self.mag, Z.max())
        for k in range(len(u)):
            self.X.append(Ad[:self.o, :self.o] @ self.X[-1] + Ad[:self.o, self.o] * u[k])

    def state(self, t):
        t = min(max(t, 0.0), len(self.u) * self.dt)
        k = min(int(t / self.dt), len(self.u) - 1)
        A = expm(self.M * (t - k * self.dt))
        return A[:self.o, :self.o] @ self.X[k] + A[:self.o, self.o] * self.u[k]

    def inp(self, t):
        t = min(max(t, 0.0), len(self.u) * self.dt)
        return self.u[min(int(t / self.dt), len(self.u) - 1)]


def shift(order):
    return np.eye(order + 1, k=1)


def integrator(m, rng, i):
    p = placo.Problem()
    p.rewrite_equalities = bool(rng.random() < 0.5)
    pre = p.add_variable(int(rng.integers(1, 4))) if rng.random() < 0.5 else None
    N = int(rng.integers(2, 13))
    v = p.add_variable(N)
    order = int(rng.integers(1, 5))
    dt = float(10 ** rng.uniform(-2, 0))
    x0 = rng.normal(size=order)
    custom = bool(rng.random() < 0.4)
    depends = (not custom) and pre is not None and rng.random() < 0.5
    if custom:
        M = np.zeros((order + 1, order + 1))
        M[:order] = rng.normal(size=(order, order + 1))
        I = placo.Integrator(v, x0, M, dt)
    else:
        M = shift(order)
        if depends:
            size = pre.k_end - pre.k_start
            T = rng.normal(size=(order, size))
            X0 = pre.expr().left_multiply(T) + x0
        else:
            X0 = placo.Expression.from_vector(x0)
        I = placo.Integrator(v, X0, order, dt)
    t0 = float(rng.choice([0.0, rng.normal()]))
    I.t_start = t0
    m.raises(lambda: I.value(t0, 0), "value-before-solve-accepted")
    reg = 10 ** rng.uniform(-4, -1)
    p.regularization = float(reg)
    tasks = []
    pin = rng.normal(size=N) if rng.random() < 0.4 else None    # inputs that are the same in every solve
    for _ in range(int(rng.integers(2, 4))):
        p.clear_constraints()
        if pin is None:
            for _ in range(int(rng.integers(1, 3))):
                step = int(rng.integers(1, N + 1))
                diff = int(rng.integers(0, order))
                tgt = float(rng.normal())
                c = p.add_constraint(I.expr(step, diff) == tgt)
                c.configure("soft", 10.0)
        else:
            p.add_constraint(v.expr() == pin)
            m.count("same_inputs")
        if pre is not None:
            p.add_constraint(pre.expr() == rng.normal(size=pre.k_end - pre.k_start)).configure("soft", 1.0)
        p.solve()
        x = np.asarray(p.x).ravel()
        u = np.atleast_1d(v.value)
        m.close(u, x[v.k_start:v.k_end], 0, "variable-value")
        X0v = x0 + (T @ np.atleast_1d(pre.value) if depends else 0)
        S = Sim(M, dt, X0v, u)
        sc = 1e-7 * (1 + max(np.abs(s).max() for s in S.X) + np.abs(u).max()) + 1e-12 * S.mag
        tr = I.get_trajectory()
        m.close(tr.duration(), N * dt, 1e-9, "duration")
        for step in range(N + 1):
            m.close(np.atleast_1d(I.expr(step).value(x)), S.X[step], sc, "expr-state", f"step {step}")
            for diff in range(order):
                m.close(np.atleast_1d(I.expr(step, diff).value(x))[0], S.X[step][diff], sc, "expr-diff")
            if step < N:
                m.close(np.atleast_1d(I.expr(step, order).value(x))[0], u[step], sc, "expr-input")
        m.close(np.atleast_1d(I.expr(-1).value(x)), S.X[N], sc, "expr-final")
        m.raises(lambda: I.expr(N + 1, 0), "step-overflow-accepted")
        m.raises(lambda: I.expr(0, order + 1), "diff-overflow-accepted")
        m.raises(lambda: I.expr_t(t0, order + 1), "diff-t-overflow-accepted")
        for _ in range(6):
            k = int(rng.integers(0, N))
            t = (k + float(rng.uniform(0.02, 0.98))) * dt
            for diff in range(order):
                want = S.state(t)[diff]
                m.close(I.value(t0 + t, diff), want, sc, "value", f"t={t} diff={diff}")
                m.close(tr.value(t0 + t, diff), want, sc, "trajectory-value")
                m.close(np.atleast_1d(I.expr_t(t0 + t, diff).value(x))[0], want, sc, "expr_t")
            m.close(I.value(t0 + t, order), S.inp(t), sc, "input-value")
            m.close(np.atleast_1d(I.expr_t(t0 + t, order).value(x))[0], S.inp(t), sc, "expr_t-input")
            m.close(np.atleast_1d(I.expr_t(t0 + t).value(x)), S.state(t), sc, "expr_t-state")
            m.count("instants_compared")
        for t in (-1.0, -0.3 * dt, N * dt + 0.4 * dt, N * dt + 5):
            for diff in range(order):
                m.close(I.value(t0 + t, diff), S.state(t)[diff], sc, "value-clamped", f"t={t}")
        for k in range(N + 1):   # keyframes, exactly on the grid (states are continuous there)
            for diff in range(order):
                m.close(I.value(t0 + k * dt, diff), S.X[k][diff], sc, "value-grid")
                m.close(tr.value(t0 + k * dt, diff), S.X[k][diff], sc, "trajectory-grid")
                m.close(np.atleast_1d(I.expr_t(t0 + k * dt, diff).value(x))[0], S.X[k][diff], sc, "expr_t-grid")
        tasks.append((tr, S, sc))
    # the first detached trajectories are not affected by the next solves
    for tr, S, sc in tasks:
        for _ in range(2):
            t = float(rng.uniform(0, N * dt))
            m.close(tr.value(t0 + t, 0), S.state(t)[0], sc, "detached-trajectory-changed")
    # moving t_start after the solve shifts the trajectory
    d = float(rng.normal())
    I.t_start = t0 + d
    tr, S, sc = tasks[-1]
    t = float(rng.uniform(0, N * dt))
    m.close(I.value(t0 + d + t, 0), S.state(t)[0], sc, "t_start-shift")
    m.sig(N, order, dt, x0)
    m.sample(f"order={order} N={N} dt={dt:.3g} custom={custom} X0-is-expression={depends}")


def integrator_misuse(m, rng, i):
    p = placo.Problem()
    v = p.add_variable(int(rng.integers(1, 6)))
    o = int(rng.integers(1, 4))
    bad = o + int(rng.choice([-1, 1, 3]))
    if bad < 1:
        bad = o + 1
    if i % 2:
        m.raises(lambda: placo.Integrator(v, placo.Expression.from_vector(np.ones(bad)), o, 0.1), "bad-X0-accepted")
    else:
        m.raises(lambda: placo.Integrator(v, np.ones(bad), np.eye(o + 1, k=1), 0.1), "bad-X0-matrix-accepted")
    I = placo.Integrator(v, placo.Expression.from_vector(np.ones(o)), o, 0.1)
    m.raises(lambda: I.expr(-1, o), "input-after-last-step-accepted")
    m.raises(lambda: I.expr(-2, 0), "negative-step-accepted")
    m.sig(i, o, bad)
    m.sample(f"order {o} X0 rows {bad}")


def lipm(m, rng, i):
    p = placo.Problem()
    p.regularization = 1e-3
    dt = float(rng.uniform(0.02, 0.3))
    N1, N2 = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    t0 = float(rng.normal())
    init = rng.normal(size=(3, 2)) * 0.3
    h = float(rng.uniform(0.1, 1.5))
    l1 = placo.LIPM(p, dt, N1, t0, init[0], init[1], init[2])
    l2 = placo.LIPM.build_LIPM_from_previous(p, dt, N2, l1.t_end, l1) if rng.random() < 0.7 else None
    w = placo.LIPM.compute_omega(h)
    m.close(w, np.sqrt(9.80665 / h), 1e-12, "omega")
    w2 = w * w
    last = l2 or l1
    nlast = N2 if l2 else N1
    p.add_constraint(last.pos(nlast) == rng.normal(size=2)).configure("soft", 1e2)
    p.add_constraint(last.vel(nlast) == rng.normal(size=2)).configure("soft", 1e1)
    kz = int(rng.integers(1, N1))
    p.add_constraint(l1.zmp(kz, w2) == rng.normal(size=2) * 0.1).configure("soft", 1.0)
    p.solve()
    x = np.asarray(p.x).ravel()
    k = 0
    sims = []
    start = init
    for L, n in ((l1, N1), (l2, N2)):
        if L is None:
            continue
        ux, uy = x[k:k + n], x[k + n:k + 2 * n]
        k += 2 * n
        Sx, Sy = Sim(shift(3), dt, start[:, 0], ux), Sim(shift(3), dt, start[:, 1], uy)
        start = np.stack([Sx.X[-1], Sy.X[-1]], 1)
        sims.append((L, n, Sx, Sy))
    m.close(l1.t_end, t0 + N1 * dt, 1e-9, "t_end")
    for L, n, Sx, Sy in sims:
        sc = 1e-7 * (1 + np.abs(x).max())
        tr = L.get_trajectory()
        for s in range(n + 1):
            X = np.stack([Sx.X[s], Sy.X[s]])
            val = lambda e: np.atleast_1d(e.value(x))
            m.close(val(L.pos(s)), X[:, 0], sc, "pos")
            m.close(val(L.vel(s)), X[:, 1], sc, "vel")
            m.close(val(L.acc(s)), X[:, 2], sc, "acc")
            m.close(val(L.dcm(s, w)), X[:, 0] + X[:, 1] / w, sc, "dcm")
            m.close(val(L.zmp(s, w2)), X[:, 0] - X[:, 2] / w2, sc, "zmp")
            if s < n:
                J = np.array([Sx.u[s], Sy.u[s]])
                m.close(val(L.jerk(s)), J, sc, "jerk")
                m.close(val(L.dzmp(s, w2)), X[:, 1] - J / w2, sc * (1 + 1 / w2), "dzmp")
        for _ in range(6):
            t = (int(rng.integers(0, n)) + float(rng.uniform(0.05, 0.95))) * dt
            X = np.stack([Sx.state(t), Sy.state(t)])
            J = np.array([Sx.inp(t), Sy.inp(t)])
            T = L.t_start + t
            m.close(tr.pos(T), X[:, 0], sc, "traj-pos")
            m.close(tr.vel(T), X[:, 1], sc, "traj-vel")
            m.close(tr.acc(T), X[:, 2], sc, "traj-acc")
            m.close(tr.jerk(T), J, sc, "traj-jerk")
            m.close(tr.dcm(T, w), X[:, 0] + X[:, 1] / w, sc, "traj-dcm")
            m.close(tr.zmp(T, w2), X[:, 0] - X[:, 2] / w2, sc, "traj-zmp")
            m.close(tr.dzmp(T, w2), X[:, 1] - J / w2, sc * (1 + 1 / w2), "traj-dzmp")
            # LIPM dynamics of the trajectory: acc = omega^2 (com - zmp)
            m.close(tr.acc(T), w2 * (tr.pos(T) - tr.zmp(T, w2)), sc * (1 + w2), "lipm-dynamics")
            m.count("instants_compared")
    if l2 is not None:
        a, b = l1.get_trajectory(), l2.get_trajectory()
        T = l1.t_end
        for f in ("pos", "vel", "acc"):
            m.close(getattr(a, f)(T), getattr(b, f)(T), 1e-7 * (1 + np.abs(x).max()), "chaining-" + f)
        m.count("chained")
    m.sig(N1, N2, dt, init)
    m.sample(f"dt={dt:.3g} steps={N1}+{N2 if l2 else 0} h={h:.3g}")


def polynom(m, rng, i):
    n = int(rng.integers(1, 8))
    c = rng.normal(size=n)
    P = placo.Polynom(c)
    for _ in range(4):
        x, d = float(rng.normal() * 2), int(rng.integers(0, 6))
        want = np.polyval(np.polyder(c, d) if d else c, x)
        m.close(P.value(x, d), want, 1e-9, "polynom-value", rel=1e-9)
    m.close(P.value(0.7), np.polyval(c, 0.7), 1e-9, "polynom-default")
    if i % 4 == 0:
        C = rng.normal(size=int(rng.integers(8, 26)))
        x, d = float(rng.uniform(-1, 1)), int(rng.integers(0, len(C) + 1))
        D = np.polyder(C, d) if d else C
        m.close(placo.Polynom(C).value(x, d), np.polyval(D, x), 1e-9 * (1 + np.abs(D).sum()), "polynom-high-degree")
        m.raises(lambda: P.value(x, -int(rng.integers(1, 5))), "negative-derivative-accepted")
        hp = placo.Problem()
        hp.add_variable(2)
        e = placo.ProblemPolynom(hp.add_variable(len(C))).expr(x, d)
        X = np.concatenate([rng.normal(size=2), C])
        m.close(np.atleast_1d(e.value(X))[0], np.polyval(D, x), 1e-9 * (1 + np.abs(D).sum()), "polynom-expr-high-degree")
    p = placo.Problem()
    off = p.add_variable(int(rng.integers(1, 3)))
    v = p.add_variable(n)
    pp = placo.ProblemPolynom(v)
    xs = np.sort(rng.uniform(-1, 1, size=n))
    if n > 1 and np.diff(xs).min() < 0.05:
        xs = np.linspace(-1, 1, n)
    ys = rng.normal(size=n)
    for x, y in zip(xs, ys):
        p.add_constraint(pp.expr(float(x)) == float(y))
    p.solve()
    c = np.atleast_1d(v.value)
    got = pp.get_polynom()
    X = np.asarray(p.x).ravel()
    tol = 1e-6 * (1 + np.abs(c).sum())
    for x, y in zip(xs, ys):
        m.close(got.value(float(x)), y, 1e-4 * (1 + np.abs(c).sum()), "interpolation")
    for _ in range(4):
        x, d = float(rng.uniform(-1, 1)), int(rng.integers(0, 4))
        want = np.polyval(np.polyder(c, d) if d else c, x)
        m.close(got.value(x, d), want, tol, "get_polynom", rel=1e-9)
        m.close(np.atleast_1d(pp.expr(x, d).value(X))[0], want, tol, "polynom-expr", rel=1e-9)
    m.sig(n, xs, ys)
    m.sample(f"degree {n - 1} through {n} points")


FAMILIES = {
    "int_integrator": (integrator, 300, 8000),
    "int_misuse": (integrator_misuse, 60, 300),
    "int_lipm": (lipm, 400, 10000),
    "int_polynom": (polynom, 800, 20000),
}
