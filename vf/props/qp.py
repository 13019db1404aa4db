"""QP problem layer: hard-constraint satisfaction, optimality, option/order invariance, reuse histories."""
import numpy as np
import placo
from vf.util import M2, kkt_residual

HARD_TOL = 2e-6


class Spec:
    """A random convex problem with a known strictly feasible point x0, kept outside the code under test."""

    def __init__(self, rng, n=None, kinds=("seq", "heq", "hin", "sin"), reg=None, sparse=None):
        self.sizes = [int(s) for s in rng.integers(1, 7, size=int(rng.integers(1, 5)))] if n is None else [n]
        self.n = sum(self.sizes)
        self.reg = reg if reg is not None else float(rng.choice([1e-8, 1e-6, 1e-3, 0.1]))
        self.sparse = bool(rng.random() < 0.6) if sparse is None else sparse
        self.x0 = rng.normal(size=self.n) * float(rng.choice([0.1, 1.0, 3.0]))
        self.cons = []
        heq_budget = int(rng.integers(0, self.n)) if "heq" in kinds else 0
        for _ in range(int(rng.integers(1, 8))):
            kind = str(rng.choice(list(kinds)))
            rows = int(rng.integers(1, 5))
            if kind == "heq":
                rows = min(rows, heq_budget)
                if rows <= 0:
                    continue
                heq_budget -= rows
            cols = self.n if rng.random() < 0.7 else int(rng.integers(1, self.n + 1))
            style = int(rng.integers(0, 5))
            if style == 0:  # small integers: cancelling, repeated and zero coefficients
                A = rng.integers(-2, 3, size=(rows, cols)).astype(float)
                A[0, int(rng.integers(0, cols))] = 1.0
            elif style == 1:  # differences of variables, with opposite rows
                A = np.zeros((rows, cols))
                for r in range(rows):
                    A[r, int(rng.integers(0, cols))] += 1.0
                    A[r, int(rng.integers(0, cols))] -= 1.0 if cols > 1 else -1.0
                if kind != "heq" and rows > 1 and rng.random() < 0.5:
                    A[-1] = -A[0]
            else:
                A = rng.normal(size=(rows, cols))
            if not A.any():
                A[0, 0] = 1.0
            if self.sparse:
                # zero out whole columns, leaving several separated groups of non-zero columns
                keep = rng.random(cols) < 0.45
                if not keep.any():
                    keep[rng.integers(0, cols)] = True
                A = A * keep
            if kind == "heq":
                b = -A @ self.x0[:cols]
            elif kind == "hin":
                b = -A @ self.x0[:cols] + rng.uniform(0.01, 1.5, size=rows)
            else:
                b = -A @ (self.x0[:cols] + rng.normal(size=cols) * 2) + rng.normal(size=rows)
            w = float(10 ** rng.uniform(-2, 2)) if kind in ("seq", "sin") else 1.0
            if kind == "seq" and style == 4:
                # tiny coefficients with a large weight (or the opposite) are worth as much as ordinary ones
                u = float(10 ** rng.uniform(-7, 2))
                A, b, w = A * u, b * u, w / u ** 2
            self.cons.append((kind, A, b, w))
        if reg is None:
            self.fix_conditioning()

    def fix_conditioning(self, limit=1e6):
        """Raise the regularization until the QP Hessian (with slacks) is well conditioned: what the numerical
        solver promises beyond that is not part of the property."""
        while self.hessian_cond() > limit:
            self.reg *= 10

    def hessian_cond(self):
        ns = sum(len(b) for k, A, b, w in self.cons if k == "sin")
        P = np.zeros((self.n + ns, self.n + ns))
        P[:self.n, :self.n] = self.reg * np.eye(self.n)
        k0 = 0
        for k, A, b, w in self.cons:
            F = np.zeros((len(b), self.n + ns))
            F[:, :A.shape[1]] = A
            if k == "sin":
                F[np.arange(len(b)), self.n + k0 + np.arange(len(b))] = -1
                k0 += len(b)
            if k[0] == "s":
                P += w * F.T @ F
        e = np.linalg.eigvalsh(P)
        return e[-1] / max(e[0], 1e-300) if e[0] >= 1e-4 else np.inf

    def full(self, A):
        F = np.zeros((A.shape[0], self.n))
        F[:, :A.shape[1]] = A
        return F

    def heq(self):
        L = [self.full(A) for k, A, b, w in self.cons if k == "heq"]
        return (np.vstack(L) if L else np.zeros((0, self.n)),
                np.concatenate([b for k, A, b, w in self.cons if k == "heq"] or [np.zeros(0)]))

    def hin(self):
        L = [self.full(A) for k, A, b, w in self.cons if k == "hin"]
        return (np.vstack(L) if L else np.zeros((0, self.n)),
                np.concatenate([b for k, A, b, w in self.cons if k == "hin"] or [np.zeros(0)]))

    def objective(self, x):
        f = self.reg * x @ x
        for k, A, b, w in self.cons:
            r = A @ x[:A.shape[1]] + b
            if k == "seq":
                f += w * r @ r
            elif k == "sin":
                r = np.minimum(r, 0)
                f += w * r @ r
        return f

    def grad(self, x):
        g = 2 * self.reg * x
        for k, A, b, w in self.cons:
            r = A @ x[:A.shape[1]] + b
            if k == "sin":
                r = np.minimum(r, 0)
            if k in ("seq", "sin"):
                g[:A.shape[1]] += 2 * w * A.T @ r
        return g

    def heq_well_conditioned(self):
        A, _ = self.heq()
        if not len(A):
            return True
        s = np.linalg.svd(A, compute_uv=False)
        return A.shape[0] <= A.shape[1] and s[-1] > 0.05 * s[0]

    def describe(self):
        return f"n={self.n} vars={self.sizes} reg={self.reg:g} cons=" + \
            ",".join(f"{k}{A.shape}" for k, A, b, w in self.cons)

    def build(self, problem, order=None):
        handles = []
        for i in (order if order is not None else range(len(self.cons))):
            kind, A, b, w = self.cons[i]
            e = placo.Expression()
            e.A = A
            e.b = b
            z = placo.Expression.from_double(0.0)
            c = (e == z) if kind in ("seq", "heq") else (e >= z)
            h = problem.add_constraint(c)
            h.configure("hard" if kind[0] == "h" else "soft", w)
            handles.append((i, h))
        return handles


def new_problem(spec, sparsity, rewrite):
    p = placo.Problem()
    p.regularization = spec.reg
    p.use_sparsity = sparsity
    p.rewrite_equalities = rewrite
    vs = [p.add_variable(s) for s in spec.sizes]
    return p, vs


def solution(p, n):
    return np.asarray(p.x, dtype=float).ravel()[:n]


def check_feasible(m, spec, x, key="hard"):
    sc = 1 + np.abs(x).max()
    A, b = spec.heq()
    if len(A):
        m.count("hard_equality_rows", len(A))
        m.ok(np.abs(A @ x + b).max() <= HARD_TOL * sc * (1 + np.abs(A).max()), key + "-equality-violated",
             lambda: f"residual {np.abs(A @ x + b).max():g}")
    G, h = spec.hin()
    if len(G):
        m.count("hard_inequality_rows", len(G))
        r = (G @ x + h).min()
        m.count("hard_inequality_rows_active", int(((G @ x + h) < 1e-7).sum()))
        m.ok(r >= -HARD_TOL * sc * (1 + np.abs(G).max()), key + "-inequality-violated", lambda: f"worst {r:g}")


def check_optimal(m, spec, x, key="optimality"):
    g = spec.grad(x)
    A, _ = spec.heq()
    G, h = spec.hin()
    act = (G @ x + h) < 1e-6 * (1 + np.abs(x).max()) * (1 + np.abs(G).max(initial=0)) if len(G) else np.zeros(0, bool)
    scale = spec.reg + sum(w * (np.abs(A_).sum() ** 2) for k, A_, b, w in spec.cons if k in ("seq", "sin"))
    wmax = 1e-7 * scale * (1 + np.abs(x).max()) + 1e-6 * np.linalg.norm(
        sum((np.abs(2 * w * spec.full(A_).T) @ np.abs(b) for k, A_, b, w in spec.cons if k in ("seq", "sin")),
            np.zeros(spec.n))) + 1e-9
    r, lam = kkt_residual(g, A, G[act] if len(G) else None)
    m.count("kkt_certificates")
    return m.ok(r <= wmax, key, lambda: f"KKT residual {r:g} > {wmax:g}; f(x)={spec.objective(x):g} x={x.tolist()}"), lam, act


def hard_feasible(m, rng, i):
    spec = Spec(rng)
    if not spec.heq_well_conditioned() or not spec.cons:
        m.skip()
    m.desc = spec.describe()
    sp, rw = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    p, vs = new_problem(spec, sp, rw)
    spec.build(p)
    p.solve()
    x = solution(p, spec.n)
    m.ok(np.all(np.isfinite(x)), "non-finite", str(x))
    check_feasible(m, spec, x)
    k = 0
    for v, s in zip(vs, spec.sizes):
        m.ok(np.array_equal(np.atleast_1d(v.value), x[k:k + s]) and v.k_start == k and v.k_end == k + s, "variable-value",
             lambda: f"{v.value} vs {x[k:k+s]}")
        k += s
    m.sig(spec.x0, len(spec.cons))
    m.sample(f"{spec.describe()} sparsity={sp} rewrite={rw} -> x={np.round(x, 4).tolist()}")


def infeasible(m, rng, i):
    """Contradictory hard constraints: an error, never a returned point."""
    spec = Spec(rng, kinds=("seq", "hin", "sin"))
    kind = int(rng.integers(0, 5))
    n = spec.n
    a = rng.normal(size=(1, n))
    gap = float(10 ** rng.uniform(-2, 1))
    c0 = float(rng.normal())
    if kind == 0:      # a x >= c0 + gap and a x <= c0
        spec.cons += [("hin", a, np.array([-(c0 + gap)]), 1.0), ("hin", -a, np.array([c0]), 1.0)]
    elif kind == 1:    # a x == c0 and a x >= c0+gap
        spec.cons += [("heq", a, np.array([-c0]), 1.0), ("hin", a, np.array([-(c0 + gap)]), 1.0)]
    elif kind == 2:    # two contradictory equalities
        spec.cons += [("heq", a, np.array([-c0]), 1.0), ("heq", 2 * a, np.array([-2 * (c0 + gap)]), 1.0)]
    elif kind == 3:    # more independent equations than unknowns
        A = rng.normal(size=(n + 1, n))
        b = rng.normal(size=n + 1)
        spec.cons += [("heq", A, b, 1.0)]
    else:              # fully determined by equalities, then violated by an inequality
        A = np.linalg.qr(rng.normal(size=(n, n)))[0]
        x = rng.normal(size=n)
        spec.cons = [("heq", A, -A @ x, 1.0), ("hin", a, -a @ x - gap, 1.0)]
    order = rng.permutation(len(spec.cons))
    spec.fix_conditioning()
    rw = bool(rng.random() < 0.5)
    m.desc = f"kind={kind} rewrite={rw} gap={gap} " + spec.describe()
    p, vs = new_problem(spec, bool(rng.random() < 0.5), rw)
    spec.build(p, order)
    m.raises(p.solve, f"infeasible-accepted-kind{kind}", exc=RuntimeError)
    m.sig(kind, a)
    m.sample(f"kind {kind}, gap {gap:.3g}, {spec.describe()} -> refused")


def optimal(m, rng, i):
    spec = Spec(rng)
    if not spec.heq_well_conditioned() or not spec.cons:
        m.skip()
    sp, rw = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    m.desc = f"sparsity={sp} rewrite={rw} " + spec.describe()
    p, vs = new_problem(spec, sp, rw)
    H = spec.build(p)
    p.solve()
    x = solution(p, spec.n)
    check_feasible(m, spec, x)
    good, lam, act = check_optimal(m, spec, x)
    # reported slacks of the soft inequalities: the positive part of the expression
    s = np.atleast_1d(np.asarray(p.slacks, dtype=float)).ravel()
    want = [np.maximum(A @ x[:A.shape[1]] + b, 0) for k, A, b, w in spec.cons if k == "sin"]
    want = np.concatenate(want) if want else np.zeros(0)
    m.close(s, want, 1e-5 * (1 + np.abs(want).max(initial=0) + np.abs(x).max()), "slacks")
    # active flags
    row = 0
    for (ci, h) in H:
        kind, A, b, w = spec.cons[ci]
        r = A @ x[:A.shape[1]] + b
        if kind in ("seq", "heq"):
            m.ok(h.is_active, "active-equality", "equality not flagged active")
        elif kind == "hin":
            if r.min() > 1e-4 * (1 + np.abs(x).max()):
                m.ok(not h.is_active, "active-hard-false-positive", lambda: f"residuals {r}")
                m.count("inactive_flags")
            idx = np.arange(row, row + len(r))
            row += len(r)
            if good and lam is not None and len(lam) == act.sum():
                full = np.zeros(len(act))
                full[act] = lam
                if act.sum() <= spec.n and (full[idx] > 1e-3).any():
                    Gact = np.vstack([spec.hin()[0][act], spec.heq()[0]])
                    sv = np.linalg.svd(Gact, compute_uv=False)
                    if len(Gact) <= spec.n and sv[-1] > 1e-3 * sv[0]:   # unique multipliers
                        m.ok(h.is_active, "active-hard-missed", lambda: f"multipliers {full[idx]}")
                        m.count("active_flags")
        else:
            if (r < -1e-3).any():
                m.ok(h.is_active, "active-soft-missed", lambda: f"residuals {r}")
            if (r > 1e-3).all():
                m.ok(not h.is_active, "active-soft-false-positive", lambda: f"residuals {r}")
    m.sig(spec.x0, len(spec.cons))
    m.sample(f"{spec.describe()} f*={spec.objective(x):.6g} active={int(act.sum())}")


def invariance(m, rng, i):
    """Same problem, every combination of options, several declaration orders: same optimum."""
    spec = Spec(rng, reg=float(rng.choice([1e-4, 1e-2, 0.1])))
    if not spec.heq_well_conditioned() or not spec.cons:
        m.skip()
    m.desc = spec.describe()
    ref = None
    for sp in (False, True):
        for rw in (False, True):
            order = rng.permutation(len(spec.cons))
            p, vs = new_problem(spec, sp, rw)
            spec.build(p, order)
            p.solve()
            x = solution(p, spec.n)
            f = spec.objective(x)
            if ref is None:
                ref = (x, f)
            else:
                m.close(f, ref[1], 1e-7, "objective-differs", f"sparsity={sp} rewrite={rw}", rel=1e-6)
                m.close(x, ref[0], 1e-5 * (1 + np.abs(ref[0]).max()), "solution-differs", f"sparsity={sp} rewrite={rw}")
            m.count("option_combinations")
    # The problem is homogeneous: scaling every constant term scales the solution, whatever their magnitude
    k = float(10 ** rng.uniform(-2, 4))
    cons = spec.cons
    spec.cons = [(kind, A, b * k, w) for kind, A, b, w in cons]
    p, vs = new_problem(spec, bool(rng.integers(2)), bool(rng.integers(2)))
    spec.build(p)
    p.solve()
    m.close(solution(p, spec.n) / k, ref[0], 1e-5 * (1 + np.abs(ref[0]).max()), "scaled-differs", f"scale={k:g}")
    spec.cons = cons
    m.sig(spec.x0, len(spec.cons))
    m.sample(spec.describe())


def histories(m, rng, i):
    """One long-lived problem object driven through add / configure / solve / clear histories equals a fresh one."""
    p = placo.Problem()
    steps = int(rng.integers(3, 8))
    trace = []
    spec = None
    for s in range(steps):
        newvars = spec is None or rng.random() < 0.4
        sp2 = Spec(rng, n=None if newvars else None)
        if not newvars:
            # keep the variables, replace the constraints
            old = spec
            while sp2.n != old.n:
                sp2 = Spec(rng, n=old.n)
            sp2.sizes = old.sizes
            p.clear_constraints()
        else:
            p.clear_constraints()
            p.clear_variables()
            m.ok(p.n_variables == 0, "clear-variables", str(p.n_variables))
        sp2.reg = float(rng.choice([1e-3, 1e-2, 0.1]))
        if not sp2.heq_well_conditioned() or not sp2.cons:
            if newvars:
                spec = None
            continue
        spec = sp2
        p.regularization = spec.reg
        p.use_sparsity = bool(rng.random() < 0.5)
        p.rewrite_equalities = bool(rng.random() < 0.5)
        if newvars:
            vs = [p.add_variable(k) for k in spec.sizes]
        if rng.random() < 0.25:
            # a failed solve in between must not leak into the next one
            c = p.add_constraint(vs[0].expr(0, 1) == 1.0)
            d = p.add_constraint(vs[0].expr(0, 1) == 2.0)
            m.raises(p.solve, "contradiction-accepted", exc=RuntimeError)
            p.clear_constraints()
            m.count("failed_solves")
        spec.build(p)
        m.ok(p.n_variables == spec.n, "n_variables", f"{p.n_variables} {spec.n}")
        p.solve()
        if rng.random() < 0.3:
            p.solve()
        x = solution(p, spec.n)
        q, ws = new_problem(spec, p.use_sparsity, p.rewrite_equalities)
        spec.build(q)
        q.solve()
        m.close(x, solution(q, spec.n), 1e-9 * (1 + np.abs(x).max()), "history-dependence", f"step {s} of {trace}")
        for v, w in zip(vs, ws):
            m.close(v.value, w.value, 1e-9 * (1 + np.abs(x).max()), "variable-history", "")
        check_feasible(m, spec, x)
        ne = sum(len(b) for k, A, b, w in spec.cons if k == "heq")
        ni = sum(len(b) for k, A, b, w in spec.cons if k in ("hin", "sin"))
        ns = sum(len(b) for k, A, b, w in spec.cons if k == "sin")
        m.ok(p.n_inequalities == ni and p.slack_variables == ns, "counters",
             lambda: f"ineq {p.n_inequalities}/{ni} slack {p.slack_variables}/{ns}")
        if p.rewrite_equalities:
            m.ok(p.determined_variables == ne and p.free_variables == spec.n - ne, "determined-count",
                 lambda: f"{p.determined_variables} {p.free_variables} vs {ne} {spec.n}")
        else:
            m.ok(p.n_equalities == ne and p.determined_variables == 0, "equality-count", "")
        trace.append(spec.describe())
        m.count("history_solves")
    if not trace:
        m.skip()
    m.sig(*trace)
    m.sample(" | ".join(trace)[:400])


def limits(m, rng, i):
    """add_limit / two-sided bounds: |expr| <= t row by row, both sides reachable."""
    n = int(rng.integers(1, 6))
    p = placo.Problem()
    p.rewrite_equalities = bool(rng.random() < 0.5)
    x = p.add_variable(n)
    A = rng.normal(size=(n, n)) + 2 * np.eye(n)
    if np.linalg.cond(A) > 50:
        m.skip()
    b = rng.normal(size=n)
    t = rng.uniform(0.1, 2.0, size=n)
    e = x.expr().left_multiply(A) + b
    p.add_limit(e, t)
    tgt = rng.normal(size=n) * 5
    c = p.add_constraint(e == tgt)
    c.configure("soft", 1.0)
    p.solve()
    v = A @ solution(p, n) + b
    m.ok(np.all(np.abs(v) <= t + 1e-6), "limit-exceeded", lambda: f"{v} {t}")
    want = np.clip(tgt, -t, t)
    smin = np.linalg.svd(A)[1][-1]   # the default regularization pulls x towards 0
    m.close(v, want, 1e-6 + 3e-8 * np.linalg.norm(np.linalg.solve(A, want - b)) * np.linalg.cond(A) / min(smin, 1), "limit-not-tight")
    m.count("limits_hit", int((np.abs(tgt) > t).sum()))
    m.sig(A, tgt)
    m.sample(f"n={n} target={np.round(tgt,3).tolist()} t={np.round(t,3).tolist()}")


FAMILIES = {
    "qp_hard": (hard_feasible, 3000, 60000),
    "qp_infeasible": (infeasible, 2000, 30000),
    "qp_optimal": (optimal, 3000, 60000),
    "qp_invariance": (invariance, 1000, 20000),
    "qp_histories": (histories, 500, 10000),
    "qp_limits": (limits, 1000, 20000),
}
