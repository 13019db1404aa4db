"""Expression algebra, constraint relations, polygon constraints, sparsity intervals."""
import numpy as np
import placo
from vf.util import M2, convex_polygon, poly_margin

N = 7   # decision variables


class E:
    """An expression of the real library along with its independent meaning (dense A over N columns, b)."""

    def __init__(self, real, A, b):
        self.real, self.A, self.b = real, np.asarray(A, float), np.asarray(b, float)

    def __call__(self, x):
        return self.A @ x + self.b


def leaf(rng, problem, variables):
    kind = int(rng.integers(0, 5))
    if kind <= 1:
        v = variables[int(rng.integers(0, len(variables)))]
        size = v.k_end - v.k_start
        if kind == 0:
            s, r = 0, size
            real = v.expr()
        else:
            s = int(rng.integers(0, size))
            r = int(rng.integers(1, size - s + 1))
            real = v.expr(s, r)
        A = np.zeros((r, N))
        A[np.arange(r), v.k_start + s + np.arange(r)] = 1
        return E(real, A, np.zeros(r))
    if kind == 2:
        r = int(rng.integers(1, 4))
        b = rng.normal(size=r)
        return E(placo.Expression.from_vector(b), np.zeros((r, N)), b)
    if kind == 3:
        f = float(rng.normal())
        return E(placo.Expression.from_double(f), np.zeros((1, N)), [f])
    r, c = int(rng.integers(1, 4)), int(rng.integers(1, N + 1))
    A = rng.normal(size=(r, c))
    b = rng.normal(size=r)
    e = placo.Expression()
    e.A = A
    e.b = b
    F = np.zeros((r, N))
    F[:, :c] = A
    return E(e, F, b)


def bcast_add(a, b):
    n = max(len(a.b), len(b.b))
    return np.broadcast_to(a.A, (n, N)) + np.broadcast_to(b.A, (n, N)), np.broadcast_to(a.b, n) + np.broadcast_to(b.b, n)


def const_scalar(e):
    return len(e.b) == 1 and e.real.is_constant()


def op(m, rng, a, pool):
    """One random operation; returns the new expression or None when the operation was (rightly) refused."""
    k = int(rng.integers(0, 17))
    m.count(f"op{k}")
    n = len(a.b)
    if k in (0, 1):
        b = pool[int(rng.integers(0, len(pool)))]
        compatible = len(b.b) == n or const_scalar(a) or const_scalar(b)
        f = (lambda: a.real + b.real) if k == 0 else (lambda: a.real - b.real)
        if not compatible:
            m.raises(f, "size-mismatch-accepted", f"{n} vs {len(b.b)}")
            return None
        nb = E(None, b.A, b.b) if k == 0 else E(None, -b.A, -b.b)
        return E(f(), *bcast_add(E(None, a.A, a.b), nb))
    if k == 2:
        return E(-a.real, -a.A, -a.b)
    if k == 3:
        f = float(rng.normal() * 2)
        return E(a.real * f, a.A * f, a.b * f)
    if k == 4:
        f = float(rng.normal() * 2)
        return E(f * a.real, a.A * f, a.b * f)
    if k == 5:
        f = float(rng.normal())
        return E(a.real + f, a.A, a.b + f) if rng.random() < 0.5 else E(f + a.real, a.A, a.b + f)
    if k == 6:
        f = float(rng.normal())
        return E(a.real - f, a.A, a.b - f)
    if k == 7:
        f = float(rng.normal())
        return E(f - a.real, -a.A, f - a.b)
    if k == 8:
        v = rng.normal(size=n)
        return E(a.real + v, a.A, a.b + v) if rng.random() < 0.5 else E(a.real.__radd__(v), a.A, a.b + v)
    if k == 9:
        v = rng.normal(size=n)
        return E(a.real - v, a.A, a.b - v)
    if k == 10:
        v = rng.normal(size=n)
        return E(a.real.__rsub__(v), -a.A, v - a.b)
    if k == 11:
        r = int(rng.integers(1, 4))
        M = rng.normal(size=(r, n))
        return E(a.real.left_multiply(M), M @ a.A, M @ a.b)
    if k == 12:
        return E(a.real.sum(), a.A.sum(0, keepdims=True), [a.b.sum()])
    if k == 13:
        return E(a.real.mean(), a.A.mean(0, keepdims=True), [a.b.mean()])
    if k == 14:
        b = pool[int(rng.integers(0, len(pool)))]
        if n + len(b.b) > 8:
            return None
        return E(a.real / b.real, np.vstack([a.A, b.A]), np.concatenate([a.b, b.b]))
    if k == 15:
        s = int(rng.integers(0, n))
        r = int(rng.integers(1, n - s + 1))
        if rng.random() < 0.3:
            return E(a.real.slice(s, -1), a.A[s:], a.b[s:])
        return E(a.real.slice(s, r), a.A[s:s + r], a.b[s:s + r])
    b = pool[int(rng.integers(0, len(pool)))]
    if n == 1 and b.real.is_constant():
        return E(a.real * b.real, np.outer(b.b, a.A[0]), b.b * a.b[0])
    if len(b.b) == 1 and a.real.is_constant():
        return E(a.real * b.real, np.outer(a.b, b.A[0]), a.b * b.b[0])
    m.raises(lambda: a.real * b.real, "bilinear-product-accepted")
    return None


def check_expr(m, rng, e, key):
    x = rng.normal(size=N)
    got = np.atleast_1d(e.real.value(x))
    want = e(x)
    m.close(got, want, 1e-9 * (1 + np.abs(want).max() + np.abs(e.A).max()), key)
    m.ok(len(e.real) == len(e.b) == e.real.rows() and e.real.is_scalar() == (len(e.b) == 1), key + "-rows")


def algebra(m, rng, i):
    p = placo.Problem()
    vs = [p.add_variable(3), p.add_variable(1), p.add_variable(3)]
    pool = [leaf(rng, p, vs) for _ in range(4)]
    ops = 0
    for _ in range(int(rng.integers(3, 14))):
        a = pool[int(rng.integers(0, len(pool)))]
        before = (a.real.A.copy(), np.atleast_1d(a.real.b).copy())
        e = op(m, rng, a, pool)
        m.ok(np.array_equal(before[0], a.real.A) and np.array_equal(before[1], np.atleast_1d(a.real.b)), "operand-mutated")
        if e is None:
            continue
        ops += 1
        check_expr(m, rng, e, "homomorphism")
        if np.abs(e.A).max() < 1e4 and np.abs(e.b).max() < 1e4:
            pool.append(e)
    m.sig(*[np.asarray(e.b) for e in pool])
    m.sample(f"{ops} operations, final sizes {[len(e.b) for e in pool]}")


def misuse(m, rng, i):
    """Inconsistent sizes are refused, never read out of bounds."""
    p = placo.Problem()
    n = int(rng.integers(2, 5))
    v = p.add_variable(n)
    e = v.expr()
    bad = n + int(rng.integers(1, 40))
    k = i % 12
    f = [lambda: e + np.ones(bad), lambda: e - np.ones(bad), lambda: e.__rsub__(np.ones(bad)),
         lambda: e.left_multiply(np.ones((2, bad))), lambda: e.value(np.ones(n - 1)), lambda: e.slice(0, bad),
         lambda: e.slice(n, 1), lambda: v.expr(n, 1), lambda: v.expr(0, bad), lambda: e == np.ones(bad),
         lambda: e.slice(bad, -1), lambda: v.expr(bad, -1)][k]
    m.raises(f, f"misuse-accepted-{k}", f"n={n} bad={bad}")
    if k == 0:
        c = placo.Expression()
        c.A = np.ones((3, n + 2))
        c.b = np.ones(3)
        kind = bool(rng.random() < 0.5)
        p.add_constraint(c == 0.0 if kind else c >= 0.0).configure(str(rng.choice(["hard", "soft"])), 1.0)
        m.raises(p.solve, "oversized-constraint-accepted")
    m.sig(k, n, bad)
    m.sample(f"misuse {k} n={n} bad={bad}")


def relations(m, rng, i):
    """a >= b, a <= b, a == b keep exactly the points where the relation holds, whatever the operand types."""
    p = placo.Problem()
    vs = [p.add_variable(3), p.add_variable(1), p.add_variable(3)]
    while True:
        a = leaf(rng, p, vs)
        if not a.real.is_constant():
            break
    n = len(a.b)
    rhs = int(rng.integers(0, 3))
    rel = str(rng.choice([">=", "<=", "=="]))
    swap = bool(rng.random() < 0.5)
    if rhs == 0:
        r = float(rng.normal())
        R = E(None, np.zeros((n, N)), np.full(n, r))
    elif rhs == 1:
        r = rng.normal(size=n)
        R = E(None, np.zeros((n, N)), r)
        swap = False if rel == "==" else swap
    else:
        r = p and vs[int(rng.integers(0, 3))]
        size = r.k_end - r.k_start
        if size < n:
            m.skip()
        A = np.zeros((n, N))
        A[np.arange(n), r.k_start + np.arange(n)] = 1
        r = r.expr(0, n)
        R = E(None, A, np.zeros(n))
    if rhs == 1 and swap:
        c = {">=": a.real.__le__, "<=": a.real.__ge__}[rel](r)     # python's reflection of v >= e
    else:
        l_, r_ = (r, a.real) if swap else (a.real, r)
        c = (l_ >= r_) if rel == ">=" else (l_ <= r_) if rel == "<=" else (l_ == r_)
    L, Rr = (R, a) if swap else (a, R)
    for _ in range(3):
        x = rng.normal(size=N)
        d = L(x) - Rr(x)
        if rel == "<=":
            d = -d
        g = np.atleast_1d(c.expression.value(x))
        if rel == "==":
            m.ok(np.allclose(np.abs(g), np.abs(d), atol=1e-9), "equality-relation", lambda: f"{g} {d}")
        else:
            m.close(g, d, 1e-9 * (1 + np.abs(d).max()), "inequality-relation", f"{rel} swap={swap} rhs={rhs}")
    m.ok(c.priority == "hard", "default-priority", c.priority)
    # what a solver does with it: hard => satisfied, and reached when pulled from the wrong side
    c2 = p.add_constraint(c)
    tgt = rng.normal(size=N) * 3
    for v in vs:
        p.add_constraint(v.expr() == tgt[v.k_start:v.k_end]).configure("soft", 1.0)
    AA = np.vstack([L.A - Rr.A])
    sv = np.linalg.svd(AA, compute_uv=False)
    if len(AA) <= N and sv[-1] > 0.05:
        p.solve()
        x = np.asarray(p.x).ravel()[:N]
        d = L(x) - Rr(x)
        if rel == "<=":
            d = -d
        if rel == "==":
            m.ok(np.abs(d).max() < 1e-5, "hard-equality-relation", lambda: str(d))
        else:
            m.ok(d.min() > -1e-5, "hard-inequality-relation", lambda: str(d))
            d0 = L(tgt) - Rr(tgt)
            d0 = -d0 if rel == "<=" else d0
            if d0.min() > 0.01:
                m.close(x, tgt, 1e-4, "inactive-constraint-moves-optimum")
        m.count("relations_solved")
    m.sig(rel, swap, rhs, tgt)
    m.sample(f"{rel} swap={swap} rhs={['float', 'vector', 'expression'][rhs]} rows={n}")


def polygon(m, rng, i):
    """in_polygon(_xy): satisfied exactly by the points at distance >= margin inside the clockwise polygon."""
    P = convex_polygon(rng, radius=float(10 ** rng.uniform(-1, 0.5)), center=rng.normal(size=2))
    size = np.ptp(P, axis=0).max()
    margin = float(rng.choice([0.0, 0.02, 0.1])) * size
    p = placo.Problem()
    x = p.add_variable(2)
    pts = [v for v in P]
    if rng.random() < 0.5:
        c = placo.PolygonConstraint.in_polygon_xy(x.expr(), pts, margin)
    else:
        c = placo.PolygonConstraint.in_polygon(x.expr(0, 1), x.expr(1, 1), pts, margin)
    for _ in range(12):
        q = P.mean(0) + rng.normal(size=2) * size * 0.4
        got = np.min(np.atleast_1d(c.expression.value(q)))
        m.close(got, poly_margin(P, q) - margin, 1e-9 * (1 + size), "polygon-distance")
        m.count("points_inside" if got >= 0 else "points_outside")
    inner = poly_margin(P, P.mean(0)) - margin
    if inner > 0.01 * size:
        p.add_constraint(c)
        t = P.mean(0) + rng.normal(size=2) * 2 * size
        p.add_constraint(x.expr() == t).configure("soft", 1.0)
        p.solve()
        sol = np.asarray(p.x).ravel()
        m.ok(poly_margin(P, sol) >= margin - 1e-5 * (1 + size), "polygon-left", lambda: f"{poly_margin(P, sol)} {margin}")
        if poly_margin(P, t) > margin + 1e-4:
            m.close(sol, t, 1e-4 * (1 + np.abs(t).max()), "polygon-inside-target")
        # nearest point: no point of the shrunk polygon is closer to the target
        for _ in range(10):
            q = P.mean(0) + rng.uniform(0, 1) * (P[rng.integers(0, len(P))] - P.mean(0)) * 0.99
            if poly_margin(P, q) >= margin:
                m.ok(np.linalg.norm(q - t) >= np.linalg.norm(sol - t) - 1e-4 * (1 + size), "polygon-projection")
    m.raises(lambda: placo.PolygonConstraint.in_polygon_xy(x.expr(0, 1), pts, margin), "polygon-one-row-accepted")
    m.sig(P, margin)
    m.sample(f"{len(P)} vertices, margin {margin:.3g}")


def sparsity(m, rng, i):
    """Intervals stay sorted, disjoint and denote exactly the union of what was added / the non-zero columns."""
    def check(s, members, key):
        iv = np.asarray(s.intervals).reshape(-1, 2) if np.asarray(s.intervals).size else np.zeros((0, 2), int)
        got = set()
        last = -1
        for a, b in iv:
            m.ok(a <= b and a > last, key + "-order", lambda: str(iv.tolist()))
            last = b
            got |= set(range(int(a), int(b) + 1))
        m.ok(got == members, key, lambda: f"intervals {iv.tolist()} members {sorted(members)}")

    def rand():
        s, mem = placo.Sparsity(), set()
        for _ in range(int(rng.integers(0, 9))):
            a = int(rng.integers(0, 25))
            b = a + int(rng.integers(0, 8))
            s.add_interval(a, b)
            mem |= set(range(a, b + 1))
            check(s, mem, "interval-union")
        return s, mem
    (s, ms), (t, mt) = rand(), rand()
    check(s + t, ms | mt, "sparsity-sum")
    check(s, ms, "sum-mutates-operand")
    r, c = int(rng.integers(1, 6)), int(rng.integers(1, 25))
    M = rng.normal(size=(r, c)) * (rng.random(size=(r, c)) < 0.4) * (rng.random(c) < rng.random())
    M2_ = M if c > 1 else np.asfortranarray(M)
    cols = set(np.nonzero(np.abs(M).max(0) > 1e-9)[0].tolist())
    check(placo.Sparsity.detect_columns_sparsity(M2_), cols, "detect-columns")
    m.sig(sorted(ms), sorted(mt), M)
    m.sample(f"{sorted(ms)[:10]}.. + {sorted(mt)[:10]}.., columns {sorted(cols)}")


FAMILIES = {
    "expr_algebra": (algebra, 3000, 100000),
    "expr_misuse": (misuse, 240, 2400),
    "expr_relations": (relations, 2500, 60000),
    "expr_polygon": (polygon, 1200, 30000),
    "expr_sparsity": (sparsity, 2500, 60000),
}
