"""Geometry tools, splines, segments, masks, directions."""
import numpy as np
import placo
from vf.util import rand_rot, rand_T, log3, exp3, tf, rz, wrap, M2


def spline(m, rng, i):
    from scipy.interpolate import CubicHermiteSpline
    n = int(rng.integers(2, 8))
    t = np.cumsum(rng.uniform(0.05, 1.0, n)) + rng.normal()
    x, dx = rng.normal(size=n) * 3, rng.normal(size=n) * 3
    s = placo.CubicSpline()
    if rng.random() < 0.4:   # reuse after clear
        for k in range(3):
            s.add_point(float(k), float(rng.normal()), 0.0)
        s.pos(0.5)
        s.clear()
        m.close(s.pos(0.5), 0.0, 0, "cleared-spline")
    for k in range(n):
        s.add_point(float(t[k]), float(x[k]), float(dx[k]))
        if rng.random() < 0.2:
            s.pos(float(t[k]))   # interleaved queries must not freeze the spline
    if rng.random() < 0.3:
        m.raises(lambda: s.add_point(float(t[-1] - rng.uniform(0, 1)), 0.0, 0.0), "unordered-point-accepted")
    m.close(s.duration(), t[-1] - t[0], 1e-12, "duration")
    h = CubicHermiteSpline(t, x, dx)
    sc = 1e-7 * (1 + np.abs(x).max() + np.abs(dx).max())
    dmin = np.diff(t).min()
    for k in range(n):
        m.close(s.pos(float(t[k])), x[k], sc, "knot-value")
        m.close(s.vel(float(t[k])), dx[k], sc / dmin, "knot-speed")
    for q in rng.uniform(t[0], t[-1], 10):
        q = float(q)
        m.close(s.pos(q), h(q), sc, "hermite")
        m.close(s.vel(q), h(q, 1), sc / dmin, "hermite-speed")
        m.close(s.acc(q), h(q, 2), sc / dmin ** 2, "hermite-acc")
        m.count("instants_compared")
    m.close(s.pos(float(t[0] - 1)), x[0], sc, "clamped-start")
    m.close(s.pos(float(t[-1] + 1)), x[-1], sc, "clamped-end")
    m.sig(t, x, dx)
    m.sample(f"{n} knots over {t[-1]-t[0]:.3g}s")


def spline_angular(m, rng, i):
    n = int(rng.integers(2, 8))
    t = np.cumsum(rng.uniform(0.1, 1.0, n))
    x = rng.uniform(-8, 8, n)
    s = placo.CubicSpline(True)
    for k in range(n):
        s.add_point(float(t[k]), float(x[k]), 0.0)
    un = [x[0]]
    for k in range(1, n):
        d = wrap(x[k] - un[-1])
        if abs(abs(d) - np.pi) < 1e-6:
            m.skip()
        un.append(un[-1] + d)
    for k in range(n):
        m.close(s.pos(float(t[k])), un[k], 1e-7, "angular-knot")
        m.close(wrap(s.pos(float(t[k])) - x[k]), 0.0, 1e-7, "angular-knot-modulo")
    for k in range(n - 1):   # always the short way, monotonically (zero speed at both knots)
        v = [s.pos(float(a)) for a in np.linspace(t[k], t[k + 1], 8)]
        m.ok(np.ptp(v) <= np.pi + 1e-6, "angular-long-way", lambda: str(v))
    m.sig(t, x)
    m.sample(f"{n} angles {np.round(x, 2).tolist()}")


def spline3d(m, rng, i):
    from scipy.interpolate import CubicHermiteSpline
    n = int(rng.integers(2, 7))
    t = np.cumsum(rng.uniform(0.05, 1.0, n))
    x, dx = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    s = placo.CubicSpline3D()
    for k in range(n):
        s.add_point(float(t[k]), x[k], dx[k])
    m.close(s.duration(), t[-1] - t[0], 1e-12, "duration")
    h = CubicHermiteSpline(t, x, dx)
    d = np.diff(t).min()
    for q in rng.uniform(t[0], t[-1], 8):
        m.close(s.pos(float(q)), h(q), 1e-6, "pos")
        m.close(s.vel(float(q)), h(q, 1), 1e-6 / d, "vel")
        m.close(s.acc(float(q)), h(q, 2), 1e-6 / d ** 2, "acc")
    s.clear()
    s.add_point(0.0, x[0], dx[0])
    s.add_point(1.0, x[1], dx[1])
    m.close(s.pos(1.0), x[1], 1e-7, "reuse")
    m.sig(t, x)
    m.sample(f"{n} knots 3D")


def wrap_angle(m, rng, i):
    a = float(rng.choice([rng.uniform(-50, 50), rng.uniform(-4, 4), np.pi * rng.integers(-5, 6) + rng.normal() * 1e-3]))
    w = placo.wrap_angle(a)
    m.ok(-np.pi - 1e-12 <= w <= np.pi + 1e-12, "wrap-range", w)
    k = (a - w) / (2 * np.pi)
    m.ok(abs(k - round(k)) < 1e-9, "wrap-modulo", f"{a} {w}")
    R = rand_rot(rng)
    m.close(wrap(placo.frame_yaw(R) - np.arctan2(R[1, 0], R[0, 0])), 0, 1e-9, "frame-yaw")
    y = float(rng.uniform(-np.pi, np.pi))
    m.close(wrap(placo.frame_yaw(rz(y)) - y), 0, 1e-9, "yaw-of-rz")
    T = rand_T(rng, 3.0)
    if np.hypot(T[0, 0], T[1, 0]) > 1e-3:
        F = placo.flatten_on_floor(T)
        m.close(F, tf(rz(np.arctan2(T[1, 0], T[0, 0])), [T[0, 3], T[1, 3], 0]), 1e-9, "flatten")
        m.close(placo.flatten_on_floor(F), F, 1e-9, "flatten-idempotent")
    m.sig(a, T)
    m.sample(f"angle {a:.4g} -> {w:.4g}")


def interpolate(m, rng, i):
    A, B = rand_T(rng, 2.0), rand_T(rng, 2.0)
    if rng.random() < 0.2:
        B[:3, :3] = A[:3, :3] @ exp3(rng.normal(size=3) * 1e-4)
    w = log3(A[:3, :3].T @ B[:3, :3])
    if np.linalg.norm(w) > np.pi - 1e-2:
        m.skip()
    for s in (0.0, 1.0, float(rng.random()), float(rng.random())):
        T = placo.interpolate_frames(A, B, s)
        want = tf(A[:3, :3] @ exp3(w * s), A[:3, 3] * (1 - s) + B[:3, 3] * s)
        m.close(T, want, 1e-6, "interpolate", f"s={s}")
    m.sig(A, B)
    m.sample(f"angle {np.linalg.norm(w):.3g}")


def rotation_from_axis(m, rng, i):
    ax = "xyz"[i % 3]
    k = "xyz".index(ax)
    v = rng.normal(size=3)
    c = int(rng.integers(0, 5))
    e = np.eye(3)[k]
    if c == 0:
        v = e * rng.uniform(0.1, 3)
    elif c == 1:
        v = -e * rng.uniform(0.1, 3)
    elif c == 2:
        v = e + rng.normal(size=3) * 1e-6
    R = placo.rotation_from_axis(ax, v)
    m.close(R.T @ R, np.eye(3), 1e-8, "orthogonal")
    m.ok(np.linalg.det(R) > 0, "proper")
    m.close(R[:, k], v / np.linalg.norm(v), 1e-6, "axis-mapped", f"axis {ax} v={v}")
    m.raises(lambda: placo.rotation_from_axis("w", v), "unknown-axis-accepted")
    m.sig(ax, v)
    m.sample(f"{ax} -> {np.round(v, 3).tolist()}")


def optimal_transformation(m, rng, i):
    n = int(rng.integers(3, 12))
    T = rand_T(rng, 3.0)
    pB = rng.normal(size=(n, 3))
    if rng.random() < 0.3:
        pB[:, 2] = 0      # planar clouds: the reflection ambiguity must not leak
    noise = float(rng.choice([0, 0, 0.05, 0.5]))
    pA = pB @ T[:3, :3].T + T[:3, 3] + rng.normal(size=(n, 3)) * noise
    sv = np.linalg.svd(pB - pB.mean(0), compute_uv=False)
    if sv[1] < 0.2:
        m.skip()
    G = placo.optimal_transformation(pA, pB)
    R = G[:3, :3]
    m.close(R.T @ R, np.eye(3), 1e-8, "orthogonal")
    m.ok(np.linalg.det(R) > 0, "reflection", np.linalg.det(R))
    m.close(G[3], [0, 0, 0, 1], 0, "last-row")
    if noise == 0:
        m.close(G, T, 1e-6, "exact-recovery")
    cost = lambda X: ((pA - (pB @ X[:3, :3].T + X[:3, 3])) ** 2).sum()
    c0 = cost(G)
    for _ in range(12):
        d = tf(exp3(rng.normal(size=3) * 10 ** rng.uniform(-4, 0)), rng.normal(size=3) * 10 ** rng.uniform(-4, 0))
        X = G.copy()
        X[:3, :3] = d[:3, :3] @ R
        X[:3, 3] = pA.mean(0) - X[:3, :3] @ pB.mean(0) + d[:3, 3]
        m.ok(cost(X) >= c0 - 1e-9 * (1 + c0), "not-optimal", lambda: f"{cost(X)} < {c0}")
    k = int(rng.integers(0, 3))
    m.raises([lambda: placo.optimal_transformation(pA[:2], pB[:2]), lambda: placo.optimal_transformation(pA[:, :2], pB[:, :2]),
              lambda: placo.optimal_transformation(pA[:-1] if n > 3 else np.vstack([pA, pA]), pB)][k], "bad-shape-accepted")
    m.sig(pA, pB)
    m.sample(f"{n} points noise={noise}")


def mask(m, rng, i):
    a = placo.AxisesMask()
    Rl, Rc = rand_rot(rng), rand_rot(rng)
    a.R_local_world = Rl
    a.R_custom_world = Rc
    M = rng.normal(size=(3, int(rng.integers(2, 6))))
    m.close(M2(a.apply(M)), M, 0, "default-mask")
    for _ in range(3):
        axes = "".join(rng.permutation(list("xyz"))[:int(rng.integers(1, 4))])
        fr = str(rng.choice(["task", "local", "custom", "world"]))
        ax = axes.upper() if rng.random() < 0.3 else axes
        if fr == "task" and rng.random() < 0.5:
            a.set_axises(ax)
        else:
            a.set_axises(ax, fr)
        R = dict(task=np.eye(3), world=np.eye(3), local=Rl, custom=Rc)[fr]
        idx = ["xyz".index(c) for c in axes]
        m.close(M2(a.apply(M), len(idx), M.shape[1]), (R @ M)[idx], 1e-12, "mask", f"{axes} {fr}")
    m.raises(lambda: a.set_axises("xw", "task"), "bad-axis-accepted")
    m.raises(lambda: a.set_axises("x", "nowhere"), "bad-frame-accepted")
    m.sig(M, Rl)
    m.sample(f"{axes}/{fr}")


def directions(m, rng, i):
    n = int(rng.integers(2, 60))
    d2 = M2(placo.directions_2d(n), n, 2)
    m.close((d2 ** 2).sum(1), np.ones(n), 1e-9, "unit-2d")
    a = np.sort(np.arctan2(d2[:, 1], d2[:, 0]))
    gaps = np.diff(np.append(a, a[0] + 2 * np.pi))
    m.close(gaps, np.full(n, 2 * np.pi / n), 1e-8, "uniform-2d")
    d3 = M2(placo.directions_3d(n) if i % 2 else placo.directions_3d(n, float(rng.uniform(0.1, 1))), n, 3)
    m.close((d3 ** 2).sum(1), np.ones(n), 1e-9, "unit-3d")
    m.close(d3[:, 2], -d3[::-1, 2], 1e-9, "symmetric-3d")
    D = d3 @ d3.T - 2 * np.eye(n)
    m.ok(D.max() < 1 - 0.2 / n, "distinct-3d", lambda: f"closest {D.max()}")
    if n >= 20:
        m.ok(np.linalg.norm(d3.mean(0)) < 0.2, "balanced-3d", lambda: str(d3.mean(0)))
    m.sig(n, i)
    m.sample(f"n={n}")


def segment(m, rng, i):
    P = rng.normal(size=(4, 2)) * 2
    if rng.random() < 0.3:
        P = np.round(P)
    a, b, c, d = P
    v1, v2 = b - a, d - c
    if min(np.linalg.norm(v1), np.linalg.norm(v2)) < 0.05:
        m.skip()
    S, T = placo.Segment(a, b), placo.Segment(c, d)
    m.close(S.norm(), np.linalg.norm(v1), 1e-12, "norm")
    sin = (v1[0] * v2[1] - v1[1] * v2[0]) / np.linalg.norm(v1) / np.linalg.norm(v2)
    if abs(sin) < 1e-9:
        m.ok(S.is_parallel(T, 1e-5), "parallel-missed")
        m.raises(lambda: S.intersects(T), "parallel-intersection-accepted")
        m.raises(lambda: S.lines_intersection(T), "parallel-lines-accepted")
        m.count("parallel")
    elif abs(sin) > 1e-4:
        m.ok(not S.is_parallel(T, 1e-5), "parallel-false")
        L = np.linalg.solve(np.stack([v1, -v2], 1), c - a)
        pt = a + L[0] * v1
        m.close(S.lines_intersection(T), pt, 1e-7 / abs(sin), "lines-intersection")
        m.close(T.lines_intersection(S), pt, 1e-7 / abs(sin), "lines-intersection-sym")
        far = min(abs(L[0]), abs(L[0] - 1), abs(L[1]), abs(L[1] - 1)) > 1e-6
        if far:
            in1, in2 = 0 <= L[0] <= 1, 0 <= L[1] <= 1
            m.ok(S.intersects(T) == (in1 and in2) == T.intersects(S), "intersects", lambda: str(L))
            m.ok(S.line_pass_through(T) == in1, "line-pass-through", lambda: str(L))
            m.ok(S.half_line_pass_through(T) == (in1 and L[1] >= 0), "half-line", lambda: str(L))
            m.count("crossing" if in1 and in2 else "not_crossing")
    # points on / off the segment
    l = float(rng.uniform(-1, 2))
    n = np.array([-v1[1], v1[0]]) / np.linalg.norm(v1)
    if min(abs(l), abs(l - 1)) > 1e-3:
        p = a + l * v1
        m.ok(S.is_point_aligned(p, 1e-5), "aligned-missed")
        m.ok(S.is_point_in_segment(p, 1e-5) == (0 < l < 1), "point-in-segment", lambda: f"l={l}")
        off = p + n * np.linalg.norm(v1) * rng.choice([-1, 1]) * rng.uniform(0.01, 1)
        m.ok(not S.is_point_aligned(off, 1e-5), "aligned-false")
        m.ok(not S.is_point_in_segment(off, 1e-5), "in-segment-false")
        q = a + float(rng.uniform(0.1, 3)) * v1
        m.ok(S.is_segment_aligned(placo.Segment(p, q), 1e-5), "segment-aligned-missed")
        m.ok(not S.is_segment_aligned(placo.Segment(p, off), 1e-5), "segment-aligned-false")
    # attributes
    S.start, S.end = c, d
    m.close(S.start, c, 0, "start-roundtrip")
    m.close(S.end, d, 0, "end-roundtrip")
    m.close(S.norm(), np.linalg.norm(v2), 1e-12, "norm-after-set")
    m.sig(P)
    m.sample(f"{np.round(P, 2).tolist()}")


FAMILIES = {
    "tool_spline": (spline, 1200, 30000),
    "tool_spline_angular": (spline_angular, 800, 20000),
    "tool_spline3d": (spline3d, 400, 8000),
    "tool_angles": (wrap_angle, 1500, 40000),
    "tool_interpolate": (interpolate, 1500, 40000),
    "tool_axis_rotation": (rotation_from_axis, 900, 20000),
    "tool_optimal_transformation": (optimal_transformation, 800, 20000),
    "tool_mask": (mask, 600, 10000),
    "tool_directions": (directions, 200, 2000),
    "tool_segment": (segment, 2500, 60000),
}
