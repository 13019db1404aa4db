"""Humanoid walk: footsteps, supports, swing feet, pattern generation, replanning, walk tasks."""
import numpy as np
import placo
from vf.util import rand_rot, rand_T, log3, exp3, tf, rz, ry, rx, wrap, inv, poly_margin, convex_polygon, M2
from vf import robots
from vf.oracle import QP

LEFT, RIGHT = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right


def other(s):
    return RIGHT if s == LEFT else LEFT


def planar(rng, scale=0.5, yaw=np.pi, z=0.0):
    return tf(rz(rng.uniform(-yaw, yaw)), np.array([*rng.uniform(-scale, scale, 2), z]))


def se2(x, y, a):
    return tf(rz(a), np.array([x, y, 0.0]))


def yaw_of(T):
    return float(np.arctan2(T[1, 0], T[0, 0]))


def params(rng, walk=False):
    p = placo.HumanoidParameters()
    p.foot_width = float(rng.uniform(0.05, 0.12))
    p.foot_length = float(rng.uniform(0.1, 0.2))
    p.feet_spacing = p.foot_width + float(rng.uniform(0.03, 0.15))
    p.walk_max_dx_forward = float(rng.uniform(0.02, 0.12))
    p.walk_max_dx_backward = float(rng.uniform(0.02, 0.1))
    p.walk_max_dy = float(rng.uniform(0.02, 0.1))
    p.walk_max_dtheta = float(rng.uniform(0.05, 0.6))
    p.walk_dtheta_spacing = float(rng.choice([0.0, rng.uniform(0, 0.1)]))
    return p


def corners(T, w, l, margin=0.0):
    """Clockwise corners of a footstep on the floor"""
    out = []
    for sx, sy in ((-1, 1), (1, 1), (1, -1), (-1, -1)):
        out.append((T @ np.array([sx * (l / 2 + margin), sy * (w / 2 + margin), 0, 1.0]))[:2])
    return np.array(out)


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def seg_dist(a, b, c, d):
    def pt(p, a, b):
        e = b - a
        t = np.clip((p - a) @ e / (e @ e), 0, 1)
        return np.linalg.norm(p - a - t * e)
    r, s = b - a, d - c
    den = cross2(r, s)
    if abs(den) > 1e-14:
        t, u = cross2(c - a, s) / den, cross2(c - a, r) / den
        if 0 <= t <= 1 and 0 <= u <= 1:
            return 0.0
    return min(pt(a, c, d), pt(b, c, d), pt(c, a, b), pt(d, a, b))


def poly_gap(P, Q):
    """>0: distance between the disjoint convex polygons; <=0: minus the smallest penetration over edge normals"""
    depth = np.inf
    sep = -np.inf
    for A, B in ((P, Q), (Q, P)):
        for i in range(len(A)):
            e = A[(i + 1) % len(A)] - A[i]
            n = np.array([-e[1], e[0]]) / np.linalg.norm(e)   # outward of a clockwise polygon
            s = min((q - A[i]) @ n for q in B)
            sep = max(sep, s)
    if sep <= 0:
        return sep
    return min(seg_dist(P[i], P[(i + 1) % 4], Q[j], Q[(j + 1) % 4]) for i in range(len(P)) for j in range(len(Q)))


def same_hull(m, got, pts, key):
    got, pts = np.asarray(got), np.asarray(pts)
    m.ok(len(got) >= 3, key + "-size", lambda: str(got))
    for a in np.linspace(0, 2 * np.pi, 24, endpoint=False):
        d = np.array([np.cos(a), np.sin(a)])
        m.close((got @ d).max(), (pts @ d).max(), 1e-9, key + "-support")
    n = len(got)
    m.ok(all(cross2(got[(i + 1) % n] - got[i], got[(i + 2) % n] - got[(i + 1) % n]) <= 1e-12 for i in range(n)),
         key + "-not-clockwise", lambda: str(got))
    area = sum(cross2(got[i], got[(i + 1) % n]) for i in range(n))
    m.ok(area < 0, key + "-orientation", lambda: str(area))
    m.count("polygons_compared")


def mkfoot(w, l, side, T):
    f = placo.Footstep(w, l)
    f.side = side
    f.frame = T
    return f


def fs_polygon(m, rng, i):
    w, l = rng.uniform(0.02, 0.3, 2)
    T = planar(rng) if rng.random() < 0.7 else tf(rand_rot(rng, 0.5), rng.normal(size=3))
    f = mkfoot(w, l, LEFT, T)
    m.close(f.frame, T, 1e-12, "frame")
    for step in range(4):
        P = [np.asarray(x) for x in f.support_polygon()]
        m.ok(len(P) == 4, "polygon-size", str(P))
        V = f.support_polygon()
        m.close(np.array([V[k] for k in range(len(V))]), np.array(P), 0, "polygon-by-index")
        m.close(np.array(P), corners(T, w, l), 1e-9, "polygon") if step == 0 else None
        same_hull(m, P, corners(T, w, l), "polygon")
        u = rng.integers(0, 4)
        if u == 0:
            T = planar(rng)
            f.frame = T
        elif u == 1:
            T = T.copy()
            T[:2, 3] = rng.normal(size=2)
            f.set_frame_xy(float(T[0, 3]), float(T[1, 3]))
        elif u == 2:
            w = float(rng.uniform(0.02, 0.3))
            f.foot_width = w
        else:
            l = float(rng.uniform(0.02, 0.3))
            f.foot_length = l
    P = f.support_polygon()
    for _ in range(12):
        # points around the foot, in its frame
        q = (T @ np.array([*(rng.uniform(-0.8, 0.8, 2) * [l, w]), 0, 1]))[:2]
        mg = poly_margin(corners(T, w, l), q)
        if abs(mg) > 1e-9:
            m.ok(placo.Footstep.polygon_contains(P, q) == (mg > 0), "contains", lambda: f"{q} margin {mg}")
            m.count("inside" if mg > 0 else "outside")
    # any convex clockwise polygon
    C = convex_polygon(rng, radius=0.5)
    for _ in range(6):
        q = rng.uniform(-1, 1, 2)
        mg = poly_margin(C, q)
        if abs(mg) > 1e-9:
            V = placo.vector_Vector2d()
            V.extend(list(C))
            m.ok(placo.Footstep.polygon_contains(V, q) == (mg > 0), "contains-convex", lambda: f"{q} margin {mg}")
    m.sig(T, w, l)


def fs_overlap(m, rng, i):
    w, l = rng.uniform(0.02, 0.3, 2)
    w2, l2 = (w, l) if rng.random() < 0.5 else rng.uniform(0.02, 0.3, 2)
    Ta = planar(rng)
    mode = rng.integers(0, 4)
    if mode == 0:     # random around
        Tb = Ta @ se2(*rng.uniform(-0.5, 0.5, 2), rng.uniform(-np.pi, np.pi))
    elif mode == 1:   # crossing: long thin feet, corners outside each other
        w, l, w2, l2 = 0.04, 0.3, 0.04, 0.3
        Tb = Ta @ se2(*rng.uniform(-0.05, 0.05, 2), rng.uniform(1.2, 1.9))
    elif mode == 2:   # contained
        w2, l2 = w * 0.4, l * 0.4
        Tb = Ta @ se2(*(rng.uniform(-0.2, 0.2, 2) * [l, w]), rng.uniform(-0.2, 0.2))
    else:             # side by side
        Tb = Ta @ se2(rng.uniform(-0.05, 0.05), (w + w2) / 2 + rng.uniform(-0.05, 0.05), rng.uniform(-0.3, 0.3))
    margin = float(rng.choice([0.0, rng.uniform(0, 0.05)]))
    a, b = mkfoot(w, l, LEFT, Ta), mkfoot(w2, l2, RIGHT, Tb)
    gap = poly_gap(corners(Ta, w, l, margin), corners(Tb, w2, l2, margin))
    if abs(gap) < 1e-7:
        m.skip()
    for x, y in ((a, b), (b, a)):
        m.ok(x.overlap(y, margin) == (gap < 0), "overlap", lambda: f"mode {mode} gap {gap} margin {margin}")
    m.count("overlapping" if gap < 0 else "apart")
    m.sig(Ta, Tb, w, l, margin)


def fs_support(m, rng, i):
    w, l = rng.uniform(0.02, 0.3, 2)
    TL = planar(rng, z=float(rng.choice([0.0, rng.normal()])))
    TR = TL @ se2(*rng.uniform(-0.5, 0.5, 2), rng.uniform(-2.5, 2.5))
    fl, fr = mkfoot(w, l, LEFT, TL), mkfoot(w, l, RIGHT, TR)
    order = [fl, fr] if rng.random() < 0.5 else [fr, fl]
    sup = placo.Support()
    m.raises(lambda: sup.frame(), "empty-frame")
    m.raises(lambda: sup.side(), "empty-side")
    m.raises(lambda: sup.support_polygon(), "empty-polygon")
    sup.footsteps = order
    T = {LEFT: TL, RIGHT: TR}

    def check():
        m.ok(sup.is_both(), "is-both")
        m.raises(lambda: sup.side(), "side-of-double")
        M = np.asarray(sup.frame())
        m.close(M[:3, 3], (T[LEFT][:3, 3] + T[RIGHT][:3, 3]) / 2, 1e-9, "mid-position")
        d = log3(T[LEFT][:3, :3].T @ T[RIGHT][:3, :3])
        m.close(M[:3, :3], T[LEFT][:3, :3] @ exp3(d / 2), 1e-9, "mid-orientation")
        for s in (LEFT, RIGHT):
            m.close(sup.footstep_frame(s), T[s], 1e-12, "footstep-frame")
        same_hull(m, np.array([np.asarray(x) for x in sup.support_polygon()]),
                  np.vstack([corners(T[LEFT], w, l), corners(T[RIGHT], w, l)]), "hull")
    check()
    for _ in range(2):
        off = rng.normal(size=2)
        sup.apply_offset(off)
        for s in T:
            T[s] = T[s].copy()
            T[s][:2, 3] += off
        check()
        if rng.random() < 0.5:   # move one footstep in place
            k = int(rng.integers(0, 2))
            f = sup.footsteps[k]
            Tn = T[f.side] @ se2(*rng.uniform(-0.1, 0.1, 2), rng.uniform(-0.2, 0.2))
            f.frame = Tn
            T[f.side] = Tn
            check()
    s1 = placo.Support()
    s = LEFT if rng.random() < 0.5 else RIGHT
    s1.footsteps = [mkfoot(w, l, s, T[s])]
    m.ok(not s1.is_both() and s1.side() == s, "single-side")
    m.close(s1.frame(), T[s], 1e-12, "single-frame")
    m.raises(lambda: s1.footstep_frame(other(s)), "missing-footstep-frame")
    m.sig(TL, TR, w, l)


def fs_frames(m, rng, i):
    p = params(rng)
    T = rand_T(rng) if rng.random() < 0.3 else planar(rng)
    side = LEFT if rng.random() < 0.5 else RIGHT
    d = rng.normal(size=3) * 0.2
    sg = -1 if side == LEFT else 1
    O = T @ se2(d[0], sg * p.feet_spacing + d[1], d[2])
    pl = placo.FootstepsPlannerRepetitive(p)
    f = mkfoot(p.foot_width, p.foot_length, side, T)
    o = pl.opposite_footstep(f, *map(float, d))
    m.ok(o.side == other(side) and f.side == side, "opposite-side")
    m.close(o.frame, O, 1e-9, "opposite-footstep")
    m.close([o.foot_width, o.foot_length], [p.foot_width, p.foot_length], 0, "opposite-size")
    z = pl.opposite_footstep(f, 0., 0., 0.)
    m.close(pl.opposite_footstep(z, 0., 0., 0.).frame, T, 1e-9, "opposite-twice")
    # timings
    p.single_support_duration = float(rng.uniform(0.1, 2))
    p.single_support_timesteps = int(rng.integers(1, 30))
    p.double_support_ratio = float(rng.uniform(0, 2))
    p.startend_double_support_ratio = float(rng.uniform(0, 3))
    dt = p.single_support_duration / p.single_support_timesteps
    m.close(p.dt(), dt, 1e-12, "dt")
    for r, ts, du in ((p.double_support_ratio, p.double_support_timesteps(), p.double_support_duration()),
                      (p.startend_double_support_ratio, p.startend_double_support_timesteps(), p.startend_double_support_duration())):
        m.ok(abs(ts - r * p.single_support_timesteps) <= 0.5 + 1e-9, "timesteps", f"{ts} {r} {p.single_support_timesteps}")
        m.close(du, ts * dt, 1e-12, "duration")
    m.ok(p.has_double_support() == (p.double_support_timesteps() > 0), "has-double-support")
    m.sig(T, d)


NORMS = dict(ellipsoid=lambda u: np.linalg.norm(u), box=lambda u: np.abs(u).sum(),
             conic=lambda u: np.hypot(u[0], u[1]) + abs(u[2]))


def unit_step(p, step):
    f = np.array([p.walk_max_dx_forward if step[0] >= 0 else p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta])
    return step / f


def ref_clip(p, step, kind):
    u = unit_step(p, step)
    n = NORMS[kind](u)
    return step / n if n > 1 else step


def fs_clip(m, rng, i):
    p = params(rng)
    for kind in NORMS:
        clip = getattr(p, kind + "_clip")
        step = rng.normal(size=3) * np.array([p.walk_max_dx_forward, p.walk_max_dy, p.walk_max_dtheta]) * rng.choice([0.3, 1, 5])
        c = np.asarray(clip(step))
        n = NORMS[kind](unit_step(p, step))
        nc = NORMS[kind](unit_step(p, c))
        m.ok(nc <= 1 + 1e-9, "clip-outside", lambda: f"{kind} {step} -> {c} ({nc})")
        m.close(c, step / max(1.0, n), 1e-9, "clip-direction", kind)
        m.close(clip(c), c, 1e-9, "clip-idempotent", kind)
        m.count("clipped" if n > 1 else "unclipped")
        # the result lies on the overlap-free side
        side = LEFT if rng.random() < 0.5 else RIGHT
        g = np.asarray(getattr(p, kind + "_overlap_clip")(side, step))
        want = step.copy()
        want[1] += (-1 if side == LEFT else 1) * p.walk_dtheta_spacing * abs(step[2])
        want = ref_clip(p, want, kind)
        S = np.eye(4)

        def gap(st):
            sg = -1 if side == LEFT else 1
            return poly_gap(corners(S, p.foot_width, p.foot_length, 1e-2),
                            corners(se2(st[0], sg * p.feet_spacing + st[1], st[2]), p.foot_width, p.foot_length, 1e-2))
        if gap(want) > 1e-7:
            m.close(g, want, 1e-9, "overlap-clip-changes-a-valid-step", kind)
        elif gap(want) < -1e-7 and gap(np.zeros(3)) > 1e-3:
            s = (g @ want) / (want @ want)
            m.close(g, s * want, 1e-9, "overlap-clip-direction", kind)
            m.ok(-1e-9 <= s < 1, "overlap-clip-scale", f"{s}")
            m.ok(gap(g) > -1e-7, "overlap-clip-overlaps", lambda: f"{kind} {step} -> {g} gap {gap(g)}")
            # not more shrunk than needed (10 % resolution)
            m.ok(gap(g / 0.85) < 1e-7 or s / 0.85 > 1, "overlap-clip-too-small", lambda: f"{kind} {step} -> {g}")
            m.count("overlap_avoided")
    # a maximum of zero forbids this component
    q = params(rng)
    k = int(rng.integers(0, 3))
    if k == 0:
        q.walk_max_dx_forward = q.walk_max_dx_backward = 0.0
    elif k == 1:
        q.walk_max_dy = 0.0
    else:
        q.walk_max_dtheta = 0.0
    step = rng.normal(size=3) * 0.1
    kept = step.copy()
    kept[k] = 0
    for kind in NORMS:
        c = np.asarray(getattr(q, kind + "_clip")(step))
        f = np.array([q.walk_max_dx_forward if step[0] >= 0 else q.walk_max_dx_backward, q.walk_max_dy, q.walk_max_dtheta])
        f[k] = 1.0
        n = NORMS[kind](kept / f)
        m.close(c, kept / max(1.0, n), 1e-9, "clip-zero-maximum", kind)
    m.sig(step)


def fs_repetitive(m, rng, i):
    p = params(rng)
    pl = placo.FootstepsPlannerRepetitive(p)
    TL = planar(rng)
    TR = TL @ se2(rng.uniform(-0.05, 0.05), -p.feet_spacing, rng.uniform(-0.1, 0.1))
    side = LEFT if rng.random() < 0.5 else RIGHT
    for n in (int(rng.integers(0, 9)), int(rng.integers(1, 5))):
        d = rng.normal(size=3) * np.array([0.1, 0.08, 0.4])
        if rng.random() < 0.3:
            d *= 0.1
        pl.configure(float(d[0]), float(d[1]), float(d[2]), n)
        fs = pl.plan(side, TL, TR)
        m.ok(len(fs) == n + 2, "count", f"{len(fs)} for {n}")
        F = {LEFT: TL, RIGHT: TR}
        m.close(fs[0].frame, F[side], 1e-12, "initial-flying")
        m.close(fs[1].frame, F[other(side)], 1e-12, "initial-support")
        for k in range(len(fs)):
            m.ok(fs[k].side == (side if k % 2 == 0 else other(side)), "alternate", f"{k}")
            m.close([fs[k].foot_width, fs[k].foot_length], [p.foot_width, p.foot_length], 0, "size")
        for k in range(2, len(fs)):
            s = fs[k - 1].side
            sg = -1 if s == LEFT else 1
            R = inv(np.asarray(fs[k - 1].frame)) @ np.asarray(fs[k].frame)
            st = np.array([R[0, 3], R[1, 3] - sg * p.feet_spacing, yaw_of(R)])
            m.close(R[2, 3], 0.0, 1e-9, "planar")
            if k == len(fs) - 1:
                m.close(st, np.zeros(3), 1e-9, "last-step-not-neutral")
                continue
            m.ok(NORMS["conic"](unit_step(p, st)) <= 1 + 1e-9, "step-outside-limits", lambda: f"{st}")
            want = d.copy()
            want[1] += sg * p.walk_dtheta_spacing * abs(d[2])
            want = ref_clip(p, want, "conic")
            A = corners(np.asarray(fs[k - 1].frame), p.foot_width, p.foot_length, 1e-2)
            free = poly_gap(A, corners(np.asarray(fs[k - 1].frame) @ se2(want[0], sg * p.feet_spacing + want[1], want[2]),
                                       p.foot_width, p.foot_length, 1e-2))
            if free > 1e-7:
                m.close(st, want, 1e-9, "step")
                m.count("steps_exact")
            elif free < -1e-7 and p.feet_spacing > p.foot_width + 2.2e-2:
                g = poly_gap(A, corners(np.asarray(fs[k].frame), p.foot_width, p.foot_length, 1e-2))
                m.ok(g > -1e-7, "step-overlaps", lambda: f"{st} gap {g}")
                m.close(st * np.linalg.norm(want), want * np.linalg.norm(st), 1e-9, "step-direction")
                m.count("steps_shrunk")
        m.count("plans")
    m.sig(TL, d, n)
    m.sample(f"{n} steps of {np.round(d, 3).tolist()}")


def fs_naive(m, rng, i):
    p = params(rng)
    p.walk_max_dx_backward = float(rng.uniform(0.05, 0.1))
    p.walk_max_dtheta = float(rng.uniform(0.2, 0.6))
    p.walk_max_dx_forward = float(rng.uniform(0.05, 0.12))
    p.walk_max_dy = float(rng.uniform(0.03, 0.1))
    pl = placo.FootstepsPlannerNaive(p)
    TL = planar(rng)
    TR = TL @ se2(rng.uniform(-0.03, 0.03), -p.feet_spacing, rng.uniform(-0.1, 0.1))
    mid = TL @ se2(0, -p.feet_spacing / 2, 0) @ se2(*rng.uniform(-1, 1, 2) * rng.choice([0.05, 0.4, 1]), rng.uniform(-np.pi, np.pi))
    GL, GR = mid @ se2(0, p.feet_spacing / 2, 0), mid @ se2(0, -p.feet_spacing / 2, 0)
    pl.configure(GL, GR)
    side = LEFT if rng.random() < 0.5 else RIGHT
    fs = pl.plan(side, TL, TR)
    F = {LEFT: TL, RIGHT: TR}
    m.close(fs[0].frame, F[side], 1e-12, "initial-flying")
    m.close(fs[1].frame, F[other(side)], 1e-12, "initial-support")
    m.ok(len(fs) <= 102, "too-many-steps", str(len(fs)))
    last = {}
    for k in range(len(fs)):
        s = fs[k].side
        m.ok(s == (side if k % 2 == 0 else other(side)), "alternate", f"{k}")
        last[s] = np.asarray(fs[k].frame)
        if k >= 2:
            sg = -1 if fs[k - 1].side == LEFT else 1
            R = inv(np.asarray(fs[k - 1].frame)) @ last[s]
            st = np.array([R[0, 3], R[1, 3] - sg * p.feet_spacing, yaw_of(R)])
            m.ok(NORMS["ellipsoid"](unit_step(p, st)) <= 1 + 1e-9, "step-outside-limits", lambda: f"{st}")
            m.count("steps")
    m.ok(len(fs) < 102, "target-not-reached", lambda: f"{len(fs)} footsteps")
    m.close(last[LEFT], GL, 1e-5, "left-target")
    m.close(last[RIGHT], GR, 1e-5, "right-target")
    m.sig(TL, mid)
    m.sample(f"{len(fs)} footsteps")


def rand_footsteps(rng, p, n, T=None, spread=1.0, first=None):
    """n alternating footsteps close to a walk"""
    side = first if first is not None else (LEFT if rng.random() < 0.5 else RIGHT)
    T = planar(rng) if T is None else T
    fs = [mkfoot(p.foot_width, p.foot_length, side, T)]
    for k in range(n - 1):
        sg = -1 if side == LEFT else 1
        T = T @ se2(spread * rng.uniform(-0.04, 0.07), sg * (p.feet_spacing + spread * rng.uniform(0, 0.02)), spread * rng.uniform(-0.25, 0.25))
        side = other(side)
        fs.append(mkfoot(p.foot_width, p.foot_length, side, T))
    return fs


def same_foot(f, g):
    return f.side == g.side and np.allclose(np.asarray(f.frame), np.asarray(g.frame), atol=1e-9)


def fs_supports(m, rng, i):
    p = params(rng)
    n = int(rng.integers(0, 9))
    fs = rand_footsteps(rng, p, n) if n else []
    t0 = float(rng.normal())
    start, middle, end = [bool(b) for b in rng.integers(0, 2, 3)]
    mk = lambda: placo.FootstepsPlanner.make_supports(fs, t0, start, middle, end)
    if end and n < 2:
        m.raises(mk, "end-without-footsteps")
        m.sig(n, "raise", t0)
        return
    sup = mk()
    want = []   # (indices, start, end, t_start)
    if n > 2:
        if start:
            want.append(([0, 1], True, False, t0))
        else:
            want.append(([0], False, False, t0))
            if middle:
                want.append(([0, 1], False, False, t0))
        for k in range(1, n - 1):
            want.append(([k], False, False, -1.0))
            if middle and k != n - 2:
                want.append(([k, k + 1], False, False, -1.0))
    if end:
        want.append(([n - 2, n - 1], False, True, -1.0))
    m.ok(len(sup) == len(want), "count", f"{len(sup)} != {len(want)} for n={n} {start, middle, end}")
    for s, (idx, st, en, ts) in zip(sup, want):
        m.ok(len(s.footsteps) == len(idx) and all(same_foot(s.footsteps[a], fs[b]) for a, b in enumerate(idx)),
             "footsteps", f"n={n} {start, middle, end} want {idx}")
        m.ok(s.start == st and s.end == en, "flags", f"{s.start, s.end} want {st, en}")
        m.close(s.t_start, ts, 0, "t_start")
        m.close([s.elapsed_ratio, s.time_ratio], [0, 1], 0, "ratios")
        m.count("supports")
    # truncating keeps the head, and closes it with a double support of the feet of the cut
    L = len(sup)
    if L:
        for idx in {1, int(rng.integers(1, L + 1)), L}:
            ae = bool(rng.integers(0, 2))
            tr = lambda: placo.FootstepsPlanner.truncate_supports(sup, idx, ae)
            closes = ae and not sup[idx - 1].end
            if closes and idx == L:
                m.raises(tr, "truncate-nothing-after")
                continue
            h = tr()
            m.ok(len(h) == idx + closes, "truncate-count", f"{len(h)} {idx} {closes}")
            for k in range(idx):
                m.ok(len(h[k].footsteps) == len(sup[k].footsteps)
                     and all(same_foot(a, b) for a, b in zip(h[k].footsteps, sup[k].footsteps)), "truncate-head", str(k))
            if closes:
                e = h[idx]
                m.ok(e.end and e.is_both(), "truncate-end")
                m.ok(e.footsteps[0].side != e.footsteps[1].side, "truncate-end-sides")
                near = list(sup[idx - 1].footsteps) + list(sup[idx].footsteps)
                m.ok(all(any(same_foot(f, g) for g in near) for f in e.footsteps), "truncate-end-footsteps")
            m.count("truncations")
        for bad in (0, -1, L + 1):
            m.raises(lambda: placo.FootstepsPlanner.truncate_supports(sup, bad, False), "truncate-out-of-range")
    m.sig(n, start, middle, end, t0)


# ---------------------------------------------------------------------------------------------------------------- swing feet
def hermite(ts, xs, vs):
    from scipy.interpolate import CubicHermiteSpline
    return CubicHermiteSpline(np.array(ts), np.array(xs), np.array(vs))


def time_origin(rng):
    return float(rng.choice([0.0, rng.normal(), rng.uniform(10, 100), rng.uniform(1e3, 1e4)]))


def swing_cubic(m, rng, i):
    t0 = time_origin(rng)
    D = float(rng.uniform(0.2, 1.5))
    h = float(rng.uniform(0.02, 0.15))
    rise = float(rng.choice([0.0, rng.uniform(0.05, 0.9)]))
    a, b = rng.uniform(-0.3, 0.3, 3), rng.uniform(-0.3, 0.3, 3)
    a[2], b[2] = rng.uniform(-0.02, 0.02, 2) * rng.integers(0, 2)
    el, v0 = 0.0, np.zeros(3)
    if rng.random() < 0.6:
        el = float(rng.uniform(0, 0.95))
        v0 = rng.normal(size=3) * 0.3
        a[2] = rng.uniform(0, h)
    tr = placo.SwingFootCubic.make_trajectory(t0, D, h, rise, a, b, el, v0)
    tv, te = t0 - el * D, t0 + (1 - el) * D
    knots = [(t0, a[2], v0[2])]
    up = [tv + D / 2 - D / 2 * rise, tv + D / 2 + D / 2 * rise] if rise > 0 else [tv + D / 2]
    if any(abs(u - t0) < 1e-6 for u in up):
        m.skip()
    knots += [(u, h, 0.0) for u in up if u > t0] + [(te, b[2], 0.0)]
    zs = hermite(*zip(*knots))
    xy = hermite([t0, te], [a[:2], b[:2]], [v0[:2], [0, 0]])
    eps = 1e-9 * (1 + abs(t0))
    vmax = 1 + np.abs(v0).max() + 2 * np.abs(a - b).max() / (te - t0) + h / min(np.diff([k[0] for k in knots]))
    tol = 1e-7 + 10 * vmax * eps / min(1, min(np.diff([k[0] for k in knots])))
    for t in [t0, te, *rng.uniform(t0, te, 8), *[k[0] for k in knots]]:
        t = float(t)
        m.close(tr.pos(t), [*xy(t), zs(t)], tol, "position", f"el={el} rise={rise}")
        m.close(tr.vel(t), [*xy(t, 1), zs(t, 1)], tol * 50 / min(1, min(np.diff([k[0] for k in knots]))), "velocity", f"el={el} rise={rise}")
        m.count("instants_compared")
    if el == 0:
        zz = [tr.pos(float(t))[2] for t in np.linspace(t0, te, 33)]
        m.ok(max(zz) <= h + 1e-6 and max(zz) >= h - 1e-3 * h - 0.05 * h * (rise == 0), "apex", lambda: f"{max(zz)} for {h}")
        m.ok(min(zz) >= min(a[2], b[2]) - 1e-6, "below-ground", lambda: f"{min(zz)}")
    m.sig(a, b, D, el, rise)


def _poly_swing(m, rng, cls, quintic):
    t0 = time_origin(rng)
    D = float(rng.uniform(0.2, 1.5))
    h = float(rng.uniform(0.02, 0.15))
    a, b = rng.uniform(-0.3, 0.3, 3), rng.uniform(-0.3, 0.3, 3)
    a[2], b[2] = rng.uniform(-0.02, 0.02, 2) * rng.integers(0, 2)
    te = t0 + D
    tr = cls.make_trajectory(t0, te, h, a, b)
    ulp = 1e-15 * (1 + abs(t0)) / D * 100
    tol = 1e-8 + 10 * ulp
    m.close(tr.pos(t0), a, tol, "start")
    m.close(tr.pos(te), b, tol, "end")
    m.close(tr.vel(t0)[:2], [0, 0], 10 * tol / D, "start-velocity")
    m.close(tr.vel(te)[:2], [0, 0], 10 * tol / D, "end-velocity")
    m.close(tr.pos(t0 + D / 4)[2], h, tol, "height-quarter")
    m.close(tr.pos(t0 + 3 * D / 4)[2], h, tol, "height-three-quarters")
    if quintic:
        m.close(tr.vel(t0)[2], 0, 10 * tol / D, "start-velocity-z")
        m.close(tr.vel(te)[2], 0, 10 * tol / D, "end-velocity-z")
    for t in rng.uniform(t0 + 0.05 * D, te - 0.05 * D, 8):
        t = float(t)
        s = (t - t0) / D
        w = 6 * s ** 5 - 15 * s ** 4 + 10 * s ** 3 if quintic else 3 * s ** 2 - 2 * s ** 3
        m.close(tr.pos(t)[:2], a[:2] + w * (b - a)[:2], 10 * tol, "path")
        e = 1e-3 * D
        fd = (np.asarray(tr.pos(t + e)) - np.asarray(tr.pos(t - e))) / (2 * e)
        m.close(tr.vel(t), fd, 1e-4 + 20 * tol / e, "velocity-is-derivative", rel=1e-4)
        m.count("instants_compared")
    m.sig(a, b, D, t0)
    return tr, t0, te, D, tol


def swing_poly(m, rng, i):
    tr, t0, te, D, tol = _poly_swing(m, rng, placo.SwingFoot, False)
    for _ in range(2):   # retarget during the flight, twice
        t = float(rng.uniform(t0 + 0.1 * D, te - 0.2 * D))
        b2 = rng.uniform(-0.3, 0.3, 3)
        b2[2] = 0.0
        tr2 = placo.SwingFoot.remake_trajectory(tr, t, b2)
        k = 1e3 / ((te - t) / D) ** 3
        m.close(tr2.pos(t), tr.pos(t), k * tol, "retarget-position")
        m.close(tr2.vel(t), tr.vel(t), k * tol / D * 10, "retarget-velocity")
        m.close(tr2.pos(te)[:2], b2[:2], k * tol, "retarget-end")
        m.close(tr2.vel(te)[:2], [0, 0], k * tol / D * 10, "retarget-end-velocity")
        for q in rng.uniform(t0, te, 4):
            m.close(tr2.pos(float(q))[2], tr.pos(float(q))[2], tol, "retarget-changes-height")
        tr = tr2
        m.count("retargets")


def swing_quintic(m, rng, i):
    _poly_swing(m, rng, placo.SwingFootQuintic, True)


# ---------------------------------------------------------------------------------------------------------- pattern generator
_robot = []


def walk_robot():
    if not _robot:
        _robot.append(robots.sigmaban_ps())
    return _robot[0].robot


def walk_params(rng):
    p = params(rng)
    p.foot_width = float(rng.uniform(0.06, 0.12))
    p.feet_spacing = p.foot_width + float(rng.uniform(0.03, 0.1))
    p.single_support_timesteps = int(rng.integers(4, 13))
    p.single_support_duration = float(rng.uniform(0.3, 1.0))
    p.double_support_ratio = float(rng.choice([0.0, rng.uniform(0.2, 1)]))
    p.startend_double_support_ratio = float(rng.uniform(0.7, 2.0))
    p.walk_com_height = float(rng.uniform(0.25, 0.8))
    p.walk_trunk_pitch = float(rng.uniform(-0.3, 0.3))
    p.walk_foot_height = float(rng.uniform(0.02, 0.08))
    p.walk_foot_rise_ratio = float(rng.choice([0.0, rng.uniform(0.05, 0.8)]))
    p.zmp_margin = float(rng.uniform(0, 0.02))
    p.zmp_reference_weight = float(rng.choice([0.1, rng.uniform(0.01, 1.0)]))
    if rng.random() < 0.5:
        p.foot_zmp_target_x = float(rng.uniform(-1, 1) * p.foot_length * 0.6)
        p.foot_zmp_target_y = float(rng.uniform(-1, 1) * p.foot_width * 0.6)
    return p


class Part:
    def __init__(self, feet, t0, t1, n, both, start, end, time_ratio=1.0, elapsed=0.0):
        self.feet, self.t0, self.t1, self.n, self.both, self.start, self.end = feet, t0, t1, n, both, start, end
        self.time_ratio, self.elapsed = time_ratio, elapsed


def frame_of(feet):
    F = list(feet.values())
    if len(F) == 1:
        return F[0]
    R = F[0][:3, :3] @ exp3(log3(F[0][:3, :3].T @ F[1][:3, :3]) / 2)
    return tf(R, (F[0][:3, 3] + F[1][:3, 3]) / 2)


def expected_parts(p, supports, t):
    """Timing of the phases from the parameters, independently from the generator"""
    out = []
    dt = p.single_support_duration / p.single_support_timesteps
    for s in supports:
        both = len(s.footsteps) == 2
        ts = p.single_support_timesteps
        if both:
            ts = round_half_away((p.startend_double_support_ratio if s.start or s.end else p.double_support_ratio) * ts)
        dur = ts * dt * s.time_ratio * (1 - s.elapsed_ratio)
        raw = (1 - s.elapsed_ratio) * ts
        if s.elapsed_ratio and abs(raw - round(raw)) < 1e-6:
            raise Ambiguous()
        feet = {f.side: np.asarray(f.frame).copy() for f in s.footsteps}
        out.append(Part(feet, t, t + dur, max(1, int(raw + 1e-9)), both, s.start, s.end, s.time_ratio, s.elapsed_ratio))
        t += dur
    return out


class Ambiguous(Exception):
    pass


def round_half_away(x):
    return int(np.floor(x + 0.5))


class Knots:
    """Angular Hermite spline"""

    def __init__(self):
        self.t, self.x, self.v = [], [], []

    def add(self, t, x, v=0.0):
        if self.x:
            x = self.x[-1] + wrap(x - self.x[-1])
        self.t.append(t)
        self.x.append(x)
        self.v.append(v)

    def __call__(self, t, d=0):
        if len(self.t) == 1:
            return self.x[0] if d == 0 else 0.0
        t = np.clip(t, self.t[0], self.t[-1])
        return float(hermite(self.t, self.x, self.v)(t, d))


def rz_close(m, got, want, tol, key, d=""):
    m.close(wrap(np.asarray(got) - np.asarray(want)), np.zeros_like(np.asarray(want, dtype=float)), tol, key, d)


def check_walk(m, rng, tr, w, p, parts, init, soft=False, old=None, t_replan=None):
    """The whole specification of a walk trajectory, observed through its public queries. init: (pos, vel, acc) of the CoM."""
    om2 = 9.80665 / p.walk_com_height
    om = np.sqrt(om2)
    t0, t1 = parts[0].t0, parts[-1].t1
    eps = 1e-9 * (1 + abs(t0))
    m.close([tr.t_start, tr.t_end], [t0, t1], 1e-9 * (1 + abs(t1)), "timing")
    m.close([tr.com_target_z, tr.trunk_pitch, tr.trunk_roll], [p.walk_com_height, p.walk_trunk_pitch, 0.0], 0, "constants")
    sups = tr.get_supports()
    m.ok(len(sups) == len(parts), "supports-count", f"{len(sups)} {len(parts)}")
    if len(sups) != len(parts):
        return
    # ---- phases
    L = list(tr.parts)
    m.close(np.array([[x.t_start, x.t_end] for x in L]), np.array([[pa.t0, pa.t1] for pa in parts]), 1e-9 * (1 + abs(t1)), "parts")
    m.ok(all(x.support.is_both() == pa.both for x, pa in zip(L, parts)), "parts-supports")
    for k, pa in enumerate(parts):
        for t in rng.uniform(pa.t0 + 0.02 * (pa.t1 - pa.t0), pa.t1 - 0.02 * (pa.t1 - pa.t0), 2):
            t = float(t)
            m.close([tr.get_part_t_start(t), tr.get_part_t_end(t)], [pa.t0, pa.t1], 1e-9 * (1 + abs(t1)), "part-times")
            m.ok(tr.support_is_both(t) == pa.both, "support-is-both")
            if not pa.both:
                m.ok(tr.support_side(t) == list(pa.feet)[0], "support-side")
            for j, q in ((0, tr.get_support(t)), (1, tr.get_next_support(t, 1)), (-1, tr.get_prev_support(t, 1)),
                         (2, tr.get_next_support(t, 2)), (-3, tr.get_prev_support(t, 3))):
                e = parts[int(np.clip(k + j, 0, len(parts) - 1))]
                m.ok(len(q.footsteps) == len(e.feet) and all(
                    f.side in e.feet and np.allclose(np.asarray(f.frame), e.feet[f.side], atol=1e-9) for f in q.footsteps),
                    "support-query", f"offset {j} from part {k}")
                m.ok(q.start == e.start and q.end == e.end, "support-flags", f"offset {j}")
            m.close(tr.get_part_end_dcm(t, om), tr.get_p_world_DCM(pa.t1, om), 1e-9, "part-end-dcm")
            m.close(tr.get_support(t).target_world_dcm, tr.get_p_world_DCM(pa.t1, om), 1e-7, "support-target-dcm")
            m.count("phase_queries")
    # ---- CoM: exact integration of piecewise-constant jerks, ZMP constraints, optimality
    tot = 2 * sum(pa.n for pa in parts)
    qp = QP(tot, 1e-8)
    X = np.zeros(tot)
    Sx, Sy = np.zeros((3, tot)), np.zeros((3, tot))
    st = np.array([[init[d][a] for d in range(3)] for a in range(2)])   # rows: x, y
    z = np.array([1, 0, -1 / om2])
    k = 0
    s0 = st.copy()
    cst = s0.copy()
    for pa in parts:
        dt = (pa.t1 - pa.t0) / pa.n
        A, B = np.array([[1, dt, dt * dt / 2], [0, 1, dt], [0, 0, 1]]), np.array([dt ** 3 / 6, dt * dt / 2, dt])
        P = hull_of(pa.feet, p)
        F = frame_of(pa.feet)
        off = np.zeros(3)
        if not pa.both:
            off = np.array([p.foot_zmp_target_x, (1 if list(pa.feet)[0] == LEFT else -1) * p.foot_zmp_target_y, 0])
        ztgt = (F[:3, :3] @ off + F[:3, 3])[:2]
        for s in range(pa.n):
            ta = pa.t0 + s * dt
            J = np.asarray(tr.get_j_world_CoM(ta + 0.5 * dt))[:2]
            X[k + s], X[k + pa.n + s] = J
            # inside the step
            u = float(rng.uniform(0.05, 0.95)) * dt
            Au, Bu = np.array([[1, u, u * u / 2], [0, 1, u], [0, 0, 1]]), np.array([u ** 3 / 6, u * u / 2, u])
            q = st @ Au.T + np.outer(J, Bu)
            sc = 1e-7 * (1 + np.abs(q).max() + np.abs(J).max() * 1e-2) * (1 + abs(t0) * 1e-2)
            m.close(tr.get_p_world_CoM(ta + u), [q[0, 0], q[1, 0], p.walk_com_height], sc, "com-position")
            m.close(tr.get_v_world_CoM(ta + u), [q[0, 1], q[1, 1], 0], sc * 10, "com-velocity")
            m.close(tr.get_a_world_CoM(ta + u), [q[0, 2], q[1, 2], 0], sc * 100, "com-acceleration")
            m.close(tr.get_j_world_CoM(ta + u), [*J, 0], 1e-7 * (1 + np.abs(J).max()), "com-jerk")
            m.close(tr.get_p_world_DCM(ta + u, om), q[:, 0] + q[:, 1] / om, sc * 10, "dcm")
            m.close(tr.get_p_world_ZMP(ta + u, om), q[:, 0] - q[:, 2] / om2, sc * 100, "zmp")
            if not pa.both:
                S = inv(pa.feet[list(pa.feet)[0]])
                c = S @ np.array([q[0, 0], q[1, 0], p.walk_com_height, 1.0])
                v = S[:3, :3] @ np.array([q[0, 1], q[1, 1], 0])
                m.close(tr.get_p_support_CoM(ta + u), c[:3], sc * 10, "com-in-support")
                m.close(tr.get_v_support_CoM(ta + u), v, sc * 10, "com-velocity-in-support")
                m.close(tr.get_p_support_DCM(ta + u, om), (c[:3] + v / om)[:2], sc * 10, "dcm-in-support")
            st = st @ A.T + np.outer(J, B)
            Sx, Sy = A @ Sx, A @ Sy
            Sx[:, k + s] += B
            Sy[:, k + pa.n + s] += B
            cst = cst @ A.T
            zmp = st @ z
            mg = poly_margin(P, zmp)
            if not soft:
                m.ok(mg >= p.zmp_margin - 1e-6, "zmp-outside-support", lambda: f"margin {mg} < {p.zmp_margin} at step {s} of a phase")
                m.count("zmp_on_border", int(mg < p.zmp_margin + 1e-6))
            m.count("zmp_checked")
            zx, zy, b = z @ Sx, z @ Sy, cst @ z
            for e in range(len(P)):
                d = P[(e + 1) % len(P)] - P[e]
                nr = np.array([d[1], -d[0]]) / np.linalg.norm(d)
                qp.ge(nr[0] * zx + nr[1] * zy, nr @ (b - P[e]) - p.zmp_margin, w.zmp_in_support_weight if soft else None, "zmp")
            qp.eq(np.array([zx, zy]), ztgt - b, p.zmp_reference_weight)
        if pa.end:
            G = np.array([[F[0, 3], 0, 0], [F[1, 3], 0, 0]])
            qp.eq(np.vstack([Sx, Sy]), (G - cst).ravel(), w.stop_end_support_weight if soft else None, "stop")
            if not soft:
                m.close(tr.get_p_world_CoM(pa.t1)[:2], F[:2, 3], 1e-6, "com-end-position")
                m.close(tr.get_v_world_CoM(pa.t1), np.zeros(3), 1e-5, "com-end-velocity")
                m.close(tr.get_a_world_CoM(pa.t1), np.zeros(3), 1e-4, "com-end-acceleration")
        k += 2 * pa.n
    if not soft:
        qp.optimal(m, X, "com-not-optimal", tol=1e-11, act_abs=2e-7)
    elif tot < 140:
        qp.soft_optimal(m, X, "com-not-optimal-soft", coarse=soft == "coarse")
    # ---- feet
    yaw = {LEFT: Knots(), RIGHT: Knots()}
    trunk = Knots()
    if old is None:
        trunk.add(t0, yaw_of(frame_of(parts[0].feet)))
    else:
        trunk.add(t0, old["trunk"], old["trunk_v"])
    for s, T in parts[0].feet.items():
        yaw[s].add(t0, yaw_of(T))
    if old is not None and not parts[0].both:
        fl = other(list(parts[0].feet)[0])
        yaw[fl].add(t0, old["yaw"], old["yaw_v"])
    has_double = round_half_away(p.double_support_ratio * p.single_support_timesteps) > 0
    swing = {}
    for j, pa in enumerate(parts):
        for s, T in pa.feet.items():
            yaw[s].add(pa.t1, yaw_of(T))
        if pa.both:
            trunk.add(pa.t1, yaw_of(frame_of(pa.feet)))
        else:
            fl = other(list(pa.feet)[0])
            nxt = parts[j + 1].feet[fl]
            yaw[fl].add(pa.t1, yaw_of(nxt))
            if not has_double:
                trunk.add(pa.t1, yaw_of(nxt))
            D = (pa.t1 - pa.t0) / (1 - pa.elapsed)
            tv = pa.t0 - pa.elapsed * D
            if j == 0 and old is not None:
                a, v0 = old["pos"], old["vel"]
            else:
                a, v0 = parts[j - 1].feet[fl][:3, 3], np.zeros(3)
            r, h = p.walk_foot_rise_ratio, p.walk_foot_height
            up = [tv + D / 2 - D / 2 * r, tv + D / 2 + D / 2 * r] if r > 0 else [tv + D / 2]
            up = [u for u in up if u > pa.t0]
            if any(u < pa.t0 + 1e-6 * D for u in up):
                raise Ambiguous()
            kz = [(pa.t0, a[2], v0[2])] + [(u, h, 0.0) for u in up] + [(pa.t1, nxt[2, 3], 0.0)]
            swing[j] = (hermite([pa.t0, pa.t1], [a[:2], nxt[:2, 3]], [v0[:2], [0, 0]]), hermite(*zip(*kz)),
                        min(np.diff([q[0] for q in kz])))
    get = {LEFT: tr.get_T_world_left, RIGHT: tr.get_T_world_right}
    for j, pa in enumerate(parts):
        L = pa.t1 - pa.t0
        for t in [pa.t0 + 1e-6 * L, *rng.uniform(pa.t0, pa.t1, 3), pa.t1 - 1e-6 * L]:
            t = float(t)
            for s in (LEFT, RIGHT):
                T = np.asarray(get[s](t))
                v = np.asarray(tr.get_v_world_foot(s, t))
                if s == RIGHT:
                    m.close(tr.get_v_world_right(t), v, 0, "right-foot-velocity")
                m.close(T[:3, :3], rz(yaw[s](t)), 2e-6 * (1 + abs(t0) * 1e-3), "foot-yaw", f"part {j}")
                if s in pa.feet:
                    m.close(T[:3, 3], pa.feet[s][:3, 3], 1e-9, "support-foot-moves")
                    m.close(yaw[s](t), yaw[s](pa.t0), 1e-9, "oracle")
                    m.close(v, np.zeros(3), 0, "support-foot-velocity")
                    m.count("support_foot_instants")
                else:
                    xy, zz, sm = swing[j]
                    tl = 1e-6 + 1e-9 * abs(t0) / min(1, sm)
                    m.close(T[:3, 3], [*xy(t), zz(t)], tl, "swing-foot", f"part {j}")
                    m.close(v, [*xy(t, 1), zz(t, 1)], 100 * tl / min(1, sm), "swing-foot-velocity", f"part {j}")
                    m.count("swing_foot_instants")
            R = np.asarray(tr.get_R_world_trunk(t))
            m.close(R, rz(trunk(t)) @ ry(p.walk_trunk_pitch), 2e-6 * (1 + abs(t0) * 1e-3), "trunk")
    # before the start and after the end, the trajectory is still
    m.close(tr.get_p_world_CoM(t1 + 1.0), tr.get_p_world_CoM(t1), 1e-9, "after-the-end")
    m.count("trajectories_checked")


def hull_of(feet, p):
    """Clockwise convex hull of the footsteps (gift wrapping)"""
    pts = np.vstack([corners(T, p.foot_width, p.foot_length) for T in feet.values()])
    pts = pts[np.lexsort((pts[:, 1], pts[:, 0]))]

    def chain(it):
        c = []
        for q in it:
            while len(c) >= 2 and cross2(c[-1] - c[-2], q - c[-1]) <= 1e-13:
                c.pop()
            c.append(q)
        return c
    lo, hi = chain(pts), chain(pts[::-1])
    return np.array((lo[:-1] + hi[:-1])[::-1])


def make_walk(m, rng, p, t0, n=None):
    """Supports from a planner or hand-made footsteps"""
    mode = rng.integers(0, 3)
    TL = planar(rng)
    TR = TL @ se2(0, -p.feet_spacing, 0)
    side = LEFT if rng.random() < 0.5 else RIGHT
    if mode == 0:
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(*map(float, rng.normal(size=3) * [0.05, 0.03, 0.2]), int(n or rng.integers(1, 6)))
        fs = pl.plan(side, TL, TR)
    elif mode == 1:
        pl = placo.FootstepsPlannerNaive(p)
        mid = TL @ se2(0, -p.feet_spacing / 2, 0) @ se2(*rng.uniform(-0.15, 0.15, 2), rng.uniform(-0.3, 0.3))
        pl.configure(mid @ se2(0, p.feet_spacing / 2, 0), mid @ se2(0, -p.feet_spacing / 2, 0))
        fs = pl.plan(side, TL, TR)
        if len(fs) > 9:
            fs = list(fs)[:9]
    else:
        fs = rand_footsteps(rng, p, int(n or rng.integers(3, 8)), TL)
    return placo.FootstepsPlanner.make_supports(fs, t0, True, p.has_double_support(), True)


def start_com(rng, p, sup, far=0.0):
    c = np.asarray(sup[0].frame())[:3, 3].copy()
    c[:2] += rng.normal(size=2) * (far or rng.choice([0, 0.003, 0.01, 0.03]))
    c[2] = p.walk_com_height
    return c


def plan_walk(m, rng, p, w, t0, n=None, far=0.0):
    sup = make_walk(m, rng, p, t0, n)
    if rng.random() < 0.3:
        for s in sup:
            s.time_ratio = float(rng.uniform(0.8, 1.3))
    c = start_com(rng, p, sup, far)
    try:
        tr = w.plan(sup, c, t0)
    except RuntimeError as e:
        m.ok(not w.soft, "soft-plan-infeasible", str(e))   # nothing is mandatory in a soft plan
        m.count("infeasible_plans")
        m.skip()
    return sup, c, tr


def wpg_plan(m, rng, i):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    t0 = float(rng.choice([0.0, rng.uniform(-1, 100)]))
    soft = i % 8 == 7
    if soft:
        w.soft = True
        coarse = i % 16 == 15
        w.zmp_in_support_weight = float(10 ** rng.uniform(0.5 if coarse else 2, 3))
        w.stop_end_support_weight = float(10 ** rng.uniform(0.5 if coarse else 2, 3))
    sup, c, tr = plan_walk(m, rng, p, w, t0, far=float(rng.choice([0.03, 0.1])) if soft and coarse else 0.0)
    parts = expected_parts(p, sup, t0)
    for s, pa in zip(sup, parts):
        m.close(s.t_start, pa.t0, 1e-9 * (1 + abs(t0)), "support-t-start")
    try:
        check_walk(m, rng, tr, w, p, parts, (c[:2], np.zeros(2), np.zeros(2)),
                   soft=("coarse" if coarse else True) if soft else False)
    except Ambiguous:
        m.skip()
    m.ok(tr.replan_success, "replan-success-flag")
    m.count("soft_plans", int(soft))
    m.sig(t0, c, len(parts))
    m.sample(f"{len(parts)} phases over {tr.t_end - tr.t_start:.2f}s, double support {p.has_double_support()}")


def wpg_infeasible(m, rng, i):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    mode = i % 4
    sup = make_walk(m, rng, p, 0.0)
    c = start_com(rng, p, sup)
    if mode == 0:     # the margin leaves no room for the ZMP in a foot
        if not any(len(s.footsteps) == 1 for s in sup):
            m.skip()
        p.zmp_margin = max(p.foot_width, p.foot_length) * 0.55
        m.raises(lambda: w.plan(sup, c, 0.0), "infeasible-plan-accepted", exc=RuntimeError)
    elif mode == 1:   # CoM far outside of the feet
        c[:2] += 5.0
        m.raises(lambda: w.plan(sup, c, 0.0), "unreachable-com-accepted", exc=RuntimeError)
    elif mode == 2:
        m.raises(lambda: w.plan([], c, 0.0), "empty-plan-accepted")
        tr = placo.WPGTrajectory(0.3, 0.0, 0.0, 0.0)
        m.raises(lambda: tr.get_T_world_left(0.0), "empty-trajectory-feet")
        m.raises(lambda: tr.get_p_world_CoM(0.0), "empty-trajectory-com")
        m.raises(lambda: tr.get_support(0.0), "empty-trajectory-support")
    else:             # single supports at an end
        fs = rand_footsteps(rng, p, 4)
        s = list(placo.FootstepsPlanner.make_supports(fs, 0.0, False, False, True))
        m.raises(lambda: w.plan(s, c, 0.0), "starts-with-single-support-accepted")
        s = list(placo.FootstepsPlanner.make_supports(fs, 0.0, True, False, False))
        m.raises(lambda: w.plan(s, c, 0.0), "ends-with-single-support-accepted")
    m.sig(mode, c)


def wpg_transform(m, rng, i):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    om = np.sqrt(9.80665 / p.walk_com_height)
    t0 = float(rng.uniform(-1, 10))
    sup, c, tr = plan_walk(m, rng, p, w, t0, n=3)
    ts = [float(t) for t in rng.uniform(t0, tr.t_end, 6)]

    def obs(t):
        o = dict(L=np.asarray(tr.get_T_world_left(t)), R=np.asarray(tr.get_T_world_right(t)), c=np.asarray(tr.get_p_world_CoM(t)),
                 v=np.asarray(tr.get_v_world_CoM(t)), a=np.asarray(tr.get_a_world_CoM(t)), j=np.asarray(tr.get_j_world_CoM(t)),
                 vl=np.asarray(tr.get_v_world_foot(LEFT, t)), vr=np.asarray(tr.get_v_world_foot(RIGHT, t)),
                 trunk=np.asarray(tr.get_R_world_trunk(t)), zmp=np.asarray(tr.get_p_world_ZMP(t, om)),
                 dcm=np.asarray(tr.get_p_world_DCM(t, om)), edcm=np.asarray(tr.get_part_end_dcm(t, om)))
        for nm, s in (("s", tr.get_support(t)), ("n", tr.get_next_support(t, 1)), ("p", tr.get_prev_support(t, 1))):
            o[nm] = [np.asarray(f.frame).copy() for f in s.footsteps]
            o[nm + "d"] = np.asarray(s.target_world_dcm).copy()
            o[nm + "t"] = s.t_start
        o["all"] = [np.asarray(f.frame).copy() for s in tr.get_supports() for f in s.footsteps]
        o["times"] = [tr.get_part_t_start(t), tr.get_part_t_end(t)]
        if not tr.support_is_both(t):
            o["cs"] = np.asarray(tr.get_p_support_CoM(t))
        return o
    before = [obs(t) for t in ts]
    T = np.eye(4)
    for _ in range(int(rng.integers(1, 3))):
        Tk = planar(rng, scale=2.0)
        T = Tk @ T
        tr.apply_transform(Tk)
    ap = lambda x: (T @ np.array([*x[:2], 0, 1]))[:2]
    for t, b in zip(ts, before):
        o = obs(t)
        for k in "LR":
            m.close(o[k], T @ b[k], 1e-8, "transform-feet")
        m.close(o["c"], (T @ np.append(b["c"], 1))[:3], 1e-8, "transform-com")
        for k in ("v", "a", "j", "vl", "vr"):
            m.close(o[k], T[:3, :3] @ b[k], 1e-8 * (1 + np.abs(b[k]).max()), "transform-" + k)
        m.close(o["trunk"], T[:3, :3] @ b["trunk"], 1e-8, "transform-trunk")
        for k in ("zmp", "dcm", "edcm", "sd", "nd", "pd"):
            m.close(o[k], ap(b[k]), 1e-8, "transform-" + k)
        for k in ("s", "n", "p", "all"):
            m.ok(len(o[k]) == len(b[k]), "transform-supports-count")
            for x, y in zip(o[k], b[k]):
                m.close(x, T @ y, 1e-8, "transform-supports")
        for k in ("st", "nt", "pt", "times"):
            m.close(o[k], b[k], 0, "transform-times")
        if "cs" in b:
            m.close(o["cs"], b["cs"], 1e-8, "transform-support-relative")
        m.count("instants_compared")
    m.sig(T, t0)


def old_state(old, t, fl, dt=1e-6):
    """Continuity data at t, observed on the old trajectory only through its queries"""
    T = np.asarray(old.get_T_world_left(t) if fl == LEFT else old.get_T_world_right(t))
    get = old.get_T_world_left if fl == LEFT else old.get_T_world_right
    tw = lambda u: yaw_of(np.asarray(old.get_R_world_trunk(u)))
    yw = lambda u: yaw_of(np.asarray(get(u)))
    h = 1e-4

    def deriv(f):
        return float(wrap(f(t + h) - f(t - h)) / (2 * h))
    return dict(pos=T[:3, 3], vel=np.asarray(old.get_v_world_foot(fl, t)), yaw=yw(t), yaw_v=deriv(yw), trunk=tw(t), trunk_v=deriv(tw))


def wpg_replan(m, rng, i):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    t0 = float(rng.choice([0.0, rng.uniform(0, 20)]))
    sup, c, tr = plan_walk(m, rng, p, w, t0, n=int(rng.integers(4, 7)))
    if len(sup) < 4:
        m.skip()
    t_last = 0.0 if t0 == 0 else t0
    t_min = t0
    done = 0
    for rnd in range(int(rng.integers(1, 4))):
        if rng.random() < 0.3:
            tr.apply_transform(planar(rng, scale=1.0))
        sups = tr.get_supports()
        # which instants can be replanned
        cand = []
        for t in rng.uniform(t_min, tr.t_end, 12):
            t = float(t)
            a, b = tr.get_support(t), tr.get_next_support(t, 1)
            want = not (a.start or a.end or a.is_both() or b.end)
            m.ok(w.can_replan_supports(tr, t) == want, "can-replan", f"{a.start, a.end, a.is_both(), b.end}")
            if want:
                L = tr.get_part_t_end(t) - tr.get_part_t_start(t)
                if min(t - tr.get_part_t_start(t), tr.get_part_t_end(t) - t) > 0.02 * L:
                    cand.append(t)
            else:
                m.raises(lambda: w.replan_supports(pl_for(rng, p, np.eye(4)), tr, t, t_last), "replan-supports-refused")
        if not cand:
            break
        t = min(cand) if rng.random() < 0.5 else cand[0]
        cur, nxt = tr.get_support(t), tr.get_next_support(t, 1)
        side = cur.side()
        fl = other(side)
        t_end_part = tr.get_part_t_end(t)
        pl = pl_for(rng, p, np.asarray(tr.get_support(tr.t_end).frame()))
        new = w.replan_supports(pl, tr, t, t_last)
        # ---- the replanned supports keep the current and the next one
        m.ok(len(new[0].footsteps) == 1 and same_foot(new[0].footsteps[0], cur.footsteps[0]), "replan-current-support-changed")
        m.close(new[1].footstep_frame(fl), nxt.footstep_frame(fl), 1e-9, "replan-next-support-changed")
        m.close(new[0].time_ratio, cur.time_ratio, 0, "replan-time-ratio")
        m.close(new[0].t_start, cur.t_start, 0, "replan-t-start")
        full = p.single_support_duration * cur.time_ratio
        m.close((1 - new[0].elapsed_ratio) * full, t_end_part - t, 1e-7 * (1 + abs(t)), "replan-elapsed-ratio",
                f"round {rnd} last {t_last}")
        m.ok(new[len(new) - 1].end and not any(new[k].end for k in range(len(new) - 1)), "replan-end")
        m.ok(not any(s.start for s in new), "replan-start")
        hd = p.has_double_support()
        for k in range(len(new) - 1):
            a, b = new[k], new[k + 1]
            sa, sb = {f.side for f in a.footsteps}, {f.side for f in b.footsteps}
            if k < len(new) - 2:
                m.ok(len(sa) + len(sb) == (3 if hd else 2), "replan-alternate", f"{k}")
            for f in a.footsteps:
                for g in b.footsteps:
                    if f.side == g.side:
                        m.ok(same_foot(f, g), "replan-foot-jumps")
        if len(new) > 14:   # long horizons are ill-conditioned for the QP solver (see DESIGN.md)
            new = placo.FootstepsPlanner.truncate_supports(new, 11 + (not new[10].is_both() and new[10].footsteps[0].side == side), True)
        init = [np.asarray(q(t))[:2].copy() for q in (tr.get_p_world_CoM, tr.get_v_world_CoM, tr.get_a_world_CoM)]
        old = old_state(tr, t, fl)
        fail = rng.random() < 0.12
        if fail:
            for s in list(new)[1:]:
                s.apply_offset(np.array([3.0, 3.0]))
        oldtr = tr
        tr = w.replan(new, oldtr, t)
        if not tr.replan_success:
            m.count("replan_fallbacks")
            m.close(tr.t_start, t, 0, "fallback-t-start")
            m.close(tr.t_end, oldtr.t_end, 0, "fallback-t-end")
            for u in rng.uniform(t, oldtr.t_end, 8):
                u = float(u)
                for f in ("get_T_world_left", "get_T_world_right", "get_p_world_CoM", "get_v_world_CoM", "get_a_world_CoM",
                          "get_R_world_trunk"):
                    m.close(getattr(tr, f)(u), getattr(oldtr, f)(u), 1e-9, "fallback-" + f)
                m.close(tr.get_part_t_end(u), oldtr.get_part_t_end(u), 0, "fallback-part-end")
                m.ok(tr.support_is_both(u) == oldtr.support_is_both(u), "fallback-support")
            s = tr.get_support(t)
            m.close((1 - s.elapsed_ratio) * full, t_end_part - t, 1e-7 * (1 + abs(t)), "fallback-elapsed-ratio")
            m.close(tr.get_part_t_start(t), t, 0, "fallback-part-start")
            m.ok(len(tr.get_supports()) == oldtr_remaining(oldtr, sups, t), "fallback-parts")
        else:
            m.count("far_replans", int(fail))
            try:
                parts = expected_parts(p, new, t)
                m.close(parts[0].t1, t_end_part, 1e-7 * (1 + abs(t)), "replan-moves-the-landing-time")
                check_walk(m, rng, tr, w, p, parts, init, old=old)
            except Ambiguous:
                m.count("ambiguous")
                break
            # continuity with the old trajectory
            for f, tol in (("get_T_world_left", 1e-6), ("get_T_world_right", 1e-6), ("get_p_world_CoM", 1e-7),
                           ("get_v_world_CoM", 1e-6), ("get_a_world_CoM", 1e-5), ("get_R_world_trunk", 1e-6)):
                m.close(getattr(tr, f)(t), getattr(oldtr, f)(t), tol, "discontinuity-" + f)
            m.count("replans")
        t_last = t
        t_min = t
        done += 1
    if not done:
        m.skip()
    m.sig(t0, t, done)
    m.sample(f"{done} replans, {len(sup)} initial phases")


def oldtr_remaining(old, sups, t):
    n, u = 0, old.t_start
    for _ in range(len(sups)):
        e = old.get_part_t_end(u)
        if e > t:
            n += 1
        u = e + 1e-9
    return n


def pl_for(rng, p, at):
    if rng.random() < 0.6:
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(*map(float, rng.normal(size=3) * [0.05, 0.03, 0.15]), int(rng.integers(2, 6)))
    else:
        pl = placo.FootstepsPlannerNaive(p)
        mid = at @ se2(*rng.uniform(-0.15, 0.15, 2), rng.uniform(-0.4, 0.4))
        pl.configure(mid @ se2(0, p.feet_spacing / 2, 0), mid @ se2(0, -p.feet_spacing / 2, 0))
    return pl


def erode_project(P, margin, q):
    """Closest point to q at least `margin` inside the clockwise polygon P, or None"""
    H = []
    for i in range(len(P)):
        e = P[(i + 1) % len(P)] - P[i]
        n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
        H.append((n, n @ P[i] + margin))
    ok = lambda x: all(n @ x >= c - 1e-9 for n, c in H)
    if ok(q):
        return q
    best = None
    C = [q + (c - n @ q) * n for n, c in H]
    for a in range(len(H)):
        for b in range(a):
            A = np.array([H[a][0], H[b][0]])
            if abs(np.linalg.det(A)) > 1e-9:
                C.append(np.linalg.solve(A, [H[a][1], H[b][1]]))
    for x in C:
        if ok(x) and (best is None or np.linalg.norm(x - q) < np.linalg.norm(best - q)):
            best = x
    return best


def wpg_optimal_zmp(m, rng, i):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    fs = rand_footsteps(rng, p, 2)
    both = rng.random() < 0.3
    s = placo.Support()
    s.footsteps = fs if both else fs[:1]
    feet = {f.side: np.asarray(f.frame) for f in s.footsteps}
    P = hull_of(feet, p)
    F = frame_of(feet)
    om = np.sqrt(9.80665 / p.walk_com_height)
    T = float(rng.uniform(0.02, 1.5))
    a = F[:2, 3] + rng.normal(size=2) * 0.05
    if rng.random() < 0.5:      # an end DCM that a ZMP of the support yields
        z = F[:2, 3] + F[:2, :2] @ (rng.uniform(-0.7, 0.7, 2) * [p.foot_length / 2, p.foot_width / 2])
        b = (a - z) * np.exp(om * T) + z
    else:
        b = F[:2, 3] + rng.normal(size=2) * 0.2
    if min(p.foot_width, p.foot_length) / 2 - p.zmp_margin < 1e-3:
        m.skip()
    got = np.asarray(w.get_optimal_zmp(a, b, T, s))
    u = (b - a * np.exp(om * T)) / (1 - np.exp(om * T))
    want = erode_project(P, p.zmp_margin, u)
    m.close(got, want, 1e-6 * (1 + np.abs(u).max()), "optimal-zmp", f"unconstrained {u}")
    m.ok(poly_margin(P, got) >= p.zmp_margin - 1e-6, "optimal-zmp-outside")
    if np.linalg.norm(want - u) < 1e-9:
        m.close((a - got) * np.exp(om * T) + got, b, 1e-5 * np.exp(om * T), "optimal-zmp-dcm")
        m.count("reachable_dcm")
    else:
        m.count("clamped_zmp")
    m.sig(a, b, T)


def wpg_update(m, rng, i):
    """update_supports: the adapted step is the optimum of the documented problem and only moves the flying foot's landing"""
    p = walk_params(rng)
    p.single_support_duration = float(rng.uniform(0.3, 0.8))
    sx, sy = rng.uniform(0.1, 0.3), rng.uniform(0.05, 0.2)
    y0 = p.feet_spacing + rng.uniform(0.0, 0.05)
    # operational space when standing on the right foot (clockwise), DCM offsets when standing on the left one
    p.op_space_polygon = [np.array(v) for v in [(-sx, y0 - sy / 2), (-sx, y0 + sy), (sx * 1.2, y0 + sy), (sx * 1.1, y0 - sy / 2)]]
    ox, oy = rng.uniform(0.02, 0.1), rng.uniform(0.01, 0.08)
    p.dcm_offset_polygon = [np.array(v) for v in [(-ox, 0.001), (-ox, oy), (ox * 1.5, oy), (ox * 1.5, 0.002)]]
    w = placo.WalkPatternGenerator(walk_robot(), p)
    om = np.sqrt(9.80665 / p.walk_com_height)
    sup, c, tr = plan_walk(m, rng, p, w, float(rng.choice([0.0, rng.uniform(0, 10)])), n=5)
    cand = [float(t) for t in rng.uniform(tr.t_start, tr.t_end, 20) if w.can_replan_supports(tr, float(t))]
    if not cand:
        m.skip()
    t = cand[0]
    # sups_list: the trajectory's remaining supports
    S = list(tr.get_supports())
    k = next(j for j in range(len(S)) if S[j].t_start <= t < (S[j + 1].t_start if j + 1 < len(S) else np.inf))
    S = S[k:]
    cur = S[0]
    side, fl = cur.side(), other(cur.side())
    F = np.asarray(cur.frame())
    R2, ps = F[:2, :2], F[:2, 3]
    el = t - cur.t_start
    ref = np.asarray(tr.get_p_world_DCM(t, om))
    dcm = ref + rng.normal(size=2) * rng.choice([0.002, 0.02])
    before = [[(f.side, np.asarray(f.frame).copy()) for f in s.footsteps] for s in S]
    meta = [(s.start, s.end, s.t_start, s.time_ratio, s.elapsed_ratio) for s in S]
    try:
        U = w.update_supports(t, S, dcm)
    except RuntimeError:
        m.count("infeasible_updates")
        m.skip()
    # the given supports are untouched
    for s, b in zip(S, before):
        m.ok(all(same_foot(f, mkfoot(0.1, 0.1, sd, T)) for f, (sd, T) in zip(s.footsteps, b)), "update-changes-its-input")
    m.ok(len(U) == len(S), "update-count")
    z = np.asarray(U[1].footstep_frame(fl))[:2, 3]
    landing = True
    for j in range(len(U)):
        if j > 0 and fl not in [sd for sd, _ in before[j]]:
            landing = False
        for f, (sd, T) in zip(U[j].footsteps, before[j]):
            want = T.copy()
            if j > 0 and landing and sd == fl:
                want[:2, 3] = z
            m.ok(f.side == sd, "update-sides")
            m.close(f.frame, want, 1e-9, "update-moves-another-foot", f"support {j}")
        mj = (U[j].start, U[j].end, U[j].t_start, U[j].time_ratio, U[j].elapsed_ratio)
        if j:
            m.ok(mj == meta[j], "update-changes-timing-of-next-supports", f"{mj} {meta[j]}")
    m.ok((U[0].start, U[0].end, U[0].t_start, U[0].elapsed_ratio) == (meta[0][0], meta[0][1], meta[0][2], meta[0][4]), "update-current")
    # recover the decision
    D = p.single_support_duration
    rem = U[0].time_ratio * D * (1 - cur.elapsed_ratio)
    Tm, TM = max(0.15, el), max(3.0, el)
    m.ok(rem >= 1e-3 - 1e-9 and el + rem >= 0.15 - 1e-6 and el + rem <= TM + 1e-6, "update-duration", f"{el} + {rem}")
    nz = R2.T @ (z - ps)
    mir = 1 if side == RIGHT else -1
    op = np.array([mir * np.asarray(v) for v in p.op_space_polygon])
    dp = np.array([-mir * np.asarray(v) for v in p.dcm_offset_polygon])
    m.ok(poly_margin(op, nz) >= -1e-6, "update-landing-outside-operational-space", lambda: f"{nz} {op.tolist()}")
    m.count("updates")
    if rem > 1.1e-3 + 1e-6:
        tau = np.exp(om * (el + rem))
        if min(p.foot_width, p.foot_length) / 2 - p.zmp_margin < 1e-3:
            m.skip()
        P = hull_of({side: F}, p)
        Dur = max(1e-5, D - el)
        ta = np.asarray(cur.target_world_dcm)
        u = (ta - dcm * np.exp(om * Dur)) / (1 - np.exp(om * Dur))
        vz = erode_project(P, p.zmp_margin, u)
        off = R2.T @ ((dcm - vz) * np.exp(-om * el) * tau + vz - z)
        x = np.array([*nz, tau, *off])
        qp = QP(5, 1e-8)
        tgt = before[1][[sd for sd, _ in before[1]].index(fl)][1][:2, 3]
        I = np.eye(5)
        qp.eq(I[2:3], [np.exp(om * D)], 5.0)
        qp.eq(np.hstack([R2, np.zeros((2, 3))]), tgt - ps, 100.0)
        qp.eq(np.hstack([np.zeros((2, 3)), R2]), ta - tgt, 1000.0)
        qp.ge(I[2:3], [-np.exp(om * Tm)], name="tmin")
        qp.ge(-I[2:3], [np.exp(om * TM)], name="tmax")
        for Q, cols, wt in ((op, slice(0, 2), None), (dp, slice(3, 5), 1e6)):
            for e in range(len(Q)):
                d = Q[(e + 1) % len(Q)] - Q[e]
                n = np.array([d[1], -d[0]]) / np.linalg.norm(d)
                g = np.zeros(5)
                g[cols] = n
                qp.ge(g, -n @ Q[e], wt)
        A = np.zeros((2, 5))
        A[:, :2], A[:, 3:] = R2, R2
        A[:, 2] = -(dcm - vz) * np.exp(-om * el)
        qp.eq(A, vz - ps, name="lipm")
        qp.feasible(m, x, key="update")
        qp.optimal(m, x, "update-not-optimal", tol=1e-6 * (2 + tau / 10), act_abs=1e-6 * (1 + tau))
        m.count("updates_optimal")
    # and the updated supports can be replanned
    m.sig(dcm, t)


FAMILIES = dict(
    fs_polygon=(fs_polygon, 250, 4000),
    fs_overlap=(fs_overlap, 500, 10000),
    fs_support=(fs_support, 150, 3000),
    fs_frames=(fs_frames, 200, 3000),
    fs_clip=(fs_clip, 300, 6000),
    fs_repetitive=(fs_repetitive, 200, 4000),
    fs_naive=(fs_naive, 200, 4000),
    fs_supports=(fs_supports, 300, 5000),
    swing_cubic=(swing_cubic, 300, 6000),
    swing_poly=(swing_poly, 200, 4000),
    swing_quintic=(swing_quintic, 200, 4000),
    wpg_plan=(wpg_plan, 60, 1500),
    wpg_infeasible=(wpg_infeasible, 24, 400),
    wpg_transform=(wpg_transform, 40, 800),
    wpg_replan=(wpg_replan, 60, 1500),
    wpg_optimal_zmp=(wpg_optimal_zmp, 120, 3000),
    wpg_update=(wpg_update, 100, 2000),
)
