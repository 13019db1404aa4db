"""Public C++ API that the Python module does not bind, reached through small extension modules (vf/ext) built by the check.
An extension that cannot be compiled any more (a changed C++ signature) only takes its families out of the plan."""
import importlib
import os
import numpy as np
import placo
from vf.util import rand_T, tf, rz, inv, wrap, rand_rot
from vf import robots
from vf.props.humanoid import (LEFT, RIGHT, other, planar, se2, yaw_of, params, walk_params, walk_robot, plan_walk, _robot,
                               ref_clip, corners, poly_gap, unit_step, NORMS)
from vf.props.walk import rand_state, check_errors
from vf.props.expr import E, N, leaf


def load(name):
    try:
        return importlib.import_module(name)
    except ImportError:
        return None


W, P, R_ = load("vfx_walk"), load("vfx_problem"), load("vfx_robot")


def x_trajectory(m, rng, i):
    """Queries of a walk trajectory agree with each other, transformed or not"""
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    t0 = float(rng.choice([0.0, rng.uniform(-1, 50)]))
    sup, c, tr = plan_walk(m, rng, p, w, t0, n=int(rng.integers(2, 5)))
    if rng.random() < 0.5:
        tr.apply_transform(planar(rng, scale=2.0))
        m.count("transformed_trajectories")
    parts = list(W.parts(tr))
    ts = list(rng.uniform(t0 - 0.1, tr.t_end + 0.1, 12))
    for t in map(float, ts):
        if min(min(abs(t - q.t_start), abs(t - q.t_end)) for q in parts) < 1e-5:
            continue
        T = {LEFT: np.asarray(tr.get_T_world_left(t)), RIGHT: np.asarray(tr.get_T_world_right(t))}
        k = next((j for j, q in enumerate(parts) if t <= q.t_end), len(parts) - 1)
        S = parts[k].support
        yl, yr = W.get_yaw_world_left(tr, t), W.get_yaw_world_right(tr, t)
        h = 1e-6
        for side, y in ((LEFT, yl), (RIGHT, yr)):
            m.close(W.get_T_world_foot(tr, side, t), T[side], 1e-12, "foot-by-side")
            m.close(wrap(y - yaw_of(T[side])), 0.0, 1e-9, "foot-yaw")
            m.close(W.get_yaw_world_foot(tr, side, t), y, 1e-12, "foot-yaw-by-side")
            fl = not S.is_both() and S.side() != side
            m.ok(W.is_flying(tr, side, t) == fl, "is-flying", lambda: f"{side} t={t} part {k}")
            q = lambda x: np.asarray(tr.get_T_world_left(x) if side == LEFT else tr.get_T_world_right(x))[:3, 3]
            v = np.asarray(W.get_v_world_foot(tr, side, t))
            if t0 < t < tr.t_end:
                m.close(v, (q(t + h) - q(t - h)) / (2 * h), 1e-4 * (1 + np.abs(v).max()), "foot-velocity")
            if side == LEFT:
                m.close(W.get_v_world_left(tr, t), v, 1e-12, "left-velocity")
        m.close(wrap(W.get_yaw_world_trunk(tr, t) - yaw_of_trunk(tr, p, t)), 0.0, 1e-9, "trunk-yaw")
        m.ok(W.remaining_supports(tr, t) == len(parts) - 1 - k, "remaining-supports", lambda: f"{W.remaining_supports(tr, t)} at part {k}/{len(parts)}")
        m.count("instants_compared")
    m.sig(t0, c)


def yaw_of_trunk(tr, p, t):
    R = np.asarray(tr.get_R_world_trunk(t))
    # yaw of yaw * pitch * roll
    return np.arctan2(R[1, 0], R[0, 0])


def x_walk_tasks(m, rng, i):
    """CoM delay and DCM feedback of the walk tasks"""
    r = walk_robot()
    p = walk_params(rng)
    rand_state(rng, r)
    s = placo.KinematicsSolver(r)
    s.add_regularization_task(1e-3)
    wt = W.WalkTasks()
    wt.trunk_mode = trunk = bool(rng.random() < 0.3)
    wt.initialize_tasks(s, r)
    w = placo.WalkPatternGenerator(r, p)
    _, _, tr = plan_walk(m, rng, p, w, float(rng.choice([0, rng.uniform(0, 10)])), n=3)
    om = np.sqrt(9.80665 / p.walk_com_height)
    delay = float(rng.choice([0.0, rng.uniform(-0.2, 0.2)]))
    kp, ki, kd = (float(x) for x in rng.normal(size=3) * rng.choice([0, 1], 3))
    lam = float(rng.uniform(0, 0.5))
    W.set_pid(wt, delay, kp, ki, kd, lam)
    integral = last = np.zeros(2)
    for k in range(int(rng.integers(2, 8))):
        if rng.random() < 0.3:
            rand_state(rng, r)
        t = float(rng.uniform(tr.t_start - 0.05, tr.t_end + 0.05))
        off = np.asarray(r.get_T_world_frame("trunk"))[:3, :3] @ np.array([wt.com_x, wt.com_y, 0])
        com = np.asarray(tr.get_p_world_CoM(t + delay)) + off
        if rng.random() < 0.3:
            wt.update_tasks_from_trajectory(tr, t)
            m.count("delayed_updates", int(delay != 0))
        else:
            el = float(rng.uniform(0.005, 0.05))
            dcm = np.asarray(tr.get_p_world_DCM(t + delay, om)) + rng.normal(size=2) * 0.01
            e = dcm - np.asarray(tr.get_p_world_DCM(t + delay, om))
            integral = (1 - lam) * integral + e * el
            d = (e - last) / el
            last = e
            W.update_tasks_and_pid(wt, tr, t, dcm, om, el)
            com[:2] += kp * e + ki * integral + kd * d
            m.count("pid_updates")
        check_errors(m, wt, r, dict(L=np.asarray(tr.get_T_world_left(t)), R=np.asarray(tr.get_T_world_right(t)), com=com,
                                    Rt=np.asarray(tr.get_R_world_trunk(t))), trunk, s)
    m.sig(delay, kp, ki, kd, lam)


def x_clipping(m, rng, i):
    """Repetitive plans under each clipping of the footsteps"""
    p = params(rng)
    pl = placo.FootstepsPlannerRepetitive(p)
    kinds = ["conic", "ellipsoid", "box"]
    TL = planar(rng)
    TR = TL @ se2(0, -p.feet_spacing, 0)
    for kind in rng.permutation(kinds):
        W.set_clipping(pl, kinds.index(kind))
        side = LEFT if rng.random() < 0.5 else RIGHT
        d = rng.normal(size=3) * np.array([0.1, 0.08, 0.4])
        pl.configure(float(d[0]), float(d[1]), float(d[2]), 3)
        fs = pl.plan(side, TL, TR)
        for k in range(2, len(fs) - 1):
            sg = -1 if fs[k - 1].side == LEFT else 1
            A = np.asarray(fs[k - 1].frame)
            Rl = inv(A) @ np.asarray(fs[k].frame)
            st = np.array([Rl[0, 3], Rl[1, 3] - sg * p.feet_spacing, yaw_of(Rl)])
            want = d.copy()
            want[1] += sg * p.walk_dtheta_spacing * abs(d[2])
            want = ref_clip(p, want, str(kind))
            m.ok(NORMS[str(kind)](unit_step(p, st)) <= 1 + 1e-9, "step-outside-limits", lambda: f"{kind} {st}")
            free = poly_gap(corners(A, p.foot_width, p.foot_length, 1e-2),
                            corners(A @ se2(want[0], sg * p.feet_spacing + want[1], want[2]), p.foot_width, p.foot_length, 1e-2))
            if free > 1e-7:
                m.close(st, want, 1e-9, "step", str(kind))
                m.count("steps_exact")
    for side in (LEFT, RIGHT):
        T = rand_T(rng)
        d = rng.normal(size=3)
        sg = -1 if side == LEFT else 1
        for f, k in ((W.opposite_frame, 1.0), (W.neutral_frame, 0.5)):
            want = T @ se2(d[0], sg * k * p.feet_spacing + d[1], d[2])
            m.close(f(p, side, T, *map(float, d)), want, 1e-12, "neutral-frames")
        m.ok(W.other_side(side) == other(side) and W.string_to_side("left" if side == LEFT else "right") == side, "sides")
    m.sig(TL, d)


def x_operators(m, rng, i):
    """Each C++ overload of the expression operators, operands in both orders"""
    p = placo.Problem()
    vs = [p.add_variable(3), p.add_variable(1), p.add_variable(3)]
    x = rng.normal(size=N)

    def val(e):
        return np.atleast_1d(np.asarray(e.value(x[:max(1, e.cols())])))
    a, b = leaf(rng, p, vs), leaf(rng, p, vs)
    for e in (a, b):
        e.c = (e.real.A.copy(), e.real.b.copy())
    n = len(a.b)
    v, d = rng.normal(size=n), float(rng.normal())
    va, vb = a(x), b(x)
    bn = len(vb)

    def run(name, want, *args):
        m.close(val(getattr(P, name)(*args)), want, 1e-9, name, rel=1e-9)
        m.count("operators_compared")
    if bn == n:
        run("add_ee", va + vb, a.real, b.real)
        run("sub_ee", va - vb, a.real, b.real)
    elif n > 1 and bn > 1:
        m.raises(lambda: P.add_ee(a.real, b.real), "add_ee-sizes")
        m.raises(lambda: P.sub_ee(a.real, b.real), "sub_ee-sizes")
        m.raises(lambda: P.add_ev(a.real, rng.normal(size=bn)), "add_ev-sizes")
    run("neg", -va, a.real)
    run("add_ev", va + v, a.real, v)
    run("add_ve", va + v, v, a.real)
    run("sub_ev", va - v, a.real, v)
    run("sub_ve", v - va, v, a.real)
    run("add_ed", va + d, a.real, d)
    run("add_de", va + d, d, a.real)
    run("sub_ed", va - d, a.real, d)
    run("sub_de", d - va, d, a.real)
    run("mul_ed", va * d, a.real, d)
    run("mul_de", va * d, d, a.real)
    M = rng.normal(size=(int(rng.integers(1, 5)), n))
    run("mul_me", M @ va, M, a.real)
    run("left_multiply", M @ va, a.real, M)
    m.raises(lambda: P.mul_me(rng.normal(size=(2, n + 1)), a.real), "mul_me-sizes")
    run("stack", np.concatenate([va, vb]), a.real, b.real)
    s = int(rng.integers(0, n))
    k = int(rng.integers(1, n - s + 1))
    run("slice", va[s:s + k], a.real, s, k)
    run("slice1", va[s:], a.real, s)
    for e in (a, b):
        m.ok(np.array_equal(e.real.A, e.c[0]) and np.array_equal(e.real.b, e.c[1]), "operand-modified")
    # relations
    for rel, f in (("ge", lambda l, r: l - r), ("le", lambda l, r: r - l), ("eq", None)):
        cases = [("ed", (a.real, d), va, d + 0 * va), ("de", (d, a.real), d + 0 * va, va),
                 ("ev", (a.real, v), va, v), ("ve", (v, a.real), v, va)]
        if bn == n:
            cases.append(("ee", (a.real, b.real), va, vb))
        for suf, args, L, Rr in cases:
            c = getattr(P, rel + "_" + suf)(*args)
            g = np.atleast_1d(np.asarray(c.expression.value(x[:max(1, c.expression.cols())])))
            if f is None:
                m.close(np.abs(g), np.abs(L - Rr), 1e-9, "eq_" + suf, rel=1e-9)
            else:
                m.close(g, f(L, Rr), 1e-9, rel + "_" + suf, rel=1e-9)
            m.count("operators_compared")
    lo, hi, q = (int(t) for t in rng.integers(-3, 8, 3))
    m.ok(P.interval_contains(lo, hi, q) == (lo <= q <= hi), "interval-contains", f"{lo} {hi} {q}")
    m.sig(x, n, bn)


def x_robot(m, rng, i):
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q, v = rb.rand_q(rng), rb.rand_v(rng)
    j = rb.joints[int(rng.integers(0, len(rb.joints)))]
    h = 1e-5
    D = {}
    for s in (h, -h):
        rb.set(rb.step(q, v * s), v)
        for ref in ("local_world_aligned", "local", "world"):
            D[s, ref] = np.array(R_.joint_jacobian(r, j, ref))
    rb.set(q, v)
    sc = 1 + np.abs(v).max() ** 2
    for ref in ("local_world_aligned", "local", "world"):
        got = np.asarray(R_.joint_jacobian_time_variation(r, j, ref))
        m.close(got, (D[h, ref] - D[-h, ref]) / (2 * h), 1e-4 * sc, "joint-jacobian-dot-" + ref, j)
        m.count("jacobians_compared")
    m.raises(lambda: R_.joint_jacobian_time_variation(r, "nope", "local"), "unknown-joint")
    m.raises(lambda: R_.joint_jacobian_time_variation(r, j, "nope"), "unknown-reference")
    m.sig(q, v, j)


def x_tools(m, rng, i):
    a, b, c, d = rng.normal(size=(4, 2)) * rng.choice([0.1, 1, 100])
    S, T = placo.Segment(a, b), placo.Segment(c, d)
    u, w = b - a, d - c
    cr = (u[0] * w[1] - u[1] * w[0]) / (np.linalg.norm(u) * np.linalg.norm(w))
    if abs(cr) > 1e-3:
        l = np.asarray(R_.get_lambdas(S, T))
        m.close(a + l[0] * u, c + l[1] * w, 1e-7 * (1 + np.abs([a, b, c, d]).max()) / abs(cr), "lambdas-meet", f"{l}")
        m.count("lambdas")
    k = float(rng.normal())
    if abs(k) > 0.1:
        m.raises(lambda: R_.get_lambdas(S, placo.Segment(c, c + k * u)), "lambdas-parallel")
    x = float(rng.normal() * 1.5)
    m.close(R_.safe_acos(x), np.arccos(np.clip(x, -1, 1)), 1e-12, "safe-acos")
    m.ok(R_.file_exists(os.path.abspath(__file__)) and not R_.file_exists(f"/nonexistent_{i}"), "file-exists")
    m.sig(a, b, c, d)


def x_camera(m, rng, i):
    """The pan and tilt of camera_look_at put the target on the optical axis"""
    r = walk_robot()
    rb = _robot[0]
    q = rb.rand_q(rng, margin=0.1, spread=0.5)
    rb.set(q)
    T = np.asarray(r.get_T_world_frame("head_base"))
    t = rng.uniform(0.3, 4.0) * np.array([np.cos(a := rng.uniform(-np.pi, np.pi)), np.sin(a), rng.uniform(-1.5, 1.5)])
    target = (T @ np.append(t, 1))[:3]
    ok, pan, tilt = W.camera_look_at(r, target)
    m.ok(ok, "camera-refused", lambda: f"{t}")
    r.set_joint("head_yaw", pan)
    r.set_joint("head_pitch", tilt)
    r.update_kinematics()
    c = inv(np.asarray(r.get_T_world_frame("camera"))) @ np.append(target, 1)
    m.close(c[:2], np.zeros(2), 1e-6 * (1 + np.linalg.norm(t)), "camera-axis", lambda: f"target in camera {c[:3]}")
    m.ok(c[2] > 0, "camera-behind", lambda: f"{c}")
    m.count("camera_targets")
    m.sig(q, t)


FAMILIES = {}
if W:
    FAMILIES["x_camera"] = (x_camera, 60, 1500)
    FAMILIES.update(x_trajectory=(x_trajectory, 12, 300), x_walk_tasks=(x_walk_tasks, 12, 300), x_clipping=(x_clipping, 60, 1500))
if P:
    FAMILIES.update(x_operators=(x_operators, 300, 8000))
if R_:
    FAMILIES.update(x_robot=(x_robot, 60, 1500), x_tools=(x_tools, 300, 6000))
