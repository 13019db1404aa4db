"""Walk tasks and dummy walk: targets, errors, bookkeeping, and closed-loop walks on the real humanoid."""
import numpy as np
import placo
from vf.util import rand_rot, rand_T, log3, tf, rz, ry, inv, wrap
from vf import robots
from vf.props.humanoid import (LEFT, RIGHT, other, planar, se2, yaw_of, params, walk_params, walk_robot, plan_walk, _robot,
                               ref_clip, corners, poly_gap)


def flat(T):
    return tf(rz(yaw_of(T)), np.array([T[0, 3], T[1, 3], 0.0]))


def rand_state(rng, r):
    rb = _robot[0]
    q = rb.rand_q(rng, margin=0.1, spread=0.5)
    rb.set(q)
    return q


def foot_errors(r, key, T, frame):
    F = np.asarray(r.get_T_world_frame(frame))
    return {key + "_position": T[:3, 3] - F[:3, 3], key + "_orientation": log3(T[:3, :3] @ F[:3, :3].T)}


def check_errors(m, wt, r, want, trunk, solver=None):
    """want: dict(L, R, com, Rt). Everything the tasks were asked to do, seen from the public API"""
    exp = {}
    exp.update(foot_errors(r, "left_foot", want["L"], "left_foot"))
    exp.update(foot_errors(r, "right_foot", want["R"], "right_foot"))
    F = np.asarray(r.get_T_world_frame("trunk"))
    exp["trunk_orientation"] = log3(want["Rt"] @ F[:3, :3].T)
    if trunk:
        exp["trunk_position"] = want["com"] - F[:3, 3]
    else:
        exp["com_position"] = want["com"] - np.asarray(r.com_world())
    if solver is not None:   # errors are those seen by the last solve
        solver.solve(False)
    got = wt.get_tasks_error()
    keys = {f"{k}_{a}" for k in exp for a in "xyz"}
    m.ok(set(got) == keys, "error-keys", lambda: f"{sorted(got)}")
    for k, e in exp.items():
        if "orientation" in k and np.linalg.norm(e) > 3.0:
            continue
        for a, v in zip("xyz", e):
            if f"{k}_{a}" in got:
                m.close(got[f"{k}_{a}"], v, 1e-7, f"error-{k}")
    # the tasks themselves
    m.close(wt.left_foot_task.T_world_frame, want["L"], 1e-9, "left-target")
    m.close(wt.right_foot_task.T_world_frame, want["R"], 1e-9, "right-target")
    m.close(wt.trunk_orientation_task.R_world_frame, want["Rt"], 1e-9, "trunk-orientation-target")
    m.ok((wt.com_task is None) == trunk and (wt.trunk_task is None) == (not trunk), "trunk-mode-tasks")
    t = wt.trunk_task if trunk else wt.com_task
    if t is not None:
        m.close(t.target_world, want["com"], 1e-9, "com-target")
    m.count("walk_targets_checked")


def wt_targets(m, rng, i):
    """Targets and errors after any history of updates, mode changes, (re)initializations and removals"""
    r = walk_robot()
    p = walk_params(rng)
    rand_state(rng, r)
    s = placo.KinematicsSolver(r)
    extra = int(rng.integers(0, 3))
    for _ in range(extra):
        s.add_regularization_task(1e-3)
    wt = placo.WalkTasks()
    m.raises(lambda: wt.get_tasks_error(), "uninitialized-errors")
    m.raises(lambda: wt.update_tasks(np.eye(4), np.eye(4), np.zeros(3), np.eye(3)), "uninitialized-update")
    m.raises(lambda: wt.reach_initial_pose(np.eye(4), 0.1, 0.3, 0.0), "uninitialized-reach")
    m.ok(wt.solver is None and wt.com_task is None and wt.trunk_task is None and wt.trunk_orientation_task is None, "uninitialized-none")
    wt.remove_tasks()
    w = tr = None
    trunk = False
    for rnd in range(int(rng.integers(1, 4))):
        wt.scaled = bool(rng.random() < 0.3)
        q = rand_state(rng, r)
        if rng.random() < 0.3:
            trunk = wt.trunk_mode = not trunk
        wt.initialize_tasks(s, r)
        m.ok(s.tasks_count() == extra + 6, "initialized-tasks-count", f"{s.tasks_count()} {extra}")
        # right after the initialization, the targets are the current poses: nothing to do
        e = wt.get_tasks_error()
        m.close(max(abs(v) for v in e.values()), 0.0, 1e-7, "initial-targets-not-current")
        want = None
        for k in range(int(rng.integers(1, 6))):
            if rng.random() < 0.5:
                q = rand_state(rng, r)
            if rng.random() < 0.4:
                wt.com_x, wt.com_y = float(rng.normal() * 0.05), float(rng.normal() * 0.05)
            if rng.random() < 0.3:
                trunk = wt.trunk_mode = not trunk
            off = np.asarray(r.get_T_world_frame("trunk"))[:3, :3] @ np.array([wt.com_x, wt.com_y, 0])
            if rng.random() < 0.5:
                if tr is None:
                    w = placo.WalkPatternGenerator(r, p)
                    _, _, tr = plan_walk(m, rng, p, w, float(rng.choice([0, rng.uniform(0, 10)])), n=3)
                t = float(rng.uniform(tr.t_start - 0.05, tr.t_end + 0.05))
                wt.update_tasks_from_trajectory(tr, t)
                want = dict(L=np.asarray(tr.get_T_world_left(t)), R=np.asarray(tr.get_T_world_right(t)),
                            com=np.asarray(tr.get_p_world_CoM(t)) + off, Rt=np.asarray(tr.get_R_world_trunk(t)))
                m.count("trajectory_updates")
            else:
                L, R, c, Rt = rand_T(rng), rand_T(rng), rng.normal(size=3), rand_rot(rng)
                wt.update_tasks(L, R, c, Rt)
                want = dict(L=L, R=R, com=c + off, Rt=Rt)
            check_errors(m, wt, r, want, trunk, s)
            m.ok(s.tasks_count() == extra + 6, "updated-tasks-count", f"{s.tasks_count()} {extra}")
        wt.remove_tasks()
        m.ok(s.tasks_count() == extra, "removed-tasks-count", f"{s.tasks_count()} {extra}")
        m.ok(wt.solver is None and wt.com_task is None and wt.trunk_task is None and wt.trunk_orientation_task is None, "removed-none")
        m.raises(lambda: wt.get_tasks_error(), "removed-errors")
        m.raises(lambda: wt.update_tasks(np.eye(4), np.eye(4), np.zeros(3), np.eye(3)), "removed-update")
        wt.remove_tasks()
    m.sig(q, i)
    m.sample(f"{rnd + 1} initializations, {extra} other tasks, {'trunk' if trunk else 'com'} mode")


def sigmaban_params(rng):
    p = params(rng)
    p.foot_length, p.foot_width = 0.1576, 0.092
    p.feet_spacing = float(rng.uniform(0.118, 0.14))
    p.walk_max_dx_forward, p.walk_max_dx_backward, p.walk_max_dy, p.walk_max_dtheta = 0.06, 0.03, 0.03, 0.25
    p.walk_com_height = float(rng.uniform(0.28, 0.32))
    p.walk_trunk_pitch = float(rng.uniform(0.0, 0.2))
    p.walk_foot_height = float(rng.uniform(0.015, 0.03))
    p.walk_foot_rise_ratio = float(rng.uniform(0.05, 0.4))
    p.single_support_timesteps = int(rng.integers(6, 13))
    p.single_support_duration = float(rng.uniform(0.35, 0.5))
    p.double_support_ratio = float(rng.choice([0.0, rng.uniform(0.2, 1)]))
    p.startend_double_support_ratio = float(rng.uniform(1.0, 2.0))
    p.zmp_margin = float(rng.uniform(0.005, 0.02))
    return p


def wt_walk(m, rng, i):
    """The complete use: initial pose, plan, then follow with inverse kinematics; the robot does what was planned"""
    r = walk_robot()
    p = sigmaban_params(rng)
    r.reset()
    r.update_kinematics()
    s = placo.KinematicsSolver(r)
    s.add_regularization_task(1e-5)
    wt = placo.WalkTasks()
    wt.trunk_mode = trunk = bool(rng.random() < 0.25)
    wt.initialize_tasks(s, r)
    T0 = planar(rng)
    h = p.walk_com_height - (0.03 if trunk else 0)
    wt.reach_initial_pose(T0, p.feet_spacing, h, p.walk_trunk_pitch)
    r.update_kinematics()
    TR0 = T0 @ se2(0, -p.feet_spacing, 0)
    tol = 2e-3
    m.close(r.get_T_world_left(), T0, tol, "initial-left")
    m.close(r.get_T_world_right(), TR0, tol, "initial-right")
    c0 = (T0[:3, 3] + TR0[:3, 3]) / 2 + [0, 0, h]
    m.close(r.get_T_world_frame("trunk")[:3, 3] if trunk else r.com_world(), c0, tol, "initial-com")
    m.close(r.get_T_world_trunk()[:3, :3], T0[:3, :3] @ ry(p.walk_trunk_pitch), tol, "initial-trunk")
    check_errors(m, wt, r, dict(L=T0, R=TR0, com=c0, Rt=T0[:3, :3] @ ry(p.walk_trunk_pitch)), trunk, s)
    m.count("initial_poses")
    pl = placo.FootstepsPlannerRepetitive(p)
    pl.configure(float(rng.uniform(-0.02, 0.04)), float(rng.uniform(-0.015, 0.015)), float(rng.uniform(-0.2, 0.2)), int(rng.integers(1, 5)))
    side = LEFT if rng.random() < 0.5 else RIGHT
    fs = pl.plan(side, T0, TR0)
    w = placo.WalkPatternGenerator(r, p)
    sup = placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True)
    try:
        tr = w.plan(sup, c0 + [0, 0, p.walk_com_height - h], 0.0)
    except RuntimeError:
        m.skip()
    dt = 0.02
    s.dt = dt
    s.enable_velocity_limits(False)
    zoff = np.array([0, 0, h - p.walk_com_height])
    t, held = 0.0, {}
    worst = 0.0
    while t < tr.t_end + 0.1:
        if trunk:
            wt.update_tasks(tr.get_T_world_left(t), tr.get_T_world_right(t), np.asarray(tr.get_p_world_CoM(t)) + zoff, tr.get_R_world_trunk(t))
        else:
            wt.update_tasks_from_trajectory(tr, t)
        r.update_kinematics()
        s.solve(True)
        r.update_kinematics()
        eL = np.abs(np.asarray(r.get_T_world_left()) - np.asarray(tr.get_T_world_left(t))).max()
        eR = np.abs(np.asarray(r.get_T_world_right()) - np.asarray(tr.get_T_world_right(t))).max()
        c = np.asarray(r.get_T_world_frame("trunk"))[:3, 3] - zoff if trunk else np.asarray(r.com_world())
        eC = np.abs(c - np.asarray(tr.get_p_world_CoM(t))).max()
        worst = max(worst, eL, eR, eC)
        m.ok(max(eL, eR, eC) < 1e-2, "walk-not-followed", lambda: f"t={t:.3f}/{tr.t_end:.3f} left {eL:g} right {eR:g} com {eC:g}")
        if t < tr.t_end:
            S = tr.get_support(t)
            for f in S.footsteps:
                fr = np.asarray(r.get_T_world_left() if f.side == LEFT else r.get_T_world_right())
                m.close(fr, f.frame, 1e-2, "support-foot-slips", f"t={t}")
                m.count("support_foot_instants")
        t += dt
        m.count("walk_steps")
    for _ in range(5):
        r.update_kinematics()
        s.solve(True)
    r.update_kinematics()
    m.close(r.get_T_world_left(), next(f.frame for f in reversed(list(fs)) if f.side == LEFT), 2e-3, "final-left")
    m.close(r.get_T_world_right(), next(f.frame for f in reversed(list(fs)) if f.side == RIGHT), 2e-3, "final-right")
    m.count("walks_followed")
    m.sig(T0, p.walk_com_height, len(fs))
    m.sample(f"{len(fs)} footsteps, {t:.2f}s followed in {'trunk' if trunk else 'com'} mode, worst error {worst:.2g}")


def dummy_walk(m, rng, i):
    r = walk_robot()
    p = sigmaban_params(rng)
    p.walk_com_height = float(rng.uniform(0.24, 0.29))
    h = p.walk_com_height
    w = placo.DummyWalk(r, p)
    L, R = se2(0, p.feet_spacing / 2, 0), se2(0, -p.feet_spacing / 2, 0)
    left = False
    N = None

    def expect_next(d):
        sg = -1 if left else 1      # the flying foot is on this side of the support
        S = L if left else R
        want = np.array(d, dtype=float)
        want[1] += sg * p.walk_dtheta_spacing * abs(d[2])
        want = ref_clip(p, want, "conic")
        F = S @ se2(want[0], sg * p.feet_spacing + want[1], want[2])
        g = poly_gap(corners(S, p.foot_width, p.foot_length, 1e-2), corners(F, p.foot_width, p.foot_length, 1e-2))
        return F if g > 1e-7 else None

    def state(key):
        m.ok(w.support_left == left, "support-side", key)
        m.close(w.T_world_left, L, 1e-9, "left-" + key)
        m.close(w.T_world_right, R, 1e-9, "right-" + key)
        if N is not None:
            m.close(w.T_world_next, N, 1e-9, "next-" + key)

    N = expect_next((0, 0, 0))
    state("constructed")
    if rng.random() < 0.6:
        left = bool(rng.random() < 0.5)
        w.reset(left)
        N = expect_next((0, 0, 0))
        state("reset")
    if rng.random() < 0.5:
        w.trunk_x_offset if hasattr(w, "trunk_x_offset") else None
    rr = p.walk_foot_rise_ratio
    H = p.walk_foot_height

    def lift(t):
        a, b = 0.5 - rr / 2, 0.5 + rr / 2
        h3 = lambda u: u * u * (3 - 2 * u)
        t = min(max(t, 0), 1)
        return H * h3(t / a) if t < a else H if t < b else H * h3((1 - t) / (1 - b))

    for k in range(int(rng.integers(2, 6))):
        op = rng.random()
        if op < 0.2:    # measured support
            S = L if left else R
            T = flat(S) @ planar(rng, 0.3) @ tf(rand_rot(rng, 0.1), np.array([0, 0, rng.normal() * 0.02]))
            qj = np.asarray(r.state.q)[7:].copy()
            w.update_T_world_support(T)
            D = flat(T) @ inv(S)
            L, R = D @ L, D @ R
            N = D @ N if N is not None else None
            state("support-update")
            m.close(np.asarray(r.state.q)[7:], qj, 1e-12, "support-update-moves-joints")
            m.close(r.get_T_world_frame("left_foot" if left else "right_foot"), L if left else R, 1e-7, "support-update-robot")
            m.count("support_updates")
        elif op < 0.3:
            left = bool(rng.random() < 0.5)
            w.reset(left)
            L, R = se2(0, p.feet_spacing / 2, 0), se2(0, -p.feet_spacing / 2, 0)
            N = expect_next((0, 0, 0))
            state("re-reset")
        # during the step
        N = np.asarray(w.T_world_next).copy()
        ts = sorted(rng.uniform(0, 1, 2)) + [1.0]
        for t in ts:
            t = float(t)
            for _ in range(12):
                w.update(t)
            r.update_kinematics()
            A = R if left else L
            yw = yaw_of(A) + t * wrap(yaw_of(N) - yaw_of(A))
            F = tf(rz(yw), (1 - t) * A[:3, 3] + t * N[:3, 3])
            F[2, 3] = lift(t)
            G = L if left else R
            sw, st = ("right_foot", "left_foot") if left else ("left_foot", "right_foot")
            M = flat(F)
            mid = tf(rz(yaw_of(M) + wrap(yaw_of(G) - yaw_of(M)) / 2), (M[:3, 3] + G[:3, 3]) / 2)
            Tt = mid @ tf(ry(p.walk_trunk_pitch), np.array([0.05, 0, h]))
            for key, fr, want in (("flying-foot", sw, F), ("support-foot", st, G), ("trunk", "trunk", Tt)):
                m.close(r.get_T_world_frame(fr), want, 3e-3, "dummy-" + key, f"t={t} step {k}")
            state("during-step")
            m.count("dummy_instants")
        d = [float(v) for v in rng.normal(size=3) * [0.03, 0.02, 0.15]]
        w.next_step(*d)
        if left:
            R = N
        else:
            L = N
        left = not left
        N = expect_next(d)
        state("next-step")
        m.close([w.dx, w.dy, w.dtheta], d, 0, "requested-step")
        m.count("dummy_steps")
    m.sig(d, i, h)
    m.sample(f"{k + 1} steps, com height {h:.3f}")


FAMILIES = dict(
    wt_targets=(wt_targets, 20, 300),
    wt_walk=(wt_walk, 8, 100),
    dummy_walk=(dummy_walk, 10, 150),
)
