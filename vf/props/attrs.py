"""Settings are storage: what is written is read back, and nothing else moves. Queries are pure: asking again, more often or in another
order gives the same answers."""
import numpy as np
import placo
from vf import robots
from vf.util import rand_T, rand_rot
from vf.props.humanoid import walk_params, walk_robot, plan_walk, planar, LEFT, RIGHT, mkfoot

# computed by update()/solve(), so that writing them is not a setting
SKIP = {"A", "b", "mask", "name", "priority", "wrench", "scale"}
ROT = {"R_world_frame", "R_a_b", "R_world_surface", "R_custom_world", "R_local_world"}


def rw(o):
    return [k for k in dir(type(o)) if isinstance(getattr(type(o), k), property) and getattr(type(o), k).fset and k not in SKIP]


def frames(r):
    L = list(r.frame_names())
    return [f for f in L if f != "universe" and L.count(f) == 1]


def kin_objects(rng, r):
    F = frames(r)
    f = lambda: F[int(rng.integers(0, len(F)))]
    f2 = lambda: [F[int(k)] for k in rng.choice(len(F), 2, replace=False)]
    J = list(r.joint_names())
    s = placo.KinematicsSolver(r)
    v3 = lambda: rng.normal(size=3)
    L = [("solver", s)]
    mk = [lambda: s.add_position_task(f(), v3()), lambda: s.add_orientation_task(f(), rand_rot(rng)), lambda: s.add_frame_task(f(), rand_T(rng)),
          lambda: s.add_relative_position_task(*f2(), v3()), lambda: s.add_relative_orientation_task(*f2(), rand_rot(rng)),
          lambda: s.add_relative_frame_task(*f2(), rand_T(rng)), lambda: s.add_com_task(v3()), lambda: s.add_centroidal_momentum_task(v3()),
          lambda: s.add_axisalign_task(f(), v3(), v3()), lambda: s.add_distance_task(*f2(), 0.3), lambda: s.add_gear_task(),
          lambda: s.add_joints_task(), lambda: s.add_manipulability_task(f(), "both", 1.0), lambda: s.add_wheel_task(J[-1], 0.1, False),
          lambda: s.add_com_polygon_constraint([v3()[:2] for _ in range(4)], 0.0), lambda: s.add_cone_constraint(*f2(), 1.0),
          lambda: s.add_yaw_constraint(*f2(), 1.0), lambda: s.add_distance_constraint(*f2(), 1.0),
          lambda: s.add_avoid_self_collisions_constraint(),
          lambda: s.add_joint_space_half_spaces_constraint(rng.normal(size=(2, r.model.nv)), rng.normal(size=2))]
    for k in rng.permutation(len(mk)):
        o = mk[int(k)]()
        L.append((f"{type(o).__name__}{k}", o))
    return L


def dyn_objects(rng, r):
    F = frames(r)
    f = lambda: F[int(rng.integers(0, len(F)))]
    f2 = lambda: [F[int(k)] for k in rng.choice(len(F), 2, replace=False)]
    s = placo.DynamicsSolver(r)
    v3 = lambda: rng.normal(size=3)
    L = [("solver", s)]
    mk = [lambda: s.add_position_task(f(), v3()), lambda: s.add_orientation_task(f(), rand_rot(rng)), lambda: s.add_frame_task(f(), rand_T(rng)),
          lambda: s.add_relative_position_task(*f2(), v3()), lambda: s.add_relative_orientation_task(*f2(), rand_rot(rng)),
          lambda: s.add_relative_frame_task(*f2(), rand_T(rng)), lambda: s.add_com_task(v3()), lambda: s.add_gear_task(),
          lambda: s.add_joints_task(), lambda: s.add_torque_task(), lambda: s.add_avoid_self_collisions_constraint(),
          lambda: s.add_puppet_contact(), lambda: s.add_external_wrench_contact(f(), "world"),
          lambda: s.add_point_contact(s.add_position_task(f(), v3())), lambda: s.add_unilateral_point_contact(s.add_position_task(f(), v3())),
          lambda: s.add_planar_contact(s.add_frame_task(f(), rand_T(rng))), lambda: s.add_fixed_contact(s.add_frame_task(f(), rand_T(rng))),
          lambda: s.add_line_contact(s.add_frame_task(f(), rand_T(rng))), lambda: s.add_unilateral_line_contact(s.add_frame_task(f(), rand_T(rng)))]
    for k in rng.permutation(len(mk)):
        o = mk[int(k)]()
        L.append((f"{type(o).__name__}{k}", o))
    return L


def walk_objects(rng, m):
    h = walk_robot()
    p = placo.HumanoidParameters()
    q = placo.HumanoidParameters()
    s = placo.KinematicsSolver(h)
    t = placo.WalkTasks()
    t.initialize_tasks(s, h)
    a = [mkfoot(0.08, 0.14, side, planar(rng)) for side in (LEFT, RIGHT)]
    return [("params", p), ("other_params", q), ("planner", placo.FootstepsPlannerRepetitive(p)), ("wpg", placo.WalkPatternGenerator(h, p)),
            ("walk_tasks", t), ("solver", s), ("left", a[0]), ("right", a[1]), ("support", placo.Support()), ("support2", placo.Support()),
            ("dummy", placo.DummyWalk(h, q)), ("robot", h)]


def tool_objects(rng):
    p = placo.Problem()
    v = p.add_variable(4)
    z = np.zeros(2)
    return [("problem", p), ("segment", placo.Segment(z, z + 1)), ("segment2", placo.Segment(z, z - 1)), ("polynom", placo.Polynom(np.ones(3))),
            ("polynom2", placo.Polynom(np.ones(2))), ("integrator", placo.Integrator(v, z, 2, 0.1)), ("mask", placo.AxisesMask()),
            ("mask2", placo.AxisesMask()), ("interval", placo.SparsityInterval())
            ] if hasattr(placo, "AxisesMask") else []


ENUMS = (placo.HumanoidRobot_Side,)


def val(x):
    """A comparable copy of the value of an attribute, None if it is an object with its own attributes"""
    if isinstance(x, ENUMS) or isinstance(x, (bool, int, float, str)):
        return float(x) if not isinstance(x, str) else x
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float, copy=True).ravel()
    try:
        L = [val(y) for y in x]
    except TypeError:
        return None
    return None if any(y is None or isinstance(y, str) for y in L) else (np.concatenate([np.atleast_1d(y) for y in L]) if L else np.zeros(0))


def fresh(rng, name, x, polygon=False):
    """A new value of the type of x"""
    if isinstance(x, ENUMS):
        return LEFT if rng.random() < 0.5 else RIGHT
    if isinstance(x, bool):
        return bool(rng.random() < 0.5)
    if isinstance(x, int):
        return int(rng.integers(1, 90))
    if isinstance(x, float):
        return float(rng.choice([rng.normal(), abs(rng.normal()), 10 ** rng.uniform(-6, 6), 0.0]))
    if isinstance(x, np.ndarray):
        if x.shape == (4, 4):
            return rand_T(rng)
        if x.shape == (3, 3) and name in ROT:
            return rand_rot(rng)
        return rng.normal(size=x.shape) if x.size else None
    if "polygon" in name:
        return [rng.normal(size=2) for _ in range(int(rng.integers(3, 7)))]
    return None


def snapshot(objs):
    S = {}
    for n, o in objs:
        for k in rw(o):
            v = val(getattr(o, k))
            if v is not None:
                S[n, k] = v
    return S


def equal(a, b, name):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)


def st_attributes(m, rng, i):
    kind = i % 4
    if kind < 2:
        rb = robots.any_robot(m, rng)
        r = rb.robot
        rb.set(rb.rand_q(rng, margin=0.05))
        objs = (kin_objects if kind == 0 else dyn_objects)(rng, r)
    elif kind == 2:
        objs = walk_objects(rng, m)
    else:
        objs = tool_objects(rng)
    model = snapshot(objs)
    D = dict(objs)
    keys = [k for k in model if fresh(rng, k[1], getattr(D[k[0]], k[1])) is not None]
    m.count("attributes_modelled", len(model))
    done = []
    for _ in range(int(rng.integers(10, 30))):
        n, k = keys[int(rng.integers(0, len(keys)))]
        o = D[n]
        x = fresh(rng, k, getattr(o, k))
        setattr(o, k, x)
        model[n, k] = val(x)
        done.append(k)
        S = snapshot(objs)
        for q in model:
            if q == (n, k):
                m.ok(equal(S.get(q), model[q], q), "written-value-lost", lambda: f"{q}: wrote {model[q]}, read {S.get(q)}")
            elif not (q in S and equal(S[q], model[q], q)):
                m.violation("other-attribute-changed", f"writing {n}.{k} = {x} changed {q}: {model[q]} -> {S.get(q)}")
        m.count("attributes_written")
        m.count("attributes_read_back", len(model))
    m.sig(kind, *done)


# ---------------------------------------------------------------- queries
def dig(x):
    """Numbers of a result, whatever its type"""
    if x is None:
        return np.zeros(0)
    if isinstance(x, str):
        return np.array([float(b) for b in x.encode()])
    if isinstance(x, ENUMS) or isinstance(x, (bool, int, float, np.number)):
        return np.array([float(x)])
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float, copy=True).ravel()
    if isinstance(x, dict):
        return np.concatenate([np.zeros(0)] + [dig(v) for _, v in sorted(x.items())])
    if isinstance(x, placo.Expression):
        return np.concatenate([dig(x.A), dig(x.b)])
    if isinstance(x, placo.Footstep):
        return np.concatenate([dig(x.frame), dig(x.side), [x.foot_width, x.foot_length]])
    if isinstance(x, placo.Support):
        return np.concatenate([[x.t_start, x.elapsed_ratio, x.time_ratio, x.start, x.end], dig(x.target_world_dcm), dig(x.footsteps)])
    if isinstance(x, placo.Distance):
        return np.concatenate([[x.objA, x.objB, x.parentA, x.parentB, x.min_distance], dig(x.pointA), dig(x.pointB)])
    if isinstance(x, placo.Collision):
        return np.array([x.objA, x.objB, x.parentA, x.parentB], dtype=float)
    return np.concatenate([np.zeros(0)] + [dig(y) for y in x])


def robot_queries(rng, rb, r):
    F, J = frames(r), list(r.joint_names())
    f = lambda: F[int(rng.integers(0, len(F)))]
    nv = r.model.nv
    Q = []
    for _ in range(3):
        a, b, j, ref = f(), f(), J[int(rng.integers(0, len(J)))], str(rng.choice(["local", "world", "local_world_aligned"]))
        Q += [("T_world_frame", lambda a=a: r.get_T_world_frame(a)), ("T_a_b", lambda a=a, b=b: r.get_T_a_b(a, b)),
              ("frame_jacobian", lambda a=a, ref=ref: r.frame_jacobian(a, ref)),
              ("frame_jacobian_dot", lambda a=a, ref=ref: r.frame_jacobian_time_variation(a, ref)),
              ("joint_jacobian", lambda j=j, ref=ref: r.joint_jacobian(j, ref)),
              ("relative_jacobian", lambda a=a, b=b: r.relative_position_jacobian(a, b)),
              ("static_torques", lambda a=a: r.static_gravity_compensation_torques(a)),
              ("static_torques_dict", lambda a=a: r.static_gravity_compensation_torques_dict(a)),
              ("joint", lambda j=j: [r.get_joint(j), r.get_joint_velocity(j), r.get_joint_acceleration(j)]),
              ("joint_limits", lambda j=j: r.get_joint_limits(j))]
        x = rng.normal(size=nv - 6)
        Q.append(("torques_fixed", lambda a=a, x=x: r.torques_from_acceleration_with_fixed_frame(x, a)))
    Q += [("com", r.com_world), ("com_jacobian", r.com_jacobian), ("com_jacobian_dot", r.com_jacobian_time_variation),
          ("centroidal_map", r.centroidal_map), ("mass_matrix", r.mass_matrix), ("nle", r.non_linear_effects),
          ("gravity", r.generalized_gravity), ("mass", r.total_mass), ("T_world_fbase", r.get_T_world_fbase),
          ("collisions", lambda: r.self_collisions(False)), ("distances", r.distances), ("names", lambda: list(r.joint_names()) + list(r.frame_names())),
          ("state", lambda: [r.state.q, r.state.qd, r.state.qdd]), ("neutral", lambda: r.neutral_state().q)]
    return Q


def humanoid_queries(rng, h):
    w = float(rng.uniform(1, 6))
    v, o = rng.normal(size=3), rng.normal(size=3)
    return [("left", h.get_T_world_left), ("right", h.get_T_world_right), ("trunk", h.get_T_world_trunk), ("support", h.get_T_world_support),
            ("side", h.get_support_side), ("dcm", lambda: h.dcm(w, v[:2])), ("zmp", lambda: h.zmp(w, v[:2])),
            ("com_velocity", lambda: [h.get_com_velocity(s, o) for s in (LEFT, RIGHT)])]


def problem_queries(rng):
    p = placo.Problem()
    v, w = p.add_variable(int(rng.integers(4, 9))), p.add_variable(2)
    n = v.k_end
    I = placo.Integrator(v, rng.normal(size=2), 2, 0.1)
    e = (v.expr().left_multiply(rng.normal(size=(2, n))) + w.expr()) * 2.0
    p.add_constraint(e == rng.normal(size=2)).configure("soft", 2.0)
    c = p.add_constraint(w.expr() <= rng.normal(size=2))
    c.configure("soft", 3.0)
    p.add_constraint(I.expr(n // 2, 0) == 0.3)
    p.solve()
    x = np.array(p.x)
    tr = I.get_trajectory()
    Q = [("x", lambda: p.x), ("slacks", lambda: p.slacks), ("value", lambda: v.value), ("value2", lambda: w.value), ("expr", lambda: v.expr()),
         ("slice", lambda: v.expr(1, 2)), ("evaluate", lambda: e.value(x)), ("sum", lambda: e.sum()), ("mean", lambda: e.mean()),
         ("counters", lambda: [p.n_variables, p.n_equalities, p.n_inequalities, p.free_variables, p.determined_variables, p.slack_variables]),
         ("active", lambda: c.is_active), ("matrices", lambda: [I.A, I.B, I.M, I.final_transition_matrix])]
    for _ in range(4):
        t, d, k = float(rng.uniform(0, 0.1 * n)), int(rng.integers(0, 3)), int(rng.integers(0, n + 1))
        Q += [("int_value", lambda t=t, d=d: I.value(t, d)), ("int_expr_t", lambda t=t, d=d: I.expr_t(t, d)),
              ("int_expr", lambda k=k, d=d: I.expr(k, d if k < n else min(d, 1))), ("trajectory", lambda t=t, d=d: tr.value(t, d))]
    Q.append(("duration", tr.duration))
    return Q, (p, v, w, I, e, c, tr)


def spline_queries(rng):
    s, s3 = placo.CubicSpline(), placo.CubicSpline3D()
    ts = np.cumsum(rng.uniform(0.1, 1.0, int(rng.integers(2, 6))))
    for t in ts:
        s.add_point(float(t), *rng.normal(size=2))
        s3.add_point(float(t), rng.normal(size=3), rng.normal(size=3))
    Q = [("duration", s.duration), ("duration3", s3.duration)]
    c = placo.SwingFootCubic.make_trajectory(float(ts[0]), 1.0, 0.05, 0.2, rng.normal(size=3) * [1, 1, 0], rng.normal(size=3) * [1, 1, 0], 0.0,
                                             np.zeros(3))
    q = placo.SwingFoot.make_trajectory(float(ts[0]), float(ts[0]) + 1.0, 0.05, rng.normal(size=3) * [1, 1, 0], rng.normal(size=3) * [1, 1, 0])
    poly = placo.Polynom(rng.normal(size=4))
    for _ in range(8):
        t = float(rng.uniform(ts[0] - 0.2, ts[-1] + 0.2))
        Q += [("spline", lambda t=t: [s.pos(t), s.vel(t), s.acc(t)]), ("spline3", lambda t=t: np.concatenate([s3.pos(t), s3.vel(t), s3.acc(t)])),
              ("swing_cubic", lambda t=t: np.concatenate([c.pos(t), c.vel(t)])), ("swing", lambda t=t: np.concatenate([q.pos(t), q.vel(t)])),
              ("polynom", lambda t=t: [poly.value(t, d) for d in range(3)])]
    return Q, (s, s3, c, q, poly)


def walk_queries(m, rng):
    p = walk_params(rng)
    w = placo.WalkPatternGenerator(walk_robot(), p)
    t0 = float(rng.choice([0.0, rng.uniform(-1, 50)]))
    sup, c, tr = plan_walk(m, rng, p, w, t0, n=int(rng.integers(2, 5)))
    Q = [("supports", tr.get_supports), ("parts", lambda: [[q.t_start, q.t_end] for q in tr.parts]),
         ("params", lambda: [p.dt(), p.double_support_duration(), p.double_support_timesteps(), p.startend_double_support_timesteps(),
                             p.startend_double_support_duration(), p.has_double_support()])]
    om = float(np.sqrt(9.81 / p.walk_com_height))
    for _ in range(6):
        t = float(rng.uniform(t0 - 0.1, tr.t_end + 0.1))
        for n in dir(tr):
            if n.startswith("get_") and n not in ("get_supports", "get_next_support", "get_prev_support", "get_v_world_foot", "get_part_end_dcm"):
                Q.append((n, lambda n=n, a=(t, om) if n.endswith(("DCM", "ZMP")) else (t,): getattr(tr, n)(*a)))
        Q += [("support_side", lambda t=t: tr.support_side(t)), ("support_is_both", lambda t=t: tr.support_is_both(t)),
              ("next_support", lambda t=t: tr.get_next_support(t, 1)), ("prev_support", lambda t=t: tr.get_prev_support(t, 1)),
              ("next_support2", lambda t=t: tr.get_next_support(t, 2)), ("v_world_foot", lambda t=t: tr.get_v_world_foot(LEFT, t)),
              ("part_end_dcm", lambda t=t: tr.get_part_end_dcm(t, om)),
              ("can_replan", lambda t=t: w.can_replan_supports(tr, t))]
    for s in sup[:4] if len(sup) > 4 else sup:
        Q += [("support_polygon", lambda s=s: s.support_polygon()), ("support_frame", lambda s=s: s.frame()),
              ("timesteps", lambda s=s: [w.support_default_timesteps(s), w.support_default_duration(s)])]
    Q.append(("plan", lambda: plan_obs(w.plan(sup, c, t0))))
    return Q, (p, w, sup, tr)


def plan_obs(tr):
    return np.concatenate([np.ravel(tr.get_p_world_CoM(float(t))) for t in np.linspace(tr.t_start, tr.t_end, 5)])


def ask(q):
    try:
        return dig(q())
    except (RuntimeError, IndexError, ValueError) as e:
        return np.array([float(len(str(e)))])


def st_queries(m, rng, i):
    kind = i % 6
    keep = None
    if kind == 0:
        rb = robots.any_robot(m, rng)
        rb.set(rb.rand_q(rng, margin=0.05), rb.rand_v(rng), rb.rand_v(rng))
        Q = robot_queries(rng, rb, rb.robot)
        if hasattr(rb.robot, "get_T_world_left"):
            Q += humanoid_queries(rng, rb.robot)
    elif kind in (1, 2):
        rb = robots.any_robot(m, rng)
        rb.set(rb.rand_q(rng, margin=0.05), rb.rand_v(rng))
        r = rb.robot
        F = frames(r)
        s = (placo.KinematicsSolver if kind == 1 else placo.DynamicsSolver)(r)
        s.dt = 0.01
        ts = [s.add_position_task(F[int(rng.integers(0, len(F)))], rng.normal(size=3)), s.add_orientation_task(F[-1], rand_rot(rng)),
              s.add_com_task(rng.normal(size=3)), s.add_joints_task()]
        ts[3].set_joints({n: float(rng.normal()) for n in list(r.joint_names())[:3]})
        for k, t in enumerate(ts):
            t.configure(f"t{k}", "soft", float(10 ** rng.uniform(-1, 1)))
        if kind == 1:
            s.add_regularization_task(1e-3)
            s.add_distance_task(F[0], F[-1], 0.4).configure("d", "soft", 0.1)
            s.solve(False)
            Q = [("solve", lambda: s.solve(False))]
        else:
            s.add_puppet_contact()
            s.add_external_wrench_contact(F[0], "world").w_ext = rng.normal(size=6)
            s.solve(False)
            Q = [("solve", lambda: (lambda z: [z.success, *np.ravel(z.qdd), *np.ravel(z.tau)])(s.solve(False)))]
        for k, t in enumerate(ts):
            Q.append((f"task{k}", lambda t=t: np.concatenate([np.ravel(t.A), np.ravel(t.b), np.ravel(t.error() if kind == 1 else t.error)])))
        Q = Q + robot_queries(rng, rb, r)[::3]
        keep = (s, ts)
    elif kind == 3:
        Q, keep = problem_queries(rng)
    elif kind == 4:
        Q, keep = spline_queries(rng)
    else:
        Q, keep = walk_queries(m, rng)
    order = rng.permutation(len(Q))
    base, raw = {}, []
    for k in order:
        base[int(k)] = ask(Q[int(k)][1])
    for k in rng.integers(0, len(Q), 3 * len(Q)):
        k = int(k)
        try:
            x = Q[k][1]()
        except (RuntimeError, IndexError, ValueError) as e:
            x = float(len(str(e)))
        if isinstance(x, np.ndarray) and len(raw) < 12:
            raw.append((Q[k][0], x, np.array(x, copy=True)))
        g = dig(x)
        ok = g.shape == base[k].shape and np.allclose(g, base[k], rtol=1e-9, atol=1e-9 * (1 + np.abs(base[k]).max(initial=0)), equal_nan=True)
        m.ok(ok, "query-changed-result:" + Q[k][0], lambda: f"kind {kind}: {base[k][:8]} then {g[:8]}")
        m.count("queries_repeated")
    for n, x, c in raw:
        m.ok(np.array_equal(x, c, equal_nan=True), "returned-array-changed:" + n, lambda: f"{c.ravel()[:6]} -> {np.ravel(x)[:6]}")
        m.count("arrays_kept")
    m.sig(kind, *order[:6], *[float(b[:1].sum()) for b in list(base.values())[:6]])
    del keep


FAMILIES = dict(st_attributes=(st_attributes, 60, 1500), st_queries=(st_queries, 60, 1500))
