"""Object lifetimes: Python objects are created, derived from each other and dropped in any order; whatever is still referenced
must keep working (the sanitizers watch the C++ side, values are checked against the ones seen while everything was alive)."""
import gc
import numpy as np
import placo
from vf.util import rand_T, rand_rot, exp3, tf
from vf import robots
from vf.props.humanoid import LEFT, RIGHT, se2, params, walk_params, plan_walk
from vf.props.walk import sigmaban_params

_texts = []


def small_urdf(rng):
    if len(_texts) < 12:
        _texts.append(robots.rand_urdf(rng, n=int(rng.integers(3, 7)))[0])
    return _texts[int(rng.integers(0, len(_texts)))]


class Pool:
    def __init__(self, m, rng):
        self.m, self.rng = m, rng
        self.o = {}
        self.n = 0

    def add(self, kind, obj, use):
        """use() -> comparable numbers, the same at each call"""
        self.n += 1
        self.o[self.n] = [kind, obj, use, None]
        return self.n

    def pick(self, kind):
        c = [k for k, v in self.o.items() if v[0] == kind]
        return c[int(self.rng.integers(0, len(c)))] if c else None

    def get(self, k):
        return self.o[k][1]


def new_robot(P):
    u = small_urdf(P.rng)
    r = placo.RobotWrapper("", int(placo.Flags.ignore_collisions), u)
    r.reset()
    r.update_kinematics()
    names = list(r.joint_names())
    fr = [f for f in r.frame_names() if f not in ("universe",) and list(r.frame_names()).count(f) == 1]
    r.vf_frames = fr
    P.add("robot", r, lambda o: [float(o.mass_matrix()[0, 0]), float(o.com_world()[0]), len(list(o.joint_names()))])


def robot_part(P):
    k = P.pick("robot")
    if k is None:
        return new_robot(P)
    r = P.get(k)
    c = int(P.rng.integers(0, 4))
    if c == 0:
        P.add("state", r.state, lambda o: [len(np.asarray(o.q)), float(np.asarray(o.q)[6])])
    elif c == 1:
        P.add("model", r.model, lambda o: [o.nq, o.nv, float(np.asarray(o.upperPositionLimit).size)])
    elif c == 2:
        P.add("gmodel", r.collision_model, lambda o: [o.ngeoms])
    else:
        P.add("names", r.joint_names(), lambda o: [len(list(o))])


def frames(r):
    return [f for f in r.frame_names() if f != "universe" and list(r.frame_names()).count(f) == 1]


def kin_solver(P):
    k = P.pick("robot")
    if k is None:
        return new_robot(P)
    s = placo.KinematicsSolver(P.get(k)) if P.rng.random() < 0.7 else P.get(k).make_solver()
    s.add_regularization_task(1e-3)
    P.add("kin", s, lambda o: [o.N, float(np.abs(np.asarray(o.solve(False))).max() < 1e6), o.robot.model.nv])


def dyn_solver(P):
    k = P.pick("robot")
    if k is None:
        return new_robot(P)
    s = placo.DynamicsSolver(P.get(k))

    def use(o):
        res = o.solve(False)
        return [float(res.success), len(np.asarray(res.qdd)), o.robot.model.nv]
    P.add("dyn", s, use)


def kin_task(P):
    k = P.pick("kin")
    if k is None:
        return kin_solver(P)
    s, rng = P.get(k), P.rng
    F = frames(s.robot)
    f, g = F[int(rng.integers(0, len(F)))], F[int(rng.integers(0, len(F)))]
    T = rand_T(rng)
    c = int(rng.integers(0, 9))

    def tk(o):
        o.update()
        return [float(np.asarray(o.error()).size)]
    if c == 0:
        P.add("ktask", s.add_position_task(f, rng.normal(size=3)), tk)
    elif c == 1:
        P.add("kframe", s.add_frame_task(f, T), lambda o: np.asarray(o.T_world_frame).ravel())
    elif c == 2:
        P.add("ktask", s.add_com_task(rng.normal(size=3)), tk)
    elif c == 3:
        P.add("kframe", s.add_relative_frame_task(f, g, T), lambda o: np.asarray(o.T_a_b).ravel())
    elif c == 4:
        t = s.add_joints_task()
        n = list(s.robot.joint_names())
        t.set_joint(n[0], 0.3)
        P.add("ktask", t, lambda o: [o.get_joint(n[0])])
    elif c == 5:
        P.add("problem", s.problem, lambda o: [o.regularization])
    elif c == 6:
        P.add("robot", s.robot, lambda o: [float(o.mass_matrix()[0, 0]), len(list(o.joint_names()))])
    elif c == 7:
        P.add("kcons", s.add_cone_constraint(f, g, 3.0), lambda o: [o.angle_max])
    else:
        fr = P.pick("kframe")
        if fr is not None:
            P.add("ktask", P.get(fr).position(), lambda o: np.asarray(o.mask.indices_used if hasattr(o.mask, "indices_used") else [0]).ravel())
    P.m.count("derived_objects")


def dyn_task(P):
    k = P.pick("dyn")
    if k is None:
        return dyn_solver(P)
    s, rng = P.get(k), P.rng
    F = frames(s.robot)
    f, g = F[int(rng.integers(0, len(F)))], F[int(rng.integers(0, len(F)))]
    c = int(rng.integers(0, 8))
    if c == 0:
        t = s.add_position_task(f, rng.normal(size=3))
        t.configure("t", "soft", 1.0)
        P.add("dtask", t, lambda o: np.asarray(o.target_world).ravel())
    elif c == 1:
        t = s.add_frame_task(f, rand_T(rng))
        t.configure("t", "soft", 1.0, 1.0)
        P.add("dframe", t, lambda o: np.asarray(o.T_world_frame).ravel())
    elif c == 2:
        t = s.add_relative_frame_task(f, g, rand_T(rng))
        t.configure("t", "soft", 1.0, 1.0)
        P.add("dframe", t, lambda o: np.asarray(o.T_a_b).ravel())
    elif c == 3:
        P.add("dcontact", s.add_external_wrench_contact(f, "world"), lambda o: np.asarray(o.w_ext).ravel())
    elif c == 4:
        P.add("dcontact", s.add_puppet_contact(), lambda o: [float(o.active)])
    elif c == 5:
        P.add("robot", s.robot, lambda o: [float(o.mass_matrix()[0, 0]), len(list(o.joint_names()))])
    elif c == 6:
        if s.count_contacts():
            P.add("dcontact", s.get_contact(int(rng.integers(0, s.count_contacts()))), lambda o: [float(o.active)])
    else:
        fr = P.pick("dframe")
        if fr is not None and hasattr(P.get(fr), "orientation"):
            P.add("dtask", P.get(fr).orientation(), lambda o: [float(o.kp)])
    P.m.count("derived_objects")


def user_task(P):
    """Tasks and constraints built by the caller, given to a solver and forgotten"""
    rng = P.rng
    k = P.pick("kin") if rng.random() < 0.5 else P.pick("dyn")
    if k is None:
        return kin_solver(P)
    s = P.get(k)
    r = s.robot
    f = r.get_frame_index(frames(r)[0]) if hasattr(r, "get_frame_index") else 2
    try:
        if isinstance(s, placo.KinematicsSolver):
            c = int(rng.integers(0, 4))
            t = (placo.PositionTask(f, rng.normal(size=3)) if c == 0 else placo.OrientationTask(f, rand_rot(rng)) if c == 1
                 else placo.JointsTask() if c == 2 else placo.CoMTask(rng.normal(size=3)))
            s.add_task(t)
            if c == 2:
                t.set_joint(list(r.joint_names())[0], 0.2)
            kind = "uktask"
        else:
            t = placo.DynamicsPositionTask(f, rng.normal(size=3)) if rng.random() < 0.5 else placo.DynamicsJointsTask()
            s.add_task(t)
            kind = "udtask"
    except TypeError:
        return
    t.configure("user", "soft", 1.0)
    P.m.count("user_tasks")
    if rng.random() < 0.3:
        # a task of another solver is refused
        o = [v[1] for v in P.o.values() if v[0] == ("kin" if kind == "uktask" else "dyn") and v[1] is not s]
        if o:
            own = o[0].add_joints_task()
            P.m.raises(lambda: s.add_task(own), "foreign-task-accepted")


def dyn_result(P):
    k = P.pick("dyn")
    if k is None:
        return dyn_solver(P)
    r = P.get(k).solve(False)
    P.add("result", r, lambda o: np.concatenate([[float(o.success)], np.asarray(o.tau).ravel()]))


def problem(P):
    p = placo.Problem()
    P.add("qp", p, lambda o: [o.n_variables >= 0])


def variable(P):
    k = P.pick("qp")
    if k is None:
        return problem(P)
    P.add("var", P.get(k).add_variable(int(P.rng.integers(2, 6))), lambda o: [o.k_start, o.k_end])


def variable_use(P):
    k = P.pick("var")
    if k is None:
        return variable(P)
    v, rng = P.get(k), P.rng
    n = v.k_end - v.k_start
    c = int(rng.integers(0, 4))
    if c == 0:
        P.add("expr", v.expr(), lambda o: np.asarray(o.A).ravel())
    elif c == 1:
        P.add("integ", placo.Integrator(v, placo.Expression.from_vector(np.ones(2)), 2, 0.1),
              lambda o: np.concatenate([np.asarray(o.expr(1).A).ravel(), np.asarray(o.expr_t(0.05).A).ravel(), np.asarray(o.M).ravel()]))
    elif c == 2:
        P.add("integ", placo.Integrator(v, np.ones(2), np.eye(3, k=1), 0.1), lambda o: np.asarray(o.expr(n).A).ravel())
    else:
        P.add("poly", placo.ProblemPolynom(v), lambda o: np.asarray(o.expr(0.5).A).ravel())
    P.m.count("derived_objects")


def constraint(P):
    k, v = P.pick("qp"), P.pick("var")
    if k is None or v is None:
        return variable(P)
    p = P.get(k)
    w = p.add_variable(2)
    c = p.add_constraint(w.expr() == P.rng.normal(size=2))
    c.configure("soft", 2.0)
    P.add("cons", c, lambda o: [o.weight])
    P.add("var", w, lambda o: [o.k_start, o.k_end])


def solve_integ(P):
    """A detached integrator trajectory outlives everything"""
    p = placo.Problem()
    v = p.add_variable(4)
    I = placo.Integrator(v, placo.Expression.from_vector(np.ones(2)), 2, 0.1)
    p.add_constraint(I.expr(4) == np.zeros(2))
    p.solve()
    P.add("itraj", I.get_trajectory(), lambda o: [o.value(0.17, 0), o.duration()])
    P.add("integ", I, lambda o: [o.value(0.17, 0), o.value(0.3, 1)])


def lipm(P):
    p = placo.Problem()
    z = np.zeros(2)
    L = placo.LIPM(p, 0.1, 4, 0.0, np.ones(2), z, z)
    if P.rng.random() < 0.5:
        L2 = placo.LIPM.build_LIPM_from_previous(p, 0.1, 3, 0.4, L)
        P.add("lipm", L2, lambda o: np.asarray(o.pos(2).A).ravel())
    p.add_constraint(L.pos(4) == z).configure("soft", 1.0)
    p.solve()
    P.add("lipm", L, lambda o: np.concatenate([np.asarray(o.pos(2).A).ravel(), np.asarray(o.get_trajectory().pos(0.2))]))
    P.add("ltraj", L.get_trajectory(), lambda o: np.asarray(o.pos(0.2)))
    if P.rng.random() < 0.5:
        P.add("var", L.x_var, lambda o: [o.k_start, o.k_end])
    if P.rng.random() < 0.5:
        P.add("integ", L.x, lambda o: np.asarray(o.expr(2).A).ravel())


def walk(P):
    k = P.pick("humanoid")
    rng = P.rng
    if k is None:
        r = robots.sigmaban_ps().robot
        r.reset()
        r.update_kinematics()
        P.add("humanoid", r, lambda o: [o.get_T_world_left().shape[0], len(list(o.joint_names()))])
        return
    r = P.get(k)
    p = sigmaban_params(rng)
    c = int(rng.integers(0, 5))
    if c == 0:
        d = placo.DummyWalk(placo.RobotWrapper("", int(placo.Flags.ignore_collisions), small_urdf(rng)) if False else r, p)
        P.add("dummy", d, lambda o: [o.parameters.feet_spacing, float(o.T_world_left[1, 3]), o.solver.N])
    elif c == 1:
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(0.01, 0.0, 0.0, 3)
        P.add("planner", pl, lambda o: np.array([np.asarray(f.frame)[:2, 3] for f in o.plan(LEFT, se2(0, 0.07, 0), se2(0, -0.07, 0))]).ravel())
    elif c == 2:
        w = placo.WalkPatternGenerator(r, p)
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(0.01, 0.0, 0.0, 3)
        fs = pl.plan(LEFT, se2(0, 0.07, 0), se2(0, -0.07, 0))
        S = placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True)
        try:
            tr = w.plan(S, np.array([0, 0, p.walk_com_height]), 0.0)
        except RuntimeError:
            return
        P.add("wpg", w, lambda o: [o.support_default_duration(S[0])])
        P.add("traj", tr, lambda o: np.concatenate([o.get_p_world_CoM(0.5), np.asarray(o.get_T_world_left(0.5)).ravel(), np.asarray(o.get_T_world_right(0.7)).ravel()]))
        P.add("supports", tr.get_supports(), lambda o: np.array([np.asarray(s.frame())[:2, 3] for s in o]).ravel())
        P.add("support", S[1], lambda o: np.array([np.asarray(v) for v in o.support_polygon()]).ravel())
        P.add("footstep", fs[int(rng.integers(0, len(fs)))], lambda o: np.asarray(o.frame).ravel())
    elif c == 3:
        s = placo.KinematicsSolver(r)
        wt = placo.WalkTasks()
        wt.initialize_tasks(s, r)
        P.add("wtasks", wt, lambda o: [len(o.get_tasks_error()), o.solver.N])
        P.add("ktask", wt.com_task, lambda o: np.asarray(o.target_world).ravel())
        P.add("kframe", wt.left_foot_task, lambda o: np.asarray(o.T_world_frame).ravel())
        P.add("kin", wt.solver, lambda o: [o.N, o.tasks_count()])
    else:
        q = P.pick("traj")
        if q is not None:
            P.add("support", P.get(q).get_support(0.5), lambda o: np.asarray(o.frame()).ravel())


MAKERS = [new_robot, robot_part, robot_part, kin_solver, dyn_solver, kin_task, kin_task, kin_task, dyn_task, dyn_task, user_task, user_task, dyn_result, problem,
          variable, variable, variable_use, variable_use, constraint, solve_integ, lipm]


def run_lifetimes(m, rng, makers, steps):
    P = Pool(m, rng)
    for _ in range(steps):
        u = rng.random()
        if u < 0.5 or not P.o:
            makers[int(rng.integers(0, len(makers)))](P)
        elif u < 0.75:
            k = list(P.o)[int(rng.integers(0, len(P.o)))]
            del P.o[k]
            gc.collect() if rng.random() < 0.3 else None
            m.count("objects_dropped")
        else:
            k = list(P.o)[int(rng.integers(0, len(P.o)))]
            check_use(m, P, k)
    gc.collect()
    for k in list(P.o):
        check_use(m, P, k)
    order = list(rng.permutation(list(P.o)))
    while order:   # dismantle in a random order, using a survivor in between
        del P.o[int(order.pop())]
        if order and rng.random() < 0.4:
            check_use(m, P, int(order[-1]))
    gc.collect()


def check_use(m, P, k):
    kind, obj, use, seen = P.o[k]
    v = np.asarray(use(obj), dtype=float)
    m.count("objects_used")
    m.count("used_" + kind)
    if seen is not None:
        m.close(v, seen, 1e-9, "value-changed-" + kind, rel=1e-9)
    P.o[k][3] = v


def mem_lifetime(m, rng, i):
    run_lifetimes(m, rng, MAKERS, int(rng.integers(15, 60)))
    m.sig(i)
    m.sample("random creation/derivation/drop history")


def mem_walk_lifetime(m, rng, i):
    run_lifetimes(m, rng, [walk], int(rng.integers(6, 14)))
    m.sig(i)


FAMILIES = dict(
    mem_lifetime=(mem_lifetime, 300, 4000),
    mem_walk_lifetime=(mem_walk_lifetime, 100, 1000),
)
