"""Memory stays bounded: a workload that is repeated and dropped over and over does not hold more and more memory."""
import ctypes
import time
import gc
import sys
import numpy as np
import placo
from vf import robots
from vf.util import rand_T
from vf.props import memory
from vf.props.memory import small_urdf, frames
from vf.props.fuzz import Fuzzer
from vf.props.humanoid import LEFT, RIGHT, se2
from vf.props.walk import sigmaban_params


class MI(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


libc = ctypes.CDLL("libc.so.6")
libc.mallinfo2.restype = MI


def in_use():
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def w_robot(rng, S):
    r = placo.RobotWrapper("", int(placo.Flags.ignore_collisions) if S["i"] % 2 else 0, S["urdf"])
    r.reset()
    r.update_kinematics()
    r.mass_matrix(), r.com_world(), r.state, list(r.joint_names()), r.frame_jacobian(frames(r)[0], "world"), r.model, r.collision_model
    r.self_collisions(False), r.distances()
    r.compute_hessians()
    return r


def w_kin(rng, S):
    r = S.setdefault("robot", None) or w_robot(rng, S)
    S["robot"] = r
    s = placo.KinematicsSolver(r)
    F = frames(r)
    s.add_regularization_task(1e-3)
    for f in F[:3]:
        t = s.add_frame_task(f, rand_T(rng))
        t.configure("t", "soft", 1.0, 1.0)
        t.T_world_frame = rand_T(rng)
    s.add_com_task(np.zeros(3)).configure("c", "soft", 1.0)
    j = s.add_joints_task()
    j.set_joints({n: 0.1 for n in list(r.joint_names())[:2]})
    c = s.add_com_polygon_constraint([np.array([-9.0, -9.0]), np.array([-9.0, 9.0]), np.array([9.0, 9.0]), np.array([9.0, -9.0])], 0.1)
    s.add_cone_constraint(F[0], F[-1], 3.1)
    s.add_distance_constraint(F[0], F[-1], 9.0)
    t = s.add_position_task(F[0], np.zeros(3))
    for _ in range(3):
        s.solve(False)
    s.remove_task(t)
    if rng.random() < 0.5:
        s.remove_constraint(c)
    if rng.random() < 0.5:
        s.clear()
    try:
        s.add_position_task("nope", np.zeros(3))
    except Exception:
        pass


def w_dyn(rng, S):
    r = S.setdefault("robot", None) or w_robot(rng, S)
    S["robot"] = r
    s = placo.DynamicsSolver(r)
    F = frames(r)
    p = s.add_position_task(F[0], np.zeros(3))
    p.configure("p", "soft", 1.0)
    f = s.add_frame_task(F[-1], rand_T(rng))
    f.configure("f", "soft", 1.0, 1.0)
    c = s.add_fixed_contact(f)
    s.add_point_contact(p)
    s.add_puppet_contact()
    s.add_external_wrench_contact(F[0], "world")
    s.add_joints_task().set_joints({n: 0.1 for n in list(r.joint_names())[:2]})
    s.add_torque_task()
    for _ in range(2):
        s.solve(False).tau
    s.remove_contact(c)
    s.remove_task(p) if rng.random() < 0 else None
    if rng.random() < 0.5:
        s.clear()


def w_problem(rng, S):
    p = placo.Problem()
    v = p.add_variable(6)
    w = p.add_variable(2)
    e = v.expr() + np.ones(6)
    p.add_constraint(e.slice(0, 2) == w.expr())
    p.add_constraint(w.expr() <= 3.0).configure("soft", 2.0)
    p.add_constraint(v.expr() >= -10.0)
    p.add_limit(w.expr(), np.ones(2))
    I = placo.Integrator(v, placo.Expression.from_vector(np.ones(2)), 2, 0.1)
    I.expr(3), I.expr_t(0.2)
    p.solve()
    I.get_trajectory().value(0.2, 0), I.value(0.3, 1)
    placo.ProblemPolynom(v).get_polynom().value(0.2)
    p.clear_constraints()
    p.add_constraint(w.expr() == np.array([1.0, 2.0]))
    p.add_constraint(w.expr() == np.array([1.0, 3.0]))
    try:
        p.solve()
    except RuntimeError:
        pass
    if rng.random() < 0.5:
        p.clear_variables()


def w_tools(rng, S):
    s = placo.CubicSpline()
    s3 = placo.CubicSpline3D()
    for k in range(5):
        s.add_point(float(k), 0.1, 0.2)
        s3.add_point(float(k), np.ones(3), np.zeros(3))
    s.pos(1.5), s3.vel(2.5)
    placo.interpolate_frames(rand_T(rng), rand_T(rng), 0.4)
    placo.directions_3d(20)
    a = rng.normal(size=(5, 3))
    placo.optimal_transformation(a, a)


def w_walk(rng, S):
    if "h" not in S:
        S["h"] = robots.sigmaban_ps().robot
        S["p"] = sigmaban_params(rng)
        S["h"].reset()
        S["h"].update_kinematics()
    r, p = S["h"], S["p"]
    pl = placo.FootstepsPlannerRepetitive(p)
    pl.configure(0.01, 0.0, 0.0, 3)
    fs = pl.plan(LEFT, se2(0, 0.07, 0), se2(0, -0.07, 0))
    sup = placo.FootstepsPlanner.make_supports(fs, 0.0, True, p.has_double_support(), True)
    w = placo.WalkPatternGenerator(r, p)
    try:
        tr = w.plan(sup, np.array([0, 0, p.walk_com_height]), 0.0)
    except RuntimeError:
        tr = None
    if tr is not None:
        for t in (0.1, 0.5):
            tr.get_p_world_CoM(t), tr.get_T_world_left(t), tr.get_support(t).support_polygon(), tr.get_supports()
    s = placo.KinematicsSolver(r)
    wt = placo.WalkTasks()
    wt.initialize_tasks(s, r)
    if tr is not None:
        wt.update_tasks_from_trajectory(tr, 0.3)
    s.solve(False)
    wt.get_tasks_error()
    wt.remove_tasks()
    [f.support_polygon() for f in fs]


WORK = [w_robot, w_kin, w_dyn, w_problem, w_tools, w_walk]


def mem_leak(m, rng, i):
    if m.san:
        m.skip()
    fn = WORK[i % len(WORK)]
    S = dict(urdf=small_urdf(rng), i=i)
    seed = int(rng.integers(0, 2 ** 31))
    n = 16

    def once(k):
        fn(np.random.default_rng(seed), S)
    for k in range(8):
        once(k)
    # allocator noise vanishes in some window, a leak grows in all of them
    d, n_win = [], 60
    gc.collect()
    last = in_use(), sys.getallocatedblocks()
    for win in range(n_win):
        for k in range(n):
            once(k)
        gc.collect()
        now = in_use(), sys.getallocatedblocks()
        d.append(((now[0] - last[0]) / n, (now[1] - last[1]) / n))
        last = now
        m.count("leak_windows")
        m.count("leak_repetitions", n)
        if d[-1][0] < 16 and d[-1][1] < 2:
            break
    m.ok(win < n_win - 1, "memory-grows-" + fn.__name__, lambda: f"(bytes, python blocks) per repetition in windows of {n}: {d}")
    m.sig(fn.__name__, i)
    m.sample(f"{fn.__name__}: {d} bytes and blocks per repetition")


GROW = ("add_", "append", "extend", "__setitem__", "set_", "initialize", "reach_", "make_", "dump_", "seed", "build_")


class Repeater(Fuzzer):
    """Calls what the fuzzer picks many times: calls that do not store anything must not hold memory"""
    armed = False

    def call(self, name, f, a):
        short = name.split(".")[-1]
        if not self.armed or short.startswith(GROW) or name.endswith("=") or name[0].isupper() and "." not in name:
            return super().call(name, f, a)
        self.m.count("repeated_members")

        def burst(n):
            for _ in range(n):
                try:
                    f(*a)
                except Exception:
                    pass
        t = time.time()
        burst(1)
        if time.time() - t > 0.05:  # the large problems are left to mem_leak
            return
        burst(7)
        n, win, d = 24, 0, []
        last = in_use(), sys.getallocatedblocks()
        for win in range(40):
            burst(n)
            gc.collect() if win > 2 else None
            now = in_use(), sys.getallocatedblocks()
            d.append(((now[0] - last[0]) / n, (now[1] - last[1]) / n))
            last = now
            if d[-1][0] < 8 and d[-1][1] < 0.3:
                break
        self.m.count("leak_windows", win + 1)
        self.m.sig("repeat", name)
        self.m.ok(win < 39, "memory-grows-when-calling-" + name.replace(" ", ""),
                  lambda: f"(bytes, python blocks) per call in windows of {n}: {d}")


def mem_leak_calls(m, rng, i):
    if m.san:
        m.skip()
    f = Repeater(m, rng, float(rng.choice([0.02, 0.1, 0.5])))
    f.boot()
    for _ in range(60):
        f.step()
    f.armed = True
    for _ in range(40):
        f.step()
    m.sig(i)


FAMILIES = dict(mem_leak=(mem_leak, 48, 600), mem_leak_calls=(mem_leak_calls, 300, 4000))
