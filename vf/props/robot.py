"""Robot wrapper: state, frames, Jacobians, dynamics quantities, collisions, humanoid specifics."""
import json
import os
import re
import tempfile
import numpy as np
import pinocchio as pin
import placo
from vf.util import rand_rot, rand_T, exp3, log3, inv, tf, skew, rz, M2
from vf import robots

G0 = np.array([0, 0, -9.81])


def state(m, rng, i):
    rb = robots.any_robot(m, rng)
    r = rb.robot
    names = list(r.joint_names())
    m.ok(sorted(names) == sorted(rb.joints), "joint-names", lambda: f"{names}")
    m.ok(set(r.joint_names(True)) - set(names) == {"universe", "root_joint"}, "joint-names-fbase")
    m.ok(set(rb.frames) <= set(r.frame_names()), "frame-names")
    m.close(r.total_mass(), sum(I.mass for I in rb.model.inertias), 1e-9, "total-mass")
    q, v, a = rb.rand_q(rng), rb.rand_v(rng), rb.rand_v(rng)
    rb.set(q, v, a)
    for n in rb.joints:
        k, kv = rb.qidx[n], rb.vidx[n]
        m.ok(r.get_joint_offset(n) == k and r.get_joint_v_offset(n) == kv, "offsets", n)
        m.ok(r.get_joint_size(n) == 1 and r.get_joint_v_size(n) == 1, "sizes", n)
        m.close(r.get_joint(n), q[k], 0, "get-joint")
        m.close(r.get_joint_velocity(n), v[kv], 0, "get-velocity")
        m.close(r.get_joint_acceleration(n), a[kv], 0, "get-acceleration")
    # a random history of setters only touches the named joint
    q, v, a = q.copy(), v.copy(), a.copy()
    for _ in range(10):
        n = rb.joints[int(rng.integers(0, len(rb.joints)))]
        x = float(rng.normal())
        w = int(rng.integers(0, 3))
        if w == 0:
            r.set_joint(n, x)
            q[rb.qidx[n]] = x
        elif w == 1:
            r.set_joint_velocity(n, x)
            v[rb.vidx[n]] = x
        else:
            r.set_joint_acceleration(n, x)
            a[rb.vidx[n]] = x
        m.ok(np.array_equal(r.state.q, q) and np.array_equal(r.state.qd, v) and np.array_equal(r.state.qdd, a),
             "setter-locality", n)
        m.count("setter_events")
    # limits
    lim = {n: tuple(r.get_joint_limits(n)) for n in rb.joints}
    saved = (np.array(r.model.velocityLimit), np.array(r.model.effortLimit))
    n = rb.joints[int(rng.integers(0, len(rb.joints)))]
    lo, up = -float(rng.random()), float(rng.random())
    r.set_joint_limits(n, lo, up)
    for o in rb.joints:
        m.close(r.get_joint_limits(o), (lo, up) if o == n else lim[o], 0, "joint-limits", o)
    r.set_velocity_limit(n, 1.25)
    r.set_torque_limit(n, 3.5)
    for o in rb.joints:
        kv = rb.vidx[o]
        m.close(r.model.velocityLimit[kv], 1.25 if o == n else saved[0][kv], 0, "velocity-limit", o)
        m.close(r.model.effortLimit[kv], 3.5 if o == n else saved[1][kv], 0, "torque-limit", o)
    r.set_velocity_limits(7.0)
    m.ok(all(r.model.velocityLimit[rb.vidx[o]] == 7.0 for o in rb.joints), "velocity-limits")
    r.set_joint_limits(n, *lim[n])
    for o in rb.joints:
        r.set_velocity_limit(o, float(saved[0][rb.vidx[o]]))
    r.set_torque_limit(n, float(saved[1][rb.vidx[n]]))
    # noise stays within limits and never moves the base
    rb.set(rb.rand_q(rng))
    q0 = np.array(r.state.q)
    r.add_q_noise(float(rng.random()))
    L, U = rb.lo_up()
    q1 = np.array(r.state.q)
    m.ok(np.array_equal(q0[:7], q1[:7]), "noise-base")
    m.ok(np.all(q1[7:] >= L[7:] - 1e-9) and np.all(q1[7:] <= U[7:] + 1e-9), "noise-limits")
    r.add_q_noise(0.0)
    m.close(r.state.q, q1, 1e-12, "no-noise")
    # reset
    r.reset()
    m.close(r.state.q, pin.neutral(rb.model), 0, "reset")
    m.close(r.neutral_state().q, pin.neutral(rb.model), 0, "neutral")
    m.ok(not np.any(r.state.qd) and not np.any(r.state.qdd), "reset-velocity")
    bad = "no_such_joint"
    for f in (lambda: r.set_joint(bad, 0.0), lambda: r.get_joint(bad), lambda: r.get_joint_velocity(bad),
              lambda: r.set_joint_velocity(bad, 1.0), lambda: r.set_joint_acceleration(bad, 1.0),
              lambda: r.get_joint_acceleration(bad), lambda: r.set_velocity_limit(bad, 1.0),
              lambda: r.set_torque_limit(bad, 1.0), lambda: r.set_joint_limits(bad, 0.0, 1.0),
              lambda: r.get_joint_limits(bad), lambda: r.get_joint_v_offset(bad), lambda: r.get_joint_size(bad),
              lambda: r.get_joint_v_size(bad), lambda: r.set_rotor_inertia(bad, 1.0), lambda: r.set_gear_ratio(bad, 1.0),
              lambda: r.joint_jacobian(bad, "world"), lambda: r.get_T_world_frame(bad), lambda: r.get_T_a_b(bad, bad),
              lambda: r.frame_jacobian(bad, "world"), lambda: r.frame_jacobian(rb.frames[-1], "nowhere"),
              lambda: r.get_frame_hessian(bad, rb.joints[0]), lambda: r.get_frame_hessian(rb.frames[-1], bad),
              lambda: r.set_T_world_frame(bad, np.eye(4)), lambda: r.relative_position_jacobian(bad, rb.frames[-1]),
              lambda: r.static_gravity_compensation_torques(bad)):
        m.raises(f, "unknown-name-accepted")
    m.sig(q, v)
    m.sample(f"{len(rb.joints)} joints")


def limits_from_urdf(m, rng, i):
    """Limits come from the model; joints without limits are unbounded."""
    rb = robots.rand_robot(rng, limits=bool(rng.random() < 0.6))
    for (n, typ, lo, up, vel, eff) in rb.info["joints"]:
        L = rb.robot.get_joint_limits(n)
        if lo == 0 and up == 0:
            m.ok(L[0] < -1e300 and L[1] > 1e300, "unlimited", str(L))
        else:
            m.close(L, (lo, up), 1e-9, "urdf-limits")
        m.close(rb.robot.model.velocityLimit[rb.vidx[n]], vel, 1e-9, "urdf-velocity")
        m.close(rb.robot.model.effortLimit[rb.vidx[n]], eff, 1e-9, "urdf-effort")
    m.sig(rb.info["joints"])
    m.sample(str(rb.info["joints"][:2]))


def frames(m, rng, i):
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q = rb.rand_q(rng)
    rb.set(q)
    F = rb.fk(q)
    for f in rb.frames:
        m.close(r.get_T_world_frame(f), F[f], 1e-8, "forward-kinematics", f)
    for _ in range(4):
        a, b, c = (rb.frames[int(k)] for k in rng.integers(0, len(rb.frames), 3))
        Tab = r.get_T_a_b(a, b)
        m.close(Tab, inv(F[a]) @ F[b], 1e-8, "relative-frame", f"{a} {b}")
        m.close(Tab @ r.get_T_a_b(b, c), r.get_T_a_b(a, c), 1e-8, "frame-composition")
    # floating base
    T = rand_T(rng, 2.0)
    r.set_T_world_fbase(T)
    m.close(r.get_T_world_fbase(), T, 1e-8, "fbase-roundtrip")
    m.close(r.state.q[7:], q[7:], 0, "fbase-moves-joints")
    m.close(np.linalg.norm(r.state.q[3:7]), 1, 1e-9, "fbase-quaternion")
    r.update_kinematics()
    D = T @ inv(rb.T(q, "root_joint"))
    f = rb.frames[int(rng.integers(0, len(rb.frames)))]
    m.close(r.get_T_world_frame(f), D @ F[f], 1e-7, "fbase-moves-rigidly")
    # placing an arbitrary frame
    f = rb.frames[int(rng.integers(0, len(rb.frames)))]
    T = rand_T(rng, 2.0)
    r.set_T_world_frame(f, T)
    r.update_kinematics()
    m.close(r.get_T_world_frame(f), T, 1e-7, "set-frame", f)
    m.close(r.state.q[7:], q[7:], 0, "set-frame-moves-joints")
    # com: mass-weighted barycenter of the bodies
    q = np.array(r.state.q)
    pin.forwardKinematics(rb.model, rb.data, q)
    num, den = np.zeros(3), 0.0
    for j in range(1, rb.model.njoints):
        I = rb.model.inertias[j]
        num += I.mass * rb.data.oMi[j].act(I.lever)
        den += I.mass
    m.close(r.com_world(), num / den, 1e-8, "com")
    # queries do not depend on what was computed before
    before = r.get_T_world_frame(f).copy()
    for g in (r.com_jacobian, r.mass_matrix, r.generalized_gravity, r.centroidal_map, r.distances, r.non_linear_effects):
        g()
    m.close(r.get_T_world_frame(f), before, 1e-9, "query-side-effect")
    m.close(r.com_world(), num / den, 1e-8, "com-after-queries")
    m.ok(np.array_equal(np.array(r.state.q), q), "query-moves-state")
    m.sig(q)
    m.sample(f"{len(rb.frames)} frames, set {f}")


def integrate(m, rng, i):
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q, v, a = rb.rand_q(rng), rb.rand_v(rng), rb.rand_v(rng)
    rb.set(q, v, a)
    for _ in range(3):
        dt = float(10 ** rng.uniform(-3, -0.5))
        T0 = np.array(r.get_T_world_fbase())
        q, v = np.array(r.state.q), np.array(r.state.qd)
        r.integrate(dt)
        v2 = v + a * dt
        m.close(r.state.qd, v2, 1e-9, "velocity-integration")
        m.close(r.state.q[7:], q[7:] + v2[6:] * dt, 1e-9, "joint-integration")
        # base: body twist for dt
        w, l = v2[3:6] * dt, v2[:3] * dt
        th = np.linalg.norm(w)
        V = np.eye(3) + (1 - np.cos(th)) / th ** 2 * skew(w) + (th - np.sin(th)) / th ** 3 * skew(w) @ skew(w)
        want = T0 @ tf(exp3(w), V @ l)
        m.close(r.get_T_world_fbase(), want, 1e-7, "base-integration")
        m.close(np.linalg.norm(r.state.q[3:7]), 1, 1e-6, "quaternion-norm")
        m.count("integration_steps")
    m.sig(q, v, a)
    m.sample(f"dt={dt:.3g}")


def vee_T(T0, T1, h):
    """World-aligned twist (v at the frame origin, w) moving T0 to T1 in h."""
    return np.concatenate([(T1[:3, 3] - T0[:3, 3]) / h, log3(T1[:3, :3] @ T0[:3, :3].T) / h])


def fd_lwa(rb, q, frame, h=1e-6):
    J = np.zeros((6, rb.nv))
    for k in range(rb.nv):
        d = np.zeros(rb.nv)
        d[k] = h
        J[:, k] = vee_T(rb.T(rb.step(q, -d), frame), rb.T(rb.step(q, d), frame), 2 * h)
    return J


def to_ref(J, T, ref):
    R, p = T[:3, :3], T[:3, 3]
    if ref == "local_world_aligned":
        return J
    if ref == "local":
        return np.vstack([R.T @ J[:3], R.T @ J[3:]])
    return np.vstack([J[:3] + skew(p) @ J[3:], J[3:]])


def jacobian(m, rng, i):
    """Jacobians predict the actual motion of frames, joints and CoM (central differences)."""
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q = rb.rand_q(rng)
    rb.set(q, rb.rand_v(rng))
    tol = 2e-6
    fa, fb = (rb.frames[int(k)] for k in rng.integers(0, len(rb.frames), 2))
    Ja, Jb = fd_lwa(rb, q, fa), fd_lwa(rb, q, fb)
    Ta, Tb = rb.T(q, fa), rb.T(q, fb)
    for f, J, T in ((fa, Ja, Ta), (fb, Jb, Tb)):
        for ref in ("local_world_aligned", "local", "world"):
            m.close(r.frame_jacobian(f, ref), to_ref(J, T, ref), tol, "frame-jacobian-" + ref, f)
            m.count("jacobians_compared")
    j = rb.joints[int(rng.integers(0, len(rb.joints)))]
    if j in rb.frames:
        Tj = rb.T(q, j)
        Jj = fd_lwa(rb, q, j)
        for ref in ("local_world_aligned", "local", "world"):
            m.close(r.joint_jacobian(j, ref), to_ref(Jj, Tj, ref), tol, "joint-jacobian-" + ref, j)
    # relative position
    h = 1e-6
    Jr, Jc = np.zeros((3, rb.nv)), np.zeros((3, rb.nv))
    for k in range(rb.nv):
        d = np.zeros(rb.nv)
        d[k] = h
        qp, qm = rb.step(q, d), rb.step(q, -d)
        pp = (inv(rb.T(qp, fa)) @ rb.T(qp, fb))[:3, 3]
        pm = (inv(rb.T(qm, fa)) @ rb.T(qm, fb))[:3, 3]
        Jr[:, k] = (pp - pm) / (2 * h)
        Jc[:, k] = (rb.com(qp) - rb.com(qm)) / (2 * h)
    m.close(r.relative_position_jacobian(fa, fb), Jr, tol, "relative-position-jacobian", f"{fa} {fb}")
    m.close(r.com_jacobian(), Jc, tol, "com-jacobian")
    m.sig(q, fa, fb)
    m.sample(f"{fa}, {fb}, {j}")


def jacobian_dot(m, rng, i):
    """Time variations are the derivative of the Jacobians along the motion; hessians the derivative along a joint."""
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q, v = rb.rand_q(rng), rb.rand_v(rng)
    f = rb.frames[int(rng.integers(0, len(rb.frames)))]
    h = 1e-5
    refs = ("local_world_aligned", "local", "world")
    Jp, Jm = {}, {}
    for s, D in ((h, Jp), (-h, Jm)):
        rb.set(rb.step(q, v * s), v)
        for ref in refs:
            D[ref] = np.array(r.frame_jacobian(f, ref))
        D["com"] = np.array(r.com_jacobian())
    rb.set(q, v)
    sc = 1 + np.abs(v).max() ** 2
    for ref in refs:
        m.close(r.frame_jacobian_time_variation(f, ref), (Jp[ref] - Jm[ref]) / (2 * h), 1e-4 * sc,
                "frame-jacobian-dot-" + ref, f)
        m.count("jacobians_compared")
    m.close(r.com_jacobian_time_variation() @ v, (Jp["com"] - Jm["com"]) @ v / (2 * h), 1e-4 * sc, "com-jacobian-dot")
    # the state of a query never depends on stale kinematics
    rb.set(q, v)
    r.compute_hessians()
    j = rb.joints[int(rng.integers(0, len(rb.joints)))]
    H = np.array(r.get_frame_hessian(f, j))
    d = np.zeros(rb.nv)
    d[rb.vidx[j]] = h
    rb.set(rb.step(q, d))
    A = np.array(r.frame_jacobian(f, "local"))
    rb.set(rb.step(q, -d))
    B = np.array(r.frame_jacobian(f, "local"))
    m.close(H, (A - B) / (2 * h), 1e-4, "frame-hessian", f"{f} {j}")
    m.sig(q, v, f)
    m.sample(f"{f} {j}")


def energy(rb, q, v):
    pin.forwardKinematics(rb.model, rb.data, q, v)
    K, L, A = 0.0, np.zeros(3), np.zeros(3)
    c = rb.com(q)
    pin.forwardKinematics(rb.model, rb.data, q, v)
    for j in range(1, rb.model.njoints):
        I = rb.model.inertias[j]
        vj = rb.data.v[j]
        R = rb.data.oMi[j].rotation
        vc = vj.linear + np.cross(vj.angular, I.lever)
        K += 0.5 * I.mass * vc @ vc + 0.5 * vj.angular @ I.inertia @ vj.angular
        L += I.mass * R @ vc
        A += np.cross(rb.data.oMi[j].act(I.lever) - c, I.mass * R @ vc) + R @ I.inertia @ vj.angular
    return K, L, A


def dynamics(m, rng, i):
    rb = robots.any_robot(m, rng)
    r = rb.robot
    q, v = rb.rand_q(rng), rb.rand_v(rng)
    rot = {n: (float(rng.uniform(0, 0.01)), float(10 ** rng.uniform(-1, 1.7)) * (1 if rng.random() < 0.7 else -1)) for n in rb.joints if rng.random() < 0.3}
    for n, (I, g) in rot.items():
        r.set_rotor_inertia(n, I)
        r.set_gear_ratio(n, g)
    grav = rng.normal(size=3) * 5 if rng.random() < 0.3 else G0
    r.set_gravity(grav)
    rb.model.gravity.linear = grav
    rb.set(q, v)
    M = np.array(r.mass_matrix())
    K, Lm, Am = energy(rb, q, v)
    Kr = sum(0.5 * I * g * g * v[rb.vidx[n]] ** 2 for n, (I, g) in rot.items())
    m.close(0.5 * v @ M @ v, K + Kr, 1e-8, "kinetic-energy", rel=1e-8)
    m.close(M, M.T, 1e-10, "mass-symmetric", rel=1e-10)
    m.ok(np.linalg.eigvalsh(M)[0] > 0, "mass-positive")
    cm = np.array(r.centroidal_map()) @ v
    m.close(cm[:3], Lm, 1e-8, "linear-momentum", rel=1e-8)
    m.close(cm[3:], Am, 1e-8, "angular-momentum", rel=1e-7)
    g = np.array(r.generalized_gravity())
    mass = r.total_mass()
    h = 1e-5
    U = lambda q_: -mass * grav @ rb.com(q_)
    gn = np.zeros(rb.nv)
    for k in range(rb.nv):
        d = np.zeros(rb.nv)
        d[k] = h
        gn[k] = (U(rb.step(q, d)) - U(rb.step(q, -d))) / (2 * h)
    m.close(g, gn, 1e-5 * (1 + mass * np.linalg.norm(grav)), "gravity-is-potential-gradient")
    nle = np.array(r.non_linear_effects())
    m.close(nle, pin.rnea(rb.model, rb.data, q, v, np.zeros(rb.nv)), 1e-7, "non-linear-effects", rel=1e-8)
    rb.set(q)
    m.close(r.non_linear_effects(), g, 1e-8 * (1 + np.abs(g).max()), "nle-at-rest")
    # static compensation: a wrench at the frame and the torques balance gravity
    f = rb.frames[int(rng.integers(0, len(rb.frames)))]
    t = np.array(r.static_gravity_compensation_torques(f))
    J = to_ref(fd_lwa(rb, q, f), rb.T(q, f), "local_world_aligned")
    sc = 1e-4 * (1 + mass * np.linalg.norm(grav))
    m.close(t[:6], np.zeros(6), sc, "static-base")
    wrench = np.linalg.lstsq(J.T, g - t, rcond=None)[0]
    m.close(J.T @ wrench + t, g, sc, "static-equilibrium", f)
    d = r.static_gravity_compensation_torques_dict(f)
    m.ok(all(abs(d[n] - t[rb.vidx[n]]) < 1e-12 for n in rb.joints), "static-dict")
    # prescribed acceleration with a fixed frame
    rb.set(q, v)
    Jl = np.array(r.frame_jacobian(f, "local_world_aligned"))
    vb = -np.linalg.solve(Jl[:, :6], Jl[:, 6:] @ v[6:])
    v2 = np.concatenate([vb, v[6:]])
    if np.abs(v2).max() < 50:
        rb.set(q, v2)
        qdd_a = rng.normal(size=rb.nv - 6)
        tau = np.array(r.torques_from_acceleration_with_fixed_frame(qdd_a, f))
        dJ = np.array(r.frame_jacobian_time_variation(f, "local_world_aligned"))
        Jl = np.array(r.frame_jacobian(f, "local_world_aligned"))
        qdd = np.concatenate([np.linalg.solve(Jl[:, :6], -(Jl[:, 6:] @ qdd_a + dJ @ v2)), qdd_a])
        rhs = np.array(r.mass_matrix()) @ qdd + np.array(r.non_linear_effects()) - np.concatenate([np.zeros(6), tau])
        w = np.linalg.lstsq(Jl.T, rhs, rcond=None)[0]
        m.close(Jl.T @ w, rhs, 1e-6 * (1 + np.abs(rhs).max()), "fixed-frame-torques", f)
        dd = r.torques_from_acceleration_with_fixed_frame_dict(qdd_a, f)
        m.ok(all(abs(dd[n] - tau[rb.vidx[n] - 6]) < 1e-9 * (1 + abs(dd[n])) for n in rb.joints), "fixed-frame-dict")
    for n in rot:
        r.set_rotor_inertia(n, 0.0)
        r.set_gear_ratio(n, 0.0)
    r.set_gravity(G0)
    rb.model.gravity.linear = G0
    m.sig(q, v)
    m.sample(f"nv={rb.nv} rotors={len(rot)} frame={f}")


def collisions(m, rng, i):
    """Spheres only: distances, nearest points and collision reports against closed forms."""
    urdf, info = robots.rand_urdf(rng, n=int(rng.integers(2, 6)), shapes=("sphere",), rad=(0.03, 0.25))
    d = tempfile.mkdtemp(prefix="vf_col_")
    try:
        open(os.path.join(d, "robot.urdf"), "w").write(urdf)
        r = placo.RobotWrapper(d + "/", 0)
        rb = robots.RB(r, urdf=urdf, info=info)
        geoms = {g.name: k for k, g in enumerate(r.collision_model.geometryObjects)}
        body = {k: n.rsplit("_", 1)[0] for n, k in geoms.items()}
        links = list(info["geoms"])
        npairs = len(r.distances())
        if rng.random() < 0.5:
            # restrict to a random subset of pairs, by body names or by indices
            al = [(a, b) for x, a in enumerate(links) for b in links[x + 1:]]
            sel = [al[int(k)] for k in rng.permutation(len(al))[:int(rng.integers(1, len(al) + 1))]]
            byname = rng.random() < 0.5
            idx = {body[k]: k for k in body}
            js = [list(p) if byname else [idx[p[0]], idx[p[1]]] for p in sel]
            open(os.path.join(d, "collisions.json"), "w").write(json.dumps(js))
            r.load_collision_pairs(os.path.join(d, "collisions.json"))
            want_pairs = {tuple(sorted((idx[a], idx[b]))) for a, b in sel}
            m.count("pair_files_loaded")
        else:
            pin_pairs = {tuple(sorted((p.first, p.second))) for p in r.collision_model.collisionPairs}
            want_pairs = pin_pairs
            idx = {body[k]: k for k in body}
            # every pair of bodies held by different joints
            jo = {l: rb.model.frames[rb.model.getFrameId(l)].parentJoint for l in links}
            expect = {tuple(sorted((idx[a], idx[b]))) for a in links for b in links if a < b and jo[a] != jo[b]}
            m.ok(pin_pairs == expect, "all-pairs", lambda: f"{pin_pairs ^ expect}")
        q = rb.rand_q(rng)
        rb.set(q)
        F = rb.fk(q)
        cen = {idx[l]: (F[l] @ np.append(info["geoms"][l][2], 1))[:3] for l in links}
        rad = {idx[l]: info["geoms"][l][1] for l in links}
        seen = set()
        for e in r.distances():
            a, b = e.objA, e.objB
            seen.add(tuple(sorted((a, b))))
            want = np.linalg.norm(cen[a] - cen[b]) - rad[a] - rad[b]
            m.close(e.min_distance, want, 1e-5, "distance", f"{body[a]} {body[b]}")
            if want > 1e-3:
                m.close(np.linalg.norm(np.array(e.pointA) - cen[a]), rad[a], 1e-4, "nearest-point-A")
                m.close(np.linalg.norm(np.array(e.pointB) - cen[b]), rad[b], 1e-4, "nearest-point-B")
                m.close(np.linalg.norm(np.array(e.pointA) - np.array(e.pointB)), want, 1e-4, "nearest-points-distance")
            m.ok(e.parentA == r.collision_model.geometryObjects[a].parentJoint
                 and e.parentB == r.collision_model.geometryObjects[b].parentJoint, "distance-parents")
            m.count("pairs_measured")
        m.ok(seen == want_pairs, "pairs-measured", lambda: f"{seen ^ want_pairs}")
        col = {tuple(sorted((c.objA, c.objB))) for c in r.self_collisions(False)}
        for a, b in want_pairs:
            gap = np.linalg.norm(cen[a] - cen[b]) - rad[a] - rad[b]
            if abs(gap) > 1e-4:
                m.ok(((a, b) in col) == (gap < 0), "collision-report", f"gap {gap}")
                m.count("colliding_pairs" if gap < 0 else "free_pairs")
        m.ok(col <= want_pairs, "undeclared-pair-reported")
        first = r.self_collisions(True)
        m.ok(len(first) == min(1, len(col)), "stop-at-first", lambda: f"{len(first)} {len(col)}")
        for c in r.self_collisions(False):
            m.ok(c.bodyA == r.collision_model.geometryObjects[c.objA].name and c.parentA ==
                 r.collision_model.geometryObjects[c.objA].parentJoint, "collision-names")
            P = np.array(c.get_contact(0))
            if np.linalg.norm(cen[c.objA] - cen[c.objB]) > abs(rad[c.objA] - rad[c.objB]) + 1e-3:  # no sphere inside the other
                m.ok(np.linalg.norm(P - cen[c.objA]) <= rad[c.objA] + 1e-4 and np.linalg.norm(P - cen[c.objB]) <= rad[c.objB] + 1e-4,
                     "contact-outside")
            m.raises(lambda: c.get_contact(1000), "contact-index-accepted")
            break
        open(os.path.join(d, "bad.json"), "w").write(json.dumps([["base", "nothing"]]))
        m.raises(lambda: r.load_collision_pairs(os.path.join(d, "bad.json")), "unknown-body-accepted")
        m.raises(lambda: r.load_collision_pairs(os.path.join(d, "missing.json")), "missing-file-accepted")
        m.sig(q, len(want_pairs))
        m.sample(f"{len(links)} spheres, {len(want_pairs)} pairs, {len(col)} colliding")
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def load(m, rng, i):
    """Every way of loading the same model gives the same robot; the flags and the pair file next to it decide the pairs"""
    urdf, info = robots.rand_urdf(rng, n=int(rng.integers(2, 5)), shapes=("sphere",), rad=(0.03, 0.1))
    # several geometries for some bodies, and visuals that differ from the collisions
    ngeo = {}

    def more(mt):
        name, body = mt.group(1), mt.group(0)
        ngeo[name] = 1 + int(rng.integers(0, 2))
        return body.replace("</link>", '<collision><origin xyz="0.2 0 0"/><geometry><box size="0.1 0.2 0.3"/></geometry></collision>'
                            * (ngeo[name] - 1) + '<visual><geometry><box size="1 1 1"/></geometry></visual>' * int(rng.integers(0, 2)) + "</link>")
    urdf = re.sub(r'<link name="(\w+)">.*?</link>', more, urdf, flags=re.S)
    links = list(ngeo)
    nvis = urdf.count("<visual>")
    d = tempfile.mkdtemp(prefix="vf_load_")
    cwd = os.getcwd()
    try:
        f = os.path.join(d, "robot.urdf" if rng.random() < 0.6 else "other.urdf")
        open(f, "w").write(urdf)
        al = [(a, b) for x, a in enumerate(links) for b in links[x + 1:]]
        sel = [al[int(k)] for k in rng.permutation(len(al))[:int(rng.integers(1, len(al) + 1))]]
        pairs = bool(rng.random() < 0.5)
        if pairs:
            open(os.path.join(d, "collisions.json"), "w").write(json.dumps([list(x) for x in sel]))
        ways = {"file": lambda fl: placo.RobotWrapper(f, fl), "content": lambda fl: placo.RobotWrapper(d, fl, urdf)}
        if f.endswith("robot.urdf"):
            ways["directory"] = lambda fl: placo.RobotWrapper(d, fl)
            ways["directory/"] = lambda fl: placo.RobotWrapper(d + "/", fl)
        os.chdir(d)
        ways["relative"] = lambda fl: placo.RobotWrapper(os.path.basename(f), fl)
        ways["relative-dot"] = lambda fl: placo.RobotWrapper("./" + os.path.basename(f), fl)
        q = None
        for way in rng.permutation(list(ways))[:3]:
            fl = int(rng.integers(0, 4))
            F = (int(placo.Flags.collision_as_visual) if fl & 1 else 0) | (int(placo.Flags.ignore_collisions) if fl & 2 else 0)
            r = ways[str(way)](F)
            rb = robots.RB(r, urdf=urdf, info=info)
            q = rb.rand_q(rng)
            rb.set(q)
            for l in links:
                m.close(r.get_T_world_frame(l), rb.T(q, l), 1e-8, "loaded-frames", str(way))
            geo = list(r.collision_model.geometryObjects)
            own = {l: [k for k, g in enumerate(geo) if g.name.rsplit("_", 1)[0] == l] for l in links}
            m.ok(all(len(own[l]) == ngeo[l] for l in links), "loaded-geometries", lambda: f"{way} {own} {ngeo}")
            m.ok(len(r.visual_model.geometryObjects) == (sum(ngeo.values()) if fl & 1 else nvis), "loaded-visuals",
                 lambda: f"{way} flags {fl}: {len(r.visual_model.geometryObjects)} visuals")
            jo = {k: g.parentJoint for k, g in enumerate(geo)}
            if fl & 2:
                want = set()
            elif pairs:
                want = {tuple(sorted((x, y))) for a, b in sel for x in own[a] for y in own[b]}
            else:
                want = {(x, y) for x in jo for y in jo if x < y and jo[x] != jo[y]}
            got = {tuple(sorted((p.first, p.second))) for p in r.collision_model.collisionPairs}
            m.ok(got == want, "loaded-pairs", lambda: f"{way} flags {fl} pair file {pairs}: {got ^ want}")
            m.ok(len(r.distances()) == len(want), "loaded-distances")
            if not want:
                m.ok(len(r.self_collisions(False)) == 0, "ignored-collisions-reported")
            m.count("load_" + str(way))
        m.raises(lambda: placo.RobotWrapper(os.path.join(d, "nothing"), 0), "missing-model-accepted")
        m.sig(q, pairs)
        m.sample(f"{len(links)} bodies, {sum(ngeo.values())} geometries, pair file {pairs}")
    finally:
        os.chdir(cwd)
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


def humanoid(m, rng, i):
    """Support switching never moves the world; floor placement puts the support where it was; IMU sets the trunk."""
    rb = robots.sigmaban_ps()
    r = rb.robot
    q = rb.rand_q(rng, spread=0.5)
    rb.set(q)
    foot = {"left": "left_foot", "right": "right_foot"}
    m.ok(str(r.get_support_side()) == "left", "initial-support", str(r.get_support_side()))
    side, T_sup = "left", np.eye(4)
    for step in range(int(rng.integers(3, 8))):
        k = int(rng.integers(0, 5))
        m.count(f"humanoid_op{k}")
        if k == 0:
            new = str(rng.choice(["left", "right"]))
            before = np.array(r.state.q)
            Tf = np.array(r.get_T_world_frame(foot[new]))
            r.update_support_side(new)
            if new != side:
                T_sup = tf(rz(np.arctan2(Tf[1, 0], Tf[0, 0])), [Tf[0, 3], Tf[1, 3], 0])
            side = new
            m.ok(np.array_equal(before, np.array(r.state.q)), "support-switch-moves-robot")
        elif k == 1:
            j = np.array(r.state.q)[7:]
            r.ensure_on_floor()
            m.close(r.get_T_world_frame(foot[side]), T_sup, 1e-7, "support-not-on-floor")
            m.close(np.array(r.state.q)[7:], j, 0, "floor-moves-joints")
        elif k == 2:
            R = rand_rot(rng, 0.6)
            p = T_sup[:3, 3].copy()
            (r.ensure_on_floor_oriented if rng.random() < 0.5 else r.update_from_imu)(R)
            m.close(np.array(r.get_T_world_trunk())[:3, :3], R, 1e-7, "trunk-orientation")
            m.close(np.array(r.get_T_world_frame(foot[side]))[:3, 3], p, 1e-7, "support-position-moved")
            T_sup = np.array(r.get_T_world_frame(foot[side]))
        elif k == 3:
            n = rb.joints[int(rng.integers(0, len(rb.joints)))]
            r.set_joint(n, float(rng.uniform(-0.5, 0.5)))
            r.update_kinematics()
        else:
            T = rand_T(rng, 1.0)
            r.set_T_world_support(T)
            T_sup = T
        m.close(r.get_T_world_support(), T_sup, 1e-7, "T_world_support", f"op {k}")
        m.ok(str(r.get_support_side()) == side, "support-side")
        m.close(r.get_T_world_left(), r.get_T_world_frame("left_foot"), 0, "left")
        m.close(r.get_T_world_right(), r.get_T_world_frame("right_foot"), 0, "right")
    # velocity of the CoM with a fixed support and a measured trunk rotation
    v = rb.rand_v(rng)
    r.state.qd = v
    r.update_kinematics()
    s = str(rng.choice(["left", "right"]))
    w = rng.normal(size=3)
    sd = r.get_support_side().__class__.values
    S = {str(x): x for x in sd.values()}[s]
    vc = r.get_com_velocity(S, w)
    Jc = np.array(r.com_jacobian())
    Jf = np.array(r.frame_jacobian(foot[s], "local"))[:3]
    Jt = np.array(r.frame_jacobian("trunk", "local"))[3:]
    A = np.vstack([Jf, Jt])
    vb = np.linalg.solve(A[:, :6], np.concatenate([np.zeros(3), w]) - A[:, 6:] @ v[6:])
    m.close(vc, Jc @ np.concatenate([vb, v[6:]]), 1e-6 * (1 + np.abs(vb).max()), "com-velocity", s)
    om = float(rng.uniform(2, 10))
    cd = rng.normal(size=2)
    com = np.array(r.com_world())[:2]
    m.close(r.dcm(om, cd), com + cd / om, 1e-9, "dcm")
    m.close(r.zmp(om, cd), com - cd / om ** 2, 1e-9, "zmp")
    m.ok(str(placo.HumanoidRobot.other_side(S)) != s, "other-side")
    # torques from foot pressures: the equation of motion with an unactuated base
    fo = rng.uniform(0, 20, 8)
    qdd_a = rng.normal(size=rb.nv - 6)
    nle = bool(rng.random() < 0.5)
    tau = np.array(r.get_torques(qdd_a, fo, nle))
    Jn = np.stack([np.array(r.frame_jacobian(f"{sd_}_ps_{k}", "local"))[2] for sd_ in ("left", "right") for k in range(4)])
    m.close(tau[:6], np.zeros(6), 1e-6 * (1 + np.abs(tau).max()), "torques-base")
    M = np.array(r.mass_matrix())
    h = np.array(r.non_linear_effects() if nle else r.generalized_gravity())
    qb = np.linalg.solve(M[:6, :6], (Jn.T @ fo - h)[:6] - M[:6, 6:] @ qdd_a)
    m.close(tau, M @ np.concatenate([qb, qdd_a]) + h - Jn.T @ fo, 1e-6 * (1 + np.abs(tau).max()), "torques")
    d = r.get_torques_dict(qdd_a, fo, nle)
    m.ok(all(abs(d[n] - tau[rb.vidx[n]]) < 1e-9 * (1 + abs(tau[rb.vidx[n]])) for n in rb.joints), "torques-dict")
    m.sig(q, v, fo)
    m.sample(f"support {side}, com velocity {np.round(vc, 3).tolist()}")


FAMILIES = {
    "rb_state": (state, 120, 2000),
    "rb_urdf_limits": (limits_from_urdf, 120, 1500),
    "rb_frames": (frames, 250, 6000),
    "rb_integrate": (integrate, 250, 6000),
    "rb_jacobian": (jacobian, 200, 4000),
    "rb_jacobian_dot": (jacobian_dot, 300, 6000),
    "rb_dynamics": (dynamics, 200, 4000),
    "rb_collisions": (collisions, 200, 4000),
    "rb_load": (load, 60, 1000),
    "rb_humanoid": (humanoid, 150, 3000),
}
