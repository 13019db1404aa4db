"""Inverse dynamics: equation of motion, contacts, task accelerations, limits, integration, histories."""
import numpy as np
import pinocchio as pin
import placo
from vf.util import rand_rot, rand_T, exp3, log3, tf, skew, M2
from vf import robots
from vf.oracle import QP
from vf.props.kin import mask_rows, rand_mask, set_mask, cmp_rows

LWA = pin.ReferenceFrame.LOCAL_WORLD_ALIGNED
LOC = pin.ReferenceFrame.LOCAL


class Twin:
    def __init__(self, rb, q, v):
        self.rb, self.q, self.v = rb, q, v
        m = self.model = rb.model
        d = self.data = m.createData()
        pin.computeJointJacobians(m, d, q)
        pin.forwardKinematics(m, d, q, v, np.zeros(m.nv))
        pin.updateFramePlacements(m, d)
        M = np.array(pin.crba(m, m.createData(), q))
        self.M = np.triu(M) + np.triu(M, 1).T + np.diag(rb.rotor)
        self.nle = np.array(pin.nonLinearEffects(m, m.createData(), q, v))
        self.grav = np.array(pin.computeGeneralizedGravity(m, m.createData(), q))
        dc = m.createData()
        pin.centerOfMass(m, dc, q, v, np.zeros(m.nv))
        self.com, self.vcom, self.acom = np.array(dc.com[0]), np.array(dc.vcom[0]), np.array(dc.acom[0])
        self.Jcom = np.array(pin.jacobianCenterOfMass(m, m.createData(), q))

    def fid(self, f):
        return self.model.getFrameId(f)

    def T(self, f):
        return np.array(self.data.oMf[self.fid(f)].homogeneous)

    def J(self, f, ref=LWA):
        return np.array(pin.getFrameJacobian(self.model, self.data, self.fid(f), ref))

    def drift(self, f):
        """classical acceleration of the frame when the joint accelerations are zero"""
        return np.array(pin.getFrameClassicalAcceleration(self.model, self.data, self.fid(f), LWA).vector)


class T:
    kp, kd = 1e3, -1.0
    tau_task = False

    def gains(self, rng):
        if rng.random() < 0.7:
            self.kp = float(10 ** rng.uniform(-1, 3))
        if rng.random() < 0.4:
            self.kd = float(10 ** rng.uniform(-1, 2)) if rng.random() < 0.8 else 0.0
        return self

    def eff_kd(self):
        return 2 * np.sqrt(self.kp) if self.kd < 0 else self.kd

    def apply_gains(self, t):
        t.kp, t.kd = self.kp, self.kd
        return t

    def rows(self, tw):
        """A qdd = b, error, derror"""
        J, drift, e, de, dd, Rl = self.raw(tw)
        b = self.kp * e + self.eff_kd() * de + dd - drift
        A, b = mask_rows(self.mask, J, b, Rl)
        return A, b, mask_rows(self.mask, J, e, Rl)[1], mask_rows(self.mask, J, de, Rl)[1]

    def aim(self, tw, qdd):
        """choose the feed-forward acceleration such that the task asks for exactly qdd"""
        self.dd = np.zeros(3)
        J, drift, e, de, dd, Rl = self.raw(tw)
        self.dd = J @ qdd - (self.kp * e + self.eff_kd() * de - drift)


def ff(rng):
    return (rng.normal(size=3) * (rng.random() < 0.6), rng.normal(size=3) * (rng.random() < 0.6))


class Position(T):
    def __init__(self, rb, rng):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.t = rng.uniform(-1, 1, 3)
        self.d, self.dd = ff(rng)
        self.mask = rand_mask(rng)

    def add(self, s):
        t = s.add_position_task(self.f, self.t)
        t.dtarget_world, t.ddtarget_world = self.d, self.dd
        set_mask(t, self.mask)
        return self.apply_gains(t)

    def raw(self, tw):
        J, Tf = tw.J(self.f)[:3], tw.T(self.f)
        return J, tw.drift(self.f)[:3], self.t - Tf[:3, 3], self.d - J @ tw.v, self.dd, Tf[:3, :3].T


class CoM(T):
    def __init__(self, rb, rng):
        self.t = rng.uniform(-1, 1, 3)
        self.d, self.dd = ff(rng)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        t = s.add_com_task(self.t)
        t.dtarget_world, t.ddtarget_world = self.d, self.dd
        set_mask(t, self.mask)
        return self.apply_gains(t)

    def raw(self, tw):
        return tw.Jcom, tw.acom, self.t - tw.com, self.d - tw.vcom, self.dd, np.eye(3)


class Orientation(T):
    def __init__(self, rb, rng):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.dR = rand_rot(rng, 2.5)
        self.R = None
        self.d, self.dd = ff(rng)
        self.mask = rand_mask(rng)

    def prepare(self, tw):
        self.R = self.dR @ tw.T(self.f)[:3, :3]

    def add(self, s):
        t = s.add_orientation_task(self.f, self.R)
        t.omega_world, t.domega_world = self.d, self.dd
        set_mask(t, self.mask)
        return self.apply_gains(t)

    def raw(self, tw):
        J = tw.J(self.f)[3:]
        return J, tw.drift(self.f)[3:], log3(self.R @ tw.T(self.f)[:3, :3].T), self.d - J @ tw.v, self.dd, self.R.T


class RelPosition(T):
    def __init__(self, rb, rng):
        self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
        self.t = rng.uniform(-1, 1, 3)
        self.d, self.dd = ff(rng)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        t = s.add_relative_position_task(self.a, self.b, self.t)
        t.dtarget, t.ddtarget = self.d, self.dd
        set_mask(t, self.mask)
        return self.apply_gains(t)

    def raw(self, tw):
        Ra = tw.T(self.a)[:3, :3]
        D = tw.T(self.b)[:3, 3] - tw.T(self.a)[:3, 3]
        Ja, Jb = tw.J(self.a), tw.J(self.b)
        w, dv = Ja[3:] @ tw.v, (Jb - Ja)[:3] @ tw.v
        A, B = tw.drift(self.a), tw.drift(self.b)
        drift = Ra.T @ (B[:3] - A[:3] - np.cross(A[3:], D) - 2 * np.cross(w, dv) + np.cross(w, np.cross(w, D)))
        return (Ra.T @ ((Jb - Ja)[:3] + skew(D) @ Ja[3:]), drift, self.t - Ra.T @ D, self.d - Ra.T @ (dv - np.cross(w, D)),
                self.dd, np.eye(3))


class RelOrientation(T):
    def __init__(self, rb, rng):
        self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
        self.dR = rand_rot(rng, 2.5)
        self.d, self.dd = ff(rng)
        self.mask = rand_mask(rng, False)

    def prepare(self, tw):
        self.R = self.dR @ tw.T(self.a)[:3, :3].T @ tw.T(self.b)[:3, :3]

    def add(self, s):
        t = s.add_relative_orientation_task(self.a, self.b, self.R)
        t.omega_a_b, t.domega_a_b = self.d, self.dd
        set_mask(t, self.mask)
        return self.apply_gains(t)

    def raw(self, tw):
        Ra, Rb = tw.T(self.a)[:3, :3], tw.T(self.b)[:3, :3]
        Ja, Jb = tw.J(self.a)[3:], tw.J(self.b)[3:]
        wa, w = Ja @ tw.v, (Jb - Ja) @ tw.v
        drift = Ra.T @ (tw.drift(self.b)[3:] - tw.drift(self.a)[3:] - np.cross(wa, w))
        return Ra.T @ (Jb - Ja), drift, log3(self.R @ (Ra.T @ Rb).T), self.d - Ra.T @ w, self.dd, np.eye(3)


class Joints(T):
    def __init__(self, rb, rng):
        self.rb = rb
        k = int(rng.integers(1, len(rb.joints) + 1))
        self.names = sorted(rb.joints[int(j)] for j in rng.permutation(len(rb.joints))[:k])
        self.t = {n: float(rng.uniform(-1, 1)) for n in self.names}
        self.how = int(rng.integers(0, 3))
        self.d = {n: float(rng.normal()) if self.how else 0.0 for n in self.names}
        self.dd = {n: float(rng.normal()) if self.how == 2 and rng.random() < 0.7 else 0.0 for n in self.names}

    def add(self, s):
        t = s.add_joints_task()
        if self.how == 0:
            t.set_joints(self.t)
        elif self.how == 1:
            t.set_joints(self.t)
            t.set_joints_velocities(self.d)
        else:
            for k, n in enumerate(self.names):
                if k % 2 == len(self.names) % 2:
                    t.set_joint(n, 0.3, -0.7, 1.9)  # the last call is the one that counts
                t.set_joint(n, self.t[n], self.d[n], self.dd[n])
        return self.apply_gains(t)

    def rows(self, tw):
        A = np.zeros((len(self.names), self.rb.nv))
        e, de, dd = (np.zeros(len(self.names)) for _ in range(3))
        for k, n in enumerate(self.names):
            iv = self.rb.vidx[n]
            A[k, iv] = 1
            e[k] = self.t[n] - tw.q[self.rb.qidx[n]]
            de[k] = self.d[n] - tw.v[iv]
            dd[k] = self.dd[n]
        return A, self.kp * e + self.eff_kd() * de + dd, e, de

    def aim(self, tw, qdd):
        self.how = 2
        self.dd = {n: 0.0 for n in self.names}
        A, b, _, _ = self.rows(tw)
        for k, n in enumerate(self.names):
            self.dd[n] = float(qdd[self.rb.vidx[n]] - b[k])


class Gear(T):
    def __init__(self, rb, rng):
        self.rb = rb
        self.g, self.ops = {}, []
        js = [str(x) for x in rng.permutation(rb.joints)]
        for _ in range(int(rng.integers(1, 4))):
            if len(js) < 2:
                break
            t = js.pop()
            if rng.random() < 0.3:
                self.ops.append(("set", t, js[0], float(rng.uniform(-2, 2))))
            s = js[int(rng.integers(0, len(js)))]
            r = float(rng.uniform(-2, 2))
            self.ops.append(("set", t, s, r))
            self.g[t] = {s: r}
            if len(js) > 1 and rng.random() < 0.5:
                s2, r2 = js[int(rng.integers(0, len(js)))], float(rng.uniform(-2, 2))
                self.ops.append(("add", t, s2, r2))
                self.g[t][s2] = r2

    def add(self, s):
        t = s.add_gear_task()
        for op, a, b, r in self.ops:
            (t.set_gear if op == "set" else t.add_gear)(a, b, r)
        return self.apply_gains(t)

    def rows(self, tw):
        ts = sorted(self.g, key=lambda n: self.rb.vidx[n])
        A = np.zeros((len(ts), self.rb.nv))
        e, de = np.zeros(len(ts)), np.zeros(len(ts))
        for k, t in enumerate(ts):
            A[k, self.rb.vidx[t]] = -1
            e[k], de[k] = tw.q[self.rb.qidx[t]], tw.v[self.rb.vidx[t]]
            for s, r in self.g[t].items():
                A[k, self.rb.vidx[s]] = r
                e[k] -= r * tw.q[self.rb.qidx[s]]
                de[k] -= r * tw.v[self.rb.vidx[s]]
        return A, self.kp * e + self.eff_kd() * de, e, de

    aim = None


class Torque(T):
    tau_task = True

    def __init__(self, rb, rng):
        self.rb = rb
        k = int(rng.integers(1, len(rb.joints) + 1))
        self.names = sorted(rb.joints[int(j)] for j in rng.permutation(len(rb.joints))[:k])
        self.p = {n: (float(rng.normal() * 5), float(rng.normal()) if rng.random() < 0.3 else 0.0,
                      float(rng.uniform(0, 2)) if rng.random() < 0.5 else 0.0) for n in self.names}
        self.reset = [n for n in rb.joints if n not in self.names and rng.random() < 0.3]
        self.twice = {n for n in self.names if rng.random() < 0.3}

    def add(self, s):
        t = s.add_torque_task()
        for n in self.reset:
            t.set_torque(n, 3.0)
        for n in self.names:
            p = self.p[n]
            if n in self.twice:
                t.set_torque(n, -2.0, 1.5, 0.8)  # the last call is the one that counts
            t.set_torque(n, *(p if (p[1] or p[2] or n in self.twice) else p[:1]))
        for n in self.reset:
            t.reset_torque(n)
        return t

    def rows(self, tw):
        A = np.zeros((len(self.names), self.rb.nv))
        b = np.zeros(len(self.names))
        for k, n in enumerate(self.names):
            A[k, self.rb.vidx[n]] = 1
            b[k] = self.p[n][0] + self.p[n][1] * tw.q[self.rb.qidx[n]] - self.p[n][2] * tw.v[self.rb.vidx[n]]
        return A, b, np.zeros(len(b)), np.zeros(len(b))

    def aim_tau(self, tw, tau):
        A, b, _, _ = self.rows(tw)
        for k, n in enumerate(self.names):
            p = self.p[n]
            self.p[n] = (float(p[0] + tau[self.rb.vidx[n]] - b[k]), p[1], p[2])

    aim = None


GOAL = [Position, CoM, Orientation, RelPosition, RelOrientation, Joints]
ALL = GOAL + [Gear, Torque]


def make(cls, rb, rng, tw):
    t = cls(rb, rng).gains(rng)
    if isinstance(t, Gear) and not t.g:
        return None
    if hasattr(t, "prepare"):
        t.prepare(tw)
    return t


# ---------------------------------------------------------------------------------------------- contacts
class C:
    mu, wf, wt, wm = 1.0, 0.0, 0.0, 0.0
    active = True

    def common(self, rng):
        self.mu = float(rng.uniform(0.2, 1.5))
        self.wf = float(10 ** rng.uniform(-3, 0))
        self.wt = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.4 else 0.0
        self.wm = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.4 else 0.0

    def configure(self, h):
        h.mu, h.weight_forces, h.weight_tangentials, h.weight_moments = self.mu, self.wf, self.wt, self.wm
        h.active = self.active
        return h

    def ineq(self, tw):
        return np.zeros((0, self.n)), np.zeros(0)

    def costs(self, tw):
        return [(np.eye(self.n), self.wf)]

    tasks = ()
    fixed = None


def cone_rows(F, mu):
    """|fx|, |fy| <= mu fz and fz >= 0, F maps the variables to the surface force"""
    return np.stack([F[2], mu * F[2] - F[0], mu * F[2] + F[0], mu * F[2] - F[1], mu * F[2] + F[1]])


class Point(C):
    n = 3

    def __init__(self, rb, rng, tw):
        self.common(rng)
        self.uni = bool(rng.random() < 0.7)
        self.t = Position(rb, rng).gains(rng)
        self.t.mask = None
        self.R = rand_rot(rng, 0.8) if rng.random() < 0.5 else np.eye(3)

    def add(self, s, hs):
        h = (s.add_unilateral_point_contact if self.uni else s.add_point_contact)(hs[id(self.t)])
        h.R_world_surface = self.R
        return self.configure(h)

    @property
    def tasks(self):
        return (self.t,)

    def J(self, tw):
        return tw.J(self.t.f)[:3]

    def ineq(self, tw):
        if not self.uni:
            return np.zeros((0, 3)), np.zeros(0)
        G = cone_rows(self.R.T, self.mu)
        return G, np.zeros(len(G))

    def costs(self, tw):
        return [(np.eye(3), self.wf), (self.R.T[:2], self.wt)]

    def star(self, rng):
        f = np.array([0, 0, rng.uniform(5, 60)])
        f[:2] = rng.uniform(-0.9, 0.9, 2) * self.mu * f[2]
        return self.R @ f


class Planar(C):
    n = 6

    def __init__(self, rb, rng, tw):
        self.common(rng)
        self.uni = bool(rng.random() < 0.7)
        self.p, self.o = Position(rb, rng).gains(rng), Orientation(rb, rng).gains(rng)
        self.o.f = self.p.f
        self.p.mask = self.o.mask = None
        self.o.prepare(tw)
        self.L, self.W = float(10 ** rng.uniform(-1.3, 0.4)), float(10 ** rng.uniform(-1.3, 0.4))

    @property
    def tasks(self):
        return (self.p, self.o)

    def add(self, s, hs):
        h = (s.add_planar_contact if self.uni else s.add_fixed_contact)(hs[id(self.p)])
        h.length, h.width = self.L, self.W
        return self.configure(h)

    def J(self, tw):
        return tw.J(self.p.f, LOC)

    def ineq(self, tw):
        if not self.uni:
            return np.zeros((0, 6)), np.zeros(0)
        I = np.eye(6)
        G = np.vstack([cone_rows(I[:3], self.mu), self.L / 2 * I[2] - I[4], self.L / 2 * I[2] + I[4],
                       self.W / 2 * I[2] - I[3], self.W / 2 * I[2] + I[3]])
        return G, np.zeros(len(G))

    def costs(self, tw):
        I = np.eye(6)
        return [(I[:3], self.wf), (I[:2], self.wt), (I[3:], self.wm)]

    def star(self, rng):
        f = np.zeros(6)
        f[2] = rng.uniform(5, 60)
        f[:2] = rng.uniform(-0.9, 0.9, 2) * self.mu * f[2]
        f[3] = rng.uniform(-0.9, 0.9) * self.W / 2 * f[2]
        f[4] = rng.uniform(-0.9, 0.9) * self.L / 2 * f[2]
        f[5] = rng.normal()
        return f


class Line(C):
    n = 5

    def __init__(self, rb, rng, tw):
        self.common(rng)
        self.uni = bool(rng.random() < 0.7)
        self.p, self.o = Position(rb, rng).gains(rng), Orientation(rb, rng).gains(rng)
        self.o.f = self.p.f
        self.p.mask = None
        self.o.mask = ("yz", "local", np.eye(3))
        self.o.prepare(tw)
        self.L = float(10 ** rng.uniform(-1.3, 0.5))
        self.R = rand_rot(rng, 0.8) if rng.random() < 0.5 else np.eye(3)

    @property
    def tasks(self):
        return (self.p, self.o)

    def add(self, s, hs):
        h = (s.add_unilateral_line_contact if self.uni else s.add_line_contact)(hs[id(self.p)])
        h.length = self.L
        h.R_world_surface = self.R
        return self.configure(h)

    def J(self, tw):
        J = tw.J(self.p.f)
        return np.vstack([J[:3], (self.o.R.T @ J[3:])[1:]])

    def Fs(self):
        return np.hstack([self.R.T, np.zeros((3, 2))])

    def ineq(self, tw):
        if not self.uni:
            return np.zeros((0, 5)), np.zeros(0)
        F, I = self.Fs(), np.eye(5)
        G = np.vstack([cone_rows(F, self.mu), self.L / 2 * F[2] - I[3], self.L / 2 * F[2] + I[3]])
        return G, np.zeros(len(G))

    def costs(self, tw):
        return [(self.Fs(), self.wf), (self.Fs()[:2], self.wt), (np.eye(5)[3:], self.wm)]

    def star(self, rng):
        f = np.zeros(5)
        fs = np.array([0, 0, rng.uniform(5, 60)])
        fs[:2] = rng.uniform(-0.9, 0.9, 2) * self.mu * fs[2]
        f[:3] = self.R @ fs
        f[3] = rng.uniform(-0.9, 0.9) * self.L / 2 * fs[2]
        f[4] = rng.normal()
        return f


class External(C):
    n = 6

    def __init__(self, rb, rng, tw):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.ref = str(rng.choice(["world", "local"]))
        self.w = rng.normal(size=6) * 5
        self.fixed = self.w

    def add(self, s, hs):
        h = s.add_external_wrench_contact(self.f, self.ref)
        h.w_ext = self.w
        return self.configure(h)

    def J(self, tw):
        return tw.J(self.f, LWA if self.ref == "world" else LOC)

    def costs(self, tw):
        return []

    def star(self, rng):
        return self.w


class Puppet(C):
    def __init__(self, rb, rng, tw):
        self.common(rng)
        self.n = rb.nv

    def add(self, s, hs):
        return self.configure(s.add_puppet_contact())

    def J(self, tw):
        return np.eye(self.n)

    def star(self, rng):
        return rng.normal(size=self.n) * 5


class TaskContact(C):
    def __init__(self, rb, rng, tw):
        self.common(rng)
        cls = [Position, RelPosition, CoM, Orientation, Gear][int(rng.integers(0, 5))]
        self.t = make(cls, rb, rng, tw) or make(Position, rb, rng, tw)
        self.n = len(self.t.rows(tw)[1])

    @property
    def tasks(self):
        return (self.t,)

    def add(self, s, hs):
        return self.configure(s.add_task_contact(hs[id(self.t)]))

    def J(self, tw):
        return self.t.rows(tw)[0]

    def star(self, rng):
        return rng.normal(size=self.n) * 5


CONTACTS = [Point, Planar, Line, External, Puppet, TaskContact]


# ---------------------------------------------------------------------------------------------- problems
def random_id(m, rng, limits=True, hard=True, contacts=True, real=0.2):
    rb = robots.any_robot(m, rng, real=real)
    q = rb.rand_q(rng, margin=0.1)
    v = rb.rand_v(rng, float(rng.choice([0, 0.3, 1.0])))
    S = dict(rb=rb, q=q, v=v)
    r2 = np.random.default_rng(int(abs(q[0]) * 1e9))
    if r2.random() < 0.4:
        rb.set_rotors({n: (float(r2.uniform(0, 0.01)), float(10 ** r2.uniform(-1, 1)) * float(r2.choice([-1, 1])))
                       for n in rb.joints if r2.random() < 0.5})
        m.count("rotor_inertias", int((rb.rotor > 0).sum()))
    rb.set(q, v)
    tw = Twin(rb, q, v)
    nv = rb.nv
    S["fbase"] = bool(rng.random() < 0.4)
    S["damping"] = float(rng.uniform(0, 2)) if rng.random() < 0.4 else 0.0
    S["gravity_only"] = bool(rng.random() < 0.3)
    S["extra"] = rng.normal(size=nv) if rng.random() < 0.3 else None
    S["torque_cost"] = float(10 ** rng.uniform(-3, 0)) if rng.random() < 0.7 else 1e-3
    S["dt"] = float(10 ** rng.uniform(-3, -1.5))
    S["contacts"] = []
    tasks = []  # (spec, priority, weight)
    if contacts:
        for _ in range(int(rng.integers(0, 4))):
            S["contacts"].append(CONTACTS[int(rng.integers(0, len(CONTACTS)))](rb, rng, tw))
    for c in S["contacts"]:
        c.active = bool(rng.random() < 0.85)
        for t in c.tasks:
            tasks.append([t, "soft", float(10 ** rng.uniform(-2, 0.5))])
    # reference motion: any joint acceleration, forces inside their cones, the base follows
    qdd = rng.normal(size=nv) * 3
    act = [c for c in S["contacts"] if c.active]
    f = [c.star(rng) for c in act]
    bias = tw.v * S["damping"] + (tw.grav if S["gravity_only"] else tw.nle) + (S["extra"] if S["extra"] is not None else 0)
    jf = sum((c.J(tw).T @ x for c, x in zip(act, f)), np.zeros(nv))
    lo, up = rb.lo_up()
    S["vlim_on"] = bool(limits and rng.random() < 0.3)
    S["vt_on"] = bool(limits and rng.random() < 0.25)
    S["jlim_on"] = bool(limits and rng.random() < 0.4)
    S["tlim_on"] = bool(limits and rng.random() < 0.4)
    S["qdd_safe"] = {}
    if S["jlim_on"]:
        for n in rb.joints:
            if rng.random() < 0.1:  # already outside of the limits
                k = rb.qidx[n]
                a = float(rng.uniform(0.5, 3))
                S["qdd_safe"][n] = a
                side = 1 if rng.random() < 0.5 else -1
                if (up[k] if side > 0 else -lo[k]) > 1e10:
                    del S["qdd_safe"][n]
                    continue
                q[k] = (up[k] + 0.02) if side > 0 else (lo[k] - 0.02)
                qdd[rb.vidx[n]] = -side * a * 1.3
                # velocity towards the inside, such that the other limit is not at stake
                v[rb.vidx[n]] = -side * 0.1
        rb.set(q, v)
        tw = Twin(rb, q, v)
        bias = tw.v * S["damping"] + (tw.grav if S["gravity_only"] else tw.nle) + (S["extra"] if S["extra"] is not None else 0)
        for c in S["contacts"]:
            for t in c.tasks:
                if hasattr(t, "prepare"):
                    t.prepare(tw)
        jf = sum((c.J(tw).T @ x for c, x in zip(act, f)), np.zeros(nv))
    if S["fbase"]:
        qdd[:6] = 0
    else:
        qdd[:6] = np.linalg.solve(tw.M[:6, :6], (jf - bias)[:6] - tw.M[:6, 6:] @ qdd[6:])
    tau = tw.M @ qdd + bias - jf
    S["qdd"], S["f"], S["tau"], S["tw"] = qdd, f, tau, tw
    if S["jlim_on"]:
        for n in rb.joints:
            if n in S["qdd_safe"]:
                k = rb.qidx[n]
                d = (q[k] - lo[k]) if q[k] > up[k] else (up[k] - q[k])
                vn = abs(v[rb.vidx[n]] + S["dt"] * qdd[rb.vidx[n]])
                if vn > np.sqrt(2 * d * S["qdd_safe"][n]):
                    return None
                continue
            k = rb.qidx[n]
            vn = v[rb.vidx[n]] + S["dt"] * qdd[rb.vidx[n]]
            d = up[k] - q[k] if vn > 0 else q[k] - lo[k]
            S["qdd_safe"][n] = float(max(0.1, vn ** 2 / (2 * d) * rng.uniform(1.02, 1.5)))
    S["vlim"], S["tlim"], S["elim"] = {}, {}, {}
    if S["vlim_on"] or S["vt_on"]:
        for n in rb.joints:
            vn = abs(v[rb.vidx[n]] + S["dt"] * qdd[rb.vidx[n]])
            S["vlim"][n] = float(vn * rng.uniform(1.02, 1.5) + 0.05) * (2 if S["vt_on"] else 1)
            if S["vt_on"]:
                # |v' + vlim/eff * tau| <= vlim
                S["elim"][n] = float(2.2 * abs(tau[rb.vidx[n]]) * rng.uniform(1.02, 1.5) + 0.5)
    if S["tlim_on"]:
        for n in rb.joints:
            if rng.random() < 0.7:
                S["tlim"][n] = float(abs(tau[rb.vidx[n]]) * rng.uniform(1.02, 1.5) + 0.1)
            elif n not in S["elim"]:
                S["elim"][n] = float(abs(tau[rb.vidx[n]]) * rng.uniform(1.02, 1.5) + 0.1)
            else:
                S["elim"][n] = max(S["elim"][n], float(abs(tau[rb.vidx[n]]) * 1.1))
    # tasks
    j = Joints(rb, rng)
    j.names = sorted(rb.joints)
    j.t = {n: float(rng.uniform(-1, 1)) for n in j.names}
    j.d = {n: 0.0 for n in j.names}
    j.dd = {n: 0.0 for n in j.names}
    j.how = 0
    j.kp = float(10 ** rng.uniform(0, 2))
    tasks.append([j, "soft", float(10 ** rng.uniform(-1, 0.5))])
    nf = sum(c.n for c in act)
    hardrows = [np.hstack([np.eye(nv)[:6], np.zeros((6, nf))])] if S["fbase"] else \
        [np.hstack([tw.M[:6], -np.hstack([c.J(tw).T for c in act])[:6] if act else np.zeros((6, 0))])]
    k0 = nv
    for c in act:
        if c.fixed is not None:
            hardrows.append(np.hstack([np.zeros((c.n, k0)), np.eye(c.n), np.zeros((c.n, nf + nv - k0 - c.n))]))
        k0 += c.n
    extra = [make(ALL[int(rng.integers(0, len(ALL)))], rb, rng, tw) for _ in range(int(rng.integers(0, 4)))]
    for t in [x[0] for x in tasks if x[0] is not j] + [e for e in extra if e is not None]:
        ent = next((x for x in tasks if x[0] is t), None)
        if ent is None:
            ent = [t, "soft", float(10 ** rng.uniform(-2, 0.5))]
            tasks.append(ent)
        if hard and rng.random() < 0.4 and (t.aim is not None or isinstance(t, Torque)):
            keep = getattr(t, "dd", None), getattr(t, "p", None), getattr(t, "how", None)
            if isinstance(t, Torque):
                t.aim_tau(tw, tau)
                A = t.rows(tw)[0]
                A = A @ np.hstack([tw.M] + [-c.J(tw).T for c in act])
            else:
                t.aim(tw, qdd)
                A = np.hstack([t.rows(tw)[0], np.zeros((len(t.rows(tw)[1]), nf))])
            X = np.vstack(hardrows + [A])
            X = X / np.linalg.norm(X, axis=1, keepdims=True).clip(1e-9)
            sv = np.linalg.svd(X, compute_uv=False)
            if len(X) < nv + nf - 2 and sv[-1] > 0.05 and np.linalg.norm(A, axis=1).min() > 1e-2:
                ent[1] = "hard"
                hardrows.append(A)
            else:
                if keep[0] is not None:
                    t.dd = keep[0]
                if keep[1] is not None:
                    t.p = keep[1]
                if keep[2] is not None:
                    t.how = keep[2]
    S["tasks"] = [tuple(x) for x in tasks]
    return S


def push_limits(S):
    r, rb = S["rb"].robot, S["rb"]
    S["_old"] = np.array(r.model.velocityLimit), np.array(r.model.effortLimit)
    for n, x in S["vlim"].items():
        r.set_velocity_limit(n, x)
    for n, x in S["elim"].items():
        r.set_torque_limit(n, x)


def pop_limits(S):
    rb = S["rb"]
    v, e = S["_old"]
    for n in rb.joints:
        rb.robot.set_velocity_limit(n, float(v[rb.vidx[n]]))
        rb.robot.set_torque_limit(n, float(e[rb.vidx[n]]))


def apply_options(S, s):
    s.dt, s.damping, s.gravity_only, s.torque_cost = S["dt"], S["damping"], S["gravity_only"], S["torque_cost"]
    s.mask_fbase(S["fbase"])
    s.extra_force = S["extra"] if S["extra"] is not None else np.zeros(0)
    s.enable_velocity_limits(S["vlim_on"])
    s.enable_velocity_vs_torque_limits(S["vt_on"])
    s.enable_joint_limits(S["jlim_on"])
    s.enable_torque_limits(S["tlim_on"])
    for n, x in S["qdd_safe"].items():
        s.set_qdd_safe(n, x)
    for n, x in S["tlim"].items():
        s.set_torque_limit(n, x)


def add_task(s, t, pr, w):
    h = t.add(s)
    h.configure(type(t).__name__, pr, w)
    return h


def apply_id(S, s):
    """returns handles of the tasks (by spec id; contacts on frames are keyed by their position task) and of the contacts"""
    apply_options(S, s)
    hs, done = {}, set()
    pw = {id(t): (pr, w) for t, pr, w in S["tasks"]}
    order = []
    for c in S["contacts"]:
        if isinstance(c, (Planar, Line)):
            T_ = tf(c.o.R, c.p.t)
            ft = s.add_frame_task(c.p.f, T_)
            p, o = ft.position(), ft.orientation()
            p.dtarget_world, p.ddtarget_world = c.p.d, c.p.dd
            o.omega_world, o.domega_world = c.o.d, c.o.dd
            set_mask(o, c.o.mask)
            for h, t in ((p, c.p), (o, c.o)):
                t.apply_gains(h)
                h.configure(type(t).__name__, *pw[id(t)])
                order.append((t, h))
                done.add(id(t))
            hs[id(c.p)] = ft
    for t, pr, w in S["tasks"]:
        if id(t) not in done:
            hs[id(t)] = add_task(s, t, pr, w)
            order.append((t, hs[id(t)]))
    cs = [c.add(s, hs) for c in S["contacts"]]
    return order, cs


def oracle(S, tw=None):
    rb = S["rb"]
    nv = rb.nv
    tw = tw or S["tw"]
    act = [c for c in S["contacts"] if c.active]
    n = nv + sum(c.n for c in act)
    Q = QP(n)
    Js = [c.J(tw) for c in act]
    tA = np.hstack([tw.M] + [-J.T for J in Js])
    tb = tw.v * S["damping"] + (tw.grav if S["gravity_only"] else tw.nle) + (S["extra"] if S["extra"] is not None else 0)
    I = np.eye(n)
    if S["fbase"]:
        Q.eq(I[:6], np.zeros(6), None, "masked-fbase")
    else:
        Q.eq(tA[:6], -tb[:6], None, "floating-base-torque")
    Q.eq(tA[6:], -tb[6:], S["torque_cost"], "torque-cost")
    k = nv
    for c in act:
        G, h = c.ineq(tw)
        F = I[k:k + c.n]
        if len(h):
            Q.ge(G @ F, h, None, type(c).__name__)
        for A, w in c.costs(tw):
            if w > 0:
                Q.eq(A @ F, np.zeros(len(A)), w, type(c).__name__ + "-cost")
        if c.fixed is not None:
            Q.eq(F, c.fixed, None, "external-wrench")
        k += c.n
    for t, pr, w in S["tasks"]:
        A, b = t.rows(tw)[:2]
        if t.tau_task:
            A, b = A @ tA, b - A @ tb
        Q.eq(A, b, None if pr == "hard" else w, type(t).__name__)
    dt = S["dt"]
    lo, up = rb.lo_up()
    eff = np.array(rb.robot.model.effortLimit)
    vl = np.array(rb.robot.model.velocityLimit)
    for nme in rb.joints:
        i, kq = rb.vidx[nme], rb.qidx[nme]
        if S["tlim_on"]:
            L = S["tlim"].get(nme, eff[i])
            Q.ge(np.stack([-tA[i], tA[i]]), [L - tb[i], L + tb[i]], None, "torque-limit")
        if S["vt_on"]:
            r = vl[i] / eff[i]
            Q.ge(np.stack([-r * tA[i] - dt * I[i], r * tA[i] + dt * I[i]]),
                 [vl[i] - r * tb[i] - tw.v[i], vl[i] + r * tb[i] + tw.v[i]], None, "velocity-vs-torque-limit")
        elif S["vlim_on"]:
            Q.ge(np.stack([-dt * I[i], dt * I[i]]), [vl[i] - tw.v[i], vl[i] + tw.v[i]], None, "velocity-limit")
        if S["jlim_on"]:
            a = S["qdd_safe"].get(nme, 1.0)
            if tw.q[kq] > up[kq]:
                Q.ge(-I[i], [-a], None, "outside-upper-limit")
            elif up[kq] < 1e10:
                Q.ge(-dt * I[i], [np.sqrt(2 * (up[kq] - tw.q[kq]) * a) - tw.v[i]], None, "upper-limit")
            if tw.q[kq] < lo[kq]:
                Q.ge(I[i], [-a], None, "outside-lower-limit")
            elif lo[kq] > -1e10:
                Q.ge(dt * I[i], [np.sqrt(2 * (tw.q[kq] - lo[kq]) * a) + tw.v[i]], None, "lower-limit")
    return Q, act, Js, tA, tb


def describe(S):
    return (f"{len(S['rb'].joints)} joints fbase_masked={S['fbase']} vlim={S['vlim_on']} vt={S['vt_on']} jlim={S['jlim_on']} "
            f"tlim={S['tlim_on']} g={S['gravity_only']} damp={S['damping']:.2g} extra={S['extra'] is not None} contacts="
            + ",".join(type(c).__name__ + ("" if c.active else "(off)") for c in S["contacts"])
            + " tasks=" + " ".join(f"{type(t).__name__}:{pr}" for t, pr, w in S["tasks"]))


def judge(m, S, tw, res, cs, key="", tol=1e-6):
    """The result of a solve: equation of motion, contact forces, hard requirements, optimality."""
    rb = S["rb"]
    Q, act, Js, tA, tb = oracle(S, tw)
    qdd, tau = np.array(res.qdd), np.array(res.tau)
    W = [np.array(h.wrench).ravel() for h, c in zip(cs, S["contacts"]) if c.active]
    jf = sum((J.T @ w for J, w in zip(Js, W)), np.zeros(rb.nv))
    sc = 1 + np.abs(tau).max() + np.abs(tb).max() + np.abs(jf).max()
    m.close(tau, tw.M @ qdd + tb - jf, 1e-7 * sc, key + "equation-of-motion")
    m.close(res.tau_contacts, jf, 1e-7 * sc, key + "tau-contacts")
    m.count("motion_equations")
    if not S["fbase"]:
        m.close(tau[:6], np.zeros(6), 1e-6 * sc, key + "floating-base-torque")
    d = res.tau_dict(rb.robot)
    m.ok(all(abs(d[n] - tau[rb.vidx[n]]) < 1e-9 * sc for n in rb.joints), key + "tau-dict")
    x = np.concatenate([qdd] + W)
    if Q.feasible(m, x, tol=tol, key=key + "hard"):
        Q.optimal(m, x, key=key + "not-optimal", tol=2e-5)
    for c, h in zip(S["contacts"], cs):
        if c.active:
            m.count("contact_" + type(c).__name__)
        if c.active and isinstance(c, Planar):
            w = np.array(h.wrench).ravel()
            if abs(w[2]) > 1e-3:
                z = np.array(h.zmp())
                # at the ZMP, the tangential moments vanish
                mz = w[3:] - np.cross(z, w[:3])
                m.close(mz[:2], np.zeros(2), 1e-6 * (1 + np.abs(w).max() * (1 + np.abs(z).max())), key + "zmp")
                if c.uni:
                    m.ok(abs(z[0]) <= c.L / 2 + 1e-4 / abs(w[2]) and abs(z[1]) <= c.W / 2 + 1e-4 / abs(w[2]), key + "zmp-outside")
        if c.active and isinstance(c, Line):
            w = np.array(h.wrench).ravel()
            fz = (c.R.T @ w[:3])[2]
            if abs(fz) > 1e-3:
                m.close(np.array(h.zmp()), [-w[3] / fz, 0, 0], 1e-6 * (1 + abs(w[3] / fz)), key + "line-zmp")
    return x


def solve(m, rng, i):
    S = random_id(m, rng)
    if S is None:
        m.skip()
    rb = S["rb"]
    r = rb.robot
    if not S["contacts"] and rng.random() < 0.15:
        S["tasks"] = []  # nothing is asked for: only the torques are minimized
        m.count("no_task_problems")
    m.desc = describe(S)
    push_limits(S)
    try:
        tw = S["tw"]
        Q = oracle(S)[0]
        if not Q.conditioned():
            m.count("ill_conditioned")
            m.skip()
        s = placo.DynamicsSolver(r)
        order, cs = apply_id(S, s)
        rb.set(S["q"], S["v"])
        qdd0 = rb.rand_v(rng)
        r.state.qdd = qdd0
        res = s.solve()
        if not m.ok(res.success, "feasible-problem-fails"):
            return
        m.ok(np.array_equal(r.state.q, S["q"]) and np.array_equal(r.state.qd, S["v"]) and np.array_equal(r.state.qdd, qdd0),
             "solve-changes-state")
        judge(m, S, tw, res, cs)
        for t, h in order:
            A, b, e, de = t.rows(tw)
            nm = type(t).__name__
            sc = 1 + np.abs(b).max()
            cmp_rows(m, "task-" + nm, h.A, h.b, A, b, False, 1e-7 * sc)
            m.close(np.ravel(h.error), e, 1e-7 * (1 + np.abs(e).max()), "error-" + nm)
            m.close(np.ravel(h.derror), de, 1e-7 * (1 + np.abs(de).max()), "derror-" + nm)
            m.count("task_" + nm)
        # integrating
        res2 = s.solve(True)
        q2 = np.array(res2.qdd)
        m.close(q2, res.qdd, 1e-6 * (1 + np.abs(q2).max()), "solve-not-repeatable")
        if S["fbase"]:
            q2[:6] = 0
        m.close(r.state.qdd, q2, 1e-12, "integrated-acceleration")
        v1 = S["v"] + S["dt"] * q2
        m.close(r.state.qd, v1, 1e-9 * (1 + np.abs(v1).max()), "integrated-velocity")
        m.close(r.state.q, rb.step(S["q"], v1 * S["dt"]), 1e-8, "integrated-position")
        for _, pr, _ in S["tasks"]:
            m.count(pr + "_tasks")
        m.sig(S["q"], S["v"], res.tau)
        m.sample(describe(S))
    finally:
        pop_limits(S)


def task_rows(m, rng, i):
    """Each dynamics task asks for kp*error + kd*derror + feed-forward of the documented quantity, drift included."""
    rb = robots.any_robot(m, rng)
    q, v = rb.rand_q(rng), rb.rand_v(rng)
    rb.set(q, v)
    tw = Twin(rb, q, v)
    t = make(ALL[i % len(ALL)], rb, rng, tw)
    if t is None:
        m.skip()
    s = placo.DynamicsSolver(rb.robot)
    s.mask_fbase(True)
    h = add_task(s, t, "soft", 1.0)
    how = int(rng.integers(0, 3))
    if how == 1 and not t.tau_task:
        t.kp = float(10 ** rng.uniform(-1, 3))
        s.set_kp(t.kp)
        if rng.random() < 0.5:
            t.kd = float(10 ** rng.uniform(-1, 2))
            s.set_kd(t.kd)
    rb.set(q, v)
    s.solve()
    A, b, e, de = t.rows(tw)
    sc = 1 + np.abs(b).max()
    nm = type(t).__name__
    cmp_rows(m, "task-" + nm, h.A, h.b, A, b, False, 1e-7 * sc)
    m.close(np.ravel(h.error), e, 1e-7 * (1 + np.abs(e).max()), "error-" + nm)
    m.close(np.ravel(h.derror), de, 1e-7 * (1 + np.abs(de).max()), "derror-" + nm)
    m.count("task_" + nm)
    # the same task in another state
    q2, v2 = rb.rand_q(rng), rb.rand_v(rng)
    if not isinstance(t, (Orientation, RelOrientation)):
        rb.set(q2, v2)
        s.solve()
        A, b, e, de = t.rows(Twin(rb, q2, v2))
        cmp_rows(m, "task-again-" + nm, h.A, h.b, A, b, False, 1e-7 * (1 + np.abs(b).max()))
    m.sig(q, v, nm)
    m.sample(f"{nm} kp={t.kp:.3g} kd={t.kd:.3g} on {len(rb.joints)} joints")


def infeasible(m, rng, i):
    """Requirements that cannot be met together: success is False, the state is not integrated, the next solve is right."""
    S = random_id(m, rng, limits=False, hard=False)
    if S is None:
        m.skip()
    rb = S["rb"]
    r = rb.robot
    kind = int(rng.integers(0, 6))
    push_limits(S)
    try:
        if not oracle(S)[0].conditioned():
            m.skip()
        s = placo.DynamicsSolver(r)
        n = rb.joints[int(rng.integers(0, len(rb.joints)))]
        iv = rb.vidx[n]
        rb.set(S["q"], S["v"])
        undo = None
        gap = float(10 ** rng.uniform(-1, 1))
        order, cs = apply_id(S, s)
        extra = []
        if kind == 0:  # contradictory accelerations
            for x in (gap, -gap):
                t = s.add_joints_task()
                t.set_joint(n, float(S["q"][rb.qidx[n]]), float(S["v"][iv]), x)
                t.configure("x", "hard")
                extra.append(t)
        elif kind == 1:  # a torque beyond its limit
            s.enable_torque_limits(True)
            s.set_torque_limit(n, 1.0)
            t = s.add_torque_task()
            t.set_torque(n, 1.0 + gap)
            t.configure("x", "hard")
            extra.append(t)
        elif kind == 2:  # faster than the velocity limit
            s.enable_velocity_limits(True)
            vl = float(r.model.velocityLimit[iv])
            t = s.add_joints_task()
            t.set_joint(n, float(S["q"][rb.qidx[n]]), float(S["v"][iv]), (vl + gap * 0.1 - S["v"][iv]) / S["dt"])
            t.configure("x", "hard")
            extra.append(t)
        elif kind == 3:  # accelerating further out of the limits
            s.enable_joint_limits(True)
            s.set_qdd_safe(n, gap)
            lo, up = r.get_joint_limits(n)
            if abs(up) > 1e10:
                m.skip()
            q = S["q"].copy()
            q[rb.qidx[n]] = up + 0.05
            rb.set(q, S["v"])
            t = s.add_joints_task()
            t.set_joint(n, float(q[rb.qidx[n]]), float(S["v"][iv]), 0.0)
            t.configure("x", "hard")
            extra.append(t)
        elif kind == 4:  # pulling with a unilateral contact
            if S["fbase"] or any(c.active for c in S["contacts"]):
                m.skip()
            pt = s.add_position_task("root_joint", np.zeros(3))
            pt.configure("p", "soft", 1e-3)
            c = s.add_unilateral_point_contact(pt)
            ct = s.add_com_task(S["tw"].com)
            ct.dtarget_world = S["tw"].vcom
            mass = sum(I.mass for I in rb.model.inertias)
            g = S["tw"].grav[:3]
            # without gravity compensation from anything else, only a pulling force accelerates downwards faster than gravity
            if S["gravity_only"] or S["extra"] is not None or S["damping"]:
                m.skip()
            ct.ddtarget_world = np.array([0, 0, -9.81 - gap])
            ct.configure("x", "hard")
            extra += [ct]
            undo = [c, pt]
        else:  # scaled priority is refused
            t = s.add_joints_task()
            t.set_joint(n, 0.1)
            t.configure("x", "scaled")
            m.raises(lambda: s.solve(), "scaled-accepted")
            extra.append(t)
        q0, v0, a0 = np.array(r.state.q), np.array(r.state.qd), np.array(r.state.qdd)
        if kind != 5:
            res = s.solve(True)
            m.ok(not res.success, "infeasible-success", f"kind {kind} gap {gap}")
            m.ok(np.array_equal(r.state.q, q0) and np.array_equal(r.state.qd, v0) and np.array_equal(r.state.qdd, a0),
                 "failed-solve-integrates")
            m.raises(lambda: res.tau_dict(r), "tau-dict-of-failure")
            m.count("failed_solves")
        m.count(f"infeasible_kind{kind}")
        for t in extra:
            s.remove_task(t)
        if undo:
            s.remove_contact(undo[0])
            s.remove_task(undo[1])
        s.enable_torque_limits(False)
        s.enable_velocity_limits(False)
        s.enable_joint_limits(False)
        rb.set(S["q"], S["v"])
        res = s.solve()
        if m.ok(res.success, "solver-broken-after-failure"):
            judge(m, S, S["tw"], res, cs, "after-failure-")
        m.sig(S["q"], kind)
        m.sample(f"kind {kind}: {describe(S)}")
    finally:
        pop_limits(S)


def misuse(m, rng, i):
    """Missing parameters are refused with an error."""
    rb = robots.rand_robot(rng)
    r = rb.robot
    rb.set(rb.rand_q(rng), rb.rand_v(rng))
    s = placo.DynamicsSolver(r)
    s.mask_fbase(True)
    n = rb.joints[0]
    t = s.add_joints_task()
    t.set_joint(n, 0.1)
    for k, f in enumerate((s.enable_joint_limits, s.enable_velocity_limits, s.enable_velocity_vs_torque_limits)):
        f(True)
        m.raises(lambda: s.solve(), "limits-without-dt", f"{k}")
        f(False)
    m.raises(lambda: s.solve(True), "integrate-without-dt")
    c = s.add_avoid_self_collisions_constraint()
    m.raises(lambda: s.solve(), "avoid-without-dt")
    s.remove_constraint(c)
    f = rb.frames[int(rng.integers(0, len(rb.frames)))]
    ft = s.add_frame_task(f, np.eye(4))
    c = s.add_planar_contact(ft)
    m.raises(lambda: s.solve(), "planar-without-size")
    c.length = 0.1
    m.raises(lambda: s.solve(), "planar-without-width")
    s.remove_contact(c)
    ft2 = s.add_frame_task(f, np.eye(4))
    c = s.add_unilateral_line_contact(ft2)
    m.raises(lambda: s.solve(), "line-without-mask")
    ft2.orientation().mask.set_axises("yz", "local")
    m.raises(lambda: s.solve(), "line-without-length")
    c.length = 0.1
    m.ok(s.solve().success, "line-contact-fails")
    s.remove_contact(c)
    p = s.add_position_task(f, np.zeros(3))
    p.mask.set_axises("xy", "task")
    c = s.add_point_contact(p)
    m.raises(lambda: s.solve(), "masked-point-contact")
    s.remove_contact(c)
    m.ok(s.count_contacts() == 0, "contact-count")
    for fn in (lambda: s.add_external_wrench_contact(f, "nowhere"), lambda: s.add_position_task("none", np.zeros(3)),
               lambda: s.add_external_wrench_contact("none", "world"), lambda: s.set_qdd_safe("none", 1.0),
               lambda: s.set_torque_limit("none", 1.0), lambda: s.get_contact(3), lambda: s.get_contact(-1),
               lambda: t.get_joint("none"), lambda: t.configure("x", "strong", 1.0)):
        m.raises(fn, "misuse-accepted")
    s.extra_force = np.zeros(rb.nv + int(rng.choice([-1, 1, 5])))
    m.raises(lambda: s.solve(), "extra-force-size")
    s.extra_force = np.zeros(rb.nv)
    m.ok(s.solve().success, "solve-after-misuse")
    m.sig(np.array(r.state.q))
    m.sample(f"{len(rb.joints)} joints")


def avoid(m, rng, i):
    """Spheres at rest or moving: distances cannot close faster than the safe deceleration allows, collisions are pushed out."""
    urdf, info = robots.rand_urdf(rng, n=int(rng.integers(3, 8)), shapes=("sphere",), rad=(0.02, 0.1))
    r = placo.RobotWrapper("", 0, urdf)
    rb = robots.RB(r, urdf=urdf, info=info)
    if not len(r.collision_model.collisionPairs):
        m.skip()
    q = rb.rand_q(rng, margin=0.1)
    rest = bool(rng.random() < 0.6)
    v = np.zeros(rb.nv) if rest else rb.rand_v(rng, 0.3)
    rb.set(q, v)
    tw = Twin(rb, q, v)
    S = dict(rb=rb, q=q, v=v, tw=tw, fbase=bool(rng.random() < 0.7), damping=0.0, gravity_only=False, extra=None, torque_cost=1e-2,
             dt=float(rng.choice([0.001, 0.01])), contacts=[], vlim_on=False, vt_on=False, jlim_on=False, tlim_on=False, qdd_safe={},
             vlim={}, tlim={}, elim={})
    j = Joints(rb, rng)
    j.names = sorted(rb.joints)
    j.t = {n: float(rng.uniform(-2, 2)) for n in j.names}
    j.d = {n: 0.0 for n in j.names}
    j.dd = {n: 0.0 for n in j.names}
    j.how, j.kp = 0, float(10 ** rng.uniform(0, 2))
    S["tasks"] = [(j, "soft", 1.0)]
    S["qdd_safe"] = {n: float(rng.uniform(0.2, 3)) for n in rb.joints}
    geo = [g.name.rsplit("_", 1)[0] for g in r.collision_model.geometryObjects]
    G, d = [], []
    for p in r.collision_model.collisionPairs:
        c, J = [], []
        for g in (p.first, p.second):
            l = geo[g]
            T_ = tw.T(l)
            o = T_[:3, :3] @ info["geoms"][l][2]
            Jl = tw.J(l)
            c.append(T_[:3, 3] + o)
            J.append(Jl[:3] - skew(o) @ Jl[3:])
        n = c[1] - c[0]
        nn = np.linalg.norm(n)
        if nn < 0.02:
            m.skip()
        G.append(n / nn @ (J[1] - J[0]))
        d.append(nn - info["geoms"][geo[p.first]][1] - info["geoms"][geo[p.second]][1])
    G, d = np.array(G), np.array(d)
    if np.any(np.abs(d) < 1e-4):
        m.skip()
    safe = np.array([0.0] * 6 + [S["qdd_safe"][n] for n in sorted(rb.joints, key=lambda n: rb.vidx[n])])
    xs = 0.5 * np.abs(G) @ safe
    dt = S["dt"]
    soft = bool(rng.random() < 0.3)
    margin = float(rng.uniform(0.0, 0.1)) if soft else float(max(-0.5, d.min() - rng.uniform(0.001, 0.02)))
    trig = float(margin + rng.uniform(0, 0.3))
    act = d < trig
    if np.any(np.abs(d - trig) < 1e-4) or np.any(np.abs(d - margin) < 1e-4):
        m.skip()
    inside = d < margin
    A = np.where(inside[:, None], G, dt * G)[act]
    b = np.where(inside, -xs, G @ v + np.sqrt(np.maximum(0, 2 * (d - margin) * xs)))[act]
    Q = oracle(S)[0]
    w = float(10 ** rng.uniform(-1, 2))
    if act.any():
        if not soft and not rest:
            # keep the problem feasible: no pair approaches faster than allowed
            if np.any(b < 0.02):
                m.skip()
        Q.ge(A, b, w if soft else None, "avoid")
    if not Q.conditioned():
        m.skip()
    s = placo.DynamicsSolver(r)
    apply_id(S, s)
    c = s.add_avoid_self_collisions_constraint()
    c.self_collisions_margin, c.self_collisions_trigger = margin, trig
    c.configure("avoid", "soft" if soft else "hard", w)
    rb.set(q, v)
    res = s.solve()
    if not m.ok(res.success, "feasible-problem-fails"):
        return
    x = np.array(res.qdd)
    if rest:
        tol = 2e-4 if (d < 0).any() else 2e-5
        if soft or Q.feasible(m, x, tol=tol):
            Q.optimal(m, x, tol=tol * 20)
        m.count("avoid_exact")
    elif not soft and act.any():
        # velocity dependent terms only enter through dt*drift
        sl = A @ x + b
        slack = 1e-4 + dt * 20 * float(v @ v)
        m.ok(sl.min() >= -slack, "closing-too-fast", lambda: f"{sl.min()} < -{slack}")
        m.count("avoid_moving")
    m.count("avoid_pairs_constrained", int(act.sum()))
    m.count("avoid_pairs_inside", int(inside.sum()))
    if act.any():
        m.count("avoid_active_rows", int((A @ x + b < 1e-4).sum()))
    m.sig(q, v, margin)
    m.sample(f"{len(d)} pairs, {int(act.sum())} under the trigger, {'soft' if soft else 'hard'} rest={rest}")


def closed_loop(m, rng, i):
    """Simulated control loops: critically damped convergence, joint limits, contacts that stay put."""
    rb = robots.any_robot(m, rng, real=0.2)
    r = rb.robot
    lo, up = rb.lo_up()
    q = rb.rand_q(rng, margin=0.2)
    rb.set(q)
    s = placo.DynamicsSolver(r)
    s.dt = dt = float(rng.choice([0.002, 0.005]))
    s.torque_cost = 1e-6
    mode = i % 3
    if mode in (0, 1):
        s.mask_fbase(True)
        t = s.add_joints_task()
        goal = {n: float(np.clip(q[rb.qidx[n]] + rng.normal() * 0.5, lo[rb.qidx[n]] + 0.01, up[rb.qidx[n]] - 0.01)) for n in rb.joints}
        a = float(rng.uniform(1, 20))
        if mode == 1:
            for n in rb.joints:
                s.set_qdd_safe(n, a)
                k = rb.qidx[n]
                if rng.random() < 0.5 and up[k] < 1e3:  # aim beyond the limits
                    goal[n] = float(up[k] + 0.3 if rng.random() < 0.5 else lo[k] - 0.3)
            s.enable_joint_limits(True)
        t.set_joints(goal)
        t.kp = float(10 ** rng.uniform(1.5, 2.3))
        q0 = q.copy()
        e0 = max(abs(goal[n] - q0[rb.qidx[n]]) for n in rb.joints)
        for k in range(int(1.2 / dt) if mode == 0 else int(0.8 / dt)):
            res = s.solve(True)
            if not m.ok(res.success, "loop-fails", f"step {k}"):
                return
            r.update_kinematics()
            qq = np.array(r.state.q)
            if mode == 1:
                ex = max(float((qq[7:] - up[7:]).max()), float((lo[7:] - qq[7:]).max()))
                m.ok(ex <= 10 * a * dt ** 2 + 1e-6, "joint-limit-exceeded", lambda: f"step {k}: {ex} a={a} dt={dt}")
                m.count("limit_steps")
        m.close(np.array(r.state.q)[:7], q0[:7], 1e-9, "masked-base-moves")
        if mode == 0:
            for n in rb.joints:
                x0, x1 = q0[rb.qidx[n]], float(r.state.q[rb.qidx[n]])
                w = np.sqrt(t.kp)
                T_ = int(1.2 / dt) * dt
                want = goal[n] + (x0 - goal[n]) * (1 + w * T_) * np.exp(-w * T_)
                m.ok(abs(x1 - want) <= 0.03 * abs(goal[n] - x0) + 1e-4, "not-critically-damped", lambda: f"{n}: {x0} -> {x1}, goal {goal[n]} want {want}")
            m.count("damped_runs")
    else:
        # a frame held by a hard fixed contact does not move while the posture changes
        f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        T0 = np.array(r.get_T_world_frame(f))
        ft = s.add_frame_task(f, T0)
        ft.configure("hold", "hard")
        c = s.add_fixed_contact(ft)
        c.weight_forces = c.weight_moments = 1e-3
        t = s.add_joints_task()
        goal = {n: float(np.clip(q[rb.qidx[n]] + rng.normal() * 0.3, lo[rb.qidx[n]], up[rb.qidx[n]])) for n in rb.joints}
        t.set_joints(goal)
        t.kp = 40.0
        for k in range(int(0.4 / dt)):
            res = s.solve(True)
            if not m.ok(res.success, "loop-fails", f"step {k}"):
                return
            m.close(np.array(res.tau)[:6], np.zeros(6), 1e-4 * (1 + np.abs(res.tau).max()), "base-torque")
            r.update_kinematics()
            T1 = np.array(r.get_T_world_frame(f))
            e = np.linalg.norm(T1[:3, 3] - T0[:3, 3]) + np.linalg.norm(log3(T0[:3, :3].T @ T1[:3, :3]))
            m.ok(e < 5e-3, "held-frame-moves", lambda: f"step {k}: {e}")
        m.count("held_frames")
    m.count("loop_steps", k + 1)
    m.sig(q, mode)
    m.sample(f"mode {mode}, {k + 1} steps of {dt}")


def histories(m, rng, i):
    """A dynamics solver with any past behaves like a fresh one."""
    S = random_id(m, rng, limits=True, hard=False, real=0.15)
    if S is None:
        m.skip()
    rb = S["rb"]
    r = rb.robot
    push_limits(S)
    try:
        tw = S["tw"]
        s = placo.DynamicsSolver(r)
        order, cs = apply_id(S, s)
        log = []
        protected = {id(t) for c in S["contacts"] for t in c.tasks}
        H = {id(t): h for t, h in order}
        for step in range(int(rng.integers(6, 18))):
            op = str(rng.choice(["add", "remove", "contact", "uncontact", "active", "option", "limits", "configure", "fail", "clear",
                                 "solve", "solve", "solve"]))
            if op == "clear" and rng.random() < 0.6:
                op = "solve"
            log.append(op)
            if op == "add":
                t = make(ALL[int(rng.integers(0, len(ALL)))], rb, rng, tw)
                if t is None:
                    continue
                w = float(10 ** rng.uniform(-2, 0))
                H[id(t)] = add_task(s, t, "soft", w)
                S["tasks"].append((t, "soft", w))
            elif op == "remove":
                c = [x for x in S["tasks"][1:] if id(x[0]) not in protected and not (isinstance(x[0], Joints) and len(x[0].names) == len(rb.joints))]
                if c:
                    x = c[int(rng.integers(0, len(c)))]
                    S["tasks"].remove(x)
                    s.remove_task(H.pop(id(x[0])))
            elif op == "configure":
                k = int(rng.integers(0, len(S["tasks"])))
                t, pr, w = S["tasks"][k]
                w = float(10 ** rng.uniform(-2, 0))
                H[id(t)].configure("again", "soft", w)
                S["tasks"][k] = (t, pr, w)
            elif op == "contact":
                c = [External, Puppet, Point][int(rng.integers(0, 3))](rb, rng, tw)
                for t in c.tasks:
                    w = float(10 ** rng.uniform(-2, 0))
                    H[id(t)] = add_task(s, t, "soft", w)
                    S["tasks"].append((t, "soft", w))
                    protected.add(id(t))
                cs.append(c.add(s, H))
                S["contacts"].append(c)
            elif op == "uncontact" and cs:
                k = int(rng.integers(0, len(cs)))
                s.remove_contact(cs.pop(k))
                S["contacts"].pop(k)
            elif op == "active" and cs:
                k = int(rng.integers(0, len(cs)))
                S["contacts"][k].active = not S["contacts"][k].active
                cs[k].active = S["contacts"][k].active
            elif op == "option":
                S["damping"] = float(rng.choice([0, 0.5]))
                S["gravity_only"] = bool(rng.random() < 0.5)
                S["fbase"] = bool(rng.random() < 0.5)
                S["extra"] = rng.normal(size=rb.nv) if rng.random() < 0.3 else None
                apply_options(S, s)
            elif op == "limits":
                for k in ("vlim_on", "jlim_on", "tlim_on", "vt_on"):
                    S[k] = False
                apply_options(S, s)
            elif op == "clear":
                s.clear()
                m.ok(s.count_contacts() == 0, "clear-leaves-contacts")
                S["tasks"] = [x for x in S["tasks"] if id(x[0]) not in protected]
                S["contacts"], cs, protected = [], [], set()
                H = {}
                for t, pr, w in S["tasks"]:
                    H[id(t)] = add_task(s, t, pr, w)
            elif op == "fail":
                ts = []
                for x in (1.0, -1.0):
                    t = s.add_joints_task()
                    t.set_joint(rb.joints[0], x)
                    t.configure("x", "hard")
                    ts.append(t)
                m.ok(not s.solve().success, "contradiction-accepted")
                for t in ts:
                    s.remove_task(t)
                m.count("failed_solves")
            elif op == "solve":
                m.desc = " ".join(log) + " | " + describe(S)
                m.ok(s.count_contacts() == len(cs), "contact-count")
                rb.set(S["q"], S["v"])
                if not oracle(S)[0].conditioned():
                    m.count("ill_conditioned")
                    continue
                fs = placo.DynamicsSolver(r)
                _, fcs = apply_id(S, fs)
                a, b = s.solve(), fs.solve()
                if not m.ok(a.success == b.success, "history-outcome"):
                    continue
                m.count("history_solves")
                if a.success:
                    m.close(a.qdd, b.qdd, 1e-5 * (1 + np.abs(np.array(b.qdd)).max()), "history-qdd")
                    m.close(a.tau, b.tau, 1e-5 * (1 + np.abs(np.array(b.tau)).max()), "history-tau")
                    judge(m, S, tw, a, cs)
        m.sig(S["q"], len(log))
        m.sample(" ".join(log))
    finally:
        pop_limits(S)


FAMILIES = {
    "id_task_rows": (task_rows, 800, 6000),
    "id_solve": (solve, 1500, 10000),
    "id_infeasible": (infeasible, 500, 3000),
    "id_misuse": (misuse, 60, 300),
    "id_avoid": (avoid, 400, 4000),
    "id_loop": (closed_loop, 60, 600),
    "id_histories": (histories, 400, 3000),
}
