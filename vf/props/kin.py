"""Inverse kinematics: task definitions, one-step optimality, limits, geometric constraints, convergence, histories."""
import numpy as np
import pinocchio as pin
import placo
from vf.util import rand_rot, rand_T, exp3, log3, inv, tf, skew, M2, convex_polygon, poly_margin
from vf import robots
from vf.oracle import QP

LWA = pin.ReferenceFrame.LOCAL_WORLD_ALIGNED


class Twin:
    """Quantities of the pinocchio twin at one configuration."""

    def __init__(self, rb, q):
        self.rb, self.q = rb, q
        self.model, self.data = rb.model, rb.model.createData()
        pin.computeJointJacobians(self.model, self.data, q)
        pin.updateFramePlacements(self.model, self.data)

    def T(self, f):
        return np.array(self.data.oMf[self.model.getFrameId(f)].homogeneous)

    def J(self, f):
        return np.array(pin.getFrameJacobian(self.model, self.data, self.model.getFrameId(f), LWA))

    def com(self):
        J = np.array(pin.jacobianCenterOfMass(self.model, self.model.createData(), self.q))
        return np.array(pin.centerOfMass(self.model, self.model.createData(), self.q)), J


def mask_rows(mask, A, b, R_local):
    """mask = (axes, frame, R_custom)"""
    if mask is None:
        return A, b
    axes, frame, Rc = mask
    R = {"task": np.eye(3), "local": R_local, "custom": Rc}[frame]
    idx = ["xyz".index(c) for c in axes.lower()]
    return (R @ A)[idx], (R @ b)[idx]


def rand_mask(rng, local=True):
    if rng.random() < 0.5:
        return None
    axes = "".join(rng.permutation(list("xyz"))[:int(rng.integers(1, 4))])
    if rng.random() < 0.2:
        axes = axes.upper()
    frame = str(rng.choice(["task", "local", "custom"] if local else ["task", "custom"]))
    return axes, frame, rand_rot(rng)


def set_mask(task, mask):
    if mask is not None:
        m = task.mask
        m.set_axises(mask[0], mask[1])
        if mask[1] == "custom":
            m.R_custom_world = mask[2]
        task.mask = m


class T:
    """One task: how to add it to a solver, and its documented linearized equation A dq = b at a configuration."""
    quadratic_only = False  # rows only defined up to the quadratic form they define

    def err(self, tw):
        return self.rows(tw)[1]


class Position(T):
    def __init__(self, rb, rng, q):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.target = rng.uniform(-1, 1, 3)
        self.mask = rand_mask(rng)

    def add(self, s):
        t = s.add_position_task(self.f, self.target)
        set_mask(t, self.mask)
        return t

    def rows(self, tw):
        Tf = tw.T(self.f)
        return mask_rows(self.mask, tw.J(self.f)[:3], self.target - Tf[:3, 3], Tf[:3, :3].T)

    def aim(self, tw, dq):
        self.target = tw.T(self.f)[:3, 3] + tw.J(self.f)[:3] @ dq

    def retarget(self, t, rng):
        self.target = rng.uniform(-1, 1, 3)
        t.target_world = self.target

    def reach(self, tw):
        self.target = tw.T(self.f)[:3, 3]


class RelPosition(T):
    def __init__(self, rb, rng, q):
        self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
        self.target = rng.uniform(-1, 1, 3)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        t = s.add_relative_position_task(self.a, self.b, self.target)
        set_mask(t, self.mask)
        return t

    def raw(self, tw):
        Ta, Tb, Ja, Jb = tw.T(self.a), tw.T(self.b), tw.J(self.a), tw.J(self.b)
        d = Tb[:3, 3] - Ta[:3, 3]
        return Ta[:3, :3].T @ (Jb[:3] - Ja[:3] + skew(d) @ Ja[3:]), Ta[:3, :3].T @ d

    def rows(self, tw):
        A, t = self.raw(tw)
        return mask_rows(self.mask, A, self.target - t, np.eye(3))

    def aim(self, tw, dq):
        A, t = self.raw(tw)
        self.target = t + A @ dq

    def retarget(self, t, rng):
        self.target = rng.uniform(-1, 1, 3)
        t.target = self.target

    def reach(self, tw):
        self.target = self.raw(tw)[1]


class CoM(T):
    def __init__(self, rb, rng, q):
        self.target = rng.uniform(-1, 1, 3)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        t = s.add_com_task(self.target)
        set_mask(t, self.mask)
        return t

    def rows(self, tw):
        c, J = tw.com()
        return mask_rows(self.mask, J, self.target - c, np.eye(3))

    def aim(self, tw, dq):
        c, J = tw.com()
        self.target = c + J @ dq

    def retarget(self, t, rng):
        self.target = rng.uniform(-1, 1, 3)
        t.target_world = self.target

    def reach(self, tw):
        self.target = tw.com()[0]


class Orientation(T):
    def __init__(self, rb, rng, q):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.R = rand_rot(rng)
        self.mask = rand_mask(rng)

    def add(self, s):
        t = s.add_orientation_task(self.f, self.R)
        set_mask(t, self.mask)
        return t

    def rows(self, tw):
        R = tw.T(self.f)[:3, :3]
        return mask_rows(self.mask, tw.J(self.f)[3:], log3(self.R @ R.T), self.R.T)

    def aim(self, tw, dq):
        self.R = exp3(tw.J(self.f)[3:] @ dq) @ tw.T(self.f)[:3, :3]

    def retarget(self, t, rng):
        self.R = rand_rot(rng)
        t.R_world_frame = self.R

    def reach(self, tw):
        self.R = tw.T(self.f)[:3, :3]


class RelOrientation(T):
    def __init__(self, rb, rng, q):
        self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
        self.R = rand_rot(rng)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        t = s.add_relative_orientation_task(self.a, self.b, self.R)
        set_mask(t, self.mask)
        return t

    def raw(self, tw):
        Ra, Rb = tw.T(self.a)[:3, :3], tw.T(self.b)[:3, :3]
        return Ra.T @ (tw.J(self.b)[3:] - tw.J(self.a)[3:]), Ra.T @ Rb

    def rows(self, tw):
        A, Rab = self.raw(tw)
        return mask_rows(self.mask, A, log3(self.R @ Rab.T), np.eye(3))

    def aim(self, tw, dq):
        A, Rab = self.raw(tw)
        self.R = exp3(A @ dq) @ Rab

    def retarget(self, t, rng):
        self.R = rand_rot(rng)
        t.R_a_b = self.R

    def reach(self, tw):
        self.R = self.raw(tw)[1]


class AxisAlign(T):
    quadratic_only = True

    def __init__(self, rb, rng, q):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.axis = rng.normal(size=3)
        if rng.random() < 0.5:
            self.axis = np.eye(3)[int(rng.integers(0, 3))]
        self.target = rng.normal(size=3)

    def add(self, s):
        return s.add_axisalign_task(self.f, self.axis, self.target)

    def rows(self, tw):
        a = tw.T(self.f)[:3, :3] @ self.axis
        a = a / np.linalg.norm(a)
        n = self.target / np.linalg.norm(self.target)
        c = np.cross(a, n)
        s = np.linalg.norm(c)
        th = np.arctan2(s, a @ n)
        P = np.eye(3) - np.outer(a, a)
        return P @ tw.J(self.f)[3:], th * c / s if s > 1e-9 else np.zeros(3)

    def aim(self, tw, dq):
        # the motion must not rotate in the plane in a way the target cannot express: take it as is
        a = tw.T(self.f)[:3, :3] @ self.axis
        a = a / np.linalg.norm(a)
        w = (np.eye(3) - np.outer(a, a)) @ tw.J(self.f)[3:] @ dq
        self.target = exp3(w) @ a

    def retarget(self, t, rng):
        self.target = rng.normal(size=3)
        t.targetAxis_world = self.target

    def reach(self, tw):
        self.target = tw.T(self.f)[:3, :3] @ self.axis


class Joints(T):
    def __init__(self, rb, rng, q):
        self.rb = rb
        k = int(rng.integers(1, len(rb.joints) + 1))
        self.names = [rb.joints[int(j)] for j in rng.permutation(len(rb.joints))[:k]]
        self.targets = {n: float(rng.uniform(-1, 1)) for n in self.names}

    def add(self, s):
        t = s.add_joints_task()
        t.set_joints(self.targets)
        return t

    def rows(self, tw):
        names = sorted(self.names)
        A = np.zeros((len(names), self.rb.nv))
        b = np.zeros(len(names))
        for k, n in enumerate(names):
            A[k, self.rb.vidx[n]] = 1
            b[k] = self.targets[n] - tw.q[self.rb.qidx[n]]
        return A, b

    def aim(self, tw, dq):
        self.targets = {n: float(tw.q[self.rb.qidx[n]] + dq[self.rb.vidx[n]]) for n in self.names}

    def retarget(self, t, rng):
        for n in self.names:
            self.targets[n] = float(rng.uniform(-1, 1))
            t.set_joint(n, self.targets[n])

    def reach(self, tw):
        self.aim(tw, np.zeros(self.rb.nv))


class Gear(T):
    def __init__(self, rb, rng, q):
        self.rb = rb
        self.g = {}
        self.ops = []
        js = list(rng.permutation(rb.joints))
        for _ in range(int(rng.integers(1, 4))):
            if len(js) < 2:
                break
            t = str(js.pop())
            if rng.random() < 0.3:  # a gear that is replaced afterwards
                self.ops.append(("set", t, str(js[0]), float(rng.uniform(-2, 2))))
            s = str(js[int(rng.integers(0, len(js)))])
            r = float(rng.uniform(-2, 2))
            self.ops.append(("set", t, s, r))
            self.g[t] = {s: r}
            if len(js) > 1 and rng.random() < 0.5:
                s2 = str(js[int(rng.integers(0, len(js)))])
                r2 = float(rng.uniform(-2, 2))
                self.ops.append(("add", t, s2, r2))
                self.g[t][s2] = r2
        if rng.random() < 0.3:
            self.ops = [("add", t, s, r) for t in self.g for s, r in self.g[t].items()]

    def add(self, s):
        t = s.add_gear_task()
        for op, a, b, r in self.ops:
            (t.set_gear if op == "set" else t.add_gear)(a, b, r)
        return t

    def rows(self, tw):
        ts = sorted(self.g, key=lambda n: self.rb.vidx[n])
        A = np.zeros((len(ts), self.rb.nv))
        b = np.zeros(len(ts))
        for k, t in enumerate(ts):
            A[k, self.rb.vidx[t]] = -1
            b[k] = tw.q[self.rb.qidx[t]]
            for s, r in self.g[t].items():
                A[k, self.rb.vidx[s]] = r
                b[k] -= r * tw.q[self.rb.qidx[s]]
        return A, b

    aim = None
    retarget = None


class Distance(T):
    def __init__(self, rb, rng, q):
        self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
        self.d = float(rng.uniform(0.05, 1))

    def add(self, s):
        return s.add_distance_task(self.a, self.b, self.d)

    def raw(self, tw):
        v = tw.T(self.b)[:3, 3] - tw.T(self.a)[:3, 3]
        n = np.linalg.norm(v)
        u = v / n if n > 1e-12 else np.zeros(3)
        return (u @ (tw.J(self.b) - tw.J(self.a))[:3])[None], n

    def rows(self, tw):
        A, n = self.raw(tw)
        return A, np.array([self.d - n])

    def aim(self, tw, dq):
        A, n = self.raw(tw)
        self.d = float(n + (A @ dq)[0])

    def retarget(self, t, rng):
        self.d = float(rng.uniform(0.05, 1))
        t.distance = self.d

    def reach(self, tw):
        self.d = float(self.raw(tw)[1])


class Momentum(T):
    needs_dt = True

    def __init__(self, rb, rng, q):
        self.L = rng.normal(size=3)
        self.mask = rand_mask(rng, False)

    def add(self, s):
        self.dt = s.dt
        t = s.add_centroidal_momentum_task(self.L)
        if self.mask is not None:
            t.mask.set_axises(self.mask[0], self.mask[1])
            if self.mask[1] == "custom":
                t.mask.R_custom_world = self.mask[2]
        return t

    def rows(self, tw):
        Ag = np.array(pin.computeCentroidalMap(tw.model, tw.model.createData(), tw.q))[3:]
        return mask_rows(self.mask, Ag / self.dt, self.L, np.eye(3))

    def aim(self, tw, dq):
        Ag = np.array(pin.computeCentroidalMap(tw.model, tw.model.createData(), tw.q))[3:]
        self.L = Ag @ dq / self.dt

    def retarget(self, t, rng):
        self.L = rng.normal(size=3)
        t.L_world = self.L


class Wheel(T):
    def __init__(self, rb, rng, q):
        js = [n for n in rb.joints]
        self.j = js[int(rng.integers(0, len(js)))]
        self.r = float(rng.uniform(0.02, 0.3))
        self.omni = bool(rng.random() < 0.5)
        self.S = rand_T(rng, 0.3, 0.5) if rng.random() < 0.5 else np.eye(4)

    def add(self, s):
        t = s.add_wheel_task(self.j, self.r, self.omni)
        t.T_world_surface = self.S
        return t

    def rows(self, tw):
        Tw = tw.T(self.j)
        nz = self.S[:3, 2]
        ax = Tw[:3, 2]
        down = -(nz - (nz @ ax) * ax)
        down = down / np.linalg.norm(down)
        c = Tw[:3, 3] + self.r * down
        x = np.cross(ax, nz)
        x = x / np.linalg.norm(x)
        y = np.cross(nz, x)
        J = tw.J(self.j)
        Jc = J[:3] - skew(c - Tw[:3, 3]) @ J[3:]
        h = nz @ (c - self.S[:3, 3])
        A = np.stack([x @ Jc, y @ Jc, nz @ Jc])
        b = np.array([0, 0, -h])
        return (A[[0, 2]], b[[0, 2]]) if self.omni else (A, b)

    aim = None
    retarget = None


class Manip(T):
    def __init__(self, rb, rng, q):
        self.f = rb.frames[int(rng.integers(0, len(rb.frames)))]
        self.type = str(rng.choice(["position", "orientation", "both"]))
        self.lam = float(rng.uniform(0.3, 2))
        self.minimize = bool(rng.random() < 0.3)

    def add(self, s):
        t = s.add_manipulability_task(self.f, self.type, self.lam)
        t.minimize = self.minimize
        return t

    def value(self, rb, q):
        J = Twin(rb, q).J(self.f)
        J = {"position": J[:3], "orientation": J[3:], "both": J}[self.type][:, 6:]
        return np.sqrt(max(0, np.linalg.det(J @ J.T))), J

    def ok(self, rb, q):
        m_, J = self.value(rb, q)
        s = np.linalg.svd(J, compute_uv=False) if min(J.shape) else [0]
        return J.shape[0] <= J.shape[1] and s[-1] > 0.02

    def rows(self, tw):
        rb = tw.rb
        g = np.zeros(rb.nv - 6)
        h = 1e-5
        for k in range(rb.nv - 6):
            d = np.zeros(rb.nv)
            d[6 + k] = h
            g[k] = (self.value(rb, rb.step(tw.q, d))[0] - self.value(rb, rb.step(tw.q, -d))[0]) / (2 * h)
        A = np.hstack([np.zeros((rb.nv - 6, 6)), np.eye(rb.nv - 6)]) * self.lam
        return A, (-1 if self.minimize else 1) * g / (2 * self.lam)

    aim = None
    retarget = None


class Kinetic(T):
    quadratic_only = True
    needs_dt = True

    def __init__(self, rb, rng, q):
        self.mag = float(10 ** rng.uniform(-2, 1))

    def add(self, s):
        self.dt = s.dt
        return s.add_kinetic_energy_regularization_task(self.mag)

    def rows(self, tw):
        M = np.array(pin.crba(tw.model, tw.model.createData(), tw.q))
        M = np.triu(M) + np.triu(M, 1).T
        return np.linalg.cholesky(M).T / (np.sqrt(2) * self.dt), np.zeros(tw.rb.nv)

    aim = None
    retarget = None


class Reg(T):
    def __init__(self, rb, rng, q, mag=None):
        self.rb = rb
        self.mag = mag or float(10 ** rng.uniform(-3, 0))
        self.jw = {}
        if rng.random() < 0.4:
            self.jw = {n: float(10 ** rng.uniform(-3, 1)) for n in rb.joints if rng.random() < 0.4}

    def add(self, s):
        t = s.add_regularization_task(self.mag)
        for n, w in self.jw.items():
            t.set_joint_weight(n, w)
        return t

    def rows(self, tw):
        w = np.full(self.rb.nv, self.mag)
        for n, v in self.jw.items():
            w[self.rb.vidx[n]] = v
        return np.diag(np.sqrt(w))[6:], np.zeros(self.rb.nv - 6)

    aim = None
    retarget = None


GOAL = [Position, RelPosition, CoM, Orientation, RelOrientation, AxisAlign, Joints, Distance, Momentum]
ALL = GOAL + [Gear, Wheel, Manip, Kinetic, Reg]


def make(cls, rb, rng, q):
    for _ in range(20):
        t = cls(rb, rng, q)
        if hasattr(t, "ok") and not t.ok(rb, q):
            continue
        if isinstance(t, Gear) and not t.g:
            return None
        if isinstance(t, Wheel):
            Tw = Twin(rb, q).T(t.j)
            if abs(Tw[:3, 2] @ t.S[:3, 2]) > 0.99:
                continue
        if isinstance(t, Distance) and Twin(rb, q) and t.raw(Twin(rb, q))[1] < 1e-2:
            continue
        if isinstance(t, (Orientation, RelOrientation)):
            e = t.rows(Twin(rb, q))[1]
            t_ = t.mask
            t.mask = None
            big = np.linalg.norm(t.rows(Twin(rb, q))[1]) > 3.0
            t.mask = t_
            if big:
                continue
        if isinstance(t, AxisAlign):
            a = Twin(rb, q).T(t.f)[:3, :3] @ t.axis
            c = a @ t.target / np.linalg.norm(a) / np.linalg.norm(t.target)
            if c < -0.999:
                continue
        return t
    return None


def new_robot(m, rng, real=0.25):
    return robots.any_robot(m, rng, real=real)


def cmp_rows(m, key, A, b, wA, wb, quad, tol=1e-6):
    A = M2(A, np.size(b), wA.shape[1])
    b = np.asarray(b).ravel()
    if quad:
        s = 1 + np.abs(wA.T @ wA).max()
        m.close(A.T @ A, wA.T @ wA, tol * s, key + ":A")
        m.close(A.T @ b, wA.T @ wb, tol * s * (1 + np.abs(wb).max()), key + ":b")
        m.close(b @ b, wb @ wb, tol * (1 + wb @ wb), key + ":error")
    else:
        m.close(A, wA, tol * (1 + np.abs(wA).max()), key + ":A")
        m.close(b, wb, tol * (1 + np.abs(wb).max()), key + ":b")


def task_rows(m, rng, i):
    """Each task states its documented error and the Jacobian of the controlled quantity, whatever the mask and target."""
    rb = new_robot(m, rng)
    q = rb.rand_q(rng)
    s = placo.KinematicsSolver(rb.robot)
    s.dt = float(10 ** rng.uniform(-3, -1))
    cls = ALL[i % len(ALL)]
    rb.set(q)
    t = make(cls, rb, rng, q)
    if t is None:
        m.skip()
    h = t.add(s)
    h.update()
    tol = 2e-4 if isinstance(t, Manip) else 1e-6
    tw = Twin(rb, q)
    wA, wb = t.rows(tw)
    cmp_rows(m, "task-" + cls.__name__, h.A, h.b, wA, wb, t.quadratic_only, tol)
    m.close(h.error_norm(), np.linalg.norm(wb), tol * (1 + np.linalg.norm(wb)), "error-norm")
    m.close(np.ravel(h.error()), np.ravel(h.b), 0, "error")
    m.count("task_" + cls.__name__)
    if isinstance(t, Manip):
        m.close(h.manipulability, t.value(rb, q)[0], 1e-6, "manipulability")
    # new state, new target: the task follows
    q2 = rb.rand_q(rng)
    rb.set(q2)
    if t.retarget is not None:
        t.retarget(h, rng)
    if (hasattr(t, "ok") and not t.ok(rb, q2)) or isinstance(t, (Wheel, Orientation, RelOrientation, AxisAlign, Distance)):
        pass
    else:
        h.update()
        wA, wb = t.rows(Twin(rb, q2))
        cmp_rows(m, "task-again-" + cls.__name__, h.A, h.b, wA, wb, t.quadratic_only, tol)
    m.sig(q, cls.__name__)
    m.sample(f"{cls.__name__} on {len(rb.joints)} joints, error {np.linalg.norm(wb):.3g}")


# ---------------------------------------------------------------------------------------------- one step
class Cons:
    pass


class ComPolygon(Cons):
    def __init__(self, rb, rng, tw, dq, soft, dt):
        c, J = tw.com()
        self.dcm = dt > 0 and rng.random() < 0.4
        self.omega = float(rng.uniform(1, 8))
        self.k = 1 + 1 / (dt * self.omega) if self.dcm else 1.0
        at = (c + self.k * J @ dq)[:2]
        self.margin = float(rng.uniform(0, 0.05)) if rng.random() < 0.5 else 0.0
        for _ in range(50):
            self.P = convex_polygon(rng, center=at + rng.normal(size=2) * (0.5 if soft else 0.05), radius=float(rng.uniform(0.1, 0.4)))
            if soft or poly_margin(self.P, at) > self.margin + 1e-3:
                return
        self.P = None

    def add(self, s):
        c = s.add_com_polygon_constraint(list(self.P), self.margin)
        c.dcm, c.omega = self.dcm, self.omega
        return c

    def rows(self, tw):
        c, J = tw.com()
        G, h = [], []
        for i in range(len(self.P)):
            A, B = self.P[i], self.P[(i + 1) % len(self.P)]
            e = B - A
            n = np.array([e[1], -e[0]]) / np.linalg.norm(e)
            G.append(self.k * n @ J[:2])
            h.append(n @ (c[:2] - A) - self.margin)
        return np.array(G), np.array(h)


class DistanceMax(Cons):
    def __init__(self, rb, rng, tw, dq, soft, dt):
        self.t = make(Distance, rb, rng, tw.q)
        self.P = self.t
        if self.t is None:
            return
        A, n = self.t.raw(tw)
        self.max = float(n + (A @ dq)[0] + (rng.normal() * 0.1 if soft else rng.uniform(0.001, 0.1)))

    def add(self, s):
        return s.add_distance_constraint(self.t.a, self.t.b, self.max)

    def rows(self, tw):
        A, n = self.t.raw(tw)
        return -A, np.array([self.max - n])


class HalfSpaces(Cons):
    P = True

    def __init__(self, rb, rng, tw, dq, soft, dt):
        k = int(rng.integers(1, 5))
        self.A = rng.normal(size=(k, rb.nq))
        if rng.random() < 0.5:
            self.A[:, :7] = 0
        self.rb = rb
        self.b = self.A[:, 7:] @ (tw.q[7:] + dq[6:]) + (rng.normal(size=k) * 0.3 if soft else rng.uniform(0.01, 0.3, k))

    def add(self, s):
        return s.add_joint_space_half_spaces_constraint(self.A, self.b)

    def rows(self, tw):
        G = np.hstack([np.zeros((len(self.A), 6)), -self.A[:, 7:]])
        return G, self.b - self.A[:, 7:] @ tw.q[7:]


def yaw_of(tw, a, b):
    x = (tw.T(a)[:3, :3].T @ tw.T(b)[:3, :3])[:, 0]
    return np.arctan2(x[1], x[0]), x


class Yaw(Cons):
    def __init__(self, rb, rng, tw, dq, soft, dt):
        self.P = None
        for _ in range(20):
            self.a, self.b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
            al, x = yaw_of(tw, self.a, self.b)
            if np.linalg.norm(x[:2]) > 0.2:
                self.P = True
                break
        if self.P:
            new = al + (self.jac(tw) @ dq)
            self.max = float(abs(new) + (rng.normal() * 0.3 if soft else rng.uniform(0.001, 0.3)))

    def jac(self, tw):
        # rate of the angle between the x axis of a and the projection of the x axis of b on the plane (x, y) of a
        al, x = yaw_of(tw, self.a, self.b)
        W = tw.T(self.a)[:3, :3].T @ (tw.J(self.b)[3:] - tw.J(self.a)[3:])
        dx = -skew(x) @ W
        return (x[0] * dx[1] - x[1] * dx[0]) / (x[0] ** 2 + x[1] ** 2)

    def add(self, s):
        return s.add_yaw_constraint(self.a, self.b, self.max)

    def rows(self, tw):
        al, _ = yaw_of(tw, self.a, self.b)
        J = self.jac(tw)
        return np.stack([-J, J]), np.array([self.max - al, self.max + al])


def random_ik(m, rng, hard=True, real=0.2):
    """A random IK step with a known feasible displacement dq*. Returns None when it cannot be built well conditioned."""
    rb = new_robot(m, rng, real)
    r = rb.robot
    S = dict(rb=rb)
    q = rb.rand_q(rng, margin=0.15)
    lo, up = rb.lo_up()
    S["limits"] = bool(rng.random() < 0.7)
    S["vlimits"] = bool(rng.random() < 0.3)
    S["dt"] = float(10 ** rng.uniform(-3, -1)) if (S["vlimits"] or rng.random() < 0.5) else 0.0
    dq = rng.normal(size=rb.nv) * float(rng.choice([0.01, 0.05, 0.2]))
    S["fbase"] = bool(rng.random() < 0.5)
    S["dofs"] = [n for n in rb.joints if rng.random() < (0.2 if rng.random() < 0.5 else 0)]
    if S["fbase"]:
        dq[:6] = 0
    for n in S["dofs"]:
        dq[rb.vidx[n]] = 0
    if S["limits"]:
        tgt = np.clip(q[7:] + dq[6:], lo[7:] + 1e-6, up[7:] - 1e-6)
        dq[6:] = tgt - q[7:]
    S["vlim"] = {}
    if S["vlimits"]:
        for n in rb.joints:
            S["vlim"][n] = float(abs(dq[rb.vidx[n]]) / S["dt"] * rng.uniform(1.01, 2) + 0.01)
    S["q"], S["dq"] = q, dq
    rb.set(q)
    tw = Twin(rb, q)
    T_ = S["tasks"] = []  # (spec, priority, weight)
    T_.append((Reg(rb, rng, q, float(10 ** rng.uniform(-3, 0))), "soft", 1.0))
    if not S["fbase"]:
        t = Position(rb, rng, q)
        t.f, t.mask = "root_joint", None
        T_.append((t, "soft", float(10 ** rng.uniform(-1, 1))))
        o = Orientation(rb, rng, q)
        o.f, o.mask = "root_joint", None
        o.R = exp3(rng.normal(size=3) * 0.5) @ tw.T("root_joint")[:3, :3]
        T_.append((o, "soft", float(10 ** rng.uniform(-1, 1))))
    stack = [np.eye(rb.nv)[:6]] if S["fbase"] else []
    stack += [np.eye(rb.nv)[[rb.vidx[n]]] for n in S["dofs"]]
    S["s"] = float(rng.uniform(0.2, 1))
    for _ in range(int(rng.integers(0, 5))):
        cls = ALL[int(rng.integers(0, len(ALL)))]
        if getattr(cls, "needs_dt", False) and S["dt"] == 0:
            continue
        t = make(cls, rb, rng, q)
        if t is None:
            continue
        t.dt = S["dt"]
        pr = str(rng.choice(["soft", "hard", "scaled"])) if hard else "soft"
        if pr != "soft":
            if t.aim is None:
                pr = "soft"
            else:
                t.aim(tw, dq if pr == "hard" else dq / S["s"])
                A = t.rows(tw)[0]
                sv = np.linalg.svd(np.vstack(stack + [A]), compute_uv=False)
                rk = np.vstack(stack + [A]).shape[0]
                if isinstance(t, AxisAlign):  # 3 rows of rank 2
                    sv = sv[:-1]
                    rk -= 1
                if rk > rb.nv - 2 or sv[-1] <= max(0.05 * sv[0], 1e-3):
                    pr = "soft"
                else:
                    stack.append(A)
        w = float(10 ** rng.uniform(-1.5, 1.5))
        T_.append((t, pr, t.mag if isinstance(t, Kinetic) else 1.0 if isinstance(t, Reg) else w))
    C_ = S["cons"] = []
    for _ in range(int(rng.integers(0, 3))):
        soft = bool(rng.random() < 0.5)
        c = [ComPolygon, DistanceMax, HalfSpaces, Yaw][int(rng.integers(0, 4))](rb, rng, tw, dq, soft, S["dt"])
        if c.P is not None:
            C_.append((c, "soft" if soft else "hard", float(10 ** rng.uniform(-1, 1))))
    return S


def apply_ik(S, s, handles=None):
    """Configures solver s as described by S (in order)."""
    rb = S["rb"]
    s.dt = S["dt"]
    s.enable_joint_limits(S["limits"])
    s.enable_velocity_limits(S["vlimits"])
    s.mask_fbase(S["fbase"])
    for n in S["dofs"]:
        s.mask_dof(n)
    out = []
    for t, pr, w in S["tasks"]:
        h = t.add(s)
        if not isinstance(t, (Reg, Kinetic)):
            h.configure(type(t).__name__, pr, w)
        out.append(h)
    for c, pr, w in S["cons"]:
        h = c.add(s)
        h.configure(type(c).__name__, pr, w)
        out.append(h)
    return out


def vlim_push(S):
    rb = S["rb"]
    old = np.array(rb.robot.model.velocityLimit)
    for n, v in S["vlim"].items():
        rb.robot.set_velocity_limit(n, v)
    return old


def vlim_pop(S, old):
    for n in S["rb"].joints:
        S["rb"].robot.set_velocity_limit(n, float(old[S["rb"].vidx[n]]))


def oracle(S, q=None):
    rb = S["rb"]
    q = S["q"] if q is None else q
    tw = Twin(rb, q)
    scaled = any(pr == "scaled" for _, pr, _ in S["tasks"])
    nv = rb.nv
    Q = QP(nv + (1 if scaled else 0))
    for t, pr, w in S["tasks"]:
        A, b = t.rows(tw)
        name = type(t).__name__
        if pr == "soft":
            Q.eq(A, b, w, name)
        elif pr == "hard":
            Q.eq(A, b, None, name)
        else:
            Q.eq(np.hstack([A, -b[:, None]]), np.zeros(len(b)), None, "scaled-" + name)
    if scaled:
        e = np.zeros((1, nv + 1))
        e[0, nv] = 1
        Q.eq(e, [1.0], 1.0, "scale")
        Q.ge(e, [0.0], None, "scale>=0")
        Q.ge(-e, [1.0], None, "scale<=1")
    I = np.eye(nv)
    if S["fbase"]:
        Q.eq(I[:6], np.zeros(6), None, "masked-fbase")
    for n in S["dofs"]:
        Q.eq(I[[rb.vidx[n]]], [0.0], None, "masked-dof")
    if S["limits"]:
        lo, up = rb.lo_up()
        for n in rb.joints:
            k, kv = rb.qidx[n], rb.vidx[n]
            if up[k] < 1e10:
                Q.ge(-I[[kv]], [up[k] - q[k]], None, "upper-limit")
            if lo[k] > -1e10:
                Q.ge(I[[kv]], [q[k] - lo[k]], None, "lower-limit")
    if S["vlimits"]:
        for n in rb.joints:
            v = float(rb.robot.model.velocityLimit[rb.vidx[n]]) * S["dt"]
            Q.ge(-I[[rb.vidx[n]]], [v], None, "velocity-limit")
            Q.ge(I[[rb.vidx[n]]], [v], None, "velocity-limit")
    for c, pr, w in S["cons"]:
        G, h = c.rows(tw)
        Q.ge(G, h, None if pr == "hard" else w, type(c).__name__)
    return Q


def describe(S):
    return (f"{len(S['rb'].joints)} joints limits={S['limits']} vlim={S['vlimits']} fbase={S['fbase']} dofs={len(S['dofs'])} "
            + " ".join(f"{type(t).__name__}:{pr}:{w:.2g}" for t, pr, w in S["tasks"] + S["cons"]))


def solve_step(m, rng, i):
    S = random_ik(m, rng)
    rb = S["rb"]
    r = rb.robot
    m.desc = describe(S)
    old = vlim_push(S)
    try:
        Q = oracle(S)
        if not Q.conditioned():
            m.count("ill_conditioned")
            m.skip()
        s = placo.KinematicsSolver(r)
        hs = apply_ik(S, s)
        qd0, qdd0 = rb.rand_v(rng, 0.3), rb.rand_v(rng, 0.3)
        rb.set(S["q"], qd0, qdd0)
        F0 = {f: np.array(r.get_T_world_frame(f)) for f in rb.frames[:3]}
        dq = np.array(s.solve(False))
        m.ok(np.array_equal(r.state.q, S["q"]) and np.array_equal(r.state.qd, qd0) and np.array_equal(r.state.qdd, qdd0)
             and all(np.array_equal(r.get_T_world_frame(f), F0[f]) for f in F0), "solve-false-changes-robot")
        scaled = any(pr == "scaled" for _, pr, _ in S["tasks"])
        x = np.append(dq, s.scale) if scaled else dq
        if scaled:
            m.count("scaled_solves")
            m.count("scale_saturated" if s.scale > 1 - 1e-6 else "scale_reduced")
        if Q.feasible(m, x, tol=1e-6):
            Q.optimal(m, x, tol=1e-5)
        # applying
        dq2 = np.array(s.solve(True))
        m.close(dq2, dq, 1e-7 * (1 + np.abs(dq).max()), "solve-not-repeatable")
        q1 = rb.step(S["q"], dq2)
        m.close(r.state.q, q1, 1e-9, "apply")
        if S["dt"] > 0:
            v1 = np.array(pin.difference(rb.model, S["q"], q1)) / S["dt"]
            m.close(r.state.qd, v1, 1e-6 * (1 + np.abs(v1).max()), "apply-velocity")
            m.close(r.state.qdd, (v1 - qd0) / S["dt"], 1e-6 * (1 + np.abs(v1 - qd0).max() / S["dt"]), "apply-acceleration")
        else:
            m.ok(np.array_equal(r.state.qd, qd0), "apply-velocity-without-dt")
        for t, pr, w in S["tasks"]:
            m.count(f"{pr}_tasks")
        m.count("constraints_set", len(S["cons"]))
        m.sig(S["q"], dq)
        m.sample(describe(S) + f" -> |dq|={np.linalg.norm(dq):.3g}")
    finally:
        vlim_pop(S, old)


def set_dt(S, dt):
    S["dt"] = dt
    for t, _, _ in S["tasks"]:
        t.dt = dt
    for c, _, _ in S["cons"]:
        if isinstance(c, ComPolygon) and c.dcm:
            c.k = 1 + 1 / (dt * c.omega)


def infeasible(m, rng, i):
    """Contradictory hard requirements raise, and leave the robot untouched; the solver works again afterwards."""
    S = random_ik(m, rng, hard=False)
    rb = S["rb"]
    r = rb.robot
    S["cons"] = [c for c in S["cons"] if c[1] == "soft"]
    kind = int(rng.integers(0, 5))
    n = rb.joints[int(rng.integers(0, len(rb.joints)))]
    lo, up = r.get_joint_limits(n)
    gap = float(10 ** rng.uniform(-2, 0))
    old = vlim_push(S)
    try:
        if not oracle(S).conditioned():
            m.skip()
        s = placo.KinematicsSolver(r)
        q0 = S["q"].copy()
        if kind == 0:
            S["limits"] = True
            bad = up + gap if rng.random() < 0.5 else lo - gap
            if abs(bad) > 1e10:
                m.skip()
        elif kind == 1:
            S["dofs"] = list(set(S["dofs"] + [n]))
            bad = q0[rb.qidx[n]] + gap
        elif kind == 2:
            S["vlimits"], S["dt"] = True, 0.01
            set_dt(S, 0.01)
            bad = q0[rb.qidx[n]] + 0.01 * float(r.model.velocityLimit[rb.vidx[n]]) + gap
        elif kind == 3:
            bad = q0[rb.qidx[n]] + gap
        else:
            # already outside of the limits by more than the velocity limit allows to recover
            S["limits"], S["vlimits"], S["dt"] = True, True, 0.01
            set_dt(S, 0.01)
            if abs(up) > 1e10:
                m.skip()
            q0[rb.qidx[n]] = up + 0.01 * float(r.model.velocityLimit[rb.vidx[n]]) + gap
            bad = None
        apply_ik(S, s)
        if bad is not None:
            t = s.add_joints_task()
            t.set_joint(n, float(bad))
            t.configure("bad", "hard")
        if kind == 3:
            t2 = s.add_joints_task()
            t2.set_joint(n, float(q0[rb.qidx[n]] - gap))
            t2.configure("bad2", "hard")
        rb.set(q0)
        m.raises(lambda: s.solve(True), "infeasible-accepted", f"kind {kind} gap {gap}")
        m.ok(np.array_equal(r.state.q, q0), "failed-solve-moves-robot")
        m.count(f"infeasible_kind{kind}")
        if kind not in (4,):
            s.remove_task(t)
            if kind == 3:
                s.remove_task(t2)
            rb.set(S["q"])
            dq = np.array(s.solve(False))
            Q = oracle(S)
            if Q.conditioned() and Q.feasible(m, dq, tol=1e-6):
                Q.optimal(m, dq, tol=1e-5)
        m.sig(q0, kind)
        m.sample(f"kind {kind} gap {gap:.3g}")
    finally:
        vlim_pop(S, old)



# ---------------------------------------------------------------------------------------------- self collisions
def avoid(m, rng, i):
    """Bodies are spheres: the distance constraint is known in closed form, one solve must respect it and be optimal."""
    urdf, info = robots.rand_urdf(rng, n=int(rng.integers(3, 8)), shapes=("sphere",), rad=(0.02, 0.1))
    r = placo.RobotWrapper("", 0, urdf)
    rb = robots.RB(r, urdf=urdf, info=info)
    if not len(r.collision_model.collisionPairs):
        m.skip()
    q = rb.rand_q(rng, margin=0.1)
    rb.set(q)
    tw = Twin(rb, q)
    geo = [(g.name.rsplit("_", 1)[0]) for g in r.collision_model.geometryObjects]
    s = placo.KinematicsSolver(r)
    s.enable_joint_limits(False)
    S = dict(rb=rb, q=q, dt=0.0, limits=False, vlimits=False, fbase=bool(rng.random() < 0.5), dofs=[], cons=[])
    S["tasks"] = [(Reg(rb, rng, q, float(10 ** rng.uniform(-2, 0))), "soft", 1.0)]
    for cls, f in ((Position, "root_joint"), (Orientation, "root_joint")):
        t = cls(rb, rng, q)
        t.f, t.mask = f, None
        if cls is Orientation:
            t.R = exp3(rng.normal(size=3) * 0.5) @ tw.T(f)[:3, :3]
        S["tasks"].append((t, "soft", 1.0))
    t = Joints(rb, rng, q)
    S["tasks"].append((t, "soft", float(10 ** rng.uniform(-1, 1))))
    t = Position(rb, rng, q)
    S["tasks"].append((t, "soft", 1.0))

    class Avoid(Cons):
        pass

    G, d = [], []
    for p in r.collision_model.collisionPairs:
        c, J = [], []
        for g in (p.first, p.second):
            l = geo[g]
            T = tw.T(l)
            o = T[:3, :3] @ info["geoms"][l][2]
            Jl = tw.J(l)
            c.append(T[:3, 3] + o)
            J.append(Jl[:3] - skew(o) @ Jl[3:])
        n = c[1] - c[0]
        nn = np.linalg.norm(n)
        if nn < 0.02:
            m.skip()
        G.append(n / nn @ (J[1] - J[0]))
        d.append(nn - info["geoms"][geo[p.first]][1] - info["geoms"][geo[p.second]][1])
    G, d = np.array(G), np.array(d)
    if np.any(np.abs(d) < 1e-4):  # touching: the direction between the nearest points is numerically undefined
        m.skip()
    soft = bool(rng.random() < 0.4)
    dq = rng.normal(size=rb.nv) * 0.1
    if S["fbase"]:
        dq[:6] = 0
    reach_d = d + G @ dq
    margin = float(rng.uniform(-0.05, 0.1)) if soft else float(reach_d.min() - rng.uniform(0.001, 0.02))
    trig = float(margin + rng.uniform(0.0, 0.3))
    act = d < trig
    if np.any(np.abs(d - trig) < 1e-4):
        m.skip()
    con = Avoid()
    con.rows = lambda tw: (G[act], d[act] - margin)
    con.add = lambda s: None
    w = float(10 ** rng.uniform(-1, 2))
    if act.any():
        S["cons"].append((con, "soft" if soft else "hard", w))
    Q = oracle(S)
    if not Q.conditioned():
        m.count("ill_conditioned")
        m.skip()
    cons, S["cons"] = S["cons"], []
    apply_ik(S, s)
    S["cons"] = cons
    c = s.add_avoid_self_collisions_constraint()
    c.self_collisions_margin = margin
    c.self_collisions_trigger = trig
    c.configure("avoid", "soft" if soft else "hard", w)
    rb.set(q)
    x = np.array(s.solve(False))
    tol = 2e-4 if (d < 0).any() else 2e-5  # the geometry library works with a 1e-6 relative precision
    if soft or Q.feasible(m, x, tol=tol):
        Q.optimal(m, x, tol=tol * 20)
    m.count("avoid_pairs_constrained", int(act.sum()))
    m.count("avoid_pairs_far", int((~act).sum()))
    m.count("avoid_penetrating", int((d < 0).sum()))
    m.count("avoid_active_rows", int((G[act] @ x + d[act] - margin < 1e-5).sum()) if act.any() else 0)
    m.sig(q, margin)
    m.sample(f"{len(d)} pairs, {int(act.sum())} under the trigger, {'soft' if soft else 'hard'}, min {d.min():.3g}")


# ---------------------------------------------------------------------------------------------- closed loop
def constraint_value(kind, P, tw):
    """<= 0 when satisfied"""
    if kind == "com":
        return -(poly_margin(P["poly"], tw.com()[0][:2]) - P["margin"])
    if kind == "half":
        return float(np.max(P["A"][:, 7:] @ tw.q[7:] - P["b"]))
    Ta, Tb = tw.T(P["a"]), tw.T(P["b"])
    if kind == "cone":
        return float(np.arccos(np.clip(Ta[:3, 2] @ Tb[:3, 2], -1, 1))) - P["max"]
    if kind == "yaw":
        return abs(yaw_of(tw, P["a"], P["b"])[0]) - P["max"]
    if kind == "distance":
        return float(np.linalg.norm(Ta[:3, 3] - Tb[:3, 3])) - P["max"]
    raise ValueError(kind)


KINDS = ["com", "cone", "yaw", "distance", "half"]


def constraint_loop(m, rng, i):
    """A hard geometric constraint that holds at the start keeps holding (up to the linearization) along a trajectory that
    pushes against it; while it is not binding it changes nothing."""
    kind = KINDS[i % len(KINDS)]
    rb = new_robot(m, rng, 0.2)
    r = rb.robot
    q = rb.rand_q(rng, margin=0.2, spread=0.7)
    rb.set(q)
    tw = Twin(rb, q)
    P = {}
    if kind == "com":
        c = tw.com()[0][:2]
        P["margin"] = float(rng.uniform(0, 0.03))
        P["poly"] = convex_polygon(rng, center=c, radius=float(rng.uniform(0.08, 0.2)))
    elif kind == "half":
        k = int(rng.integers(1, 5))
        P["A"] = np.hstack([np.zeros((k, 7)), rng.normal(size=(k, rb.nq - 7))])
        P["b"] = P["A"] @ q + rng.uniform(0.01, 0.3, k)
    else:
        ok = False
        for _ in range(30):
            P["a"], P["b"] = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
            if kind == "distance":
                d = np.linalg.norm(tw.T(P["a"])[:3, 3] - tw.T(P["b"])[:3, 3])
                P["max"] = float(d + rng.uniform(0.005, 0.05))
                ok = d > 0.05
            elif kind == "yaw":
                al, x = yaw_of(tw, P["a"], P["b"])
                P["max"] = float(abs(al) + rng.uniform(0.01, 0.3))
                ok = np.linalg.norm(x[:2]) > 0.5 and P["max"] < 2.5
            else:
                an = float(np.arccos(np.clip(tw.T(P["a"])[:3, 2] @ tw.T(P["b"])[:3, 2], -1, 1)))
                P["max"] = float(an + rng.uniform(0.01, 0.3))
                ok = an < 1.8 and P["max"] > 0.15
            if ok:
                break
        if not ok:
            m.skip()
    if constraint_value(kind, P, tw) > -2e-3:
        m.skip()
    step = float(rng.choice([0.005, 0.02]))
    dt = 0.02
    old = np.array(r.model.velocityLimit)
    try:
        for n in rb.joints:
            r.set_velocity_limit(n, step / dt)
        sols = []
        goal = q.copy()
        goal[7:] = np.clip(q[7:] + rng.normal(size=rb.nq - 7) * 0.8, *[np.clip(l[7:], -2, 2) for l in rb.lo_up()])
        for constrained in (True, False):
            s = placo.KinematicsSolver(r)
            s.mask_fbase(True)
            s.dt = dt
            s.enable_velocity_limits(True)
            s.add_regularization_task(1e-3)
            t = s.add_joints_task()
            t.set_joints({n: float(goal[rb.qidx[n]]) for n in rb.joints})
            if constrained:
                if kind == "com":
                    c = s.add_com_polygon_constraint(list(P["poly"]), P["margin"])
                elif kind == "half":
                    c = s.add_joint_space_half_spaces_constraint(P["A"], P["b"])
                else:
                    c = getattr(s, f"add_{kind}_constraint")(P["a"], P["b"], P["max"])
                    if kind == "cone" and rng.random() < 0.5:
                        c.N = int(rng.choice([4, 8, 12]))
                c.configure("c", "hard")
            sols.append(s)
        near, binding = False, 0
        jn = sum(np.linalg.norm(tw.J(f)[:, 6:], 2) for f in (P.get("a"), P.get("b")) if isinstance(f, str)) + 1
        for k in range(int(rng.integers(20, 50)) * (2 if step < 0.01 else 1)):
            q0 = np.array(r.state.q)
            v0 = constraint_value(kind, P, Twin(rb, q0))
            try:
                dq = np.array(sols[0].solve(False))
            except RuntimeError as e:   # overshot by the linearization, the velocity limits may then prevent the recovery
                # (the side slices of a cone wider than pi/2 are more restrictive than the cone itself)
                m.ok((v0 > 1e-9 and k > 0) or (kind == "cone" and P["max"] > 1.5), f"{kind}-infeasible-while-satisfied", lambda: f"{v0:g} {e}")
                m.count("unrecoverable_overshoots")
                break
            free = np.array(sols[1].solve(False))
            vf = constraint_value(kind, P, Twin(rb, rb.step(q0, free)))
            quad = 6 * jn ** 2 * max(np.linalg.norm(dq), np.linalg.norm(free)) ** 2
            if kind == "half":
                quad = 1e-6
            if kind == "cone" and v0 + P["max"] < 0.1:
                quad = 1.0  # close to the axis of the cone its slices turn arbitrarily fast
            if kind == "yaw" and np.linalg.norm(yaw_of(Twin(rb, q0), P["a"], P["b"])[1][:2]) < 0.3:
                break
            if kind == "cone" and 0.02 < v0 + P["max"] < 3.1:
                # the linearized angle between both axes is exactly bounded
                tw = Twin(rb, q0)
                z = tw.T(P["a"])[:3, :3].T @ tw.T(P["b"])[:3, 2]
                W = tw.T(P["a"])[:3, :3].T @ (tw.J(P["b"])[3:] - tw.J(P["a"])[3:])
                y = np.array([-z[1], z[0], 0]) / np.hypot(z[0], z[1])
                lin = v0 + y @ W @ dq
                m.ok(lin <= 1e-5, "cone-linearized-angle", lambda: f"{v0:g} + {y @ W @ dq:g} (unconstrained {v0 + y @ W @ free:g})")
                m.count("cone_linear_checks")
            # never binding: no effect
            if max(v0, vf) < -quad - 1e-4 and (kind != "cone" or max(v0, vf) < -0.15 - quad):
                m.close(dq, free, 1e-6, f"{kind}-inactive-constraint-changes-solution", lambda: f"v0={v0} vf={vf}")
                m.count("inactive_steps")
            else:
                binding += 1
            q1 = rb.step(q0, dq)
            v1 = constraint_value(kind, P, Twin(rb, q1))
            if kind == "yaw" and v0 < 0.2 and v1 > 1:
                break  # crossed the +-pi cut: not the subject
            m.ok(v1 <= max(0, v0 * 0.5) + quad + 1e-5, f"{kind}-constraint-violated",
                 lambda: f"step {k}: {v0:g} -> {v1:g} (unconstrained {vf:g}) |dq|={np.linalg.norm(dq):g} slack={quad:g}")
            if vf > quad + 1e-3:
                m.count(f"binding_{kind}")
            r.state.q = q1
            r.update_kinematics()
        m.count("loop_steps", k + 1)
        if k == 0:
            m.skip()
        v = constraint_value(kind, P, Twin(rb, np.array(r.state.q)))
        m.ok(v <= 2e-3 + (quad if kind != "cone" else min(quad, 0.02)), f"{kind}-constraint-violated-at-end", lambda: f"{v:g}")
        m.sig(q, goal, kind)
        m.sample(f"{kind}: {k + 1} steps, {binding} near the boundary, final value {v:.3g}")
    finally:
        for n in rb.joints:
            r.set_velocity_limit(n, float(old[rb.vidx[n]]))


def converge(m, rng, i):
    """Iterating solve(True) with consistent targets taken at a nearby configuration drives every task error to zero."""
    rb = new_robot(m, rng, 0.2)
    r = rb.robot
    qs = rb.rand_q(rng, margin=0.3, spread=0.8)
    dq = rng.normal(size=rb.nv) * 0.1
    q0 = rb.step(qs, dq)
    lo, up = rb.lo_up()
    q0[7:] = np.clip(q0[7:], lo[7:] + 1e-3, up[7:] - 1e-3)
    tw = Twin(rb, qs)
    S = dict(rb=rb, q=q0, dt=0.0, limits=True, vlimits=False, fbase=bool(rng.random() < 0.5), dofs=[], cons=[], tasks=[])
    if S["fbase"]:
        q0[:7] = qs[:7]
    elif rng.random() < 0.5:
        for cls in (Position, Orientation):
            t = cls(rb, rng, qs)
            t.f, t.mask = "root_joint", None
            S["tasks"].append((t, "soft", 1.0))
    for _ in range(int(rng.integers(1, 5))):
        cls = GOAL[int(rng.integers(0, len(GOAL) - 1))]
        t = make(cls, rb, rng, qs)
        if t is not None:
            S["tasks"].append((t, "soft", float(10 ** rng.uniform(-1, 1))))
    if not S["tasks"]:
        m.skip()
    for t, _, _ in S["tasks"]:
        t.reach(tw)
        if getattr(t, "mask", None) is not None and t.mask[1] == "local":
            t.mask = None if isinstance(t, Position) else t.mask
    free = slice(6, None) if S["fbase"] else slice(None)
    A = np.vstack([t.rows(tw)[0] for t, _, _ in S["tasks"]])[:, free]
    sv = np.linalg.svd(A, compute_uv=False)
    if np.any((sv > 1e-9) & (sv < 0.1)):
        m.skip()
    if m.tier and rng.random() < 0.3:
        S["tasks"] = [(t, "scaled" if k == 0 and len(t.rows(tw)[1]) < rb.nv - 6 and np.linalg.svd(t.rows(tw)[0][:, free], compute_uv=False)[-1] > 0.1
                       and not isinstance(t, AxisAlign) else pr, w) for k, (t, pr, w) in enumerate(S["tasks"])]
    S["tasks"].append((Reg(rb, rng, qs, 1e-4), "soft", 1.0))
    S["tasks"][-1][0].jw = {}
    s = placo.KinematicsSolver(r)
    hs = apply_ik(S, s)
    rb.set(q0)

    def total():
        tw = Twin(rb, np.array(r.state.q))
        return [float(np.linalg.norm(t.rows(tw)[1])) for t, _, _ in S["tasks"][:-1]]

    e0 = total()
    if max(e0) > 0.6:
        m.skip()
    for k in range(60):
        try:
            s.solve(True)
        except RuntimeError:
            if any(pr == "scaled" for _, pr, _ in S["tasks"]):
                m.skip()  # a scaled task alone can become infeasible together with the limits
            raise
        r.update_kinematics()
        if max(total()) < 1e-6:
            break
    e1 = total()
    qe = np.array(r.state.q)[7:]
    if max(e1) > 2e-3 * max(e0) + 1e-4 and np.any((qe < lo[7:] + 1e-5) | (qe > up[7:] - 1e-5)):
        m.skip()  # a local minimum held by a joint limit
    m.ok(max(e1) <= 2e-3 * max(e0) + 1e-4, "no-convergence", lambda: f"{k} iterations: {e0} -> {e1}, sv={sv}")
    for (t, _, _), h, e in zip(S["tasks"], hs, e1):
        h.update()
        m.close(h.error_norm(), e, 1e-6, "reported-error-differs")
    m.count("converged_runs")
    m.count("converge_iterations", k + 1)
    m.sig(q0, qs)
    m.sample(f"{[type(t).__name__ for t, _, _ in S['tasks']]}: error {max(e0):.3g} -> {max(e1):.3g} in {k + 1} steps")


# ---------------------------------------------------------------------------------------------- histories
def same_solution(m, key, live, fresh):
    a, b = [], []
    for f, o in ((live, a), (fresh, b)):
        try:
            o.append(np.array(f()))
        except RuntimeError as e:
            o.append(None)
    if not m.ok((a[0] is None) == (b[0] is None), key + "-outcome", lambda: f"reused: {'error' if a[0] is None else 'ok'}, fresh: {'error' if b[0] is None else 'ok'}"):
        return None
    if a[0] is None:
        m.count("failed_solves")
        return None
    m.close(a[0], b[0], 1e-6 * (1 + np.abs(b[0]).max()), key)
    return a[0]


def histories(m, rng, i):
    """Whatever was added, removed, reconfigured, masked, or failed before: a solver behaves like a fresh one."""
    rb = new_robot(m, rng, 0.15)
    r = rb.robot
    q = rb.rand_q(rng, margin=0.2)
    rb.set(q)
    s = placo.KinematicsSolver(r)
    live = []  # [spec, pr, w, handle]
    cons = []
    cfg = dict(dt=0.0, limits=True, vlimits=False, fbase=False, dofs=set())
    reserved = rb.joints[0]
    log = []

    def base(S_tasks):
        t = Reg(rb, rng, q, float(10 ** rng.uniform(-2, 0)))
        h = t.add(s)
        S_tasks.append([t, "soft", 1.0, h])
        for cls in (Position, Orientation):
            t = cls(rb, rng, q)
            t.f, t.mask = "root_joint", None
            h = t.add(s)
            h.configure("base", "soft", 1.0)
            S_tasks.append([t, "soft", 1.0, h])

    base(live)
    for step in range(int(rng.integers(8, 25))):
        op = str(rng.choice(["add", "add", "remove", "configure", "retarget", "mask", "fbase", "limits", "vlimits", "dt", "clear",
                             "con", "uncon", "fail", "frame", "solve", "solve", "solve"], p=None))
        if op == "clear" and rng.random() < 0.6:
            op = "solve"
        log.append(op)
        if op == "add":
            t = make(ALL[int(rng.integers(0, len(ALL)))], rb, rng, np.array(r.state.q))
            if t is None or (getattr(t, "needs_dt", False)):
                continue
            pr, w = "soft", float(10 ** rng.uniform(-1, 1))
            h = t.add(s)
            if isinstance(t, Reg):
                w = 1.0
            else:
                if rng.random() < 0.25 and not any(x[1] != "soft" for x in live):
                    # one hard or scaled joint
                    s.remove_task(h)
                    t = Joints(rb, rng, q)
                    t.names = [reserved]
                    t.targets = {reserved: float(np.array(r.state.q)[rb.qidx[reserved]] + rng.uniform(-0.2, 0.2))}
                    h = t.add(s)
                    pr = str(rng.choice(["hard", "scaled"]))
                h.configure("t%d" % step, pr, w)
            live.append([t, pr, w, h])
        elif op == "remove" and len(live) > 3:
            k = int(rng.integers(3, len(live)))
            s.remove_task(live.pop(k)[3])
        elif op == "configure" and len(live) > 3:
            k = int(rng.integers(3, len(live)))
            if not isinstance(live[k][0], (Reg, Kinetic)):
                live[k][2] = float(10 ** rng.uniform(-1, 1))
                live[k][3].configure("again", live[k][1], live[k][2])
        elif op == "retarget":
            for e in live:
                if e[0].retarget is not None and e[1] == "soft" and not isinstance(e[0], (Orientation, RelOrientation, AxisAlign)):
                    e[0].retarget(e[3], rng)
        elif op == "mask":
            n = rb.joints[int(rng.integers(0, len(rb.joints)))]
            if n == reserved:
                continue
            if n in cfg["dofs"]:
                cfg["dofs"].remove(n)
                s.unmask_dof(n)
            else:
                cfg["dofs"].add(n)
                s.mask_dof(n)
                if rng.random() < 0.3:
                    s.mask_dof(n)
        elif op == "fbase":
            cfg["fbase"] = not cfg["fbase"]
            s.mask_fbase(cfg["fbase"])
        elif op == "limits":
            cfg["limits"] = not cfg["limits"]
            s.enable_joint_limits(cfg["limits"])
        elif op == "vlimits":
            cfg["vlimits"] = not cfg["vlimits"]
            s.enable_velocity_limits(cfg["vlimits"])
        elif op == "dt":
            cfg["dt"] = float(rng.choice([0.0, 0.01, 0.1]))
            s.dt = cfg["dt"]
        elif op == "clear":
            s.clear()
            m.ok(s.tasks_count() == 0, "clear-leaves-tasks")
            live, cons = [], []
            base(live)
        elif op == "con":
            tw = Twin(rb, np.array(r.state.q))
            c = [ComPolygon, DistanceMax, HalfSpaces, Yaw][int(rng.integers(0, 4))](rb, rng, tw, np.zeros(rb.nv), True, 0.0)
            if c.P is None:
                continue
            w = float(10 ** rng.uniform(-1, 1))
            h = c.add(s)
            h.configure("c", "soft", w)
            cons.append([c, "soft", w, h])
        elif op == "uncon" and cons:
            s.remove_constraint(cons.pop(int(rng.integers(0, len(cons))))[3])
        elif op == "frame":
            f = rb.frames[int(rng.integers(0, len(rb.frames)))]
            Tt = rand_T(rng, 1)
            ft = s.add_frame_task(f, Tt)
            m.close(ft.T_world_frame, Tt, 1e-9, "frame-task-target")
            ft.configure("f", "soft", 2.0, 3.0)
            tw = Twin(rb, np.array(r.state.q))
            T2 = tf(rand_rot(rng, 1.0) @ tw.T(f)[:3, :3], rng.uniform(-1, 1, 3))
            ft.T_world_frame = T2
            m.close(ft.position().target_world, T2[:3, 3], 1e-9, "frame-task-position")
            m.close(ft.orientation().R_world_frame, T2[:3, :3], 1e-9, "frame-task-orientation")
            n0 = s.tasks_count()
            if rng.random() < 0.5:
                s.remove_task(ft)
                m.ok(s.tasks_count() == n0 - 2, "frame-task-removal")
            else:
                for cls, w, h in ((Position, 2.0, ft.position()), (Orientation, 3.0, ft.orientation())):
                    t = cls(rb, rng, q)
                    t.f, t.mask, t.target, t.R = f, None, T2[:3, 3].copy(), T2[:3, :3].copy()
                    live.append([t, "soft", w, h])
            if len(rb.frames) > 1:
                a, b = (rb.frames[int(k)] for k in rng.permutation(len(rb.frames))[:2])
                T2 = tf(rand_rot(rng, 1.0) @ tw.T(a)[:3, :3].T @ tw.T(b)[:3, :3], rng.uniform(-1, 1, 3))
                rf = s.add_relative_frame_task(a, b, Tt)
                m.close(rf.T_a_b, Tt, 1e-9, "relative-frame-target")
                rf.T_a_b = T2
                rf.configure("r", "soft", 0.5, 0.7)
                m.close(rf.position().target, T2[:3, 3], 1e-9, "relative-frame-position")
                m.close(rf.orientation().R_a_b, T2[:3, :3], 1e-9, "relative-frame-orientation")
                if rng.random() < 0.5:
                    s.remove_task(rf.position())
                    s.remove_task(rf.orientation())
                else:
                    for cls, w, h in ((RelPosition, 0.5, rf.position()), (RelOrientation, 0.7, rf.orientation())):
                        t = cls(rb, rng, q)
                        t.a, t.b, t.mask, t.target, t.R = a, b, None, T2[:3, 3].copy(), T2[:3, :3].copy()
                        live.append([t, "soft", w, h])
            m.count("frame_tasks")
        elif op == "fail":
            n = [j for j in rb.joints if j != reserved and j not in cfg["dofs"]]
            if not n:
                continue
            q0 = np.array(r.state.q)
            t1, t2 = s.add_joints_task(), s.add_joints_task()
            t1.set_joint(n[0], 0.1)
            t2.set_joint(n[0], -0.1)
            t1.configure("x", "hard")
            t2.configure("x", "hard")
            m.raises(lambda: s.solve(True), "contradiction-accepted")
            m.ok(np.array_equal(r.state.q, q0), "failed-solve-moves-robot")
            s.remove_task(t1)
            s.remove_task(t2)
            m.count("failed_solves")
        elif op == "solve":
            m.ok(s.tasks_count() == len(live), "tasks-count", lambda: f"{s.tasks_count()} != {len(live)}")
            if cfg["vlimits"] and cfg["dt"] == 0:
                m.raises(lambda: s.solve(True), "velocity-limits-without-dt")
                continue
            q0 = np.array(r.state.q)
            S = dict(rb=rb, q=q0, tasks=[tuple(e[:3]) for e in live], cons=[tuple(e[:3]) for e in cons], dt=cfg["dt"],
                     limits=cfg["limits"], vlimits=cfg["vlimits"], fbase=cfg["fbase"], dofs=sorted(cfg["dofs"]))
            m.desc = " ".join(log) + " | " + describe(S)
            bad = any((isinstance(e[0], Manip) and not e[0].ok(rb, q0)) for e in live)
            if bad or not oracle(S).conditioned():
                m.count("ill_conditioned")
                continue
            fs = placo.KinematicsSolver(r)
            apply_ik(S, fs)
            rb.set(q0)
            x = same_solution(m, "history-dependence", lambda: s.solve(False), lambda: fs.solve(False))
            m.count("history_solves")
            if x is not None:
                Q = oracle(S)
                scaled = any(p == "scaled" for _, p, _ in S["tasks"])
                if scaled:
                    x = np.append(x, s.scale)
                if Q.feasible(m, x, tol=1e-6):
                    Q.optimal(m, x, tol=1e-5)
                if rng.random() < 0.5:
                    s.solve(True)
                    qn = np.array(r.state.q)
                    # keep the robot in a sane region
                    lo, up = rb.lo_up()
                    qn[7:] = np.clip(qn[7:], np.maximum(lo[7:], -1.5), np.minimum(up[7:], 1.5))
                    qn[:3] = np.clip(qn[:3], -2, 2)
                    qn[3:7] /= np.linalg.norm(qn[3:7])
                    rb.set(qn)
    m.sig(np.array(r.state.q), len(log))
    m.sample(" ".join(log))


FAMILIES = {
    "ik_task_rows": (task_rows, 1500, 8000),
    "ik_solve": (solve_step, 1600, 10000),
    "ik_infeasible": (infeasible, 500, 3000),
    "ik_avoid": (avoid, 500, 4000),
    "ik_constraints": (constraint_loop, 300, 2500),
    "ik_converge": (converge, 500, 4000),
    "ik_histories": (histories, 400, 3000),
}
