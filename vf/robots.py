"""Robots under test: the repository's own models plus random kinematic trees generated as URDF."""
import functools
import numpy as np
import pinocchio as pin
import placo
from vf.util import rand_rot, rand_T, tf

TESTS = "/repo/python/tests"


class RB:
    """A placo robot with an independently built pinocchio twin."""

    def __init__(self, robot, urdf=None, path=None, info=None):
        self.robot = robot
        if urdf is not None:
            self.model = pin.buildModelFromXML(urdf, pin.JointModelFreeFlyer())
        else:
            self.model = pin.buildModelFromUrdf(path, pin.JointModelFreeFlyer())
        self.data = self.model.createData()
        self.info = info or {}
        self.joints = [n for n in self.model.names if n not in ("universe", "root_joint")]
        self.nv, self.nq = self.model.nv, self.model.nq
        self.vidx = {n: self.model.joints[self.model.getJointId(n)].idx_v for n in self.joints}
        self.qidx = {n: self.model.joints[self.model.getJointId(n)].idx_q for n in self.joints}
        self.frames = [f.name for f in self.model.frames if f.name != "universe"]
        # frames with unique names only
        self.frames = [f for f in self.frames if self.frames.count(f) == 1]

        self.rotor = np.zeros(self.nv)

    def set_rotors(self, rot):
        """{joint: (inertia, gear ratio)}"""
        for n in self.joints:
            I, g = rot.get(n, (0.0, 0.0))
            if n in rot or self.rotor[self.vidx[n]]:
                self.robot.set_rotor_inertia(n, I)
                self.robot.set_gear_ratio(n, g)
            self.rotor[self.vidx[n]] = I * g * g

    def lo_up(self):
        return np.array(self.robot.model.lowerPositionLimit), np.array(self.robot.model.upperPositionLimit)

    def rand_q(self, rng, base=1.0, spread=1.0, margin=0.0, tilt=None):
        q = np.zeros(self.nq)
        T = rand_T(rng, base, tilt)
        quat = pin.Quaternion(T[:3, :3])
        q[:3] = T[:3, 3]
        q[3:7] = [quat.x, quat.y, quat.z, quat.w]
        lo, up = self.lo_up()
        lo = np.clip(lo[7:], -1.5, 1.5)
        up = np.clip(up[7:], -1.5, 1.5)
        mid, half = (lo + up) / 2, (up - lo) / 2
        q[7:] = mid + rng.uniform(-1, 1, self.nq - 7) * half * spread * (1 - margin)
        return q

    def rand_v(self, rng, scale=1.0):
        return rng.normal(size=self.nv) * scale

    def set(self, q, v=None, a=None):
        self.robot.state.q = q
        self.robot.state.qd = v if v is not None else np.zeros(self.nv)
        self.robot.state.qdd = a if a is not None else np.zeros(self.nv)
        self.robot.update_kinematics()

    def fk(self, q):
        pin.framesForwardKinematics(self.model, self.data, q)
        return {f: np.array(self.data.oMf[self.model.getFrameId(f)].homogeneous) for f in self.frames}

    def T(self, q, frame):
        pin.framesForwardKinematics(self.model, self.data, q)
        return np.array(self.data.oMf[self.model.getFrameId(frame)].homogeneous)

    def com(self, q):
        return np.array(pin.centerOfMass(self.model, self.data, q))

    def step(self, q, dv):
        return pin.integrate(self.model, q, dv)


def rand_urdf(rng, n=None, shapes=("sphere",), prismatic=True, limits=True, fixed=True, rad=(0.02, 0.08)):
    """A random tree of n moving joints; every link has a mass, an inertia and a collision primitive."""
    n = n or int(rng.integers(2, 8))
    links = ["base"]
    info = dict(geoms={}, joints=[], parents={})

    def geom(name):
        sh = str(rng.choice(list(shapes)))
        o = rng.uniform(-0.05, 0.05, 3)
        if sh == "sphere":
            r = float(rng.uniform(*rad))
            info["geoms"][name] = ("sphere", r, o)
            g = f'<sphere radius="{r:.17g}"/>'
        elif sh == "box":
            s = rng.uniform(0.02, 0.12, 3)
            info["geoms"][name] = ("box", s, o)
            g = f'<box size="{s[0]:.17g} {s[1]:.17g} {s[2]:.17g}"/>'
        else:
            r, l = float(rng.uniform(0.02, 0.06)), float(rng.uniform(0.05, 0.15))
            info["geoms"][name] = ("cylinder", (r, l), o)
            g = f'<cylinder radius="{r:.17g}" length="{l:.17g}"/>'
        org = f'<origin xyz="{o[0]:.17g} {o[1]:.17g} {o[2]:.17g}" rpy="0 0 0"/>'
        return f'<visual>{org}<geometry>{g}</geometry></visual><collision>{org}<geometry>{g}</geometry></collision>'

    def link(name):
        mass = rng.uniform(0.2, 3.0)
        c = rng.uniform(-0.1, 0.1, 3)
        # a physically consistent inertia: point masses around the com
        P = rng.normal(size=(6, 3)) * 0.06
        P -= P.mean(0)
        I = sum(mass / 6 * (p @ p * np.eye(3) - np.outer(p, p)) for p in P) + 1e-4 * np.eye(3)
        return (f'<link name="{name}"><inertial><origin xyz="{c[0]} {c[1]} {c[2]}" rpy="0 0 0"/><mass value="{mass}"/>'
                f'<inertia ixx="{I[0,0]}" ixy="{I[0,1]}" ixz="{I[0,2]}" iyy="{I[1,1]}" iyz="{I[1,2]}" izz="{I[2,2]}"/>'
                f'</inertial>{geom(name)}</link>')

    body = link("base")
    for k in range(n):
        parent = links[int(rng.integers(max(0, len(links) - 3), len(links)))]
        name = f"link{k}"
        xyz = rng.uniform(-0.3, 0.3, 3)
        rpy = rng.uniform(-1.5, 1.5, 3)
        ax = rng.normal(size=3)
        if rng.random() < 0.5:
            ax = np.eye(3)[int(rng.integers(0, 3))]
        ax = ax / np.linalg.norm(ax)
        typ = "prismatic" if prismatic and rng.random() < 0.2 else "revolute"
        if limits:
            lo, up = -rng.uniform(0.3, 2.0), rng.uniform(0.3, 2.0)
        else:
            lo, up = 0, 0
        vel, eff = rng.uniform(0.5, 5), rng.uniform(2, 60)
        body += link(name)
        body += (f'<joint name="j{k}" type="{typ}"><parent link="{parent}"/><child link="{name}"/>'
                 f'<origin xyz="{xyz[0]} {xyz[1]} {xyz[2]}" rpy="{rpy[0]} {rpy[1]} {rpy[2]}"/>'
                 f'<axis xyz="{ax[0]} {ax[1]} {ax[2]}"/>'
                 f'<limit lower="{lo}" upper="{up}" velocity="{vel}" effort="{eff}"/></joint>')
        info["joints"].append((f"j{k}", typ, lo, up, vel, eff))
        info["parents"][name] = parent
        links.append(name)
        if fixed and rng.random() < 0.4:
            t = f"tip{k}"
            xyz = rng.uniform(-0.2, 0.2, 3)
            rpy = rng.uniform(-1.5, 1.5, 3)
            body += f'<link name="{t}"/>'
            body += (f'<joint name="{t}_fixed" type="fixed"><parent link="{name}"/><child link="{t}"/>'
                     f'<origin xyz="{xyz[0]} {xyz[1]} {xyz[2]}" rpy="{rpy[0]} {rpy[1]} {rpy[2]}"/></joint>')
    return f'<?xml version="1.0"?><robot name="r">{body}</robot>', info


def rand_robot(rng, **kw):
    flags = kw.pop("flags", int(placo.Flags.ignore_collisions))
    urdf, info = rand_urdf(rng, **kw)
    return RB(placo.RobotWrapper("", flags, urdf), urdf=urdf, info=info)


@functools.lru_cache(None)
def _text(path):
    return open(path).read()


def quadruped():
    r = placo.RobotWrapper(TESTS + "/quadruped/", int(placo.Flags.collision_as_visual) | int(placo.Flags.ignore_collisions))
    return RB(r, path=TESTS + "/quadruped/robot.urdf")


def sigmaban(cls=None, flags=None):
    r = (cls or placo.HumanoidRobot)(TESTS + "/sigmaban/", flags if flags is not None else int(placo.Flags.ignore_collisions))
    return RB(r, path=TESTS + "/sigmaban/robot.urdf")


def sigmaban_ps():
    """The humanoid with pressure sensor frames under the feet (a real one has them; the test model does not)."""
    urdf = _text(TESTS + "/sigmaban/robot.urdf")
    extra = ""
    for side in ("left", "right"):
        for k in range(4):
            x, y = (0.06 if k in (0, 3) else -0.06), (0.03 if k in (0, 1) else -0.03)
            extra += (f'<link name="{side}_ps_{k}"/><joint name="{side}_ps_{k}_frame" type="fixed"><parent link="{side}_foot"/>'
                      f'<child link="{side}_ps_{k}"/><origin xyz="{x} {y} 0" rpy="0.1 {0.05 * k} 0.2"/></joint>')
    urdf = urdf.replace("</robot>", extra + "</robot>")
    r = placo.HumanoidRobot(TESTS + "/sigmaban/", int(placo.Flags.ignore_collisions), urdf)
    return RB(r, urdf=urdf)


_cache = {}


def shared(name):
    """One instance per process (loading meshes is slow); users must reset what they change."""
    if name not in _cache:
        _cache[name] = dict(quadruped=quadruped, sigmaban=sigmaban)[name]()
    rb = _cache[name]
    rb.robot.reset()
    rb.set_rotors({})
    return rb


def any_robot(m, rng, real=0.25, **kw):
    u = rng.random()
    if u < real / 2:
        m.count("robot_quadruped")
        return shared("quadruped")
    if u < real:
        m.count("robot_sigmaban")
        return shared("sigmaban")
    m.count("robot_random_tree")
    return rand_robot(rng, **kw)
