"""Every bound function and property of the module, called at random with plausible and hostile arguments: the only acceptable outcomes
are a value or a Python exception (the sanitizers, bound-checked Eigen and the process itself are the monitors)."""
import re
import numpy as np
import placo
from vf import robots
from vf.util import rand_T, rand_rot
from vf.props.memory import small_urdf

SIG = re.compile(r"^(\w+)\((.*)\) -> (.*) :$", re.M)
ARG = re.compile(r"\(([\w.]+)\)\s*\w+")
CPP = re.compile(r"C\+\+ signature :\n +(.*)")
SHAPES = [("Eigen::Transform<double, 3", "T"), ("Matrix<double, 3, 3", "R"), ("Matrix<double, 4, 4", "T"), ("Matrix<double, 3, 1", "v3"),
          ("Matrix<double, 2, 1", "v2"), ("Matrix<double, -1, 1", "vX"), ("Matrix<double, -1, -1", "mX"), ("Matrix<double, 6, 1", "v6")]
SPECIAL = ("__init__", "__getitem__", "__setitem__", "__delitem__", "__contains__")
# internals that the documentation does not offer for writing: inconsistent values are the caller's responsibility
NO_SET = ("Variable", "Expression", "Problem", "Integrator", "SparsityInterval", "Sparsity", "WalkTasks", "FrameTask", "RobotWrapper_State")
NO_NEW = ("RobotWrapper", "HumanoidRobot", "WalkTasks")


def cpp_args(sig):
    """Types of the arguments in a C++ signature"""
    L, depth, cur = [], 0, ""
    for ch in sig[sig.index("(") + 1:sig.rindex(")")]:
        depth += ch in "<(["
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            L, cur = L + [cur], ""
        else:
            cur += ch
    return L + [cur]


def signatures(doc):
    """(argument kinds, number of required arguments) of each overload"""
    out = []
    cpp = [cpp_args(x) for x in CPP.findall(doc)]
    for k, s in enumerate(SIG.finditer(doc)):
        ts = ARG.findall(s.group(2))
        ct = cpp[k] if k < len(cpp) else []
        for j, t in enumerate(ts):
            if t in ("numpy.ndarray", "object") and j < len(ct):
                ts[j] = next((v for key, v in SHAPES if key in ct[j]), "vec" if "vector<" in ct[j] else t)
        out.append((ts, len(ARG.findall(s.group(2).split("[")[0]))))
    return out


def scan():
    meth, fun = {}, []
    for n, c in sorted(vars(placo).items()):
        if not isinstance(c, type):
            if callable(c) and c.__doc__ and n != "sharedMemory":
                fun += [(n, ts) for ts, _ in signatures(c.__doc__)]
            continue
        L = []
        for k, v in vars(c).items():
            if k.startswith("__") and k not in SPECIAL:
                continue
            if callable(v) and v.__doc__:
                L += [(k, ts, nreq) for ts, nreq in signatures(v.__doc__)]
            elif isinstance(v, property):
                L.append((k, "prop", v.fset is not None))
        meth[n] = L
    return meth, fun


METH, FUN = scan()


class Fuzzer:
    def __init__(self, m, rng, hostile):
        self.m, self.r, self.h = m, rng, hostile
        self.pool, self.names, self.last = {}, ["x"], None

    def add(self, o):
        c = type(o).__name__
        if c in METH and type(o).__module__.startswith("placo"):
            L = self.pool.setdefault(c, [])
            L.append(o)
            if len(L) > 6:
                L.pop(int(self.r.integers(0, len(L))))

    def robot(self):
        r = self.r
        rb = placo.RobotWrapper("", int(placo.Flags.ignore_collisions) if r.random() < 0.5 else 0, small_urdf(r))
        rb.reset()
        rb.update_kinematics()
        self.names += list(rb.joint_names()) + list(rb.frame_names())
        return rb

    def boot(self):
        r = self.r
        rb = self.robot()
        p = placo.Problem()
        v = p.add_variable(4)
        hp = placo.HumanoidParameters()
        z = np.zeros(2)
        for o in (rb, placo.KinematicsSolver(rb), placo.DynamicsSolver(rb), p, v, v.expr(), placo.Integrator(v, z, 2, 0.1), hp,
                  placo.CubicSpline(), placo.CubicSpline3D(), placo.LIPM(p, 0.1, 4, 0.0, z, z, z), placo.Segment(z, z + 1),
                  placo.Polynom(np.ones(3))):
            self.add(o)
        if r.random() < 0.3:
            h = robots.sigmaban_ps().robot
            h.reset()
            h.update_kinematics()
            self.names += list(h.joint_names()) + list(h.frame_names())
            w = placo.WalkTasks()
            w.initialize_tasks(placo.KinematicsSolver(h), h)
            for o in (h, w, placo.FootstepsPlannerRepetitive(hp), placo.FootstepsPlannerNaive(hp), placo.WalkPatternGenerator(h, hp),
                      placo.DummyWalk(h, hp)):
                self.add(o)
            self.walk(h, hp)

    def walk(self, h, hp):
        """A walk that is really planned"""
        r = self.r
        hp.single_support_timesteps, hp.planned_timesteps, hp.foot_length, hp.foot_width = 6, 48, 0.14, 0.08
        hp.walk_com_height, hp.feet_spacing, hp.zmp_margin = 0.32, 0.15, 0.02
        pl = placo.FootstepsPlannerRepetitive(hp)
        pl.configure(0.05, 0.0, 0.1, 4)
        T = [np.eye(4), np.eye(4)]
        T[0][1, 3], T[1][1, 3] = 0.075, -0.075
        fs = pl.plan(placo.HumanoidRobot_Side.left, *T)
        sup = placo.FootstepsPlanner.make_supports(fs, 0.0, True, bool(r.random() < 0.5), True)
        w = placo.WalkPatternGenerator(h, hp)
        for o in (pl, fs, fs[0], sup, sup[0], sup[1], w):
            self.add(o)
        try:
            self.add(w.plan(sup, np.array([0.0, 0.0, 0.32]), 0.0))
        except RuntimeError:
            pass

    def num(self):
        r = self.r
        u = r.random()
        if u < 1 - self.h:
            return float(r.normal()) if u < 0.3 else float(abs(r.normal()))
        return float(r.choice([0.0, -0.0, 1.0, -1.0, 1e3, -1e3, 1e-9, 100.0, 0.5]))

    def integer(self):
        r = self.r
        return int(r.integers(0, 4)) if r.random() < 1 - self.h else int(r.choice([-1, -2, 0, 1, 5, 7, 20, 100, -100]))

    def arr(self, kind="object"):
        r = self.r
        if kind in ("object", "numpy.ndarray", "vec") or kind not in "TR" and r.random() < self.h:
            kind = str(r.choice(["T", "R", "v3", "v2", "v6", "vX", "mX"]))
        if kind == "T":
            a = rand_T(r)
        elif kind == "R":
            a = rand_rot(r)
        elif kind[0] == "v" and kind[1] != "X":
            a = r.normal(size=int(kind[1]))
        elif kind == "vX":
            mo = self.pool["RobotWrapper"][0].model
            a = r.normal(size=int(r.choice([mo.nv, mo.nq, int(r.integers(0, 12))])))
        else:
            a = r.normal(size=(int(r.integers(0, 5)), int(r.integers(0, 6))))
            if r.random() < 0.3:
                a = r.normal(size=(int(r.integers(1, 6)), 3))
        if a.shape in ((4, 4), (3, 3)) and kind not in "TR":
            a = a[:, :2]
        # (a transformation that is not rigid is not one)
        if a.size and kind not in "TR" and r.random() < self.h * 0.5:
            a = a.copy()
            a.flat[int(r.integers(0, a.size))] = self.num()
        return a

    def some(self):
        L = [o for L in self.pool.values() for o in L]
        return L[int(self.r.integers(0, len(L)))]

    def name(self):
        return str(self.names[int(self.r.integers(0, len(self.names)))])

    def arg(self, t, name):
        r = self.r
        if t == "float":
            return self.num()
        if t == "int":
            return self.integer()
        if t == "bool":
            return bool(r.random() < 0.5)
        if t == "str":
            u = r.random()
            if u < (0.7 if "configure" in name or "priority" in name else 0.08):
                return str(r.choice(["soft", "hard", "scaled", "x"], p=[0.5, 0.3, 0.15, 0.05]))
            if "axis" in name and u < 0.7:
                return str(r.choice(["x", "y", "z", "xy", "yz", "xyz", "", "w"]))
            if "wrench" in name and u < 0.4:
                return str(r.choice(["world", "local"]))
            if "manipulability" in name and u < 0.4:
                return str(r.choice(["position", "orientation", "both"]))
            if ("axis" in name or "frame" in name or "jacobian" in name) and r.random() < 0.3:
                return str(r.choice(["world", "local", "local_world_aligned", "custom", "task"]))
            if r.random() < self.h * 0.5:
                return str(r.choice(["", "nope", "universe", "root_joint", "\u00e9"]))
            return self.name()
        if t == "dict":
            return {self.name(): self.num() for _ in range(int(r.integers(0, 3)))}
        if t in ("T", "R", "v2", "v3", "v6", "vX", "mX"):
            return self.arr(t)
        if t in ("object", "numpy.ndarray", "vec", "list"):
            u = r.random()
            if name in ("__getitem__", "__delitem__", "__setitem__", "__contains__", "append", "pop") and u < 0.7:
                return self.integer() if u < 0.4 else self.name() if u < 0.5 else self.some()
            if u < 0.4 and t != "list":
                return self.arr(t)
            if u < 0.6:
                k = str(r.choice(["v2", "v3", "T"]))
                return [self.arr(k) for _ in range(int(r.integers(0, 5)))]
            if u < 0.7:
                return [self.num() for _ in range(int(r.integers(0, 5)))]
            if u < 0.8:
                return self.integer()
            if u < 0.9:
                return self.some()
            return self.num() if u < 0.95 else self.name() if u < 0.99 else None
        if t == "HumanoidRobot_Side":
            return placo.HumanoidRobot_Side.left if r.random() < 0.5 else placo.HumanoidRobot_Side.right
        cls = getattr(placo, t, None)
        c = [o for L in self.pool.values() for o in L if isinstance(cls, type) and isinstance(o, cls)]
        return c[int(r.integers(0, len(c)))] if c and r.random() > self.h * 0.05 else None

    def step(self):
        r = self.r
        u = r.random()
        if u < 0.04:
            n, ts = FUN[int(r.integers(0, len(FUN)))]
            return self.call(n, getattr(placo, n), [self.arg(t, n) for t in ts])
        if u < 0.12:
            L = list(METH)
            c = L[int(r.integers(0, len(L)))]
            init = [x for x in METH[c] if x[0] == "__init__" and x[1] != "prop"]
            # tasks, contacts and constraints live in a solver
            if not init or c in NO_NEW or "Task" in c or "Contact" in c or "Constraint" in c:
                return
            x = init[int(r.integers(0, len(init)))]
            return self.call(c, getattr(placo, c), [self.arg(t, c) for t in x[1][1:]])
        k = list(self.pool)
        c = k[int(r.integers(0, len(k)))]
        if u < 0.17:  # whatever depends on it still works (this is the only reference of the fuzzer)
            self.pool[c].pop(int(r.integers(0, len(self.pool[c]))))
            if not self.pool[c]:
                del self.pool[c]
            if "RobotWrapper" not in self.pool:
                self.add(self.robot())
            self.m.count("objects_dropped")
            return
        o = self.pool[c][int(r.integers(0, len(self.pool[c])))]
        L = [x for b in type(o).__mro__ for x in METH.get(b.__name__, []) if x[0] != "__init__"]
        if not L:
            return
        name, ts, nreq = L[int(r.integers(0, len(L)))]
        if ts == "prop":
            if nreq and r.random() < 0.4 and c not in NO_SET and name not in ("A", "b", "state") and (c, name) not in (("ConeConstraint", "N"), ("Support", "footsteps")):
                try:
                    cur = getattr(o, name)
                except Exception:
                    cur = None
                v = (self.arr("T" if cur.shape == (4, 4) else "R") if isinstance(cur, np.ndarray) and cur.shape in ((4, 4), (3, 3)) else
                     r.normal(size=cur.shape) if isinstance(cur, np.ndarray) else self.arg(type(cur).__name__, name))
                if isinstance(v, (int, float)) and ("timesteps" in name or "ratio" in name):  # problems of a reasonable size
                    v = type(v)(min(v, 8 if "timesteps" in name else 2))
                return self.call(f"{c}.{name}=", lambda x: setattr(o, name, x), [v])
            return self.call(f"{c}.{name}", lambda: getattr(o, name), [])
        own = [b.__name__ for b in type(o).__mro__]
        static = ts and ts[0] not in own and ts[0] != "object" or not ts
        # references to the footsteps of a support hold until it changes or moves
        if c == "Supports" and name in ("append", "extend", "__setitem__", "__delitem__"):
            return
        # objects that were removed or cleared can not be used any more: they are left alone
        if name.startswith("remove_") or name.startswith("clear") and c in ("Problem", "KinematicsSolver", "DynamicsSolver"):
            return
        if not static:
            ts, nreq = ts[1:], nreq - 1
        if len(ts) > nreq and r.random() < 0.5:
            ts = ts[:int(r.integers(max(0, nreq), len(ts) + 1))]
        a = [self.arg(t, name) for t in ts]
        if name in ("set_rotor_inertia", "set_gear_ratio"):
            a = [abs(x) if isinstance(x, float) else x for x in a]
        if name in ("plan", "replan") and any(type(x).__name__ == "Supports" and len(x) > 9 for x in a):
            return
        return self.call(f"{c}.{name}", getattr(type(o) if static else o, name), a)

    def inspect(self, v):
        """Looks at every number of a value: undefined ones are reported by memcheck, if it is running"""
        if isinstance(v, (float, int, bool)):
            n = v > 0
        elif isinstance(v, np.ndarray) and v.dtype == float:
            n = (v.ravel() > 0).sum() > 3
        elif isinstance(v, str):
            n = hash(v)
        elif isinstance(v, (list, tuple)):
            return [self.inspect(x) for x in v[:20]]
        elif isinstance(v, dict):
            return [self.inspect(x) for x in v.values()]
        else:
            return
        self.m.count("values_inspected", bool(n) or 1)

    def call(self, name, f, a):
        self.m.count("api_calls")
        try:
            v = f(*a)
        except Exception:
            self.m.count("api_errors")
            return
        self.m.sig("member", name)
        self.inspect(v)
        if self.m.mc:
            self.m.mc.poll(self.m, name)
        if name.endswith(".problem"):
            return  # the solvers clear their variables at each solve
        if isinstance(v, (list, tuple)):
            v = v[0] if len(v) else None
        self.add(v)
        if type(v).__name__ in ("Footsteps", "Supports") and len(v):
            self.add(v[0])


def api_fuzz(m, rng, i):
    f = Fuzzer(m, rng, float(rng.choice([0.02, 0.1, 0.5])))
    f.boot()
    for _ in range(150):
        f.step()
    m.sig(i)
    m.sample(f"150 calls on {sorted(f.pool)[:40]}")


FAMILIES = dict(api_fuzz=(api_fuzz, 400, 20000))
