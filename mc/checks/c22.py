"""C22: accessors, setters and orientation describe one and the same state; velocity is the rate of change of position."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, ref, zoo

PI = math.pi
KINDS = ("dubins2d", "dubins3d", "cwh", "rot2d", "sixdof", "int1d", "int2d", "int3d", "sun")


def rz(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def ry(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[c, 0, s], [0, 1.0, 0], [-s, 0, c]])


def rx(t):
    c, s = math.cos(t), math.sin(t)
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def expect(kind, x):
    """Every observable a kind offers, from its state vector: name -> value; 'R' is the orientation matrix."""
    n = zoo.KINDS[kind].names
    o = dict(zip(n, x))
    if kind.startswith("dubins"):
        o.setdefault("z", 0.0)
        o.setdefault("gamma", 0.0)
        o.setdefault("roll", 0.0)
        h, g, r, v = o["heading"], o["gamma"], o["roll"], o["v"]
        o.update(yaw=h, pitch=g, position=[o["x"], o["y"], o["z"]])
        o["velocity"] = [v * math.cos(h) * math.cos(g), v * math.sin(h) * math.cos(g), -v * math.sin(g)]
        o["R"] = rz(h) @ ry(g) @ rx(r)
    elif kind == "sun":
        pass
    elif kind.startswith("int"):
        d = len(x) // 2
        o["position"], o["velocity"] = list(x[:d]), list(x[d:])
        for i, a in enumerate("xyz"):
            if i >= d:
                o[a] = o[a + "_dot"] = 0.0
        o["R"] = np.eye(3)
    else:
        o.setdefault("z", 0.0)
        o.setdefault("z_dot", 0.0)
        o["position"] = [o["x"], o["y"], o["z"]]
        o["velocity"] = [o["x_dot"], o["y_dot"], o["z_dot"]]
        o["R"] = np.eye(3)
        if kind == "rot2d":
            o.update(wx=0.0, wy=0.0, angular_velocity=[0.0, 0.0, o["wz"]])
            o["R"] = rz(o["theta"])
        if kind == "sixdof":
            o["angular_velocity"] = [o["wx"], o["wy"], o["wz"]]
            q = np.array(x[3:7], float)
            o["R"] = ref.quat_matrix(q / np.linalg.norm(q))
    return o


EXACT_VECTORS = {"position", "angular_velocity"}


def look(rec, kind, e, **info):
    x = np.asarray(e.state, float)
    o = expect(kind, x)
    R = o.pop("R", None)
    tight = 1e-10 if getattr(e.state, "dtype", None) in (np.float64, np.longdouble) else 2e-6
    for n, want in o.items():
        got = np.asarray(getattr(e, n), float)
        want = np.asarray(want, float)
        got = got.reshape(want.shape) if got.size == want.size else got
        scale = np.max(np.abs(want)) if want.size else 0
        fine = getattr(e.state, "dtype", None) in (np.float64, np.longdouble)
        tol = (2.5e-7 * np.abs(want) + 1e-14 * scale if fine else 1e-6 * scale) if kind.startswith("dubins") and n == "velocity" else 0.0
        ok = got.shape == want.shape and bool(np.all((np.abs(got - want) <= tol) | (got == want)))
        rec.check(ok, "an accessor does not describe the state", kind=kind, accessor=n, state=x, got=got, want=want, **info)
    if R is not None:
        M = e.orientation.as_matrix()
        rec.check(zoo.close(M @ M.T, np.eye(3), 0, 1e-9) and abs(np.linalg.det(M) - 1) <= 1e-9, "the orientation is not a proper rotation", kind=kind, state=x, got=M, **info)
        rec.check(zoo.close(M, R, 0, tight), "the orientation disagrees with the attitude", kind=kind, state=x, got=M, want=R, **info)
    if kind in ("rot2d", "sixdof"):
        q = np.asarray(e.quaternion, float)
        rec.check(q.shape == (4, ) and abs(np.linalg.norm(q) - 1) <= 2e-6, "the quaternion is not of unit norm", kind=kind, state=x, got=q, **info)
        rec.check(zoo.close(ref.quat_matrix(q), R, 0, tight), "the quaternion (scalar last) disagrees with the attitude", kind=kind, state=x, got=q, **info)
        comps = np.array([float(e.q1), float(e.q2), float(e.q3), float(e.q4)])
        if kind == "rot2d":
            rec.check(zoo.close(comps, q, 0, 1e-12), "quaternion components differ from the quaternion", kind=kind, state=x, got=comps, want=q, **info)
        else:
            unit = comps / np.linalg.norm(comps)
            rec.check(zoo.close(unit, q, 0, tight), "quaternion components differ from the quaternion", kind=kind, state=x, got=comps, want=q, **info)
    rec.trace()


def grid_states(kind, cfg):
    """Base states, one component at a time changed, angles all around."""
    m = zoo.KINDS[kind].ref(cfg)
    out = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
    base = out[1] if len(out) > 1 else out[0]
    for i, n in enumerate(m.names):
        if n in ("heading", "theta", "gamma", "roll"):
            vals = [0.0, 0.3, 1.0, PI / 2, 2.0, 3.0, PI, -PI, -2.5, -PI / 2, -0.7, -1e-3, 1e-9, -1e-12]
        elif n.startswith("q"):
            continue
        else:
            vals = [0.0, 1e-3, -1e-3, 1.0, -7.5, 1e5, -1e6, 1e-9, -1e-20, 1e9, 12345678.9]
        for v in vals:
            s = base.copy()
            s[i] = v
            out.append(s)
    if kind == "dubins3d":
        for h, g, r in itertools.product((0.3, 2.0, -2.5), (0.0, 1.2, -0.4, 1.5), (0.0, 0.9, -1.3)):
            s = base.copy()
            s[3:6] = h, g, r
            out.append(s)
    if kind == "sixdof":
        from mc.checks.c14 import ATT

        for q in ATT:
            s = base.copy()
            s[3:7] = q
            out.append(s)
    return out


def static(rec, kind, cfg):
    K = zoo.KINDS[kind]
    e = K.make(cfg)
    for s in grid_states(kind, cfg):
        e.state = s
        rec.transition()
        rec.check(zoo.identical(e.state, s), "the state set is not the state reported", kind=kind, got=e.state, want=s)
        look(rec, kind, e)
        rec.state(kind, cfg, s)
        rec.outcome(s)
    fresh = K.cls(name="f", **K.init_kwargs(np.arange(1, len(K.names) + 1) * 0.25))
    look(rec, kind, fresh, fresh=True)


def dynamic(rec, kind, cfg, method, depth):
    """Breadth first over histories; accessors at every state reached; position changes at the reported velocity."""
    K = zoo.KINDS[kind]
    e = K.make(cfg, method=method)
    frontier = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
    acts = zoo.corner_controls(kind, cfg)  # first step; generic ones after it
    for d in range(depth):
        nxt = []
        for s, u, T in itertools.product(frontier, acts, (1e-3, 0.1, 1.0)):
            if kind != "sun" and T == 1e-3:
                e.state = s
                p0, v0 = np.ravel(np.asarray(e.position, float)).copy(), np.ravel(np.asarray(e.velocity, float)).copy()
            e.state = s
            zoo.step(e, T, u.copy() if len(u) else None)
            rec.transition()
            look(rec, kind, e, start=s, control=u, T=T, method=method)
            if kind != "sun" and T == 1e-3:
                p1, v1 = np.ravel(np.asarray(e.position, float)), np.ravel(np.asarray(e.velocity, float))
                mean = (v0 + v1) / 2 if method == "RK45" else v0
                got = (p1 - p0) / T
                tol = 1e-5 * np.abs(mean).max() + 1e-9 + 1e-12 * np.abs(p0).max() / T + np.abs(v1 - v0).max() * 0.01
                rec.check(bool(np.all(np.abs(got - mean) <= tol)), "position does not change at the reported velocity", kind=kind, start=s, control=u, got=got, want=mean, method=method)
            x = np.asarray(e.state, float)
            if rec.state(kind, cfg, method, x):
                nxt.append(x)
            rec.outcome(x)
        frontier = nxt
        acts = zoo.mid_controls(kind, cfg)


SETTERS = {"dubins2d": ("x", "y", "heading", "v"), "dubins3d": ("x", "y", "z", "heading", "gamma", "roll", "v")}


def setters(rec, kind, depth):
    """Every sequence of component assignments: each changes exactly the component it names, at once and for the steps that follow."""
    K = zoo.KINDS[kind]
    m = K.ref("default")
    start = np.array(zoo.base_states(kind, "default")[1], float)
    e = K.make("default", method="Euler")
    twin = K.make("default", method="Euler")
    moves = []
    for n in SETTERS[kind]:
        i = m.names.index(n)
        moves += [(n, i, float(start[i]) * 0.5 + 0.03125), (n, i, 250.0 if n == "v" else 0.125)]
    moves.append(("state", None, start + 0.0625))
    moves.append(("step", None, None))
    for seq in itertools.product(moves, repeat=depth):
        e.state = start
        x = start.copy()
        for n, i, v in seq:
            if n == "state":
                e.state = v
                x = v.copy()
            elif n == "step":
                twin.state = x
                zoo.step(twin, 0.5, m.umax * 0.5)
                zoo.step(e, 0.5, m.umax * 0.5)
                x = np.asarray(twin.state, float)
            else:
                setattr(e, n, v)
                x[i] = v
            rec.transition()
            got = np.asarray(e.state, float)
            rec.check(zoo.identical(got, x), "an assignment changes another component or not its own", kind=kind, sequence=[list(s[:1]) for s in seq], assigned=n, value=v if not isinstance(v, np.ndarray) else None, got=got, want=x)
        look(rec, kind, e, sequence=[s[0] for s in seq])
        rec.state(kind, [(s[0], s[2]) for s in seq])
        rec.outcome(x)


def fresh(rec, kind):
    """Assignments right after construction, before any step."""
    K = zoo.KINDS[kind]
    for n in SETTERS[kind]:
        i = K.names.index(n)
        for v in (1.5, -0.25, 0, 300):
            e = K.cls(name="e")
            other = K.cls(name="o")
            before = np.asarray(e.state, float)
            setattr(e, n, v)
            want = before.copy()
            want[i] = v
            rec.transition()
            rec.trace()
            rec.check(zoo.identical(np.asarray(e.state, float), want), "an assignment changes another component or not its own", kind=kind, assigned=n, value=v, got=e.state, want=want)
            rec.check(zoo.identical(np.asarray(other.state, float), before), "an assignment changes another entity", kind=kind, assigned=n)
            rec.state(kind, n, v)


def number_types(rec, kind):
    """States assigned as arrays of any number type: the same entity, and component setters store their values unrounded."""
    K = zoo.KINDS[kind]
    start = np.round(np.array(zoo.base_states(kind, "default")[1], float))
    if kind == "sixdof":
        start[3:7] = 0, 0, 0, 1
    for T in (int, np.int16, np.int32, np.uint16, np.float32, np.float64, np.longdouble):
        x = np.abs(start) if T is np.uint16 else start
        for method in ("RK45", "Euler"):
            e, f = K.make("default", method=method), K.make("default", method=method)
            e.state, f.state = x.astype(T), x.copy()
            look(rec, kind, e, type=T.__name__)
            rec.check(zoo.identical(np.asarray(e.state, float), x), "the state set is not the state reported", kind=kind, type=T.__name__, got=e.state, want=x)
            zoo.step(e, 0.5)
            zoo.step(f, 0.5)
            rec.transition()
            rec.trace()
            rec.check(zoo.close(e.state, f.state, 1e-6, 1e-6), "the number type of an assigned state changes the next step", kind=kind, type=T.__name__, got=e.state, want=f.state)
            for n in SETTERS.get(kind, ()):
                for v in (0.5, -0.03125, 260.25):
                    g = K.make("default", method=method)
                    g.state = x.astype(T)
                    setattr(g, n, v)
                    want = x.copy()
                    want[K.names.index(n)] = v
                    rec.transition()
                    rec.check(zoo.identical(np.asarray(g.state, float), want), "an assignment changes another component or not its own", kind=kind, assigned=n, value=v, type=T.__name__, got=g.state, want=want)
                    rec.state(kind, T.__name__, method, n, v)
            rec.state(kind, T.__name__, method)


def run(tier):
    th = tier == "thorough"
    sc = []
    for k in SETTERS:
        sc.append(("setters", dict(kind=k, depth=(4 if k == "dubins2d" else 3) if th else (3 if k == "dubins2d" else 2))))
        sc.append(("fresh", dict(kind=k)))
    for k in KINDS:
        sc.append(("number_types", dict(kind=k)))
        for cfg in zoo.KINDS[k].configs:
            sc.append(("static", dict(kind=k, cfg=cfg)))
            if k == "sixdof" and cfg == "wheel" and not th:
                continue
            for method in ("Euler", "RK45"):
                sc.append(("dynamic", dict(kind=k, cfg=cfg, method=method, depth=(3 if method == "Euler" else 2) if th else (2 if method == "Euler" else 1))))
    return core.run_check("C22", sys.modules[__name__], sc, assumptions=["component values listed in the check; unit quaternions except where steps of the code under test leave them slightly off"])
