"""C10: arrays read from an entity are snapshots, arrays given to it are copied in."""
import itertools
import sys

import numpy as np

from mc import core, lib, zoo

JUNK = 1234.5


def arrays(e):
    """Array observables of an entity: name -> (array object, private copy, unit)."""
    out = []
    for n in lib.props(e):
        try:
            v = getattr(e, n)
        except NotImplementedError:
            continue
        if hasattr(v, "magnitude"):
            v = v.magnitude
        if hasattr(v, "as_quat"):
            out.append((n, v, np.array(v.as_quat())))
        elif isinstance(v, np.ndarray):
            out.append((n, v, np.array(v)))
    return out


def results(e):
    """Arrays a finished step hands out besides the state: the derivative and the trajectory samples."""
    d = e.dynamics
    return [(n, v, np.array(v)) for n, v in (("state_dot", e.state_dot), ("trajectory", getattr(d, "trajectory", None)), ("trajectory_t", getattr(d, "trajectory_t", None))) if isinstance(v, np.ndarray)]


def spoil(a):
    """Write into an array (or leave it when it cannot be written)."""
    try:
        if isinstance(a, np.ndarray):
            a[...] = JUNK
        elif isinstance(a, list):
            a[:] = [JUNK] * len(a)
        elif isinstance(a, dict):
            for k in list(a):
                a[k] = JUNK
    except (ValueError, TypeError):
        pass


class World:
    """One entity driven with shared arrays and its twin driven with private ones."""

    def __init__(self, kind, cfg, method, samples):
        K = zoo.KINDS[kind]
        kw = {"trajectory_samples": samples} if samples else {}
        self.K, self.m = K, K.ref(cfg)
        self.e, self.twin = K.make(cfg, None, method, **kw), K.make(cfg, None, method, **kw)
        self.kept = []
        self.results = []
        self.args = []
        self.zero = 0.25 if samples else 0.0  # sampling needs distinct times
        self.s = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
        self.u = zoo.mid_controls(kind, cfg)

    def arg(self, a):
        c = a.copy()
        self.args.append((a, c))
        return a

    def op(self, rec, name):
        e, t = self.e, self.twin
        if name == "read":
            self.kept += arrays(e)
        elif name == "write results":
            for _, a, _ in self.kept:
                spoil(a)
            self.kept = []
        elif name == "assign":
            s = self.s[1]
            e.state = self.arg(s.copy())
            t.state = s.copy()
        elif name == "assign view":
            big = np.zeros((2, len(self.s[2]) * 2))
            big[1, ::2] = self.s[2]
            v = big[1, ::2]
            self.args.append((v, v.copy()))
            e.state = v
            t.state = self.s[2].copy()
        elif name == "assign own":
            # the array read from the entity goes back in, and stays the caller's
            a = e.state
            self.args.append((a, a.copy()))
            e.state = a
            t.state = t.state.copy()
        elif name == "step array":
            u = self.u[1 % len(self.u)]
            zoo.step(e, 0.5, self.arg(u.copy()))
            zoo.step(t, 0.5, u.copy())
        elif name == "step limit":
            u = 3 * self.m.umax
            zoo.step(e, 0.5, self.arg(u.copy()))
            zoo.step(t, 0.5, u.copy())
        elif name == "step named":
            u = dict(zip(self.K.ctrl, [float(v) for v in 2 * self.u[-1]]))
            a = self.arg(dict(u))
            if self.K.ctrl:
                zoo.step(e, 0.5, a)
                zoo.step(t, 0.5, dict(u))
        elif name == "step list":
            u = [float(v) for v in -2.0 * self.m.umax]
            zoo.step(e, 0.5, self.arg(list(u)))
            zoo.step(t, 0.5, list(u))
        elif name == "step zero":
            zoo.step(e, self.zero, None)
            zoo.step(t, self.zero, None)
        elif name == "write arguments":
            for a, _ in self.args:
                spoil(a)
            self.args = []
        self.results += results(e)  # what this step handed out stays as it is in all later ones
        rec.transition()
        hist = self.hist
        for n, a, c in self.kept + self.results:
            v = a.as_quat() if hasattr(a, "as_quat") else a
            rec.check(zoo.identical(v, c), "a value read from the entity changed later", observable=n, op=name, history=hist, value=v, was=c)
        for a, c in self.args:
            rec.check(zoo.identical(a, c) if isinstance(a, np.ndarray) else a == c, "the library wrote into an argument", op=name, history=hist, value=a, was=c)
        d = lib.same_obs(lib.observe(e), lib.observe(t))
        rec.check(d is None, "the entity changed through an array it shares with the caller", observable=d, op=name, history=hist, state=e.state, want=t.state)


OPS = ["read", "write results", "assign", "assign view", "assign own", "step array", "step limit", "step named", "step list", "step zero", "write arguments"]


def histories(rec, kind, cfg, method, samples, depth):
    for h in itertools.product(OPS, repeat=depth):
        # interesting histories end by writing or stepping; every prefix of them is checked on the way
        if h[-1] not in ("write results", "write arguments", "step zero", "step array"):
            continue
        w = World(kind, cfg, method, samples)
        w.hist = h
        for name in h:
            w.op(rec, name)
        rec.state(kind, cfg, method, samples, h)
        rec.outcome(w.e.state)
    rec.trace(len(rec.states))
    rec.sample({"history": list(h), "state": w.e.state})


def setters(rec, kind, cfg):
    """Component setters copy values, also when they are given as arrays or taken from another entity's arrays."""
    K = zoo.KINDS[kind]
    names = [n for n in lib.props(K.make(cfg)) if n in K.names and getattr(type(K.make(cfg)), n).fset is not None]
    for n in names:
        for method in ("Euler", "RK45"):
            e = K.make(cfg, zoo.base_states(kind, cfg)[1], method)
            t = K.make(cfg, zoo.base_states(kind, cfg)[1], method)
            v = np.array(float(zoo.base_states(kind, cfg)[2][K.names.index(n)]))
            old = e.state
            pos = e.position
            c_old, c_pos = old.copy(), np.array(pos)
            setattr(e, n, v)
            setattr(t, n, float(v))
            rec.transition()
            rec.state(kind, n, method)
            rec.check(zoo.identical(old, c_old) and zoo.identical(pos, c_pos), "a component setter changed an array read earlier", component=n)
            spoil(v)
            rec.check(lib.same_obs(lib.observe(e), lib.observe(t)) is None, "writing to the value given to a setter changed the entity", component=n)
            zoo.step(e, 0.5)
            zoo.step(t, 0.5)
            rec.check(zoo.identical(old, c_old) and zoo.identical(pos, c_pos), "a step changed an array read earlier", component=n)
            rec.check(lib.same_obs(lib.observe(e), lib.observe(t)) is None, "entities diverge", component=n)
        # two entities given the same array do not share it
        s = np.array(zoo.base_states(kind, cfg)[1], float)
        a, b = K.make(cfg), K.make(cfg)
        a.state = s
        b.state = s
        before = lib.observe(b)
        setattr(a, n, 1.25)
        rec.check(lib.same_obs(lib.observe(b), before) is None, "two entities share one state array", component=n)
        b.state = a.state
        before = lib.observe(b)
        setattr(a, n, 2.25)
        rec.check(lib.same_obs(lib.observe(b), before) is None, "two entities share one state array", component=n)
    rec.transition()
    rec.state(kind, cfg)


def dynamics(rec, kind, cfg):
    """Dynamics models called directly: arguments are read only, results are the caller's."""
    K = zoo.KINDS[kind]
    for method in ("Euler", "RK45"):
        e = K.make(cfg, None, method)
        d = e.dynamics
        for s in zoo.base_states(kind, cfg):
            for u in zoo.mid_controls(kind, cfg):
                for T in (0.0, 0.5):
                    s0, u0 = np.array(s, float), np.array(u, float)
                    ref = [np.array(v) for v in d.step(T, s0.copy(), u0.copy())]
                    rdot = np.array(d.compute_state_dot(0, s0.copy(), u0.copy()))
                    for ro in (False, True):
                        a, b = s0.copy(), u0.copy()
                        if ro:
                            a.flags.writeable = b.flags.writeable = False
                        with zoo.quiet():
                            r = d.step(T, a, b)
                            dot = d.compute_state_dot(0, a, b)
                        rec.transition(2)
                        rec.state(kind, cfg, method, s0, u0, T, ro)
                        rec.check(zoo.identical(a, s0) and zoo.identical(b, u0), "a dynamics step wrote into its arguments", kind=kind, state=a, control=b)
                        keep = [np.array(r[0]), np.array(r[1]), np.array(dot)]
                        rec.check(zoo.identical(keep[0], ref[0]) and zoo.identical(keep[1], ref[1]) and zoo.identical(keep[2], rdot), "a repeated dynamics call differs", state=s0, control=u0, T=T)
                        if not ro:
                            a[...] = JUNK
                            b[...] = JUNK
                            rec.check(zoo.identical(r[0], keep[0]) and zoo.identical(r[1], keep[1]) and zoo.identical(dot, keep[2]), "a dynamics result shares memory with an argument", T=T, method=method)
                        with zoo.quiet():
                            d.step(0.25, 2 * s0, u0)
                        rec.check(zoo.identical(r[0], keep[0]) and zoo.identical(r[1], keep[1]) and zoo.identical(dot, keep[2]), "a later step changed an earlier dynamics result", T=T)
                        for v in (r[0], r[1], dot):
                            spoil(v)
    rec.trace()


def matrices(rec):
    """System matrices given to or taken from the library are the caller's."""
    from safe_autonomy_dynamics.cwh import generate_cwh_matrices
    from safe_autonomy_dynamics.integrators import generate_dynamics_matrices

    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics

    for use_jax, methods in ((False, ("RK45", "Euler")), (True, ("RK45", "Euler", "RK45_JAX"))):
        for method in methods:
            for x, u in itertools.product(([1.0, -2.0], [0.0, 0.5]), ([0.5], [-1.0])):
                A, B = np.array([[0.1, 1.0], [-1.0, 0.2]]), np.array([[0.5], [1.0]])
                A0, B0 = A.copy(), B.copy()
                dyn = BaseLinearODESolverDynamics(A=A, B=B, integration_method=method, use_jax=use_jax)
                want = lib.dstep(dyn, 0.5, x, u)
                rec.check(zoo.identical(A, A0) and zoo.identical(B, B0), "the library wrote into a system matrix", method=method)
                A[...] = JUNK
                B[...] = JUNK
                got = lib.dstep(dyn, 0.5, x, u)
                rec.transition(2)
                rec.state("matrix", use_jax, method, x, u)
                rec.check(zoo.identical(got[0], want[0]) and zoo.identical(got[1], want[1]), "writing to a system matrix changed the model", method=method, got=got, want=want)
    for gen, args in ((generate_cwh_matrices, [(3.0, 0.01, "2d"), (3.0, 0.01, "3d"), (12, 0.001027, "3d")]), (generate_dynamics_matrices, [(2.0, 0.5, k) for k in ("1d", "2d", "3d")])):
        for a in args:
            M = gen(*a)
            keep = [np.array(v) for v in M]
            for v in M:
                spoil(v)
            again = gen(*a)
            rec.transition(2)
            rec.state("generated", *a)
            rec.check(all(zoo.identical(x, y) for x, y in zip(again, keep)), "generated matrices are shared between callers", args=a)
    rec.trace()


def constructor(rec):
    """Inertia matrices and limit lists given to the six degree of freedom spacecraft."""
    K = zoo.KINDS["sixdof"]
    x = zoo.base_states("sixdof", "tri")[1]
    x[10:13] = [0.05, -0.2, 0.1]
    for method in ("RK45", "Euler"):
        for form in ("array", "list"):
            # wheels stronger than the body limits, weaker, and weaker on some axes
            for spoilt, wheel in itertools.product(("inertia_matrix", "ang_acc_limit", "ang_vel_limit"), ((0.01, 100.0, 50.0), (1e-4, 20.0, 30.0), (1e-3, 50.0, 60.0))):
                def args():
                    I = np.diag([0.05, 0.1, 0.2])
                    al = [0.5, 0.25, 0.125]
                    vl = [1.0, 2.0, 0.5]
                    if form == "array":
                        al, vl = np.array(al), np.array(vl)
                    return {"inertia_matrix": I, "ang_acc_limit": al, "ang_vel_limit": vl}

                kw = args()
                mk = lambda k: K.cls(name="e", integration_method=method, inertia_wheel=wheel[0], acc_limit_wheel=wheel[1], vel_limit_wheel=wheel[2], **k)  # noqa: E731
                e, t = mk(kw), mk(args())
                fresh = args()
                for n in kw:
                    rec.check(np.array_equal(np.array(kw[n]), np.array(fresh[n])), "the constructor wrote into an argument", argument=n)
                spoil(kw[spoilt])
                for ent in (e, t):
                    ent.state = np.array(x)
                    for u in ([0.1, 0.2, -0.3, 1e-3, 2e-3, -1e-3], [0, 0, 0, 1, 1, 1.0], [0, 0, 0, -1, -1, -1.0]):
                        for T in (0.5, 3.0):
                            zoo.step(ent, T, list(u))
                            rec.transition()
                rec.state(method, form, spoilt, wheel)
                d = lib.same_obs(lib.observe(e), lib.observe(t))
                rec.check(d is None, "writing to a constructor array afterwards changed the entity", argument=spoilt, form=form, method=method, observable=d)
    rec.trace()


def run(tier):
    th = tier == "thorough"
    sc = [("matrices", {}), ("constructor", {})]
    for k in zoo.KINDS:
        for c in zoo.KINDS[k].configs:
            sc.append(("setters", dict(kind=k, cfg=c)))
            sc.append(("dynamics", dict(kind=k, cfg=c)))
            if c != "default" and not th:
                continue
            for method, samples in (("Euler", 0), ("RK45", 0), ("RK45", 3)):
                if samples and not zoo.KINDS[k].samples:
                    continue
                sc.append(("histories", dict(kind=k, cfg=c, method=method, samples=samples, depth=(4 if th else 3) if method == "Euler" else 3 if th and k != "sixdof" else 2)))
    sc.sort(key=lambda s: -s[1].get("depth", 0))
    return core.run_check("C10", sys.modules[__name__], sc, assumptions=["histories of up to 4 operations from an alphabet of 11"])
