"""C06: a step is the model's flow over the whole duration (RK45, RK45_JAX), or exactly one Euler update."""
import itertools
import math
import sys

import numpy as np
from scipy.integrate import quad

from mc import core, lib, ref, zoo

INF = np.inf


def durations(kind):
    base = [0.01, 0.3, 1.0, 4.0, 20.0]
    if kind in ("cwh", "int1d", "int2d", "int3d", "sun"):
        base += [150.0, 1000.0]
    base += [2005.0, 10007.3]  # most of these turn more than once or meet a limit and are skipped
    if core._TIER == "thorough":
        base += [1e-6, 0.05, 0.7, 2.2, 9.0, 45.0]
    return base


def controls(kind, cfg):
    acts = zoo.mid_controls(kind, cfg)
    m = zoo.KINDS[kind].ref(cfg)
    if len(m.ctrl):
        acts = acts + [m.umin.copy(), m.umax.copy()]
        for i in range(len(m.ctrl)):
            u = np.zeros(len(m.ctrl))
            u[i] = m.umax[i] if i % 2 else m.umin[i]
            acts.append(u)
    return acts


def end_derivative(rec, m, got, dot, u, **info):
    tol = 3e-6 * m.fmag(got, u) + 1e-9 + m.slack(got, u)
    want = m.limited(got, u)
    near = lib.at_limit(m, got)
    ok = np.abs(dot - want) <= tol
    raw = np.clip(m.f(got, u), m.dlo, m.dhi)
    ok |= near & ((np.abs(dot - raw) <= tol) | (dot == 0))
    ok |= lib.wrapped_limit(m, got) & (dot == 0)
    rec.check(bool(np.all(ok)), "the derivative reported with the step is not the model's at the end of the step", state=got, got=dot, want=want, **info)


def rk45(rec, kind, cfg):
    """Entity steps against the exact flow; the same duration split into several steps; every start is also reached by a first step."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg)
    starts = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
    splits = ((1.0, ), (0.5, 0.5), (0.1, 0.2, 0.7), (1 / 7, ) * 7)
    for s0, u, T in itertools.product(starts, controls(kind, cfg), durations(kind)):
        if lib.rotation(m, s0, u, T) > lib.TWO_PI:
            rec.note("skipped: more than one turn")
            continue
        if T > 1000 and (kind == "cwh" and m.n * T > 13 or len(u) and np.any(u) and kind in ("rot2d", "sixdof", "dubins2d", "dubins3d")):
            rec.note("skipped: long and powered")
            continue
        x1, info = m.flow(s0, u, T)
        if x1 is None or info["cross"]:
            rec.note("limit met inside (see limit grid)")
            continue
        S = lib.step_scale(m, s0, u, T, x1)
        want = m.finish(x1)
        for sp in splits:
            e.state = s0
            for frac in sp:
                with core.time_limit(60, "step"):
                    zoo.step(e, frac * T, u.copy())
                rec.transition()
            got = np.asarray(e.state, float)
            d = np.abs(m.angle_diff(got, want)) / S
            rec.maxnote("error in tolerances", float(d.max()) / len(sp)**0.5)
            rec.check(
                bool(np.all(d <= lib.FACTOR * (1 + 0.2 * len(sp)))), "a step (or its split) is not the model's flow", start=s0, control=u, T=T, split=sp, got=got, want=want,
                error=float(d.max())
            )
            rec.trace()
            end_derivative(rec, m, got, np.asarray(e.state_dot, float), u, start=s0, T=T, split=sp)
            rec.state(kind, cfg, s0, u, T, sp)
            rec.outcome(got)
        # zero length
        e.state = s0
        zoo.step(e, 0.0, u.copy())
        rec.transition()
        rec.check(zoo.close(e.state, m.finish(s0), 1e-12, 1e-12), "a zero length step changes the state", start=s0, control=u, got=e.state)
        end_derivative(rec, m, np.asarray(e.state, float), np.asarray(e.state_dot, float), u, start=s0, T=0)
    rec.sample({"start": s0, "control": u, "T": T, "state": got})


def exact(rec, kind, method):
    """Motions that are polynomials of low degree in time come out exactly, however long or oddly long the step, also backwards (any Runge-Kutta solver is exact on them)."""
    K = zoo.KINDS[kind]
    m = K.ref("default")
    e = K.make("default", None, method)
    grid = [1e-6, 1e-3, 0.07, 1 / 3, 0.9999, 1.0001, 2.5, math.pi, 9.99, 10.01, 17.3, 59.99, 60.01, 99.9, 123.456, 255.5, 999.9, 1024.7, 2005.0, 3599.5, 3601.1, 10007.3, 86399.9, 123456.7, 1e6 + 3.3, -1e-6, -0.3, -1.0, -7.3, -60.0, -3599.5]
    n = len(m.ctrl)
    for T in grid:
        cases = []
        if kind == "sun":
            cases = [(np.array([v]), np.zeros(0)) for v in (0.0, 1.5, -2.0)]
        elif kind.startswith("int"):
            d = len(m.names) // 2
            for x, v, a in itertools.product((0.0, -7.0), (0.0, 1.5), (0.0, 1.0, -0.5)):
                cases.append((np.array([x] * d + [v] * d), np.full(d, a)))
        elif kind.startswith("dubins"):
            v = zoo.base_states(kind, "default")[1][-1]
            for h in (0.0, 0.7, -2.0):
                x = np.zeros(len(m.names))
                x[m.names.index("heading")], x[-1] = h, v
                cases.append((x, np.zeros(n)))
        elif kind == "rot2d":
            for w in (0.0, 0.003):  # at rest in orbit, turning at a constant rate
                cases.append((np.array([0.0, 0, 0.5, 0, 0, w]), np.zeros(n)))
        else:
            cases.append((np.array(zoo.base_states(kind, "default")[0], float), np.zeros(n)))
        for x, u in cases:
            e.state = x
            with core.time_limit(60, "step"):
                zoo.step(e, T, u.copy() if n else None)
            rec.transition()
            rec.trace()
            rec.state(kind, method, x, u, T)
            f0 = m.f(x, u)
            want = x + T * f0
            if kind.startswith("int") and method == "RK45":
                d = len(u)
                want[:d] += 0.5 * T * T * u / m.m
            want = m.finish(want)
            got = np.asarray(e.state, float)
            tol = (1e-9 if kind[:3] in ("int", "sun") else 1e-6) * (1e-3 + np.abs(x) + abs(T) * np.abs(f0).max() + (T * T if np.any(u) else 0)) * np.ones(len(x))
            if kind.startswith("int"):
                tol[len(u):] = 1e-9 * (1e-3 + np.abs(x).max() + abs(T) * np.abs(u).max())
            rec.check(bool(np.all(np.abs(m.angle_diff(got, want)) <= tol)), "a straight or uniformly accelerated step is not exact", start=x, control=u, T=T, got=got, want=want, method=method)
            rec.outcome(got)


def tiny(rec, kind, cfg, method):
    """Steps of 1e-5 s down to 1e-11 s move the state by the duration times the derivative, and a hundred of them by a hundred times that."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg, None, method)
    starts = []
    for s in zoo.base_states(kind, cfg):
        s = np.array(s, float)
        z = s.copy()
        z[[i for i, n in enumerate(m.names) if n in ("x", "y", "z", "heading", "theta")]] = 0.0
        starts += [s, z]
    for s0, u, T, n in itertools.product(starts, controls(kind, cfg)[:4], (1e-5, 1e-6, 3e-7, 1e-7, 1e-8, 1e-9, 1e-11), (1, 100)):
        if n > 1 and T > 1e-7 or not lib.in_limits(m, s0):
            continue
        e.state = s0
        for _ in range(n):
            zoo.step(e, T, u.copy() if len(u) else None)
            rec.transition()
        rec.trace()
        got = np.asarray(e.state, float)
        f = m.limited(s0, u)
        tol = 1e-4 * n * T * m.fmag(s0, u) + n * T * 1e-12 + n * 1e-15 * (np.abs(s0) + np.isfinite(m.wrap) * 2 * math.pi) + n * T * m.slack(s0, u)
        tol += n * T * np.abs(m.f(s0 + n * T * f, u) - m.f(s0, u))
        tol[np.asarray(lib.at_limit(m, s0))] = INF
        d = m.angle_diff(got, s0)
        rec.check(bool(np.all(np.abs(d - n * T * f) <= tol)), "a very short step does not move the state by duration times derivative", start=s0, control=u, T=T, steps=n, got=d, want=n * T * f, method=method)
        rec.state(kind, cfg, method, s0, u, T, n)
        rec.outcome(got)


def spelled(rec, kind, method):
    """The same duration as an int, a float or a NumPy number is the same step."""
    K = zoo.KINDS[kind]
    e = K.make("default", None, method)
    for s0, u in itertools.product([np.array(s, float) for s in zoo.base_states(kind, "default")], controls(kind, "default")[:3]):
        for n in (0, 1, 2, 7):
            want = None
            for T in (float(n), n, np.int64(n), np.float64(n), np.float32(n), np.array(float(n))):
                e.state = s0
                zoo.step(e, T, u.copy() if len(u) else None)
                rec.transition()
                got = np.asarray(e.state, float), np.asarray(e.state_dot, float)
                want = want or got
                rec.check(zoo.same(got[0], want[0]) and zoo.same(got[1], want[1]), "the type of the duration changes the step", T=repr(T), start=s0, control=u, got=got, want=want)
                rec.state(kind, method, s0, u, n, type(T).__name__)
            rec.trace()
    rec.outcome(kind, method)


def changing(rec, kind, cfg):
    """Two step histories with a different command and duration in each step: the flow of one from the end of the other."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg)
    durs = (0.3, 2.0) if kind != "sixdof" else (0.5, )
    acts = controls(kind, cfg)[1:5] if len(m.ctrl) else controls(kind, cfg)
    for s0 in [np.array(s, float) for s in zoo.base_states(kind, cfg)[1:]]:
        for (u1, T1), (u2, T2) in itertools.product(itertools.product(acts, durs), repeat=2):
            e.state = s0
            zoo.step(e, T1, u1.copy())
            mid = np.asarray(e.state, float)
            zoo.step(e, T2, u2.copy())
            rec.transition(2)
            got = np.asarray(e.state, float)
            if lib.rotation(m, mid, u2, T2) > lib.TWO_PI:
                continue
            r = lib.flow_ok(m, mid, u2, T2, got)
            if r is None:
                continue
            rec.trace()
            rec.check(r[0], "the second step of a history is not the model's flow from where the first one ended", start=mid, control=u2, T=T2, got=got, want=r[2], error=r[1])
            rec.state(kind, cfg, s0, u1, T1, u2, T2)


def euler(rec, kind, cfg):
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg, None, "Euler")
    for s0 in [np.array(s, float) for s in zoo.base_states(kind, cfg)]:
        frontier = [s0]
        for depth in range(2):
            nxt = []
            for s in frontier:
                for u, T in itertools.product(controls(kind, cfg), durations(kind) + [0.0]):
                    e.state = s
                    zoo.step(e, T, u.copy())
                    rec.transition()
                    rec.trace()
                    got = np.asarray(e.state, float)
                    rec.check(
                        lib.euler_ok(m, s, u, T, got), "an Euler step is not x + T f(x, u) with limiting and wrapping", start=s, control=u, T=T, got=got,
                        want=lib.euler_expect(m, s, u, T)
                    )
                    end_derivative(rec, m, got, np.asarray(e.state_dot, float), u, start=s, T=T)
                    if rec.state(kind, cfg, got) and T in (0.3, 4.0):
                        nxt.append(got)
                    rec.outcome(got)
            frontier = nxt


LIN = {
    "oscillator": ([[0, 1], [-4, 0]], [[0], [1]]),
    "damped": ([[0, 1], [-2, -3]], [[0, 1], [1, 0]]),
    "unstable": ([[0.5, 1], [0, 0.25]], [[0], [1]]),
    "stiffish": ([[-40, 1], [0, -0.5]], [[1], [1]]),
    "scalar": ([[-0.7]], [[2.0]]),
    "chain": ([[0, 1, 0], [0, 0, 1], [0, 0, 0]], [[0], [0], [1]]),
}


def linear(rec, name, method):
    """User linear models against the matrix exponential."""
    A, B = LIN[name]
    jax = method == "RK45_JAX"
    n, k = len(A), len(B[0])
    dyn, m = lib.lin(A, B, method=method, use_jax=jax)
    sig = np.linalg.norm(A, 2)
    for x in itertools.product((-2.0, 0.0, 3.5), repeat=n):
        for u in itertools.product((-1.0, 0.0, 0.75), repeat=k):
            for T in (0.0, 0.02, 0.5, 2.0, 6.0):
                if jax and (T == 0.0 or sum(v == 0 for v in x) == 1):
                    continue
                if sig * T > 12 and name != "stiffish" and method != "Euler":
                    continue
                xa, ua = np.array(x), np.array(u)
                got, dot = lib.dstep(dyn, T, xa, ua)
                rec.transition()
                rec.trace()
                rec.state(name, method, x, u, T)
                rec.outcome(got)
                if method == "Euler":
                    want, S = xa + T * (m.A @ xa + m.B @ ua), 1e-11 * (1 + np.abs(xa) + T * m.fmag(xa, ua))
                    d = np.abs(got - want) / S
                else:
                    want = m.flow(xa, ua, T)[0]
                    # components share one step size: judge with the common magnitude, amplified by the model's growth
                    mid = m.flow(xa, ua, T / 2)[0]
                    mag = max(np.abs(xa).max(), np.abs(want).max(), np.abs(mid).max()) + T * max(m.fmag(xa, ua).max(), m.fmag(want, ua).max(), m.fmag(mid, ua).max())
                    S = (1e-6 + (2e-5 if jax else 1e-3) * mag) * math.exp(0.5 * T if name == "unstable" else 0)
                    d = np.abs(got - want) / S
                    rec.maxnote(f"error in tolerances {method}", float(d.max()))
                lim = 1.0 if method == "Euler" else lib.FACTOR
                rec.check(bool(np.all(d <= lim)), "a linear model's step is not its flow", model=name, start=x, control=u, T=T, got=got, want=want, error=float(d.max()))
                wd = m.A @ got + m.B @ ua
                rec.check(np.all(np.abs(dot - wd) <= (2e-5 if jax else 1e-9) * (1 + np.abs(m.A) @ np.abs(got) + np.abs(m.B) @ np.abs(ua))), "the reported derivative is not the model's at the end of the step", model=name, got=dot, want=wd, T=T, start=x)


def stiff(rec, rate):
    """Fast decay towards a commanded value over steps that take the solver thousands of evaluations: the exact flow, to the solver's tolerance."""
    dyn, m = lib.lin([[-rate, 0.0], [1.0, 0.0]], [[rate], [0.0]])
    for x, u, T in itertools.product((-2.0, 0.0, 1.0, 30.0), (0.0, 1.0, -4.0), (0.0, 0.1, 0.5, 1.0, 2.0, 4.0)):
        if rate * T > 12000:
            continue
        got, dot = lib.dstep(dyn, T, [x, 0.5], [u])
        d = math.exp(-rate * T)
        want = np.array([u + (x - u) * d, 0.5 + u * T + (x - u) * (1 - d) / rate])
        tol = 5 * (1e-6 + 1e-3 * np.array([max(abs(want[0]), abs(x) * (T == 0), abs(u), abs(x - u) * (rate * T < 20)), abs(want[1]) + abs(u) * T + abs(x - u) / rate]))
        rec.transition()
        rec.trace()
        rec.check(bool(np.all(np.abs(got - want) <= tol)), "a step of many evaluations is not the model's flow", rate=rate, start=x, control=u, T=T, got=got, want=want)
        rec.maxnote("stiff error in tolerances", float(np.max(np.abs(got - want) / tol)))
        wd = np.array([rate * (u - got[0]), got[0]])
        rec.check(bool(np.all(np.abs(dot - wd) <= 1e-9 * (1 + rate * (abs(u) + np.abs(got).max())))), "the reported derivative is not the model's at the end of the step", rate=rate, got=dot, want=wd, T=T, start=x)
        rec.state(rate, x, u, T)
        rec.outcome(got)


def rated(rec, method):
    """Rate limited ramps: the flow of the limited model is a slower ramp."""
    jax = method == "RK45_JAX"
    for dlo, dhi in ((-0.5, 0.75), ([-0.5, -INF, -0.25], [INF, 0.25, 0.75])):
        dyn, m = lib.lin(np.zeros((3, 3)), np.eye(3), dlo=dlo, dhi=dhi, method=method, use_jax=jax)
        for u in itertools.product((-2.0, -0.1, 0.0, 0.6, 4.0), repeat=3):
            if jax and u[0] != u[1] and u[1] != u[2]:
                continue
            for T in (0.25, 8.0):
                got, dot = lib.dstep(dyn, T, [1.0, -2.0, 0.5], u)
                rec.transition()
                rec.trace()
                rate = np.minimum(np.maximum(np.array(u), m.dlo), m.dhi)
                rec.check(zoo.close(got, np.array([1.0, -2.0, 0.5]) + T * rate, 3e-6 if jax else 1e-9, 3e-6 if jax else 1e-9), "a rate limited step is not the limited model's flow", control=u, T=T, got=got)
                rec.check(zoo.close(dot, rate, 1e-6, 1e-6), "the reported derivative is not rate limited", control=u, got=dot)
                rec.state(method, u, T)


def timed(rec, method):
    """User models with explicit time: time runs from 0 to the duration within each step, and the reported derivative is at its end."""
    models = {
        "cos t": (lambda t, x, u: np.array([math.cos(t) + u[0], t]), lambda t, u: (math.sin(t) + u[0] * t, t * t / 2)),
        "ramp": (lambda t, x, u: np.array([2 * t, u[0] * t * t]), lambda t, u: (t * t, u[0] * t**3 / 3)),
    }
    for name, (fn, sol) in models.items():
        dyn = lib.custom_ode(fn, integration_method=method)
        long = (0.0, 1e-3, 0.1, 1.0, 3.0, 10.0, 45.0, 61.0, 100.0, 700.0, 4000.0) if name == "ramp" or method == "Euler" else (0.0, 1e-3, 0.1, 1.0, 3.0)
        for x, u, T in itertools.product(((0.0, 0.0), (5.0, -3.0)), (0.0, -0.5, 2.0), long):
            nx = np.array(x)
            for k in range(2):
                x0 = nx
                nx, nd = lib.dstep(dyn, T, x0, [u])
                rec.transition()
                rec.trace()
                rec.state(name, method, x, u, T, k)
                rec.outcome(nx)
                dx = np.array(sol(T, [u])) if method == "RK45" else T * fn(0.0, x0, [u])
                tol = 1e-10 * (1 + np.abs(x0)) if method == "Euler" else lib.FACTOR * (1e-6 + 1e-3 * (np.abs(x0) + np.abs(dx) + T * np.abs(fn(T, x0, [u]))))
                rec.check(bool(np.all(np.abs(nx - x0 - dx) <= tol)), "a model with explicit time is not integrated over the step", model=name, start=x0, control=u, T=T, got=nx, want=x0 + dx)
                wd = fn(T, nx, [u])
                rec.check(zoo.close(nd, wd, 1e-9, 1e-9), "the reported derivative is not taken at the end of the step", model=name, got=nd, want=wd, T=T)


class Pend(ref.Model):
    names = ("a", "w")
    ctrl = ("f", )

    def f(self, x, u):
        return np.array([x[1], -math.sin(x[0]) + u[0] * math.cos(x[0])])

    def fmag(self, x, u):
        return np.array([abs(x[1]), 1 + abs(u[0])])

    def ramps(self, x, u):
        return None


def affine(rec, method):
    """A nonlinear control affine user model (state dependent input matrix)."""
    m = Pend()
    dyn = lib.custom_affine(
        lambda s: np.array([s[1], -np.sin(s[0])]), lambda s: np.array([[0.0], [np.cos(s[0])]]), integration_method=method
    )
    for x, u, T in itertools.product(itertools.product((-2.0, 0.3, 1.2), (-1.0, 0.0, 0.8)), (-0.5, 0.0, 1.5), (0.05, 0.8, 3.0)):
        got, dot = lib.dstep(dyn, T, x, [u])
        rec.transition()
        rec.trace()
        rec.state(method, x, u, T)
        rec.outcome(got)
        x = np.array(x)
        if method == "Euler":
            rec.check(zoo.close(got, x + T * m.f(x, [u]), 1e-12, 1e-12), "an Euler step of a control affine model is wrong", start=x, control=u, T=T, got=got)
        else:
            r = lib.flow_ok(m, x, [u], T, got)
            rec.check(r is None or r[0], "a control affine model's step is not its flow", start=x, control=u, T=T, got=got, want=r and r[2])
        rec.check(zoo.close(dot, m.f(got, [u]), 1e-9, 1e-9), "the reported derivative is not the model's at the end of the step", got=dot, start=x, T=T)


VALID = ("RK45", "Euler", "RK45_JAX")


def misspelt():
    """Names that are not methods: every name one edit away from a method's name, its prefixes, longer names, and others."""
    out = ["rk45", "euler", "EULER", "", "DOP853", "RK23", "Radau", "BDF", "LSODA", "RK45_jax", "Euler_implicit", "Eulerian", "RK45_adaptive", "RK45_JAXED", "JAX", "_JAX", None, 45]
    for v in VALID:
        for i in range(len(v) + 1):
            out.append(v[:i])
            out += [v[:i] + c + v[i:] for c in "a1_ "]
        for i in range(len(v)):
            out += [v[:i] + v[i + 1:], v[:i] + v[i].swapcase() + v[i + 1:], v[:i] + "x" + v[i + 1:], v[i:] if i else v + v]
        out += [v.lower(), v.upper(), v + "\n", " " + v, v + "2", v[::-1]]
    return sorted({o for o in out if isinstance(o, str) and o not in VALID}) + [o for o in out if not isinstance(o, str)]


def methods(rec):
    """Unknown method names are rejected and leave the entity as it was; the jax integrator needs the jax backend."""
    names = misspelt()
    for n, (kind, K) in enumerate(zoo.KINDS.items()):
        for bad in names if core._TIER == "thorough" or n < 2 else names[n % 7::7] + ["Eulerian", "RK45x", "rk45", "", None]:
            for T in (0.0, 0.5):
                raised = False
                e = None
                before = None
                try:
                    e = K.make("default", None, bad)
                    before = (e.state, np.array(e.state_dot))
                    zoo.step(e, T)
                except Exception:  # noqa: B902
                    raised = True
                rec.transition()
                rec.state(kind, str(bad), T)
                rec.check(raised, "an unknown integration method is accepted", kind=kind, method=repr(bad), T=T)
                if before:
                    rec.check(zoo.identical(e.state, before[0]) and zoo.identical(e.state_dot, before[1]), "a rejected method changed the entity", kind=kind, method=repr(bad))
    rec.trace()


# --- a limit is first met inside (or at the end of) the step -----------------------------------------------------------
def limit_grid():
    """Fixed inputs whose RK45 step meets a state limit: (key, kind or 'lin', config, start, control, T)."""
    out = []
    for v0, a, T in itertools.product((210.0, 390.0), (2.0, -2.0, 20.0), (4.0, 12.0, 40.0, 200.0)):
        out.append(("dubins2d", "default", [0.0, 0.0, 0.5, v0], [0.0, a], T))
    out.append(("dubins2d", "default", [0.0, 0.0, 0.0, 200.0], [0.0, 2.0], 200.0))
    for wr, a, T in itertools.product((0.05, -0.1), (40.0, -96.5), (2.0, 15.0)):
        out.append(("dubins2d", "default", [10.0, -20.0, 1.0, 300.0], [wr, a], T))
    for g, r, a, T in ((0.1, 0.05, 0.0, 10.0), (-0.1, -0.05, 5.0, 8.0), (0.17, 0.0, 50.0, 5.0), (0.0, 0.08, -60.0, 12.0)):
        out.append(("dubins3d", "default", [0.0, 0.0, 100.0, 0.3, 0.05, -0.1, 280.0], [g, r, a], T))
    for w0, mz, T in ((0.01, 0.0005, 10.0), (-0.02, -0.001, 5.0), (0.0, 0.001, 40.0)):
        out.append(("rot2d", "default", [100.0, -50.0, 0.75, 0.5, -1.0, w0], [1.0, -0.5, mz], T))
    for T in (1.0, 3.0):
        out.append(("rot2d", "agile", [100.0, -50.0, 0.75, 0.5, -1.0, -0.5], [1.0, 0.5, -0.1], T))
    for mom, T in (([0.0005, 0.0, 0.0], 30.0), ([0.001, -0.0005, 0.0005], 10.0)):
        out.append(("sixdof", "default", [100.0, -50.0, 25.0, 0.0, 0.0, 0.0, 1.0, 0.5, -1.0, 0.25, 0.01, -0.01, 0.02], [1.0, 0.5, -0.5] + mom, T))
    return [("/".join([k, c, ",".join(f"{v:g}" for v in x), ",".join(f"{v:g}" for v in u), f"{T:g}"]), k, c, x, u, T) for k, c, x, u, T in out]


def limit_error(kind, cfg, x, u, T):
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg, x)
    with core.time_limit(120, "step"):
        zoo.step(e, T, np.array(u, float))
    got = np.asarray(e.state, float)
    x1, _ = m.flow(x, u, T)
    want = m.finish(x1)
    S = lib.step_scale(m, np.array(x, float), np.array(u, float), T, x1)
    d = np.abs(m.angle_diff(got, want)) / S
    return float(d.max()), got, want


def limits(rec, part):
    known = core.known_findings("C06")
    for j, (key, kind, cfg, x, u, T) in enumerate(limit_grid()):
        if j % part[1] != part[0]:
            continue
        err, got, want = limit_error(kind, cfg, x, u, T)
        rec.transition()
        rec.trace()
        rec.state(key)
        rec.outcome(got)
        rec.maxnote("error in tolerances (limit met inside)", err)
        if err <= lib.FACTOR:
            continue
        if key in known and err <= 2 * known[key][0]:
            rec.known.append((key, known[key][1]))
            continue
        rec.fail("a step that meets a state limit is not the limited model's flow", input=key, got=got, want=want, error=err)


def run(tier):
    sc = []
    for k in zoo.KINDS:
        for c in zoo.KINDS[k].configs:
            sc.append(("rk45", dict(kind=k, cfg=c)))
            sc.append(("changing", dict(kind=k, cfg=c)))
            sc.append(("euler", dict(kind=k, cfg=c)))
            sc += [("tiny", dict(kind=k, cfg=c, method=method)) for method in ("Euler", "RK45")]
        for method in ("RK45", "Euler"):
            sc.append(("spelled", dict(kind=k, method=method)))
            sc.append(("exact", dict(kind=k, method=method)))
    for n in LIN:
        for method in ("RK45", "Euler", "RK45_JAX"):
            sc.append(("linear", dict(name=n, method=method)))
    for method in ("RK45", "Euler"):
        sc.append(("timed", dict(method=method)))
        sc.append(("affine", dict(method=method)))
    for method in ("RK45", "Euler", "RK45_JAX"):
        sc.append(("rated", dict(method=method)))
    sc.append(("methods", {}))
    sc += [("stiff", dict(rate=r)) for r in (20.0, 300.0, 2500.0, 11000.0)]
    sc += [("limits", dict(part=[p, 8])) for p in range(8)]
    sc.sort(key=lambda s: (s[0] != "limits", s[1].get("method") != "RK45_JAX", s[1].get("kind") != "sixdof", s[0] != "rk45"))
    return core.run_check("C06", sys.modules[__name__], sc, assumptions=[
        "RK45 is judged within 5x the solver's own tolerance scale, up to one full turn of attitude per step",
        "inputs whose step meets a state limit are judged on a fixed grid, with known findings listed one by one",
    ])
