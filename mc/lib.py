"""Shared pieces of the checks: user-built models, step tolerances, bounded lockstep search."""
import itertools
import math

import numpy as np

from mc import core, ref, zoo


def lin(A, B, lo=-np.inf, hi=np.inf, dlo=-np.inf, dhi=np.inf, wrap=None, method="RK45", use_jax=False, **kw):
    """(dynamics object of the code under test, its reference model) for dx/dt = A x + B u."""
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics

    A, B = np.array(A, float), np.array(B, float)

    def lim(v):
        return v if np.isscalar(v) else np.array(v, float)

    dyn = BaseLinearODESolverDynamics(
        A=A, B=B, state_min=lim(lo), state_max=lim(hi), state_dot_min=lim(dlo), state_dot_max=lim(dhi),
        angle_wrap_centers=None if wrap is None else np.array(wrap, float), integration_method=method, use_jax=use_jax, **kw
    )
    return dyn, ref.Lin(A, B, lo=lo, hi=hi, dlo=dlo, dhi=dhi, wrap=wrap)


def dstep(dyn, T, x, u):
    """One dynamics step on copies of the arguments, as float64 arrays."""
    with zoo.quiet():
        a, b = dyn.step(T, np.array(x, float), np.array(u, float))
    return np.asarray(a, float), np.asarray(b, float)


def limit_slack(m):
    """Configured limits may be held in single precision."""
    f = lambda v: np.where(np.isfinite(v), 2e-7 * (np.abs(np.where(np.isfinite(v), v, 0.0)) + 1e-3), 0.0)  # noqa: E731
    return f(m.lo), f(m.hi)


def in_limits(m, x):
    a, b = limit_slack(m)
    return bool(np.all(x >= m.lo - a) and np.all(x <= m.hi + b))


def at_limit(m, x, rel=1e-6):
    """Components so close to a limit that single precision does not tell on which side they are."""
    out = np.zeros(len(m.lo), bool)
    for lim in (m.lo, m.hi):
        fin = np.isfinite(lim)
        d = np.abs(np.where(fin, x - np.where(fin, lim, 0.0), np.inf))
        out |= d <= rel * (1 + np.abs(np.where(fin, lim, 0.0)))
    return out


def euler_tol(m, x, u, T):
    return 2e-6 * (np.abs(x) + T * m.fmag(x, u)) + T * m.slack(np.asarray(x, float), u) + 1e-9


def euler_expect(m, x, u, T):
    return m.finish(np.asarray(x, float) + T * m.limited(np.asarray(x, float), u))


def euler_ok(m, x, u, T, got, comps=None):
    """got is one explicit Euler update; a component that is at a limit to single precision may or may not be blocked."""
    x = np.asarray(x, float)
    tol = euler_tol(m, x, u, T)
    d = np.abs(m.angle_diff(got, euler_expect(m, x, u, T)))
    ok = d <= tol
    near = at_limit(m, x) & ~ok
    if near.any():
        free = m.finish(x + T * np.clip(m.f(x, u), m.dlo, m.dhi))
        held = m.finish(x)
        alt = np.minimum(np.abs(m.angle_diff(got, free)), np.abs(m.angle_diff(got, held)))
        ok = ok | (near & (alt <= tol))
    return bool(np.all(ok if comps is None else ok[list(comps)]))


def step_scale(m, x0, u, T, x1):
    """Per component error scale of an adaptive step with rtol 1e-3, atol 1e-6 (calibrated, see DESIGN.md)."""
    big = np.maximum(np.abs(x0), np.abs(x1))
    rate = (m.fmag(x0, u) + m.fmag(x1, u)) / 2
    return 1e-6 + 1e-3 * (big + T * rate)


FACTOR = 5.0


def flow_ok(m, x0, u, T, got, factor=FACTOR):
    """None when the flow is not decidable to solver tolerance here (a limit is first met inside the step), else (ok, worst ratio, want)."""
    x1, info = m.flow(x0, u, T)
    if x1 is None or info["cross"]:
        return None
    S = step_scale(m, x0, u, T, x1)
    # components that couple through the solver's common step size share its error through the dynamics
    want = m.finish(x1)
    d = np.abs(m.angle_diff(got, want)) / S
    return bool(np.all(d <= factor)), float(np.max(d)), want


def rotation(m, x, u, T):
    """Upper estimate of the total angle turned during a step (step-level comparisons are calibrated up to about one turn)."""
    f = np.abs(m.fmag(x, u))
    n = m.names
    if "heading" in n:
        return float(f[n.index("heading")] * T)
    if "theta" in n and "wz" in n:
        return float((abs(x[5]) + f[5] * T) * T)
    if "wx" in n:
        return float(np.linalg.norm(np.abs(x[10:13]) + f[10:13] * T) * T)
    return 0.0


TWO_PI = 2 * math.pi


def custom_ode(fn, **kw):
    """User model dx/dt = fn(t, x, u) built on the library's general ODE base class (its single abstract method is the extension point)."""
    from safe_autonomy_dynamics.base_models import BaseODESolverDynamics

    body = {name: (lambda self, t, x, u: fn(t, x, u)) for name in BaseODESolverDynamics.__abstractmethods__}
    return type("UserModel", (BaseODESolverDynamics, ), body)(**kw)


def custom_affine(f, g, **kw):
    """User model dx/dt = f(x) + g(x) u on the control affine base class."""
    from safe_autonomy_dynamics.base_models import BaseControlAffineODESolverDynamics

    class UserAffine(BaseControlAffineODESolverDynamics):

        def state_transition_system(self, state):
            return f(state)

        def state_transition_input(self, state):
            return g(state)

    return UserAffine(**kw)


def wrapped_limit(m, x):
    """Angles limited beyond a half turn that sit at their limit before wrapping but inside after it."""
    out = np.zeros(len(m.lo), bool)
    for i in range(len(out)):
        for lim in (m.lo[i], m.hi[i]):
            if np.isfinite(m.wrap[i]) and np.isfinite(lim) and abs(lim) > math.pi and abs(math.sin((x[i] - lim) / 2)) < 1e-6:
                out[i] = True
    return out


def props(e, array_only=False):
    """Names of the public observables of an entity."""
    cls = type(e)
    return [n for n in dir(cls) if not n.startswith("_") and isinstance(getattr(cls, n, None), property)]


def plainval(v):
    """A comparable copy of an observable's value."""
    if hasattr(v, "magnitude") and hasattr(v, "units"):
        return (str(v.units), np.array(v.magnitude, float))
    if hasattr(v, "as_quat"):
        return np.array(v.as_quat(), float)
    return np.array(v, float)


def observe(e):
    """Every public observable of an entity (name -> copy of its value); observables an entity does not offer are left out."""
    out = {}
    for n in props(e):
        try:
            out[n] = plainval(getattr(e, n))
        except NotImplementedError:
            continue
    out["state_dot"] = np.array(e.state_dot, float)
    return out


def same_obs(a, b):
    """Bit for bit equal observations; returns the name of the first that differs, or None."""
    if set(a) != set(b):
        return str(set(a) ^ set(b))
    for n in a:
        x, y = a[n], b[n]
        if isinstance(x, tuple):
            if x[0] != y[0] or not zoo.identical(x[1], y[1]):
                return n
        elif not zoo.identical(x, y):
            return n
    return None


def pristine(fn):
    """Result of fn() computed in a forked child of this process (state of the library as it is now, left untouched here)."""
    import os
    import pickle
    import traceback

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            try:
                data = pickle.dumps((True, fn()))
            except BaseException:  # noqa: B902
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    ok, res = pickle.loads(data)
    if not ok:
        e = RuntimeError(res)
        e._code_under_test = True
        raise e
    return res


def control_limits(rec, e, m, **info):
    """The command limits an entity announces and enforces (a warning for a command outside them) are the documented ones."""
    lo, hi = np.asarray(e.control_min, float), np.asarray(e.control_max, float)
    k = len(m.ctrl)
    lo, hi = np.broadcast_to(lo, k), np.broadcast_to(hi, k)
    ok = bool(np.all(np.abs(lo - m.umin) <= 1e-9 * np.abs(m.umin)) and np.all(np.abs(hi - m.umax) <= 1e-9 * np.abs(m.umax)))
    rec.check(ok, "the command limits are not the documented ones", got=[lo, hi], want=[m.umin, m.umax], **info)
    keep = e.state
    for i, (b, s) in itertools.product(range(k), ((m.umin, -1), (m.umax, 1))):
        if not np.isfinite(b[i]) or b[i] == 0:
            continue
        for f, warned in ((0.999, False), (1.001, True)):
            u = np.zeros(k)
            u[i] = b[i] * f
            with zoo.quiet() as q:
                e.step(1e-3, u)
            rec.transition()
            rec.check(bool(q.user) == warned, "a command beyond the limit is not reported or one inside is", channel=m.ctrl[i], value=u[i], limit=b[i], **info)
            e.state = keep


# --- parameter and magnitude sweeps ------------------------------------------------------------------------------------
DEC = [10.0**k for k in range(-9, 7)]


def _signed(vals):
    return [0.0] + [s * v for v in vals for s in (1, -1)]


def sweep_params(kind, th):
    """{constructor parameter: values over many orders of magnitude}."""
    pos = [10.0**k for k in range(-4, 7)] + [0.3, 7.5, 42.0]
    n = _signed([1e-9, 1e-7, 1e-6, 1e-5, 7.292e-5, 1e-4, 5e-4, 1e-3, 1.1e-3, 5e-3, 0.01, 0.05, 0.1, 0.5, 1.0, 3.0])
    return {
        "cwh": dict(m=pos, n=n),
        "rot2d": dict(m=pos, n=n, inertia=pos, ang_acc_limit=pos, ang_vel_limit=pos, inertia_wheel=pos, acc_limit_wheel=pos, vel_limit_wheel=pos),
        "sixdof": dict(
            m=pos, n=n, ang_acc_limit=pos + [(1e-3, 2.0, 5e-5), (3e-5, 1e-6, 4.0)], ang_vel_limit=pos + [(1e-3, 2.0, 5e-5), (3e-5, 1e-6, 4.0)], inertia_wheel=pos,
            acc_limit_wheel=pos, vel_limit_wheel=pos, thrust_control_limit=pos, body_frame_thrust=[False, True],
            inertia_matrix=[np.diag(d) for d in itertools.permutations((0.02, 0.5, 7.0))] + [np.diag([s, 1.7 * s, 1.3 * s]) for s in pos] + [np.diag([2.0, 2.0, 2.0]), np.diag([1.0, 1.0, 3.0]), np.diag([3.0, 1.0, 1.0])],
        ),
        "dubins2d": dict(
            v_min=[-1e5, -10.0, -0.1, 0.0, 1e-3, 0.5, 50.0, 399.0], v_max=[201.0, 250.5, 1e3, 2.5e4, 1e6], heading_rate_control_min=[-v for v in pos], heading_rate_control_max=pos,
            acceleration_control_min=[-v for v in pos], acceleration_control_max=pos
        ),
        "dubins3d": dict(
            v_min=[1e-3, 0.5, 50.0, 399.0], v_max=[201.0, 250.5, 1e3, 2.5e4, 1e6], gamma_min=[-1e-3, -0.01, -1.0, -1.5, -3.0], gamma_max=[1e-3, 0.01, 1.0, 1.5, 3.0],
            roll_min=[-1e-3, -0.01, -0.5, -1.5], roll_max=[1e-3, 0.01, 0.5, 1.5], gamma_rate_control_min=[-v for v in pos], gamma_rate_control_max=pos,
            roll_rate_control_min=[-v for v in pos], roll_rate_control_max=pos, acceleration_control_min=[-v for v in pos], acceleration_control_max=pos
        ),
        "sun": dict(n=n),
    }.get(kind, dict(m=pos, damping=_signed([1e-9, 1e-6, 1e-4, 0.01, 0.3, 1.0, 2.0, 7.5, 100.0, 1e3])))


GROUPS = {
    "cwh": [slice(0, 3), slice(3, 6)],
    "rot2d": [slice(0, 2), slice(2, 3), slice(3, 5), slice(5, 6)],
    "sixdof": [slice(0, 3), slice(7, 10), slice(10, 13)],
    "dubins2d": [slice(0, 2), slice(2, 3), slice(3, 4)],
    "dubins3d": [slice(0, 3), slice(3, 4), slice(4, 5), slice(5, 6), slice(6, 7)],
    "sun": [slice(0, 1)],
    "int1d": [slice(0, 1), slice(1, 2)],
    "int2d": [slice(0, 2), slice(2, 4)],
    "int3d": [slice(0, 3), slice(3, 6)],
}


def sweep_states(kind, m):
    """States whose groups of components (positions, velocities, rates, angles, speed) span many orders of magnitude."""
    out = []
    for b in zoo.base_states(kind, "default")[1:]:
        b = np.array(b, float)
        groups = GROUPS[kind]
        unit = b.copy()
        for g in groups:
            unit[g] = b[g] / np.max(np.abs(b[g]))
        zero = unit * 0
        if kind == "sixdof":
            zero[3:7] = unit[3:7]
        if kind == "dubins3d":
            zero[6] = b[6]  # the turn rate is not defined at speed zero
        for g in groups:
            for s in DEC:
                x = b.copy()
                x[g] = unit[g] * s
                out.append(x)
                x = zero.copy()
                x[g] = unit[g] * s
                out.append(x)
            for i in range(g.start, g.stop):
                for v in (0.0, 1.0, -1.0, 1e-3, -1e-3):
                    if kind == "dubins3d" and i == 6 and v == 0:
                        continue
                    x = b.copy()
                    x[i] = v
                    out.append(x)
        for s in DEC[:10]:
            x = unit * s
            if kind == "sixdof":
                x[3:7] = unit[3:7]
            out.append(x)
    return out


def rate_ok(m, x, u, got, comps=None):
    """got is the limited derivative at x (limits may be held in single precision: a component at its limit may be free or blocked)."""
    x, u = np.asarray(x, float), np.asarray(u, float)
    want = m.limited(x, u)
    tol = 3e-6 * m.fmag(x, u) + m.slack(x, u) + 1e-33
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        near = at_limit(m, x)
        free = np.clip(m.f(x, u), m.dlo, m.dhi)
        bad &= ~(near & ((np.abs(got - free) <= tol) | (got == 0)))
    return not (bad if comps is None else bad[list(comps)]).any(), want


def sweep_controls(m):
    k = len(m.ctrl)
    if not k:
        return [np.zeros(0)]
    fr = np.array([0.5, -0.25, 0.375, -0.625, 0.125, 0.75][:k])
    return [np.zeros(k), np.where(fr >= 0, fr * m.umax, -fr * m.umin)] + [fr * s for s in DEC[::3]]


def sweep(rec, kind, part, parts, comps=None):
    """Every constructor parameter over many orders of magnitude, every group of state components over many orders of magnitude: the model's
    derivative and one Euler step are those of the documented equations."""
    K = zoo.KINDS[kind]
    m0 = K.ref("default")
    th = core._TIER == "thorough"
    P = sweep_params(kind, th)
    cases = [{}] + [{p: v} for p, vals in P.items() for v in vals]
    # pairs of parameters: all value pairs where that is few (thorough: a third), otherwise an even selection in which every value occurs
    for a, b in itertools.combinations(P, 2):
        npairs = len(P) * (len(P) - 1) // 2
        every = 1 if npairs == 1 else 3 if th else max(1, len(P[a]) * len(P[b]) * npairs // 400)
        cases += [{a: P[a][i], b: P[b][j]} for i in range(len(P[a])) for j in range(len(P[b])) if (i * 5 + j * 7) % every == 0]
    states = sweep_states(kind, m0)
    few = [np.array(s, float) for s in zoo.base_states(kind, "default")[1:]] + states[part::37]
    for c, case in list(enumerate(cases))[part::parts]:
        try:
            m = K.model(**case)
        except (ValueError, ZeroDivisionError):
            continue
        if np.any(m.lo > m.hi):
            continue
        e = K.make("default", None, "Euler", **{a: (np.copy(v) if isinstance(v, np.ndarray) else list(v) if isinstance(v, tuple) else v) for a, v in case.items()})
        cl, ch = np.broadcast_to(np.asarray(e.control_min, float), len(m.ctrl)), np.broadcast_to(np.asarray(e.control_max, float), len(m.ctrl))
        if len(m.ctrl):
            rec.check(bool(np.all(np.abs(cl - m.umin) <= 1e-6 * np.abs(m.umin)) and np.all(np.abs(ch - m.umax) <= 1e-6 * np.abs(m.umax))), "the command limits are not the documented ones", parameters=case, got=[cl, ch], want=[m.umin, m.umax])
        us = sweep_controls(m)
        xs = states if not case else few
        for n, x in enumerate(xs):
            for u in us if not case else us[:3]:
                fm = m.fmag(x, u)
                if not np.all(np.isfinite(fm)) or np.max(fm) > 1e30:
                    continue
                got = np.asarray(e.dynamics.compute_state_dot(0.0, x.copy(), u.copy()), float)
                ok, want = rate_ok(m, x, u, got, comps)
                rec.transition()
                rec.check(ok, "the derivative is not that of the documented equations", parameters=case, state=x, control=u, got=got, want=want)
            inside = np.clip(us[1], m.umin, m.umax) if len(m.ctrl) else us[0]
            T = 0.5
            e.state = x.copy()
            step = zoo.step(e, T, inside.copy() if len(m.ctrl) else None)
            rec.transition()
            rec.check(euler_ok(m, x, inside, T, np.asarray(step.state, float), comps), "an Euler step is not that of the documented equations", parameters=case, state=x, control=inside, got=step.state, want=euler_expect(m, x, inside, T))
            rec.state(kind, c, n)
        rec.trace()
        rec.outcome(kind, c)
    rec.sample({"parameters": sorted(P), "cases": len(cases), "states": len(states)})
