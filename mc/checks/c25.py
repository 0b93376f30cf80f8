"""C25: the jax backend computes the same dynamics as numpy; the jax integrator needs the jax backend."""
import itertools
import math
import sys
import warnings

import numpy as np

from mc import core, grid, lib, zoo

PI = math.pi
INF = math.inf
NAN = math.nan

# user-built linear models: limits and rates that single precision represents exactly
LINEAR = {
    "free": dict(A=[[0, 1], [-0.25, -0.5]], B=[[0], [1]]),
    "saturated": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], lo=[-4.0, -1.0], hi=[4.0, 1.0]),
    "oneside": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], lo=[-4.0, -INF], hi=[INF, 0.5]),
    "rates": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], dlo=[-0.5, -0.25], dhi=[0.75, 0.5]),
    "scalar": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], lo=-2.0, hi=2.0, dlo=-0.5, dhi=0.5),
    "angle": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], wrap=[0.0, NAN]),
    "angle off centre": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], wrap=[PI, NAN]),
    "angle limited": dict(A=[[0, 1], [0, 0]], B=[[0], [1]], wrap=[0.0, NAN], lo=[-INF, -1.0], hi=[INF, 1.0]),
    "held": dict(A=[[0, 0], [0, 0]], B=[[1], [2]], lo=[1.0, -INF], hi=[1.0, INF]),
}
DYN = ("cwh", "rot2d", "rot2d agile", "sun", "int1d", "int2d", "int3d") + tuple("lin " + k for k in LINEAR)


def build(key, method, use_jax):
    """(dynamics, reference model, states, controls)"""
    if key.startswith("lin "):
        c = LINEAR[key[4:]]
        dyn, m = lib.lin(method=method, use_jax=use_jax, **c)
        inside = [[0.0, 0.0], [1.0, 0.25], [-1.5, 0.375], [1.0, -0.625]]
        edge = []
        for i in range(2):
            for lim in (m.lo[i], m.hi[i]):
                if np.isfinite(lim):
                    for s in inside[:3]:
                        e = list(s)
                        e[i] = lim
                        edge.append(e)
        if c.get("wrap") is not None:
            edge += [[v, w] for v in (3.125, -3.125, 3.0) for w in (0.25, -0.25)]
        if m.wrap is None or np.isnan(m.wrap).all():
            inside += [[2.0e6, 0.25], [-3.0, 4.0e6], [1.5e4, -7.0e5]]
        return dyn, m, [m.clip(np.array(s)) for s in inside + edge], [np.array([v]) for v in (0.0, 0.5, -0.5, 2.0, -2.0)]
    kind, _, cfg = key.partition(" ")
    cfg = cfg or "default"
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    if K.jax:
        dyn = K.make(cfg, method=method, use_jax=use_jax).dynamics
    else:
        import safe_autonomy_dynamics.integrators as integ
        from safe_autonomy_dynamics.cwh.point_model import CWHDynamics

        kw = dict(integration_method=method, use_jax=use_jax)
        if kind == "cwh":
            dyn = CWHDynamics(m=m.m, n=m.n, **kw)
        else:
            dyn = integ.IntegratorDynamics(**{"m": 1.0, "damping": 0.0, "mode": kind[3:], **kw})
    states = [np.array(s, float) for s in zoo.base_states(kind, cfg)] + ([b * 8.0 for b in grid.basis(len(m.names), pairs=False)] if kind != "sun" else [np.array([v]) for v in (PI, -PI, 7.0, 0.001)])
    if kind in ("cwh", "int1d", "int2d", "int3d"):
        h = len(m.names) // 2
        states += [np.array([v] * h + [w] * h) for v, w in ((3e6, 0.25), (-1.5, 2.5e6), (2e4, -3e5))]
    states = [m.clip(s) for s in states]
    if kind == "rot2d":
        for w in (m.hi[5], m.lo[5]):
            for th in (0.0, 3.0, PI, -PI):
                s = states[1].copy()
                s[2], s[5] = th, w
                states.append(s)
    return dyn, m, states, zoo.mid_controls(kind, cfg) + zoo.corner_controls(kind, cfg)[-2:]


def arr(v):
    return np.asarray(v, float)


def tolerance(m, x, u, T=0.0, x1=None):
    """Single precision: a few units in the last place of the values and of the terms they are made of."""
    mag = m.fmag(x, u) if x1 is None else np.maximum(m.fmag(x, u), m.fmag(x1, u))
    if x1 is None:
        return 3e-6 * mag + 1e-9
    big = np.maximum(np.abs(x), np.abs(x1))
    return 4e-6 * (big + T * mag) + 1e-8 + np.where(np.isnan(m.wrap), 0.0, 2e-6)


def derivatives(rec, key):
    """Every state x control x time: numpy, jax, jax compiled, jax array arguments and the odeint form all agree."""
    import jax
    import jax.numpy as jnp

    dn, m, states, controls = build(key, "RK45", False)
    dj = build(key, "RK45", True)[0]
    jit = jax.jit(dj.compute_state_dot)
    jitx = jax.jit(dj.compute_state_dot_jax)
    for x, u in itertools.product(states, controls):
        near = lib.at_limit(m, x)
        want = arr(dn.compute_state_dot(0.0, x.copy(), u.copy()))
        tol = tolerance(m, x, u) + m.slack(x, u)
        xj, uj = jnp.array(x), jnp.array(u)
        got = {
            "numpy arguments": dj.compute_state_dot(0.0, x.copy(), u.copy()),
            "jax arguments": dj.compute_state_dot(0.0, xj, uj),
            "later time": dj.compute_state_dot(3.5, xj, uj),
            "compiled": jit(0.0, xj, uj),
            "odeint form": dj.compute_state_dot_jax(xj, 0.0, uj),
            "odeint form compiled": jitx(xj, 2.0, uj),
        }
        ref = m.limited(x, u)
        rec.check(bool(np.all((np.abs(want - ref) <= tol) | near)), "the numpy derivative is not the documented one", model=key, state=x, control=u, got=want, want=ref)
        for form, g in got.items():
            g = arr(g)
            rec.transition()
            ok = g.shape == want.shape and bool(np.all((np.abs(g - want) <= tol) | near & ((np.abs(g) <= tol) | (np.abs(g - np.clip(m.f(x, u), m.dlo, m.dhi)) <= tol))))
            rec.check(ok, "the jax derivative differs from the numpy derivative", model=key, form=form, state=x, control=u, got=g, want=want)
        # exactly representable limits are met exactly by every backend
        if key.startswith("lin ") and near.any():
            g = arr(got["compiled"])
            bad = near & (np.abs(g - want) > tol)
            rec.check(not bad.any(), "a state exactly at its limit is not held by the jax derivative", model=key, state=x, control=u, got=g, want=want)
        rec.trace()
        rec.state(key, x, u)
        rec.outcome(key, want)
    # a batch
    X = jnp.array(np.array(states))
    U = controls[min(1, len(controls) - 1)]
    B = arr(jax.vmap(lambda s: dj.compute_state_dot(0.0, s, jnp.array(U)))(X))
    for s, b in zip(states, B):
        want = arr(dj.compute_state_dot(0.0, s.copy(), U.copy()))
        rec.transition()
        rec.check(bool(np.all((np.abs(b - want) <= tolerance(m, s, U) + m.slack(s, U)) | lib.at_limit(m, s))), "a batched derivative differs", model=key, state=s, got=b, want=want)
    rec.sample({"model": key, "state": x, "control": u, "derivative": want})


def steps(rec, key, method, Ts):
    """Every state x control x duration: one step with each jax method against numpy and against the exact flow."""
    import jax.numpy as jnp

    dn, m, states, controls = build(key, "Euler" if method == "Euler" else "RK45", False)
    dj = build(key, method, True)[0]
    for x, u, T in itertools.product(states, controls, Ts):
        if lib.rotation(m, x, u, T) > lib.TWO_PI:
            continue
        nx, nd = lib.dstep(dn, T, x, u)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            jx, jd = dj.step(T, jnp.array(x), jnp.array(u)) if method == "RK45_JAX" else dj.step(T, x.copy(), u.copy())
        jx, jd = arr(jx), arr(jd)
        rec.transition()
        rec.trace()
        if not rec.check(jx.shape == nx.shape and jd.shape == nd.shape and bool(np.all(np.isfinite(jx)) and np.all(np.isfinite(jd))), "a jax step has no finite result", model=key, method=method, state=x, control=u, T=T, got=jx):
            continue
        w = ~np.isnan(m.wrap)
        rec.check(lib.in_limits(m, jx) and bool(np.all(np.abs(jx[w] - m.wrap[w]) <= PI + 2e-6)), "a jax step ends outside the limits or not wrapped", model=key, method=method, state=x, control=u, T=T, got=jx)
        near0 = lib.at_limit(m, x)
        d = np.abs(m.angle_diff(jx, nx))
        if method == "Euler":
            tol = tolerance(m, x, u, T, nx)
            ok = d <= tol
            if near0.any() and not ok.all():  # held or not at a limit single precision cannot place
                free = m.finish(x + T * np.clip(m.f(x, u), m.dlo, m.dhi))
                ok |= near0 & (np.abs(m.angle_diff(jx, free)) <= tol)
            rec.check(bool(np.all(ok)), "a jax Euler step differs from the numpy step", model=key, state=x, control=u, T=T, got=jx, want=nx, tol=tol)
        else:
            x1, info = m.flow(x, u, T)
            if x1 is None or info["cross"] or near0.any() and not key.startswith("lin "):
                rec.note("limit met inside the step: only limits checked")
                # crude but still a bound: both solvers stay within what the largest rates allow
                span = T * np.maximum(m.fmag(x, u), np.maximum(m.fmag(jx, u), m.fmag(nx, u))) + 1e-3 * (1 + np.abs(x))
                rec.check(bool(np.all(np.abs(m.angle_diff(jx, m.wrapped(x))) <= 2 * span)), "a jax step moves farther than its rates allow", model=key, method=method, state=x, control=u, T=T, got=jx)
            else:
                want = m.finish(x1)
                e = np.abs(m.angle_diff(jx, want))
                if method == "RK45_JAX":
                    tol = 3 * tolerance(m, x, u, T, x1) + 1e-6
                else:
                    tol = lib.FACTOR * lib.step_scale(m, x, u, T, x1) + tolerance(m, x, u, T, x1)
                if np.isfinite(m.dlo).any():  # the rate limit makes a kink the solver's error estimate may straddle
                    tol = tol * 10 if method == "RK45" else tol + 1e-3
                rec.check(bool(np.all(e <= tol)), "a jax step is not the flow of the model", model=key, method=method, state=x, control=u, T=T, got=jx, want=want, tol=tol)
                rec.maxnote(f"error in tolerances {method}", float(np.max(e / tol)))
                tol2 = tol + (10 if np.isfinite(m.dlo).any() else 1) * lib.FACTOR * lib.step_scale(m, x, u, T, x1)
                rec.check(bool(np.all(d <= tol2)), "a jax step differs from the numpy step", model=key, method=method, state=x, control=u, T=T, got=jx, want=nx)
        # the reported derivative is the one at the end of the step
        near1 = lib.at_limit(m, jx, 4e-6) | lib.wrapped_limit(m, jx)
        wd = arr(dj.compute_state_dot(T, jx, u))
        ref = m.limited(jx, u)
        wrapped_linear = key.startswith("lin ") and np.isfinite(m.wrap).any()
        dt = tolerance(m, jx, u) + m.slack(jx, u) + 1e-7 + tolerance(m, x, u, T, jx).max()
        if not wrapped_linear:
            rec.check(bool(np.all((np.abs(jd - ref) <= dt) | near1)), "the derivative reported after a jax step is not the one at its end", model=key, method=method, state=x, control=u, T=T, got=jd, want=ref, end=jx)
            rec.check(bool(np.all((np.abs(jd - wd) <= dt) | near1)), "the derivative reported after a jax step is not the one at its end", model=key, method=method, state=x, control=u, T=T, got=jd, want=wd, end=jx)
        rec.state(key, method, x, u, T)
        rec.outcome(key, method, jx)
    rec.sample({"model": key, "method": method, "state": x, "control": u, "T": T, "end": jx})


def entity(rec, kind, cfg, method, depth):
    """All action sequences on a jax entity in lockstep with a numpy entity and the reference: state, derivative, control, observables."""
    import jax.numpy as jnp

    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    if m.ctrl:
        mid = zoo.mid_controls(kind, cfg)
        acts = [("none", None, mid[0] * 0), ("array", mid[1], mid[1]), ("jax", jnp.array(mid[2]), mid[2]), ("over", m.umax * 2, m.umax.copy()), ("under", jnp.array(m.umin * 3), m.umin.copy()), ("dict", dict(zip(m.ctrl, map(float, mid[2]))), mid[2])]
    else:
        acts = [("none", None, np.zeros(0))]
    Ts = (0.5, 4.0, 0.0)
    ej = K.make(cfg, method=method, use_jax=True)
    en = K.make(cfg, method="Euler" if method == "Euler" else "RK45")
    for s0 in zoo.base_states(kind, cfg)[: 3 if depth > 2 else 2]:
        for seq in itertools.product(itertools.product(range(len(acts)), Ts), repeat=depth):
            ej.state = np.array(s0, float)
            en.state = np.array(s0, float)
            crossed = False
            for k, T in seq:
                tag, act, u = acts[k]
                x = arr(ej.state)
                given = np.array(act) if tag in ("array", "over") else None
                for e in (ej, en):
                    with zoo.quiet() as q:
                        e.step(T, act.copy() if isinstance(act, (np.ndarray, dict)) else act)
                    rec.check(bool(q.user) == (tag in ("over", "under")), "the saturation warning differs between backends", kind=kind, jax=e is ej, action=tag)
                rec.transition(2)
                jx = arr(ej.state)
                if given is not None:
                    rec.check(zoo.identical(act, given), "stepping modified the action", kind=kind, action=tag)
                if not rec.check(jx.shape == x.shape and bool(np.all(np.isfinite(jx))), "a jax entity has no finite state", kind=kind, sequence=seq, got=jx):
                    break
                if T == 0:
                    rec.check(bool(np.all(np.abs(m.angle_diff(jx, m.wrapped(x))) <= 2e-6 * (1 + np.abs(x)))), "a jax step of no duration moves", kind=kind, got=jx, want=x, action=tag, method=method)
                if method == "Euler":
                    tol = tolerance(m, x, u, T, jx)
                    want = lib.euler_expect(m, x, u, T)
                    near = lib.at_limit(m, x, 4e-6)
                    rec.check(bool(np.all((np.abs(m.angle_diff(jx, want)) <= tol) | near)), "a jax Euler entity step is not state plus rate times duration", kind=kind, state=x, action=tag, T=T, got=jx, want=want)
                    crossed |= bool(near.any())
                else:
                    x1, info = m.flow(x, u, T)
                    near = lib.at_limit(m, x, 4e-6).any()
                    if x1 is None or info["cross"] or near:
                        crossed = True
                    else:
                        tol = 3 * tolerance(m, x, u, T, x1) + 1e-6 if method == "RK45_JAX" else lib.FACTOR * lib.step_scale(m, x, u, T, x1) + tolerance(m, x, u, T, x1)
                        want = m.finish(x1)
                        rec.check(bool(np.all(np.abs(m.angle_diff(jx, want)) <= tol)), "a jax entity step is not the flow of the model", kind=kind, method=method, state=x, action=tag, T=T, got=jx, want=want, tol=tol)
                for n in ("position", "velocity", "angular_velocity", "theta", "wz", "x", "y", "x_dot", "y_dot"):
                    if hasattr(type(ej), n):
                        try:
                            a, b = arr(getattr(ej, n)), arr(getattr(en, n))
                        except NotImplementedError:
                            continue
                        rec.check(a.shape == b.shape, "an observable has another shape with jax", kind=kind, name=n, got=a, want=b)
                if not crossed:
                    d = np.abs(m.angle_diff(jx, arr(en.state)))
                    tol = len(seq) * (lib.FACTOR * lib.step_scale(m, x, u, T, jx) * (method != "Euler") + 2 * tolerance(m, x, u, T, jx)) * (1 + 0.02 * sum(t for _, t in seq))
                    tol = tol + (T + 4.0) * np.concatenate([tol[len(tol) // 2:], tol[len(tol) // 2:]]) if len(tol) % 2 == 0 else tol
                    rec.check(bool(np.all(d <= tol)), "jax and numpy entities drift apart", kind=kind, method=method, sequence=seq, jax=jx, numpy=en.state, tol=tol)
            rec.trace()
            rec.state(kind, cfg, method, s0, seq)
            rec.outcome(jx)
    rec.sample({"kind": kind, "method": method, "sequence": seq, "state": jx})


def affine(rec, method):
    """User models that are not linear, written against the dynamics' own array module."""
    import jax

    holder = {}

    def f(s):
        n = holder["np"]
        return n.stack([s[1], -n.sin(s[0]) - 0.125 * s[1]])

    def g(s):
        n = holder["np"]
        return n.stack([n.stack([0.0 * s[0]]), n.stack([n.cos(s[0])])])

    res = {}
    for use in (False, True):
        kw = dict(state_min=np.array([-INF, -2.0]), state_max=np.array([INF, 2.0]), angle_wrap_centers=np.array([0.0, NAN]), use_jax=use)
        dyn = lib.custom_affine(f, g, integration_method=method if use or method == "Euler" else "RK45", **kw)
        holder["np"] = dyn.np
        if use:
            jit = jax.jit(dyn.compute_state_dot)
        for th, w, u, T in itertools.product((0.0, 1.0, -2.0, 3.0, -3.125), (0.0, 0.5, -1.25, 1.75, 2.0, -2.0), (0.0, 1.0, -1.0, 4.0), (0.125, 1.0)):
            x, c = np.array([th, w]), np.array([u])
            a, b = lib.dstep(dyn, T, x, c)
            d = arr(jit(0.0, x, c)) if use else arr(dyn.compute_state_dot(0.0, x, c))
            want = np.array([w, -math.sin(th) - 0.125 * w + math.cos(th) * u])
            if w >= 2.0:
                want[1] = min(want[1], 0.0)
            if w <= -2.0:
                want[1] = max(want[1], 0.0)
            rec.transition(2)
            rec.check(bool(np.all(np.abs(d - want) <= 1e-5)), "a user model's derivative is wrong", jax=use, state=x, control=c, got=d, want=want)
            if use:
                n, nd = res[th, w, u, T]
                diff = np.abs(a - n)
                diff[0] = abs(math.remainder(diff[0], 2 * PI))
                tol = 1e-5 if method == "Euler" else 5e-3 if abs(u) <= 1 and abs(w) <= 0.5 else 0.25
                rec.check(bool(np.all(diff <= tol)), "a user model's jax step differs from numpy", method=method, state=x, control=c, T=T, got=a, want=n)
                rec.check(abs(a[1]) <= 2 + 1e-6 and abs(a[0]) <= PI + 1e-6, "a user model's jax step leaves its limits", method=method, state=x, control=c, T=T, got=a)
                rec.trace()
            else:
                res[th, w, u, T] = (a, b)
            rec.state(method, x, c, T)
            rec.outcome(a)


def timed(rec, method):
    """User models with explicit time: within each step time runs from zero to the duration, whatever happened before; jit, numpy and odeint forms agree."""
    import jax
    import jax.numpy as jnp

    models = {
        "cos t": (lambda t, x, u: jnp.stack([jnp.cos(t) + u[0], t + 0.0 * x[1]]), lambda t, x, u: np.array([math.sin(t) + u[0] * t, t * t / 2])),
        "ramp": (lambda t, x, u: jnp.stack([2 * t + 0.0 * x[0], u[0] * t * t]), lambda t, x, u: np.array([t * t, u[0] * t**3 / 3])),
        "fading": (lambda t, x, u: jnp.stack([-2 * t * x[0], u[0] * jnp.exp(-t)]), lambda t, x, u: np.array([x[0] * (math.exp(-t * t) - 1), u[0] * (1 - math.exp(-t))])),
    }
    for name, (fn, sol) in models.items():
        dyn = lib.custom_ode(fn, integration_method=method, use_jax=True)
        jit = jax.jit(dyn.compute_state_dot_jax)
        for x, u, T in itertools.product(((0.0, 0.0), (5.0, -3.0)), (0.0, -0.5, 2.0), (0.0, 0.1, 1.0, 2.5)):
            nx = np.array(x)
            for t in (0.0, 0.25, 1.75, 9.0):
                a, b = arr(dyn.compute_state_dot(t, nx, np.array([u]))), arr(jit(nx, t, np.array([u])))
                want = arr(fn(t, nx, [u]))
                rec.transition(2)
                rec.check(zoo.close(a, want, 2e-6, 1e-6) and zoo.close(b, want, 2e-6, 1e-6), "a jax derivative of a model with explicit time is not taken at that time", model=name, t=t, got=[a, b], want=want)
            for k in range(2):
                x0 = nx
                nx, nd = lib.dstep(dyn, T, x0, [u])
                nx, nd = arr(nx), arr(nd)
                rec.transition()
                rec.trace()
                rec.state(name, method, x, u, T, k)
                rec.outcome(nx)
                dx = T * arr(fn(0.0, x0, [u])) if method == "Euler" else sol(T, x0, [u])
                peak = np.abs(x0) + np.abs(dx) + T * np.abs(arr(fn(T, x0, [u])))
                tol = lib.FACTOR * (1e-6 + 1e-3 * peak) if method == "RK45" else 2e-5 * (1 + peak)
                rec.check(bool(np.all(np.abs(nx - x0 - dx) <= tol)), "a model with explicit time is not integrated over the step", model=name, method=method, start=x0, control=u, T=T, got=nx, want=x0 + dx)
                rec.check(zoo.close(nd, arr(fn(T, nx, [u])), 1e-5, 1e-5), "the reported derivative is not taken at the end of the step", model=name, method=method, got=nd, T=T)


def rejected(rec):
    """RK45_JAX without use_jax is rejected at the step and leaves the entity alone; unknown methods too."""
    for kind in ("rot2d", "sun", "cwh", "int1d", "sixdof", "dubins2d", "dubins3d"):
        for T in (0.5, 0.0, 1.0):
            s = np.array(zoo.base_states(kind, "default")[1], float)
            for method in ("RK45_JAX", "rk45_jax", "RK45_jax", "RK45 ", "", "euler", "RK23", None):
                try:
                    e = zoo.KINDS[kind].make("default", s, method=method)
                except Exception:  # pylint: disable=W0718
                    rec.outcome(kind, "constructor")
                    rec.transition()
                    continue
                for u in zoo.mid_controls(kind, "default")[:2]:
                    try:
                        with zoo.quiet():
                            e.step(T, u.copy() if len(u) else None)
                        rec.fail("an integration method that is not available is accepted", kind=kind, method=method, T=T, state=e.state)
                    except ValueError:
                        pass
                    rec.transition()
                    rec.trace()
                    rec.check(zoo.identical(e.state, s), "a rejected step changed the state", kind=kind, method=method)
                    rec.state(kind, T, method, u)
                rec.outcome(kind, method)
    for use, method in ((True, "RK45_JAX"), (False, "RK45_JAX")):
        dyn = lib.lin([[0.0]], [[1.0]], method=method, use_jax=use)[0]
        try:
            lib.dstep(dyn, 1.0, [0.0], [1.0])
            rec.check(use, "RK45_JAX without use_jax is accepted")
        except ValueError:
            rec.check(not use, "RK45_JAX with use_jax is rejected")
        rec.transition()


def run(tier):
    th = tier == "thorough"
    sc = [("rejected", {})]
    sc += [("derivatives", dict(key=k)) for k in DYN]
    for k in DYN:
        for method in ("Euler", "RK45", "RK45_JAX"):
            Ts = (0.5, 4.0) if method == "RK45" and not th else (0.0, 0.5, 4.0, 30.0)
            sc.append(("steps", dict(key=k, method=method, Ts=Ts)))
    for kind, cfg in (("rot2d", "default"), ("rot2d", "agile"), ("sun", "default"), ("sun", "fast")):
        for method in ("Euler", "RK45", "RK45_JAX"):
            deep = 3 if kind == "sun" else 2
            if method == "RK45" and not th:
                deep -= 1
            sc.append(("entity", dict(kind=kind, cfg=cfg, method=method, depth=deep + (1 if th and kind == "sun" or th and method != "RK45" else 0))))
    sc += [(n, dict(method=m)) for n in ("affine", "timed") for m in ("Euler", "RK45", "RK45_JAX")]
    sc.sort(key=lambda s: s[1].get("method") != "RK45")
    return core.run_check("C25", sys.modules[__name__], sc, assumptions=["jax in its default single precision on the CPU"])
