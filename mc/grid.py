"""Grid and lockstep explorers shared by the per-model checks."""
import itertools

import numpy as np

from mc import core, lib, zoo

TS = (0.0, 0.5, 1.0, 100.0)


def custom(kind, refkw=None, **kw):
    """(make(state, method), reference model) of an entity kind with constructor keywords kw."""
    K = zoo.KINDS[kind]
    m = K.model(**(kw if refkw is None else refkw))

    def make(state=None, method="RK45", **over):
        args = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in kw.items()}
        args.update(over)
        e = K.cls(name="e", integration_method=method, **args)
        if state is not None:
            e.state = np.array(state, float)
        return e

    return make, m


def basis(n, scale=1.0, pairs=True):
    """Zero, plus and minus every basis vector, and every sum of two of them (scale: number or per component)."""
    sc = np.broadcast_to(np.array(scale, float), n)
    out = [np.zeros(n)]
    vs = []
    for i in range(n):
        for s in (1.0, -1.0):
            v = np.zeros(n)
            v[i] = s * sc[i]
            vs.append(v)
    out += vs
    if pairs:
        for i, j in itertools.combinations(range(n), 2):
            v = np.zeros(n)
            v[i], v[j] = sc[i], 0.75 * sc[j]
            out.append(v)
    return out


def derivs(rec, dyn, model, states, controls, ts=TS, rel=1e-6, what="the derivative is not the documented one", **info):
    """Every state x control x time of evaluation against the reference derivative."""
    m = model
    for x in states:
        x = np.asarray(x, float)
        near = lib.at_limit(m, x)
        for u in controls:
            u = np.asarray(u, float)
            want = m.limited(x, u)
            tol = rel * m.fmag(x, u) + 1e-10 + m.slack(x, u)
            first = None
            for t in ts:
                got = np.asarray(dyn.compute_state_dot(t, x.copy(), u.copy()), float)
                rec.transition()
                ok = got.shape == want.shape and bool(np.all((np.abs(got - want) <= tol) | near & ((np.abs(got) <= tol) | (np.abs(got - m.f(x, u)) <= tol))))
                rec.check(ok, what, state=x, control=u, t=t, got=got, want=want, **info)
                if first is None:
                    first = got
                else:
                    rec.check(zoo.identical(first, got), "the derivative depends on the time within the step", state=x, control=u, t=t, got=got, want=first, **info)
            rec.trace()
            rec.state(x, u, *info.values())
            rec.outcome(first)


def fine(rec, dyn, model, bases, controls, scales, uscale, rel=1e-5, eps=1e-13, **info):
    """Small differences: moving one component of the state or of the control by 10^0 .. 10^-9 of its scale changes the derivative by the model's difference.

    A dead zone, a rounded intermediate or a table in place of a function agrees with the formula to its resolution and fails here. eps: the precision of the derivative (some models report it in single precision)."""
    m = model
    for x, u in itertools.product(bases, controls):
        x, u = np.array(x, float), np.array(u, float)
        if not np.all((x > m.lo) & (x < m.hi)):
            continue
        f0, g0 = m.f(x, u), np.asarray(dyn.compute_state_dot(0.0, x.copy(), u.copy()), float)
        mag0 = m.fmag(x, u)
        for i in range(len(x) + len(u)):
            base = scales[i] if i < len(x) else uscale[i - len(x)]
            if base == 0:
                continue
            for k, sign in itertools.product(range(1, 10), (1.37, -1.37)):
                x1, u1 = x.copy(), u.copy()
                if i < len(x):
                    x1[i] += sign * base * 10.0**-k
                    if not m.lo[i] < x1[i] < m.hi[i]:
                        continue
                else:
                    u1[i - len(x)] += sign * base * 10.0**-k
                    if not np.all((u1 >= m.umin) & (u1 <= m.umax)):
                        continue
                f1, g1 = m.f(x1, u1), np.asarray(dyn.compute_state_dot(0.0, x1.copy(), u1.copy()), float)
                rec.transition()
                rec.trace()
                tol = rel * np.abs(f1 - f0) + eps * (mag0 + m.fmag(x1, u1)) + 1e-18
                rec.check(g1.shape == f1.shape and bool(np.all(np.abs((g1 - g0) - (f1 - f0)) <= tol)), "a small change does not have the documented small effect", state=x, control=u, moved=[i, x1[i] - x[i] if i < len(x) else u1[i - len(x)] - u[i - len(x)]], got=g1 - g0, want=f1 - f0, **info)
                rec.state(x1, u1, *info.values())
                rec.outcome(g1)


def small(rec, f, g, points, scales, sizes=range(1, 9), rel=1e-4, eps=1e-12, what="a small change does not have the documented small effect", **info):
    """The same for plain functions: f(point) -> numbers (the code), g(point) -> (numbers, their magnitudes) (the reference)."""
    for pt in points:
        pt = [float(v) for v in pt]
        g0, m0 = (np.asarray(v, float) for v in g(pt))
        with core.CodeUnderTest():
            f0 = np.asarray(f(list(pt)), float)
        for i, sc in enumerate(scales):
            if sc == 0:
                continue
            for k, s in itertools.product(sizes, (1.37, -1.37)):
                q = list(pt)
                q[i] += s * sc * 10.0**-k
                g1, m1 = (np.asarray(v, float) for v in g(q))
                with core.CodeUnderTest():
                    f1 = np.asarray(f(list(q)), float)
                rec.transition()
                rec.trace()
                tol = rel * np.abs(g1 - g0) + eps * (m0 + m1)
                rec.check(f1.shape == g1.shape and bool(np.all(np.abs((f1 - f0) - (g1 - g0)) <= tol)), what, at=pt, moved=[i, q[i] - pt[i]], got=f1 - f0, want=g1 - g0, **info)
                rec.state(*info.values(), *q)
                rec.outcome(f1)


def lockstep(rec, make, model, starts, acts, durs, depth, method, branch=None, factor=lib.FACTOR, **info):
    """Breadth first over action histories in lockstep with the reference; every transition is compared from the state actually reached."""
    m = model
    e = make(None, method)
    frontier = [np.array(s, float) for s in starts]
    for d in range(depth):
        nxt = []
        for s in frontier:
            for u, T in itertools.product(acts, durs):
                e.state = s
                with core.time_limit(120, "step"):
                    zoo.step(e, T, np.array(u, float))
                rec.transition()
                got = np.asarray(e.state, float)
                if method == "Euler":
                    rec.trace()
                    rec.check(lib.euler_ok(m, s, u, T, got), "an Euler step is not the documented one", start=s, control=u, T=T, got=got, want=lib.euler_expect(m, s, u, T), depth=d, **info)
                elif lib.in_limits(m, s) and lib.rotation(m, s, u, T) <= lib.TWO_PI:
                    r = lib.flow_ok(m, s, np.asarray(u, float), T, got, factor)
                    if r is not None:
                        rec.trace()
                        rec.maxnote("step error in tolerances", r[1])
                        rec.check(r[0], "a step is not the documented motion", start=s, control=u, T=T, got=got, want=r[2], error=r[1], depth=d, **info)
                if rec.state(m.__class__.__name__, *info.values(), got) and d + 1 < depth:
                    nxt.append(got)
                rec.outcome(got)
        frontier = nxt if branch is None else nxt[::max(1, len(nxt) // branch)]
    rec.sample({"start": s, "control": u, "T": T, "state": got, **info})
