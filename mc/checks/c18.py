"""C18: point mass integrators: damped double integrators per axis, in 1, 2 and 3 dimensions."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, zoo

PARAMS = [dict(), dict(m=4.0, damping=0.5), dict(m=0.25, damping=2.0), dict(m=100, damping=0.01), dict(m=3), dict(damping=1), dict(m=2.0, damping=-0.25), dict(m=8.0, damping=20.0), dict(m=1e4, damping=700.0), dict(m=1e-3, damping=0.002)]
DIMS = (1, 2, 3)


def kind(d):
    return f"int{d}d"


def derivative(rec, d, p):
    make, m = grid.custom(kind(d), **PARAMS[p])
    dyn = make().dynamics
    states = grid.basis(2 * d, np.array([10.0] * d + [2.0] * d)) + grid.basis(2 * d, np.array([1e5] * d + [1e3] * d))
    ctrl = grid.basis(d) + grid.basis(d, 7.0)
    grid.derivs(rec, dyn, m, states, ctrl, rel=1e-10, p=p)


def fine(rec, d, p):
    """Differences down to 1e-9 of every component (see grid.fine)."""
    make, m = grid.custom(kind(d), **PARAMS[p])
    states = [k * np.array(([120.0, -80.0, 30.0])[:d] + ([0.5, -1.0, 0.25])[:d]) for k in (0, 1, 300)]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(d), 0.5 * m.umax, 0.25 * m.umin], [100] * d + [1] * d, m.umax, rel=1e-8, d=d, p=p)


def matrices(rec):
    """The matrices offered for each mode; other modes are rejected."""
    from safe_autonomy_dynamics.integrators import generate_dynamics_matrices

    for q, d in itertools.product(PARAMS, DIMS):
        _, m = grid.custom(kind(d), **q)
        A, B = generate_dynamics_matrices(m.m, m.c, f"{d}d")
        wa, wb = m.linear
        rec.transition()
        rec.trace()
        rec.state(d, *q.values())
        rec.check(zoo.close(A, wa, 1e-14, 0) and zoo.close(B, wb, 1e-14, 0), "wrong system matrices", params=q, dim=d, A=A, B=B)
        rec.outcome(A, B)
    A, B = generate_dynamics_matrices(2.0, 0.5)
    rec.check(np.asarray(A).shape == (2, 2) and np.asarray(B).shape == (2, 1), "the default mode is not one dimensional", A=A, B=B)
    for bad in ("4d", "0d", "", "2D", "d", None, 2):
        raised = False
        try:
            generate_dynamics_matrices(1.0, 0.0, bad)
        except Exception:  # noqa: B902
            raised = True
        rec.transition()
        rec.check(raised, "an unknown mode was accepted", mode=bad)


def look(rec, d, e, **info):
    s = np.asarray(e.state, float)
    p3, v3 = np.zeros(3), np.zeros(3)
    p3[:d], v3[:d] = s[:d], s[d:]
    rec.check(s.shape == (2 * d, ), "the state has another size", state=s, **info)
    rec.check([float(e.x), float(e.y), float(e.z)] == list(p3), "position components differ from the state", state=s, got=[e.x, e.y, e.z], **info)
    rec.check([float(e.x_dot), float(e.y_dot), float(e.z_dot)] == list(v3), "velocity components differ from the state", state=s, got=[e.x_dot, e.y_dot, e.z_dot], **info)
    rec.check(np.array_equal(np.ravel(e.position), s[:d]) and np.array_equal(np.ravel(e.velocity), s[d:]), "position or velocity differs from the state", state=s, got=[e.position, e.velocity], **info)
    rec.check(zoo.close(e.orientation.as_matrix(), np.eye(3), 0, 1e-15), "the orientation is not the identity", got=e.orientation.as_matrix(), **info)


def exact(m, s, us, Ts):
    for u, T in zip(us, Ts):
        s = m.closed_form(s, np.clip(u, m.umin, m.umax), T)
    return s


def closed(rec, d, p, method):
    """Steps from every start, per axis commands, whole and split, against the closed form; each axis on its own."""
    make, m = grid.custom(kind(d), **PARAMS[p])
    e = make(None, method)
    starts = [np.zeros(2 * d), np.array([10.0, -20.0, 5.0][:d] + [1.0, -0.5, 0.25][:d]), np.array([-3.0, 4.0, 100.0][:d] + [-2.0, 7.0, -3.5][:d])]
    acts = [np.array(c, float) for c in itertools.product((0.0, 1.0, -0.5), repeat=d)] + [np.array([3.0, -0.25, -8.0][:d])]
    for s, u in itertools.product(starts, acts):
        for T in (0.1, 1.0, 5.0):
            for cuts in ([T], [0.5 * T, 0.3 * T, 0.2 * T]):
                e.state = s
                cur = s
                for c in cuts:
                    if method == "Euler":
                        cur = cur + c * m.f(cur, np.clip(u, m.umin, m.umax))
                    zoo.step(e, c, u.copy())
                    rec.transition()
                rec.trace()
                want = exact(m, s, [u], [T]) if method == "RK45" else cur
                got = np.asarray(e.state, float)
                size = np.abs(s) + np.abs(want) + T * (m.fmag(s, u) + m.fmag(want, u))
                tol = 5 * len(cuts) * math.exp(max(-m.c, 0) * T) * (1e-6 + 1e-3 * (size + np.tile(size[d:] * T, 2))) if method == "RK45" else 1e-6 * size + 1e-12
                rec.check(bool(np.all(np.abs(got - want) <= tol)), "steps do not follow the closed form", start=s, control=u, durations=cuts, got=got, want=want, method=method, p=p)
                rec.maxnote("error in tolerances " + method, float(np.max(np.abs(got - want) / (tol + 1e-300))))
                look(rec, d, e, p=p, method=method)
                rec.state(d, p, method, s, u, T, len(cuts))
                rec.outcome(got)


def axes(rec, p, method):
    """An axis of the 2d and 3d entities moves exactly like the 1d entity whatever the other axes do."""
    make1, m = grid.custom("int1d", **PARAMS[p])
    e1 = make1(None, method)
    for d in (2, 3):
        make, _ = grid.custom(kind(d), **PARAMS[p])
        e = make(None, method)
        for ax in range(d):
            for x, v, u, T in itertools.product((0.0, 10.0), (0.0, -2.0), (0.0, 1.0, -0.5), (0.5, 2.0)):
                e1.state = np.array([x, v])
                zoo.step(e1, T, [u])
                one = np.asarray(e1.state, float)
                for other in (0.0, 1.0, -3.0):
                    s = np.concatenate([np.full(d, 7 * other), np.full(d, other)])
                    s[ax], s[d + ax] = x, v
                    U = np.full(d, -0.25 * other)
                    U[ax] = u
                    e.state = s
                    zoo.step(e, T, U)
                    rec.transition()
                    rec.trace()
                    got = np.asarray(e.state, float)[[ax, d + ax]]
                    tol = 5e-3 * (np.abs(one) + abs(v) + abs(u) * T / m.m + abs(v) * T + 1e-3) if method == "RK45" else 1e-9 * (1 + np.abs(one))
                    rec.check(bool(np.all(np.abs(got - one) <= tol)), "an axis depends on the others", dim=d, axis=ax, got=got, want=one, start=s, control=U, T=T)
                    rec.state(d, p, method, ax, x, v, u, T, other)


def histories(rec, d, p, method, depth):
    make, m = grid.custom(kind(d), **PARAMS[p])
    starts = [np.zeros(2 * d), np.array([10.0, -20.0, 5.0][:d] + [1.0, -0.5, 0.25][:d])]
    acts = [np.zeros(d), np.array([1.0, -0.5, 0.25][:d]), np.array([-0.75, 1.0, -1.0][:d])]
    grid.lockstep(rec, make, m, starts, acts, (0.1, 1.0, 3.0), depth, method, p=p)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = [("matrices", {})]
    for p in range(len(PARAMS)):
        for method in ("RK45", "Euler"):
            sc.append(("axes", dict(p=p, method=method)))
        for d in DIMS:
            sc.append(("derivative", dict(d=d, p=p)))
            sc.append(("fine", dict(d=d, p=p)))
            for method in ("RK45", "Euler"):
                sc.append(("closed", dict(d=d, p=p, method=method)))
                sc.append(("histories", dict(d=d, p=p, method=method, depth=4 if th else 2)))
    parts = 2 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('int1d', 'int2d', 'int3d') for i in range(parts)]
    return core.run_check("C18", sys.modules[__name__], sc, assumptions=["ten mass and damping sets (including negative damping)"])
