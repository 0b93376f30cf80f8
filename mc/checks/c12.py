"""C12: the point mass spacecraft obeys the Clohessy-Wiltshire equations."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, ref, zoo

MN = [(12.0, 0.001027), (3.0, 0.01), (1000.0, 0.0005), (0.5, 0.1), (1, 1.0), (12, 0.001027)]


def derivative(rec, m, n, i):
    """Derivative of the entity's own dynamics on basis vectors and all pairs of state and thrust, and on generic states; far and near."""
    make, model = grid.custom("cwh", m=m, n=n)
    dyn = make().dynamics
    states = []
    for scale in (1.0, 1e4):
        states += grid.basis(6, np.array([1, 1, 1, 0.01, 0.01, 0.01]) * scale)
    states += [np.array(s, float) for s in zoo.base_states("cwh", "default")]
    ctrl = grid.basis(3)
    grid.derivs(rec, dyn, model, states[i::2], ctrl, rel=1e-12, m=m, n=n)
    for x in states[i::2]:
        for u in ctrl:
            # the two other textbook statements: component by component
            got = np.asarray(dyn.compute_state_dot(0, x.copy(), u.copy()), float)
            want = [x[3], x[4], x[5], 3 * n**2 * x[0] + 2 * n * x[4] + u[0] / m, -2 * n * x[3] + u[1] / m, -n**2 * x[2] + u[2] / m]
            rec.check(zoo.close(got, want, 1e-9, 1e-15 + 1e-12 * float(np.max(model.fmag(x, u)))), "not the Clohessy-Wiltshire equations", state=x, thrust=u, got=got, want=want)


def fine(rec, m, n):
    """Differences down to 1e-9 of every component (see grid.fine)."""
    make, model = grid.custom("cwh", m=m, n=n)
    states = [np.zeros(6), np.array([100.0, -50.0, 25.0, 0.5, -1.0, 0.25]), np.array([-2e4, 7e3, 9e3, 12.0, -5.0, 3.0])]
    grid.fine(rec, make().dynamics, model, states, [np.zeros(3), 0.5 * model.umax, 0.25 * model.umin], [100, 100, 100, 1, 1, 1], model.umax, rel=1e-8, m=m, n=n)


def matrices(rec):
    """The matrices offered in 2d and 3d; other modes are rejected."""
    from safe_autonomy_dynamics.cwh import generate_cwh_matrices

    for (m, n), mode in itertools.product(MN, ("2d", "3d", None)):
        A, B = generate_cwh_matrices(m, n) if mode is None else generate_cwh_matrices(m, n, mode)
        A3, B3 = ref.CWH(m=m, n=n).linear
        if mode == "3d":
            wa, wb = A3, B3
        else:
            keep = [0, 1, 3, 4]
            wa, wb = A3[np.ix_(keep, keep)], B3[np.ix_(keep, [0, 1])]
        rec.transition()
        rec.trace()
        rec.state(m, n, str(mode))
        rec.check(zoo.close(A, wa, 1e-12, 0) and zoo.close(B, wb, 1e-12, 0), "wrong system matrices", m=m, n=n, mode=mode, A=A, B=B)
        # used through the linear model
        from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics

        dyn = BaseLinearODESolverDynamics(A=A, B=B)
        for x in grid.basis(len(wa), 3.0):
            for u in grid.basis(wb.shape[1]):
                got = dyn.compute_state_dot(0.0, x.copy(), u.copy())
                rec.transition()
                rec.check(zoo.close(got, wa @ x + wb @ u, 1e-9, 1e-12), "the linear model of the matrices has another derivative", state=x, thrust=u, got=got)
    for bad in ("1d", "4d", "", "3D", None, 3):
        raised = False
        try:
            generate_cwh_matrices(12, 0.001, bad)
        except Exception:  # noqa: B902
            raised = True
        rec.transition()
        rec.check(raised, "an unknown mode was accepted", mode=bad)


def closed_form(rec, m, n):
    """Steps of up to a full orbit, whole and in parts, against the closed form."""
    make, model = grid.custom("cwh", m=m, n=n)
    orbit = 2 * math.pi / n
    e = make()
    p = 1.0 / m / n**2
    starts = [np.zeros(6), np.array([100.0, -50, 25, 0.5, -1.0, 0.25]) * np.array([p] * 3 + [p * n] * 3) / 100, np.array([-1.0, 2, 3, 0, 2.0, 0]) * np.array([p] * 3 + [p * n] * 3)]
    # bounded relative orbit: yd = -2 n x returns after one orbit
    starts.append(np.array([p, 0, 0, 0, -2 * n * p, n * p]))
    fracs = (1 / 64, 1 / 8, 1 / 4, 1 / 2, 1.0)
    for s in starts:
        for u in [np.zeros(3), np.array([1.0, 0, 0]), np.array([0, -1.0, 0]), np.array([0, 0, 1.0]), np.array([0.5, -0.25, 0.75])]:
            for f in fracs:
                for parts in (1, 2, 5):
                    T = f * orbit
                    e.state = s
                    for _ in range(parts):
                        zoo.step(e, T / parts, u.copy())
                        rec.transition()
                    got = np.asarray(e.state, float)
                    want = model.closed_form(s, u, T)
                    scale = 1e-6 + 1e-3 * np.max(np.abs([model.closed_form(s, u, T * k / 16) for k in range(17)]), axis=0)
                    # position and velocity errors feed each other
                    scale[:3] = np.maximum(scale[:3], scale[3:].max() / n)
                    scale[3:] = np.maximum(scale[3:], scale[:3].max() * n)
                    err = np.abs(got - want) / scale
                    rec.trace()
                    rec.state(m, n, s, u, f, parts)
                    rec.maxnote("closed form error", float(err.max()))
                    rec.check(bool(np.all(err <= lib.FACTOR)), "a step does not agree with the closed form solution", start=s, thrust=u, T=T, parts=parts, got=got, want=want)
                    rec.outcome(got)


def linear(rec, m, n, method):
    """The step is a linear map of state and thrust (exactly for Euler, to solver tolerance for RK45)."""
    make, model = grid.custom("cwh", m=m, n=n)
    e = make(None, method)
    sc = np.array([100.0, 100, 100, 1, 1, 1])
    for T in (0.5, 10.0, 0.05 / n):
        def phi(x, u):
            e.state = np.array(x, float)
            zoo.step(e, T, np.array(u, float))
            rec.transition()
            return np.asarray(e.state, float)

        cols = [phi(sc[i] * np.eye(6)[i], np.zeros(3)) for i in range(6)]
        bcols = [phi(np.zeros(6), np.eye(3)[i]) for i in range(3)]
        for a in itertools.product((0.0, 1.0, -2.0), repeat=3):
            for b in itertools.product((0.0, 0.5), (0.0, -0.75, 1.0)):
                ca = np.array([a[0], a[1], a[2], a[1] - a[2], a[0], -a[1]])
                cb = np.array([b[0], b[1], b[0] - b[1] if abs(b[0] - b[1]) <= 1 else 0.25])
                x = ca * sc
                got = phi(x, cb)
                want = sum(ca[i] * cols[i] for i in range(6)) + sum(cb[i] * bcols[i] for i in range(3))
                scale = sum(abs(ca[i]) * np.abs(cols[i]) for i in range(6)) + sum(abs(cb[i]) * np.abs(bcols[i]) for i in range(3))
                tol = 1e-10 * scale + 1e-12 if method == "Euler" else 6e-6 + 3e-3 * (scale + T * model.fmag(x, cb))
                rec.trace()
                rec.state(m, n, method, T, ca, cb)
                rec.check(bool(np.all(np.abs(got - want) <= tol)), "the step is not linear in state and thrust", state=x, thrust=cb, T=T, got=got, want=want)


def histories(rec, m, n, method, depth):
    make, model = grid.custom("cwh", m=m, n=n)
    acts = [np.zeros(3), np.array([1.0, -0.5, 0.25]), np.array([-1.0, 1.0, -1.0]), np.array([0, 0.5, 1.0])]
    grid.lockstep(rec, make, model, zoo.base_states("cwh", "default"), acts, (1.0, 60.0), depth, method, m=m, n=n)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = [("matrices", {})]
    for m, n in MN:
        for i in range(2):
            sc.append(("derivative", dict(m=m, n=n, i=i)))
        sc.append(("closed_form", dict(m=m, n=n)))
        sc.append(("fine", dict(m=m, n=n)))
        for method in ("Euler", "RK45"):
            sc.append(("linear", dict(m=m, n=n, method=method)))
            if n < 0.05:
                sc.append(("histories", dict(m=m, n=n, method=method, depth=(5 if method == "Euler" else 4) if th else (4 if method == "Euler" else 3))))
    parts = 4 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('cwh',) for i in range(parts)]
    return core.run_check("C12", sys.modules[__name__], sc, assumptions=["masses 0.5 to 1000 kg, mean motions 0.0005 to 1 rad/s, durations up to one orbit"])
