"""C15: six degree of freedom attitude: quaternion kinematics, Euler's equations, conservation laws, per-axis limits."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, ref, zoo
from mc.checks.c14 import ATT, state

ROT = [3, 4, 5, 6, 10, 11, 12]
OPEN = dict(ang_acc_limit=10.0, ang_vel_limit=10.0, inertia_wheel=1.0, acc_limit_wheel=1e3, vel_limit_wheel=1e3)
BODIES = {
    "default": dict(),
    "sphere": dict(inertia_matrix=np.diag([0.1, 0.1, 0.1]), **OPEN),
    "plate": dict(inertia_matrix=np.diag([0.1, 0.1, 0.2]), **OPEN),
    "rod": dict(inertia_matrix=np.diag([0.05, 0.3, 0.3]), **OPEN),
    "side": dict(inertia_matrix=np.diag([0.2, 0.05, 0.2]), **OPEN),
    "tri": dict(inertia_matrix=np.diag([0.05, 0.1, 0.2]), **OPEN),
    "matrix": dict(inertia_matrix=np.matrix([[3.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 4.0]]), **OPEN),
    "integers": dict(inertia_matrix=np.diag([1, 2, 5]), **OPEN),
    "tight": dict(inertia_matrix=np.diag([0.05, 0.1, 0.2]), ang_acc_limit=[0.5, 0.25, 0.125], ang_vel_limit=[1.0, 2.0, 0.5], inertia_wheel=0.01, acc_limit_wheel=100.0, vel_limit_wheel=50.0),
}


def spins(m):
    s = np.minimum(m.vel, 0.75) * 0.9
    return [c * s for c in grid.basis(3)] + [np.array(c) * s for c in ((1, 1, 1), (1, -1, 1), (-0.5, 0.25, 1), (0.25, -1, -0.5))]


def derivative(rec, body, frame):
    make, m = grid.custom("sixdof", body_frame_thrust=frame, **BODIES[body])
    dyn = make().dynamics
    moments = [np.concatenate([np.zeros(3), c * m.umax[3:]]) for c in grid.basis(3) + [np.array([0.5, -0.25, 0.375])]]
    moments.append(np.concatenate([[1.0, -0.5, 0.25], np.array([0.5, 1.0, -0.25]) * m.umax[3:]]))
    for q in ATT:
        for w in spins(m):
            x = state([100.0, -50.0, 25.0], q, [0.5, -1.0, 0.25], w)
            for u in moments:
                got = np.asarray(dyn.compute_state_dot(0.0, x.copy(), u.copy()), float)
                rec.transition()
                want = m.f(x, u)
                tol = 2e-6 * m.fmag(x, u) + 1e-10
                rec.check(got.shape == (13, ) and bool(np.all(np.abs(got - want)[ROT] <= tol[ROT])), "the rotational derivative is not the documented one", state=x, control=u, got=got, want=want, body=body)
                rec.check(abs(float(np.dot(got[3:7], q))) <= 2e-6 * np.linalg.norm(w) + 1e-12, "the quaternion's rate changes its norm", state=x, control=u, qdot=got[3:7])
                if not np.any(u[3:]):
                    h = m.I * w
                    rec.check(abs(np.dot(h, got[10:13])) <= 1e-5 * np.linalg.norm(h) * np.linalg.norm(want[10:13]) + 1e-12, "kinetic energy changes without moments", state=x, got=got)
                    rec.check(abs(np.dot(h, m.I * got[10:13])) <= 1e-5 * np.linalg.norm(h) * np.linalg.norm(m.I * want[10:13]) + 1e-12, "the magnitude of the angular momentum changes without moments", state=x, got=got)
                rec.trace()
                rec.state(body, frame, x, u)
                rec.outcome(got[ROT])


def fine(rec, body):
    """Differences down to 1e-9 of quaternion, rate and moment (see grid.fine)."""
    make, m = grid.custom("sixdof", body_frame_thrust=False, **BODIES[body])
    w = np.minimum(m.vel, 0.75)
    states = [state(np.zeros(3), q, np.zeros(3), k * w) for q in (ATT[0], ATT[9], ATT[49], ATT[52]) for k in (np.zeros(3), np.array([0.5, -0.25, 0.375]))]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(6), 0.5 * m.umax, 0.25 * m.umin], [0, 0, 0, 0.1, 0.1, 0.1, 0.1, 0, 0, 0] + list(0.3 * w), m.umax, eps=2.5e-7, body=body)


def conserved(rec, body, depth):
    """Histories without moments (thrust on and off): kinetic energy, inertial angular momentum and the quaternion's norm stay put."""
    make, m = grid.custom("sixdof", **BODIES[body])
    e = make()
    ws = spins(m)
    picks = ws[7:13:2] + ws[-4:] + ws[1:4:2]
    for q in (ATT[0], ATT[40], ATT[50], ATT[54]):
        for w in picks:
            for T in (0.25, 2.0):
                start = state([10.0, -5.0, 2.0], q, [0.5, -1.0, 0.25], w)
                e.state = start
                E0 = 0.5 * np.dot(m.I, w**2)
                H0 = ref.quat_matrix(q) @ (m.I * w)
                frontier = [start]
                for d in range(depth):
                    nxt = []
                    for s in frontier:
                        for F in ([0.0, 0, 0], [0.5, -0.25, 1.0]):
                            e.state = s
                            zoo.step(e, T, np.concatenate([F, np.zeros(3)]))
                            rec.transition()
                            rec.trace()
                            x = np.asarray(e.state, float)
                            qq, ww = np.asarray(e.quaternion, float), np.asarray(e.angular_velocity, float)
                            E = 0.5 * np.dot(m.I, ww**2)
                            H = ref.quat_matrix(qq) @ (m.I * ww)
                            k = (d + 1) * (1 + T * np.linalg.norm(w))
                            rec.check(abs(E - E0) <= 6e-3 * k * E0 + 1e-9, "kinetic energy is not conserved without moments", start=start, state=x, energy=E, want=E0, steps=d + 1, T=T, body=body)
                            rec.check(np.linalg.norm(H - H0) <= 8e-3 * k * np.linalg.norm(H0) + 1e-9, "inertial angular momentum is not conserved without moments", start=start, state=x, momentum=H, want=H0, steps=d + 1, T=T, body=body)
                            rec.check(abs(np.linalg.norm(x[3:7]) - 1) <= 2e-3 * k, "the attitude quaternion loses its unit norm", start=start, state=x, norm=np.linalg.norm(x[3:7]), steps=d + 1, T=T, body=body)
                            rec.maxnote("energy drift / bound", abs(E - E0) / (6e-3 * k * E0 + 1e-9))
                            rec.maxnote("momentum drift / bound", np.linalg.norm(H - H0) / (8e-3 * k * np.linalg.norm(H0) + 1e-9))
                            rec.maxnote("norm drift / bound", abs(np.linalg.norm(x[3:7]) - 1) / (2e-3 * k))
                            if rec.state(body, T, x):
                                nxt.append(x)
                            rec.outcome(x[ROT])
                    frontier = nxt


def steady(rec, body):
    """A spin about one principal axis stays there: attitude is the start attitude turned by the angle about that body axis."""
    make, m = grid.custom("sixdof", **BODIES[body])
    for method in ("RK45", ):
        e = make(None, method)
        for q in ATT[::4] + ATT[48:]:
            for ax, sign, ang in itertools.product(range(3), (1, -1), (0.01, 0.5, math.pi / 2, 3.0)):
                w = np.zeros(3)
                w[ax] = sign * min(0.5, 0.9 * m.vel[ax])
                T = ang / abs(w[ax])
                e.state = state([10.0, -5.0, 2.0], q, [0.5, -1.0, 0.25], w)
                zoo.step(e, T, None)
                rec.transition()
                rec.trace()
                turn = np.zeros(4)
                turn[ax], turn[3] = sign * math.sin(ang / 2), math.cos(ang / 2)
                want = ref.quat_matrix(ref.quat_mul(q, turn))
                got = e.orientation.as_matrix()
                rec.check(bool(np.all(np.abs(got - want) <= 1e-5 + 1e-2 * ang)), "a steady spin does not turn the attitude about the body axis", quaternion=q, axis=ax, angle=sign * ang, got=got, want=want, body=body)
                rec.check(bool(np.all(np.abs(np.asarray(e.angular_velocity, float) - w) <= 1e-6 + 1e-3 * np.linalg.norm(w))), "a spin about a principal axis changes without moments", got=e.angular_velocity, want=w, body=body)
                rec.state(body, q, ax, sign, ang)
                rec.outcome(got)


def forms(v):
    """One limit per axis in each of the forms a user may write it in."""
    return [list(v), np.array(v)] + ([v[0]] if v[0] == v[1] == v[2] else [])


def limits(rec, method, body):
    """Every combination of which limit binds on which axis, in each form the limits may be given."""
    Is = (([0.0573, 0.0573, 0.0573], [0.05, 0.1, 0.2], [0.2, 0.05, 0.1])[body], )
    accs = ([0.017453] * 3, [0.5, 0.25, 0.125], [2.0, 2.0, 2.0], [0.05, 3.0, 0.2])
    vels = ([0.034907] * 3, [1.0, 2.0, 0.5], [5.0, 5.0, 5.0], [0.2, 4.0, 0.6])
    wheels = ((4.1e-5, 181.3, 576), (0.01, 10.0, 5.0), (0.001, 1000.0, 3000.0))
    for I, aa, av, (iw, wa, wv) in itertools.product(Is, accs, vels, wheels):
        for fa, fv in list(zip(forms(aa) * 2, (forms(av) * 2)[::-1]))[:None if method == "Euler" else 1]:
            kw = dict(inertia_matrix=np.diag(I), ang_acc_limit=fa, ang_vel_limit=fv, inertia_wheel=iw, acc_limit_wheel=wa, vel_limit_wheel=wv)
            make, m = grid.custom("sixdof", **kw)
            acc = np.minimum(aa, iw * wa / np.array(I))
            vel = np.minimum(av, iw * wv / np.array(I))
            e = make(None, method)
            lib.control_limits(rec, e, m, inertia=I, wheel=[iw, wa, wv], limits=[aa, av])
            info = dict(inertia=I, acc=aa, vel=av, wheel=[iw, wa, wv], forms=[type(fa).__name__, type(fv).__name__], method=method)
            for ax, sign in itertools.product(range(3), (1, -1)):
                u = np.zeros(6)
                T = min(0.25, 0.25 * vel[ax] / acc[ax])
                for size, frac in ((1.0, 1.0), (1e6, 1.0), (0.5, 0.5)):
                    u[3 + ax] = sign * size * acc[ax] * I[ax]
                    e.state = state([0, 0, 0], ATT[0], [0, 0, 0], [0, 0, 0])
                    zoo.step(e, T, u)
                    rec.transition()
                    got = np.asarray(e.angular_velocity, float)
                    want = np.zeros(3)
                    want[ax] = sign * frac * acc[ax] * T
                    rec.check(bool(np.all(np.abs(got - want) <= 2e-6 * acc[ax] * T + 1e-15)), "a moment gives another angular acceleration", command=size, axis=ax, got=got / T, want=want / T, **info)
                u[3 + ax] = sign * acc[ax] * I[ax]
                for start in (0.9, 2.0):
                    w = np.zeros(3)
                    w[ax] = sign * start * vel[ax]
                    e.state = state([0, 0, 0], ATT[0], [0, 0, 0], w)
                    zoo.step(e, 0.2 * vel[ax] / acc[ax], u)
                    rec.transition()
                    got = np.asarray(e.angular_velocity, float)
                    want = np.zeros(3)
                    want[ax] = sign * vel[ax]
                    rec.check(bool(np.all(np.abs(got - want) <= 2e-6 * vel[ax])), "a body rate does not saturate at its axis' limit", axis=ax, got=got, want=want, **info)
            rec.trace()
            rec.state(method, I, aa, av, iw, *info["forms"])
            rec.outcome(acc, vel)


def limit_sizes(rec, part):
    """Moment and rate limits for every combination of inertia, wheel and limit sizes over many orders of magnitude."""
    sizes = (1e-6, 1e-3, 0.05, 1.0, 30.0, 1e4)
    for i, (I, iw, wa, wv) in enumerate(itertools.product((1e-4, 0.0573, 2.0, 1e4), sizes, (1e-2, 181.3, 2e3, 1e6), (1e-2, 576.0, 2e4, 1e6))):
        if i % 4 != part:
            continue
        J = np.array([I, 1.25 * I, 1.5 * I])
        for aa, av in itertools.product((1e-4, 0.017453, 1.0, 500.0), (1e-4, 0.034907, 1.0, 500.0)):
            make, m = grid.custom("sixdof", inertia_matrix=np.diag(J), ang_acc_limit=aa, ang_vel_limit=av, inertia_wheel=iw, acc_limit_wheel=wa, vel_limit_wheel=wv)
            e = make(None, "Euler")
            lib.control_limits(rec, e, m, inertia=J, wheel=[iw, wa, wv], limits=[aa, av])
            want = np.minimum(av, iw * wv / J)
            e.state = state([0, 0, 0], ATT[0], [0, 0, 0], np.array([2.0, -3.0, 1.5]) * want)
            zoo.step(e, 1e-9 / float(want.max()), None)
            got = np.asarray(e.angular_velocity, float) * [1, -1, 1]
            rec.transition()
            rec.check(bool(np.all(np.abs(got - want) <= 2e-6 * want)), "the body rate limit is not the lesser of its own and the wheel's", got=got, want=want, inertia=J, wheel=[iw, wa, wv], limits=[aa, av])
            rec.state(I, iw, wa, wv, aa, av)
        rec.trace()
        rec.outcome(I, iw)


def histories(rec, body, method, depth):
    make, m = grid.custom("sixdof", **BODIES[body])
    w = np.minimum(m.vel, 0.75)
    starts = [state([100.0, -50.0, 25.0], q, [0.5, -1.0, 0.25], np.array(c) * w) for q in (ATT[0], ATT[40], ATT[49]) for c in ((0, 0, 0), (0.5, -0.25, 0.125), (-0.25, 0.5, 0.5))]
    umax = m.umax.copy()
    umax[3:] = np.minimum(umax[3:], 0.2 * m.I)
    acts = [np.zeros(6), np.array([0.5, -0.25, 0.375, 0.25, -0.5, 0.125]) * umax, np.array([-1.0, 1, -1, 0.5, 0.25, -1]) * umax, np.array([0, 0, 0, 1.0, 1, 1]) * umax]
    grid.lockstep(rec, make, m, starts, acts, (0.25, 1.0), depth, method, body=body)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts, comps=(3, 4, 5, 6, 10, 11, 12))


def run(tier):
    th = tier == "thorough"
    sc = [("limits", dict(method=m, body=b)) for m in ("RK45", "Euler") for b in range(3)]
    for b in BODIES:
        sc += [("derivative", dict(body=b, frame=f)) for f in (True, False)]
        if b != "tight":  # a rate limit met on the way takes energy out
            sc.append(("conserved", dict(body=b, depth=7 if th else 3)))
        sc.append(("steady", dict(body=b)))
        sc.append(("fine", dict(body=b)))
        for method in ("Euler", "RK45"):
            if method == "RK45" or b != "tight":
                sc.append(("histories", dict(body=b, method=method, depth=3 if th else 2)))
    sc += [("limit_sizes", dict(part=i)) for i in range(4)]
    parts = 6 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('sixdof',) for i in range(parts)]
    return core.run_check("C15", sys.modules[__name__], sc, assumptions=["unit start quaternions, nine bodies (spherical, axisymmetric about each axis, triaxial, whole numbers), per-step rotation up to about one turn"])
