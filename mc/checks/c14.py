"""C14: six degree of freedom translation: Clohessy-Wiltshire motion, thrust in the body frame (rotated by the attitude) or in Hill's frame."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, ref, zoo

TRANS = [0, 1, 2, 7, 8, 9]
AGILE = dict(inertia_matrix=np.diag([0.05, 0.1, 0.2]), ang_acc_limit=[0.5, 0.25, 0.125], ang_vel_limit=[1.0, 2.0, 0.5], inertia_wheel=0.01, acc_limit_wheel=100.0, vel_limit_wheel=50.0)
PARAMS = [
    dict(), dict(m=5.0, n=0.003, thrust_control_limit=2.5, **AGILE), dict(m=1.0, n=0.1, thrust_control_limit=4), dict(m=300.0, n=0.0005, thrust_control_limit=0.25),
    dict(m=40, n=0.02, **AGILE),
]


def attitudes():
    """The 24 rotations of the cube and generic ones, each with both signs of the quaternion."""
    out = []
    h = math.sqrt(0.5)
    for q in itertools.product((0, 1, -1), repeat=4):
        nz = sum(map(abs, q))
        if nz in (1, 2, 4):
            out.append(np.array(q, float) * {1: 1.0, 2: h, 4: 0.5}[nz])
    assert len(out) == 48
    for q in ([0.3, -0.2, 0.5, 0.7], [-0.7, 0.1, 0.4, -0.2], [0.9, 0.2, -0.1, 0.05], [0.01, 0.02, -0.03, 1.0], [0.4, 0.4, 0.5, -0.6]):
        out += [zoo.unit(q), -zoo.unit(q)]
    return out


ATT = attitudes()


def state(p, q, v, w):
    return np.concatenate([p, q, v, w]).astype(float)


def place(m):
    return [(np.zeros(3), np.zeros(3)), (np.array([100.0, -50.0, 25.0]), np.array([0.5, -1.0, 0.25]))]


def rates(m):
    return [np.zeros(3), np.array([0.5, -0.25, 0.125]) * m.vel]


def derivative(rec, p, body, part):
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    dyn = make().dynamics
    lim = m.umax
    thrust = [np.zeros(6)]
    for c in grid.basis(3):
        thrust.append(np.concatenate([c * lim[:3], np.zeros(3)]))
    thrust.append(np.concatenate([np.array([0.5, -0.25, 0.375]) * lim[:3], np.array([0.5, 1.0, -0.25]) * lim[3:]]))
    thrust.append(np.concatenate([np.array([0.5, -0.25, 0.375]) * lim[:3], -lim[3:]]))
    if part == "thrust":
        states = [state(pp, q, vv, w) for q in ATT for pp, vv in place(m) for w in rates(m)]
    else:
        thrust = thrust[:3] + thrust[-2:]
        states = [state(x[:3], q, x[3:], w) for x in grid.basis(6, np.array([1e3, 1e3, 1e3, 5, 5, 5])) for q in (ATT[0], ATT[49], ATT[52]) for w in rates(m)]
    for x in states:
        for u in thrust:
            got = np.asarray(dyn.compute_state_dot(0.0, x.copy(), u.copy()), float)
            rec.transition()
            rec.trace()
            want = m.f(x, u)
            tol = 2e-6 * m.fmag(x, u) + 1e-10
            rec.check(got.shape == (13, ) and bool(np.all(np.abs(got - want)[TRANS] <= tol[TRANS])), "the translational derivative is not the documented one", state=x, control=u, got=got, want=want, p=p, body=body)
            rec.state(p, body, x, u)
            rec.outcome(got[TRANS])


def differences(rec, p, body):
    """Differences down to 1e-9 of position, velocity, rate and thrust (see grid.fine)."""
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    states = [state(k * np.array([120.0, -80.0, 30.0]), q, k * np.array([0.5, -1.0, 0.25]), k * 0.3 * m.vel) for k in (0, 1) for q in (ATT[0], ATT[9], ATT[49])]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(6), 0.5 * m.umax, 0.25 * m.umin], [100, 100, 100, 0, 0, 0, 0, 1, 1, 1] + list(0.3 * m.vel), m.umax, eps=2.5e-7, p=p, body=body)


def fine(rec, p):
    """Attitudes a small angle apart, down to 1e-8 (next to the neutral one 1e-15): the thrust turns by that angle (no dead zone, no quantisation)."""
    make, m = grid.custom("sixdof", body_frame_thrust=True, **PARAMS[p])
    dyn = make().dynamics
    for q in (ATT[0], ATT[9], ATT[49], ATT[52]):
        for axis, k, sign in itertools.product(range(3), range(1, 9), (1, -1)):
            h = np.zeros(3)
            h[axis] = sign * 0.5 * 10.0**-k * 1.37
            v, w = q[:3], q[3]
            q2 = zoo.unit(np.concatenate([v + w * h + np.cross(v, h), [w - float(v @ h)]]))
            for F in grid.basis(3)[1:]:
                u = np.concatenate([F * m.umax[:3], np.zeros(3)])
                a = [np.asarray(dyn.compute_state_dot(0.0, state(np.zeros(3), r, np.zeros(3), np.zeros(3)), u.copy()), float)[7:10] for r in (q, q2)]
                rec.transition(2)
                rec.trace()
                R = [ref.quat_matrix(r) @ u[:3] / m.m for r in (q, q2)]
                size = np.linalg.norm(u[:3]) / m.m
                rec.check(bool(np.all(np.abs((a[1] - a[0]) - (R[1] - R[0])) <= (1e-12 + 1e-6 * 10.0**-k) * size)), "a small turn of the attitude does not turn the thrust by that angle", quaternion=q, turned=q2, thrust=u, got=a[1] - a[0], want=R[1] - R[0])
                rec.state(p, q2, u)
                rec.outcome(a[1])
    # next to the neutral attitude the sideways part of the thrust is the small angle times the thrust, however small the angle
    for axis, k, sign in itertools.product(range(3), range(1, 16), (1, -1)):
        a = sign * 0.685 * 10.0**-k
        q = np.array([0.0, 0.0, 0.0, math.cos(a)])
        q[axis] = math.sin(a)
        for F in grid.basis(3)[1:]:
            u = np.concatenate([F * m.umax[:3], np.zeros(3)])
            got = np.asarray(dyn.compute_state_dot(0.0, state(np.zeros(3), q, np.zeros(3), np.zeros(3)), u.copy()), float)[7:10]
            rec.transition()
            rec.trace()
            e = np.eye(3)[axis]
            f = u[:3] / m.m
            want = math.cos(2 * a) * f + math.sin(2 * a) * np.cross(e, f) + (1 - math.cos(2 * a)) * e * float(e @ f)
            side = np.abs(f) == 0
            tol = np.where(side, 1e-4 * abs(a), 1e-6) * np.linalg.norm(f)
            rec.check(bool(np.all(np.abs(got - want) <= tol)), "a tiny turn of the attitude does not turn the thrust by that angle", quaternion=q, thrust=u, got=got, want=want)
            rec.state(p, q, u)
            rec.outcome(got)


def direction(rec, p, body):
    """Through the entity: the velocity gained in a short push has magnitude |F| T / m, along F turned by the reported orientation."""
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    for method in ("Euler", "RK45"):
        e = make(None, method)
        for q in ATT:
            for c in grid.basis(3)[1:] + [np.array([0.5, -0.25, 0.375])]:
                F = c * m.umax[:3]
                for M in (0.0, 1.0):
                    e.state = state(np.zeros(3), q, np.zeros(3), np.zeros(3))
                    R = e.orientation.as_matrix() if body else np.eye(3)
                    T = 0.01 if M else 0.125
                    zoo.step(e, T, np.concatenate([F, M * m.umax[3:]]))
                    rec.transition()
                    rec.trace()
                    gain = np.asarray(e.velocity, float) / T
                    size = np.linalg.norm(F) / m.m
                    tol = (2e-5 + (5e-4 if M else 0.0) + 3 * m.n * T) * size + 1e-9
                    rec.check(bool(np.all(np.abs(gain - R @ F / m.m) <= tol)), "thrust does not act along the documented axes", quaternion=q, thrust=F, gain=gain, want=R @ F / m.m, body=body, method=method)
                    rec.check(abs(np.linalg.norm(gain) - size) <= tol, "the thrust acceleration is not |F|/m", quaternion=q, thrust=F, gain=np.linalg.norm(gain), want=size, body=body)
                    rec.state(p, body, method, q, F, M)
                    rec.outcome(gain)
                # beyond the limit the push is the limit's
                e.state = state(np.zeros(3), q, np.zeros(3), np.zeros(3))
                zoo.step(e, 0.125, np.concatenate([1e3 * c * m.umax[:3], np.zeros(3)]))
                rec.transition()
                Fs = np.clip(1e3 * c * m.umax[:3], m.umin[:3], m.umax[:3])
                gain = np.asarray(e.velocity, float) / 0.125
                rec.check(bool(np.all(np.abs(gain - R @ Fs / m.m) <= (2e-5 + 0.5 * m.n) * np.linalg.norm(Fs) / m.m + 1e-9)), "excessive thrust is not limited per axis in its own frame", quaternion=q, thrust=1e3 * F, gain=gain, want=R @ Fs / m.m, body=body)


def closed(rec, p, body):
    """Whole steps against the closed form: any rotation when thrust is in Hill's frame (or zero), constant attitude when it is in the body frame."""
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    cw = ref.CWH(m=m.m, n=m.n)
    e = make()
    ends = [np.array([0.0, 0, 0, 0, 0, 0]), np.array([100.0, -50.0, 25.0, 0.5, -1.0, 0.25]), np.array([-1500.0, 900.0, 3000.0, -2.0, 5.0, 1.0])]
    for q in ATT[::3] + ATT[48:]:
        for s6, w, F0, T in itertools.product(ends, rates(m), ([0, 0, 0], [1, 0, 0], [0, -0.5, 0], [0.25, 0.5, -1.0]), (1.0, 0.05 / m.n)):
            F = np.array(F0, float) * m.umax[:3]
            if body and np.any(w) and np.any(F) or np.linalg.norm(w) * T > lib.TWO_PI:
                continue
            e.state = state(s6[:3], q, s6[3:], w)
            zoo.step(e, T, np.concatenate([F, np.zeros(3)]))
            rec.transition()
            rec.trace()
            R = ref.quat_matrix(q) if body else np.eye(3)
            want = cw.closed_form(s6, R @ F, T)
            got = np.asarray(e.state, float)[TRANS]
            peak = np.max(np.abs([cw.closed_form(s6, R @ F, T * k / 8) for k in range(9)]), axis=0)
            tol = 5 * (1e-6 + 1e-3 * peak)
            tol[:3] += tol[3:].max() * T * 0.5
            rec.check(bool(np.all(np.abs(got - want) <= tol)), "a step is not the closed form translation", start=s6, quaternion=q, rates=w, thrust=F, T=T, got=got, want=want, body=body)
            rec.state(p, body, q, s6, w, F, T)
            rec.outcome(got)


def independent(rec, p, body):
    """Moments, rates and (for Hill thrust) attitude do not reach the translation: Euler steps that differ only in them translate identically."""
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    e = make(None, "Euler")
    for s6 in (np.zeros(6), np.array([100.0, -50.0, 25.0, 0.5, -1.0, 0.25])):
        for F in ([0, 0, 0], [0.5, -0.25, 0.375], [1, 1, -1]):
            F = np.array(F, float) * m.umax[:3]
            base = {}
            for q, w, M in itertools.product(ATT[::5], grid.basis(3, m.vel, pairs=False), grid.basis(3, m.umax[3:], pairs=False)):
                e.state = state(s6[:3], q, s6[3:], w)
                zoo.step(e, 1.0, np.concatenate([F, M]))
                rec.transition()
                got = np.asarray(e.state, float)[TRANS]
                key = tuple(np.abs(q) * np.sign(q[np.argmax(np.abs(q) > 0)])) if body and np.any(F) else 0
                first = base.setdefault(key, got)
                scale = 1e-6 * (np.abs(first) + np.linalg.norm(F) / m.m + 1e-3)
                rec.check(bool(np.all(np.abs(got - first) <= scale)) or key != 0, "attitude, rates or moments reach the translation", start=s6, quaternion=q, rates=w, moments=M, got=got, want=first)
                if key != 0:
                    want = euler6(m, s6, ref.quat_matrix(q) @ F)
                    rec.check(bool(np.all(np.abs(got - want) <= 2e-6 * (np.abs(want) + np.abs(s6) + np.linalg.norm(F) / m.m + 1e-3))), "rates or moments reach the translation", start=s6, quaternion=q, rates=w, moments=M, got=got, want=want)
                rec.state(p, body, s6, F, q, w, M)
                rec.outcome(got)
            rec.trace()


def euler6(m, s6, F):
    a = np.array(ref.cw_terms(s6[:3], s6[3:], m.n)) + F / m.m
    return np.concatenate([s6[:3] + s6[3:], s6[3:] + a])


def histories(rec, p, body, method, depth):
    make, m = grid.custom("sixdof", body_frame_thrust=body, **PARAMS[p])
    starts = [state([100.0, -50.0, 25.0], q, [0.5, -1.0, 0.25], w) for q in (ATT[0], ATT[40], ATT[49]) for w in rates(m)]
    acts = [np.zeros(6), np.array([0.5, -0.25, 0.375, 0.25, -0.5, 0.125]) * m.umax, np.array([-1.0, 1, -1, 0.5, 0.25, -1]) * m.umax]
    grid.lockstep(rec, make, m, starts, acts, (0.25, 1.0), depth, method, p=p, body=body)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts, comps=(0, 1, 2, 7, 8, 9))


def run(tier):
    th = tier == "thorough"
    sc = []
    for p, body in itertools.product(range(len(PARAMS)), (True, False)):
        for part in ("thrust", "cw"):
            sc.append(("derivative", dict(p=p, body=body, part=part)))
        sc.append(("differences", dict(p=p, body=body)))
        if body:
            sc.append(("fine", dict(p=p)))
        sc.append(("direction", dict(p=p, body=body)))
        sc.append(("closed", dict(p=p, body=body)))
        sc.append(("independent", dict(p=p, body=body)))
        for method in ("Euler", "RK45"):
            sc.append(("histories", dict(p=p, body=body, method=method, depth=4 if th else 2)))
    parts = 6 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('sixdof',) for i in range(parts)]
    return core.run_check("C14", sys.modules[__name__], sc, assumptions=["unit attitude quaternions (48 of the cube's rotations and 10 generic ones); five parameter sets; both thrust frames"])
