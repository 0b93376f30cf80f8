"""C13: planar rotating spacecraft: in-plane Clohessy-Wiltshire motion with thrust turned by the heading, rotation by the wheel moment, derived limits."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, zoo

PI = math.pi
HEADINGS = [0.0, PI / 6, PI / 4, PI / 2, 2.0, 3 * PI / 4, PI, -PI, -3.0, -2.5, -PI / 2, -1.0, -PI / 4, 7.0, -20.0]
PARAMS = [
    dict(), dict(m=5.0, n=0.003, inertia=0.2, ang_acc_limit=0.5, ang_vel_limit=1.0, inertia_wheel=0.01, acc_limit_wheel=100.0, vel_limit_wheel=50.0),
    dict(m=40.0, n=0.01, inertia=0.05, ang_acc_limit=1.0, ang_vel_limit=2.0, inertia_wheel=0.001, acc_limit_wheel=20.0, vel_limit_wheel=30.0),
    dict(m=1.0, n=0.1, inertia=2.0, ang_acc_limit=0.125, ang_vel_limit=3.0, inertia_wheel=0.5, acc_limit_wheel=0.25, vel_limit_wheel=100.0),
    dict(m=300.0, n=0.0005, inertia=10.0, ang_acc_limit=3.0, ang_vel_limit=0.5, inertia_wheel=0.01, acc_limit_wheel=10.0, vel_limit_wheel=4000.0),
]
BACKENDS = (False, True)


def derivative(rec, p, jax):
    make, m = grid.custom("rot2d", **PARAMS[p])
    dyn = make(use_jax=jax).dynamics
    states = []
    w = m.vel
    for th, om in itertools.product(HEADINGS, (0.0, 0.5 * w, -0.25 * w, w, -w, 1.5 * w)):
        if jax and om not in (0.0, 0.5 * w):
            continue
        states.append(np.array([100.0, -50.0, th, 0.5, -1.0, om]))
        states.append(np.array([0.0, 0.0, th, 0.0, 0.0, om]))
    for x in grid.basis(6, np.array([1e3, 1e3, 1, 5, 5, 0.5 * w])):
        states.append(x)
    ctrl = [c * m.umax for c in grid.basis(3)] + [np.array([0.5, -0.25, 0.375]) * m.umax]
    if jax:
        states, ctrl = states[::2], ctrl[::2]
    grid.derivs(rec, dyn, m, states, ctrl, ts=(0.0, ) if jax else grid.TS, rel=2e-6, p=p, jax=jax)


def fine(rec, p):
    """Differences down to 1e-9 of every component (see grid.fine)."""
    make, m = grid.custom("rot2d", **PARAMS[p])
    w = m.vel
    states = [np.array([0.0, 0.0, th, 0.0, 0.0, 0.0]) for th in HEADINGS]
    grid.fine(rec, make().dynamics, m, states, [0.5 * m.umax, 0.25 * m.umin], [0, 0, 1, 0, 0, 0], [1, 1, 0] * m.umax, eps=1e-12, p=p)
    states = [np.array([x, -x, th, 0.01 * x, 0.02 * x, om]) for x in (0.0, 120.0) for th in (0.0, math.pi / 2, 1.1, -2.3, -math.pi / 2) for om in (0.0, 0.5 * w)]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(3), 0.5 * m.umax, 0.25 * m.umin], [100, 100, 1, 1, 1, 0.25 * w], m.umax, eps=2.5e-7, p=p)


def thrust(rec, p):
    """Body axes: a unit thrust along x accelerates along the entity's own x axis, y along its y axis, whatever else is going on."""
    make, m = grid.custom("rot2d", **PARAMS[p])
    e = make(None, "Euler")
    for th in HEADINGS:
        for om in (0.0, 0.5 * m.vel):
            for u in grid.basis(3)[1:]:
                u = u * m.umax
                e.state = np.array([0.0, 0.0, th, 0.0, 0.0, om])
                body = np.asarray(e.orientation.apply([float(u[0]), float(u[1]), 0.0]))
                zoo.step(e, 1.0, u.copy())
                rec.transition()
                rec.trace()
                rec.state(p, th, om, u)
                got = np.asarray(e.velocity, float)
                want = body / m.m
                rec.check(np.all(np.abs(got - want) <= 1e-9 + 1e-6 * np.sum(np.abs(u[:2])) / m.m), "thrust does not act along the entity's own axes", heading=th, thrust=u, got=got, want=want)
                rec.check(abs(np.linalg.norm(got) - np.linalg.norm(u[:2]) / m.m) <= 1e-9 + 1e-6 * np.linalg.norm(u[:2]) / m.m, "the thrust acceleration has another magnitude", heading=th, thrust=u, got=got)


def limits(rec, method):
    """Every combination of which limit binds: acceleration, rate and moment limits are the smaller of the configured one and the wheel's."""
    accs = (0.01, 0.125, 2.0)
    vels = (0.02, 0.5, 4.0)
    for inertia, iw in itertools.product((0.0573, 0.5, 3.0), (4.1e-5, 0.01)):
        for aa, av in itertools.product(accs, vels):
            for wa, wv in itertools.product((181.3, 5.0), (576, 20.0)):
                make, m = grid.custom("rot2d", inertia=inertia, inertia_wheel=iw, ang_acc_limit=aa, ang_vel_limit=av, acc_limit_wheel=wa, vel_limit_wheel=wv)
                acc, vel = min(aa, iw * wa / inertia), min(av, iw * wv / inertia)
                e = make(None, method)
                lib.control_limits(rec, e, m, inertia=inertia, wheel=[iw, wa, wv], limits=[aa, av])
                for sign in (1, -1):
                    T = min(0.25, 0.25 * vel / acc)
                    for big in (1.0, 1.5, 1e6, math.inf):
                        e.state = np.zeros(6)
                        zoo.step(e, T, [0.0, 0.0, sign * big * acc * inertia])
                        rec.transition()
                        got = float(e.wz)
                        rec.check(abs(got - sign * acc * T) <= 1e-6 * acc * T, "a saturated moment does not give the angular acceleration limit", got=got / T, want=sign * acc, inertia=inertia, wheel=[iw, wa, wv], limits=[aa, av])
                    # half the limit is not limited
                    e.state = np.zeros(6)
                    zoo.step(e, T, [0.0, 0.0, sign * 0.5 * acc * inertia])
                    rec.check(abs(float(e.wz) - sign * 0.5 * acc * T) <= 1e-6 * acc * T, "a moment inside the limit is limited", got=e.wz, want=sign * 0.5 * acc * T)
                    # the rate limit
                    for start in (0.0, 0.9 * vel, vel, 2 * vel):
                        e.state = np.array([0, 0, 0, 0, 0, sign * start])
                        for _ in range(2):
                            zoo.step(e, 2 * vel / acc, [0.0, 0.0, sign * acc * inertia])
                            rec.transition()
                        rec.check(abs(float(e.wz) - sign * vel) <= 2e-6 * vel, "the angular rate does not saturate at its limit", got=e.wz, want=sign * vel, inertia=inertia, wheel=[iw, wa, wv], limits=[aa, av])
                        th = float(e.theta)
                        zoo.step(e, 0.1 / vel, None)
                        d = (float(e.theta) - th - sign * 0.1 + PI) % (2 * PI) - PI
                        rec.check(abs(d) <= 1e-5, "the heading does not turn at the angular rate", turned=d + sign * 0.1, want=sign * 0.1)
                rec.trace()
                rec.state(method, inertia, iw, aa, av, wa, wv)
                rec.outcome(acc, vel)


def histories(rec, p, method, depth):
    make, m = grid.custom("rot2d", **PARAMS[p])
    w = m.vel
    starts = [np.array([100.0, -50.0, th, 0.5, -1.0, om * w]) for th in (0.75, 3.0, -2.0, -PI / 2) for om in (0.0, 0.5, -0.75)]
    acts = [np.zeros(3), np.array([0.5, -0.25, 0.375]) * m.umax, np.array([-1.0, 1.0, -1.0]) * m.umax, m.umax.copy()]
    grid.lockstep(rec, make, m, starts, acts, (0.1, 1.0, 5.0), depth, method, p=p)


def rest(rec, p):
    """Closed form rotation: constant moment from rest, quadratic angle, and a force free drift agree with the in-plane closed form."""
    from mc import ref

    make, m = grid.custom("rot2d", **PARAMS[p])
    cw = ref.CWH(m=m.m, n=m.n)
    e = make()
    for th in HEADINGS[:14]:
        for T in (0.5, 4.0, 0.02 / m.n, 1.0 / m.n):
            s = np.array([100.0, -50.0, th, 0.5, -1.0, 0.0])
            for u in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [-0.5, 0.25, 0]):
                e.state = s
                zoo.step(e, T, [float(v) for v in u])
                rec.transition()
                rec.trace()
                rec.state(p, th, T, u)
                c, sn = math.cos(th), math.sin(th)
                F = (c * u[0] - sn * u[1], sn * u[0] + c * u[1], 0.0)
                want6 = cw.closed_form(np.array([s[0], s[1], 0, s[3], s[4], 0]), F, T)
                got = np.asarray(e.state, float)[[0, 1, 3, 4]]
                peak = np.max(np.abs([cw.closed_form(np.array([s[0], s[1], 0, s[3], s[4], 0]), F, T * k / 8) for k in range(9)]), axis=0)
                tol = 5 * (1e-6 + 1e-3 * peak[[0, 1, 3, 4]])
                tol[:2] += tol[2:].max() * T * 0.5
                rec.check(bool(np.all(np.abs(got - want6[[0, 1, 3, 4]]) <= tol)), "a step with constant heading is not the in-plane closed form", start=s, control=u, T=T, got=got, want=want6)
                rec.outcome(got)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = [("limits", dict(method=m)) for m in ("Euler", "RK45")]
    for p in range(len(PARAMS)):
        sc.append(("thrust", dict(p=p)))
        sc.append(("fine", dict(p=p)))
        sc.append(("rest", dict(p=p)))
        for jax in BACKENDS:
            sc.append(("derivative", dict(p=p, jax=jax)))
        for method in ("Euler", "RK45"):
            sc.append(("histories", dict(p=p, method=method, depth=3 if th else 2)))
    sc.sort(key=lambda s: not s[1].get("jax", s[0] == "limits"))
    parts = 4 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('rot2d',) for i in range(parts)]
    return core.run_check("C13", sys.modules[__name__], sc, assumptions=["five parameter sets, 15 headings; 216 limit combinations"])
