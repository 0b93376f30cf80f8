"""C16: planar Dubins aircraft: kinematics, saturated rates, accessors, closed form arcs."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, zoo

PI = math.pi
HEADINGS = [0.0, PI / 6, PI / 4, 1.0, PI / 2, 2.0, 3 * PI / 4, 3.0, PI, -PI, -3.0, -2.5, -PI / 2, -1.0, -PI / 4, -0.1, 4.0, -7.0, 20.0]
PARAMS = [
    dict(),
    dict(v_min=0.0, v_max=50.0, heading_rate_control_min=-4.0, heading_rate_control_max=3.0, acceleration_control_min=-2.0, acceleration_control_max=1.0),
    dict(v_min=-50, v_max=50, heading_rate_control_min=-0.25, heading_rate_control_max=0.5, acceleration_control_min=-20, acceleration_control_max=10),
    dict(v_min=10.5, v_max=1000.0, heading_rate_control_min=-0.5, heading_rate_control_max=0.25, acceleration_control_min=-8.0, acceleration_control_max=16.0),
    dict(v_max=5000.0), dict(v_min=1.0), dict(heading_rate_control_min=-1.0), dict(heading_rate_control_max=1.0), dict(acceleration_control_min=-5.0), dict(acceleration_control_max=5.0),
]


def speeds(m):
    lo, hi = m.lo[3], m.hi[3]
    out = [lo, hi, lo + 0.25 * (hi - lo), (lo + hi) / 2 + 0.125, hi - 1.0, lo - 10.0, hi + 10.0]
    if lo <= 0 <= hi:
        out += [0.0, 1e-3, -1e-3 if lo < 0 else 0.5]
    return out


def controls(m):
    lo, hi = m.umin, m.umax
    fr = (0.0, 1.0, 0.5, 0.01)
    one = [[0.0] + [f * b for f in fr[1:] for b in (lo[i], hi[i])] for i in range(len(lo))]
    return [np.array(c, float) for c in itertools.product(*one)]


def unit(x):
    return np.array([math.cos(x[2]), math.sin(x[2]), 0.0])


def derivative(rec, p):
    make, m = grid.custom("dubins2d", **PARAMS[p])
    dyn = make().dynamics
    for x, y in ((0.0, 0.0), (100.5, -250.25)):
        states = [np.array([x, y, h, v]) for h in HEADINGS for v in speeds(m)]
        ctrl = controls(m)[::2 if x else 1] + [np.array([5.0, 300.0])]
        grid.derivs(rec, dyn, m, states, ctrl, ts=(0.0, 1.0), rel=2e-6, p=p)


def fine(rec, p):
    """Differences down to 1e-9 of every component (see grid.fine)."""
    make, m = grid.custom("dubins2d", **PARAMS[p])
    v = [m.lo[3] + f * (m.hi[3] - m.lo[3]) for f in (0.3, 0.75)]
    states = [np.array([x, -x, h, w]) for x in (0.0, 250.0) for h in (0.0, math.pi / 2, 1.1, -2.3, -math.pi / 2) for w in v]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(2), 0.5 * m.umax, 0.25 * m.umin], [100, 100, 1, v[0]], m.umax, eps=1e-12, p=p)


def look(rec, m, e, u, **info):
    """Every accessor of the aircraft after a step with (saturated) control u against its own state."""
    x = np.asarray(e.state, float)
    v, h = x[3], x[2]
    U = unit(x)
    rec.check([float(e.x), float(e.y), float(e.z), float(e.heading), float(e.v)] == [x[0], x[1], 0.0, x[2], x[3]], "component accessors differ from the state", state=x, got=[e.x, e.y, e.z, e.heading, e.v], **info)
    rec.check(float(e.gamma) == 0 and float(e.roll) == 0 and float(e.pitch) == 0 and float(e.yaw) == h, "attitude angles are not (heading, 0, 0)", state=x, got=[e.yaw, e.pitch, e.roll], **info)
    rec.check(zoo.identical(np.asarray(e.position, float), [x[0], x[1], 0.0]), "position differs from the state", state=x, got=e.position, **info)
    rec.check(zoo.close(e.velocity, v * U, 0, 5e-7 * abs(v) + 1e-12), "velocity is not v (cos heading, sin heading, 0)", state=x, got=e.velocity, want=v * U, **info)
    R = e.orientation.as_matrix()
    rec.check(zoo.close(R, np.column_stack([U, [-U[1], U[0], 0], [0, 0, 1]]), 0, 1e-6), "orientation is not the heading about the vertical", state=x, got=R, **info)
    acc = np.asarray(e.acceleration, float)
    lim = np.clip(u, m.umin, m.umax)[1]
    want = m.limited(x, np.array([0.0, lim]))[3]
    tol = 1e-6 * abs(lim) + 1e-9
    ok = zoo.close(acc, want * U, 0, tol) or bool(lib.at_limit(m, x)[3]) and (zoo.close(acc, lim * U, 0, tol) or zoo.close(acc, 0 * U, 0, tol))
    rec.check(ok, "acceleration is not the speed rate along the direction of motion", state=x, control=u, got=acc, want=want * U, **info)


def accessors(rec, p, method):
    make, m = grid.custom("dubins2d", **PARAMS[p])
    e = make(None, method)
    for h in HEADINGS[:16]:
        for v in speeds(m):
            for u in controls(m)[:21 if method == "Euler" else 8]:
                e.state = np.array([100.5, -250.25, h, v])
                zoo.step(e, 0.0625, u)
                rec.transition()
                rec.trace()
                look(rec, m, e, u, p=p, method=method, start=[h, v])
                rec.state(p, method, h, v, u)
                rec.outcome(e.state)


def arc(s, w, a, T):
    """Closed form motion at constant turn rate w and acceleration a."""
    x, y, h, v = s
    h1, v1 = h + w * T, v + a * T
    if w == 0:
        d = v * T + a * T * T / 2
        return np.array([x + d * math.cos(h), y + d * math.sin(h), h1, v1])
    return np.array([
        x + (v1 * math.sin(h1) - v * math.sin(h)) / w + a * (math.cos(h1) - math.cos(h)) / w**2,
        y - (v1 * math.cos(h1) - v * math.cos(h)) / w + a * (math.sin(h1) - math.sin(h)) / w**2, h1, v1
    ])


def closed(rec, p, method):
    """Arcs and lines, in one step, several equal ones and unequal ones, inside, at and beyond the command limits."""
    make, m = grid.custom("dubins2d", **PARAMS[p])
    e = make(None, method)
    mid, span = (m.lo[3] + m.hi[3]) / 2, m.hi[3] - m.lo[3]
    for h in HEADINGS[p % 2:16:2]:
        for v in (mid, m.lo[3] + 0.25 * span):
            for u0 in [c * f for f in (1.0, 3.0) for c in controls(m)[:: 3]]:
                u = np.clip(u0, m.umin, m.umax)
                for T in (0.1, 1.0, 4.0):
                    if not m.lo[3] < v + u[1] * T < m.hi[3] or abs(u[0]) * T > lib.TWO_PI:
                        continue
                    for cuts in ([T], [T / 4] * 4, [0.1 * T, 0.6 * T, 0.3 * T]):
                        s = np.array([100.5, -250.25, h, v])
                        e.state = s
                        for c in cuts:
                            zoo.step(e, c, u0.copy())
                            rec.transition()
                        rec.trace()
                        want = arc(s, u[0], u[1], T)
                        got = np.asarray(e.state, float)
                        d = np.abs(got - want)
                        d[2] = abs((got[2] - want[2] + PI) % (2 * PI) - PI)
                        vmax = max(abs(s[3]), abs(want[3]))
                        tol = 5 * len(cuts)**0.5 * (1e-6 + 1e-3 * np.array([250 + vmax * T, 250 + vmax * T, 0, 0]))
                        tol[2:] = 2e-6 * np.array([8 + abs(u[0]) * T, 1e-3 + vmax + abs(u[1]) * T])
                        rec.check(bool(np.all(d <= tol)) and -PI - 1e-6 <= got[2] <= PI + 1e-6, "steps do not follow the closed form arc", start=s, control=u0, durations=cuts, got=got, want=want, p=p, method=method)
                        rec.maxnote("arc error in tolerances", float(np.max(d / tol)))
                        rec.state(p, method, h, v, u0, T, len(cuts))
                        rec.outcome(got)


def histories(rec, p, method, depth):
    make, m = grid.custom("dubins2d", **PARAMS[p])
    v = [m.lo[3] + f * (m.hi[3] - m.lo[3]) for f in (0.1, 0.5, 0.9)]
    starts = [np.array([100.5, -250.25, h, s]) for h, s in itertools.product((0.5, 3.0, -3.0), v)]
    acts = [np.zeros(2), m.umax.copy(), m.umin.copy(), np.array([m.umin[0], m.umax[1]]), np.array([0.5 * m.umax[0], 0.25 * m.umin[1]])]
    grid.lockstep(rec, make, m, starts, acts, (0.1, 1.0), depth, method, p=p)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = []
    for p in range(len(PARAMS)):
        sc.append(("derivative", dict(p=p)))
        sc.append(("fine", dict(p=p)))
        sc.append(("accessors", dict(p=p, method="Euler")))
        sc.append(("accessors", dict(p=p, method="RK45")))
        sc.append(("closed", dict(p=p, method="RK45")))
        if p < 4:
            for method in ("RK45", "Euler"):
                sc.append(("histories", dict(p=p, method=method, depth=(4 if method == "Euler" else 3) if th else 2)))
    parts = 4 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('dubins2d',) for i in range(parts)]
    return core.run_check("C16", sys.modules[__name__], sc, assumptions=["ten parameter sets, 19 headings, speeds at, inside and outside their limits and zero"])
