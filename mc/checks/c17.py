"""C17: 3D Dubins aircraft: kinematics, coordinated turn rate, saturated rates, accessors, closed form segments."""
import itertools
import math
import sys

import numpy as np

from mc import core, grid, lib, zoo

PI = math.pi
HEADINGS = [0.0, PI / 6, 1.0, PI / 2, 2.0, 3.0, PI, -PI, -2.5, -PI / 2, -1.0, -0.1, 4.0, -7.0]
PARAMS = [
    dict(),
    dict(v_min=50.0, v_max=800.0, gamma_min=-0.75, gamma_max=0.5, roll_min=-0.5, roll_max=1.25, gamma_rate_control_min=-0.25, gamma_rate_control_max=0.125, roll_rate_control_min=-0.5, roll_rate_control_max=1.0, acceleration_control_min=-20.0, acceleration_control_max=10.0),
    dict(v_min=10, v_max=100, gamma_min=-1.5, gamma_max=1.5, roll_min=-1.4, roll_max=1.4, gamma_rate_control_min=-1, gamma_rate_control_max=2, roll_rate_control_min=-2, roll_rate_control_max=1, acceleration_control_min=-5, acceleration_control_max=5),
    dict(v_max=1e3), dict(v_min=20.0), dict(gamma_min=-1.0), dict(gamma_max=1.0), dict(roll_min=-1.3), dict(roll_max=1.3),
    dict(gamma_rate_control_min=-1.0), dict(gamma_rate_control_max=1.0), dict(roll_rate_control_min=-1.0), dict(roll_rate_control_max=1.0), dict(acceleration_control_min=-7.0), dict(acceleration_control_max=7.0),
]


def attitudes(m):
    g, r = (m.lo[4], m.hi[4]), (m.lo[5], m.hi[5])
    fr = (0.0, 0.01, 0.5, 0.9)
    gs = [f * b for f in fr for b in g][1:] + [g[0], g[1], 1.2 * g[0], 1.2 * g[1]]
    rs = [f * b for f in fr for b in r][1:] + [r[0], r[1], 1.05 * r[0], 1.05 * r[1]]
    return gs, rs


def speeds(m):
    lo, hi = m.lo[6], m.hi[6]
    return [lo, hi, lo + 0.25 * (hi - lo), (lo + hi) / 2 + 0.125, 0.9 * lo, 1.1 * hi]


def controls(m):
    return [c * np.where(c > 0, m.umax, -m.umin) for c in grid.basis(3)] + [m.umax.copy(), m.umin.copy(), 0.5 * m.umax, 0.25 * m.umin, 10 * m.umax]


def derivative(rec, p):
    make, m = grid.custom("dubins3d", **PARAMS[p])
    dyn = make().dynamics
    gs, rs = attitudes(m)
    vs = speeds(m)
    states = [np.array([100.5, -250.25, -900.0, h, g, r, vs[2]]) for h in HEADINGS for g in gs for r in rs[::3]]
    grid.derivs(rec, dyn, m, states, controls(m)[:2] + controls(m)[-3:], ts=(0.0, ), rel=2e-6, p=p)
    states = [np.array([0.0, 0, 0, h, g, r, v]) for h in HEADINGS[:3] for g in gs[::2] + gs[-4:] for r in rs for v in vs]
    grid.derivs(rec, dyn, m, states, controls(m)[::5], ts=(0.0, 1.0), rel=2e-6, p=p)
    for x in grid.basis(6, np.array([1e3, 1e3, 1e3, 2.0, 0.4 * m.hi[4], 0.4 * m.hi[5]])):
        grid.derivs(rec, dyn, m, [np.append(x, vs[3])], controls(m), ts=(0.0, ), rel=2e-6, p=p)


def fine(rec, p):
    """Differences down to 1e-9 of every component (see grid.fine)."""
    make, m = grid.custom("dubins3d", **PARAMS[p])
    v = [m.lo[6] + f * (m.hi[6] - m.lo[6]) for f in (0.3, 0.75)]
    g, r = 0.4 * m.hi[4], 0.4 * m.hi[5]
    states = [np.array([x, -x, x, h, a, b, w]) for x in (0.0, 250.0) for h, a, b in ((0.0, 0.0, 0.0), (1.1, g, 0.0), (-2.3, 0.0, r), (math.pi / 2, -g, -r)) for w in v]
    grid.fine(rec, make().dynamics, m, states, [np.zeros(3), 0.5 * m.umax, 0.25 * m.umin], [100, 100, 100, 1, g, r, v[0]], m.umax, eps=1e-12, p=p)


def rate(rec, p):
    """Turn rate seen through whole small steps: (g / v) tan(roll), for every roll and speed."""
    make, m = grid.custom("dubins3d", **PARAMS[p])
    for method in ("Euler", "RK45"):
        e = make(None, method)
        for r in attitudes(m)[1][:-2]:
            for v in speeds(m)[:4]:
                for g in (0.0, 0.5 * m.hi[4]):
                    e.state = np.array([0.0, 0, 0, 0.25, g, r, v])
                    zoo.step(e, 0.125, None)
                    rec.transition()
                    rec.trace()
                    got = (float(e.heading) - 0.25) / 0.125
                    want = 32.17 / v * math.tan(r)
                    rec.check(abs(got - want) <= 1e-5 * abs(want) + 1e-9, "turn rate is not (g / v) tan roll", roll=r, speed=v, got=got, want=want, method=method)
                    rec.state(p, method, r, v, g)


def look(rec, m, e, u, **info):
    """Every accessor of the aircraft after a step with control u against its own state."""
    x = np.asarray(e.state, float)
    h, g, r, v = x[3:7]
    U = np.array([math.cos(h) * math.cos(g), math.sin(h) * math.cos(g), -math.sin(g)])
    rec.check([float(e.x), float(e.y), float(e.z), float(e.heading), float(e.gamma), float(e.roll), float(e.v)] == list(x), "component accessors differ from the state", state=x, **info)
    rec.check(float(e.pitch) == g and float(e.yaw) == h, "yaw or pitch is not heading or gamma", state=x, got=[e.yaw, e.pitch], **info)
    rec.check(zoo.identical(np.asarray(e.position, float), x[:3]), "position differs from the state", state=x, got=e.position, **info)
    rec.check(zoo.close(e.velocity, v * U, 0, 1e-6 * abs(v)), "velocity is not v (cos heading cos gamma, sin heading cos gamma, -sin gamma)", state=x, got=e.velocity, want=v * U, **info)
    ch, sh, cg, sg, cr, sr = math.cos(h), math.sin(h), math.cos(g), math.sin(g), math.cos(r), math.sin(r)
    R = np.array([[ch * cg, ch * sg * sr - sh * cr, ch * sg * cr + sh * sr], [sh * cg, sh * sg * sr + ch * cr, sh * sg * cr - ch * sr], [-sg, cg * sr, cg * cr]])
    rec.check(zoo.close(e.orientation.as_matrix(), R, 0, 1e-6), "orientation is not yaw, pitch, roll", state=x, got=e.orientation.as_matrix(), want=R, **info)
    rec.check(zoo.close(e.orientation.apply([1.0, 0, 0]), U, 0, 1e-6), "the nose does not point along the velocity", state=x, **info)
    acc = np.asarray(e.acceleration, float)
    lim = np.clip(u, m.umin, m.umax)[2]
    want = m.limited(x, np.array([0.0, 0, lim]))[6]
    tol = 1e-6 * abs(lim) + 1e-9
    ok = zoo.close(acc, want * U, 0, tol) or bool(lib.at_limit(m, x)[6]) and (zoo.close(acc, lim * U, 0, tol) or zoo.close(acc, 0 * U, 0, tol))
    rec.check(ok, "acceleration is not the speed rate along the direction of motion", state=x, control=u, got=acc, want=want * U, **info)


def accessors(rec, p, method):
    make, m = grid.custom("dubins3d", **PARAMS[p])
    e = make(None, method)
    gs, rs = attitudes(m)
    for i, (h, g, r) in enumerate(itertools.product(HEADINGS[:11], gs[:-2], rs[:-2])):
        for j, v in enumerate(speeds(m)[:4]):
            if (i + j) % (4 if method == "Euler" else 12):
                continue
            for u in controls(m)[i % 3::3]:
                e.state = np.array([100.5, -250.25, -900.0, h, g, r, v])
                zoo.step(e, 0.0625, u)
                rec.transition()
                rec.trace()
                look(rec, m, e, u, p=p, method=method, start=[h, g, r, v])
                rec.state(p, method, h, g, r, v, u)
                rec.outcome(e.state)


def closed(rec, p):
    """Segments with a closed form: straight climbs, level and climbing turns at constant speed, speed change in a turn (heading), pull ups in the vertical plane."""
    make, m = grid.custom("dubins3d", **PARAMS[p])
    e = make()
    v = (m.lo[6] + m.hi[6]) / 2
    for h in HEADINGS[p % 2:11:2]:
        for g, r, f, T in itertools.product((0.0, 0.5 * m.hi[4], 0.5 * m.lo[4]), (0.0, 0.5 * m.hi[5], 0.9 * m.lo[5]), ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -3)), (0.25, 2.0)):
            u = np.zeros(3)
            u[0] = 0.5 * (m.umax[0] if f[0] > 0 else -m.umin[0]) * f[0]
            u[2] = 0.5 * (m.umax[2] if f[1] > 0 else -m.umin[2]) * f[1]
            a, q = np.clip(u, m.umin, m.umax)[2], u[0]
            v1, g1 = v + a * T, g + q * T
            if not m.lo[6] < v1 < m.hi[6] or not m.lo[4] < g1 < m.hi[4]:
                continue
            w = 32.17 / v * math.tan(r)
            if abs(w) * T > PI:
                continue
            for cuts in ([T], [0.3 * T, 0.7 * T]):
                e.state = np.array([100.5, -250.25, -900.0, h, g, r, v])
                for c in cuts:
                    zoo.step(e, c, u)
                    rec.transition()
                rec.trace()
                got = np.asarray(e.state, float)
                want = np.full(7, np.nan)
                want[4:7] = g1, r, v1
                want[3] = h + (w * T if a == 0 else 32.17 * math.tan(r) / a * math.log(v1 / v))
                want[2] = -900.0 + (-v * math.sin(g) * T - a * T * T / 2 * math.sin(g) if q == 0 else v * (math.cos(g1) - math.cos(g)) / q if a == 0 else np.nan)
                if a == 0 and q == 0 and r != 0:
                    want[0] = 100.5 + v * math.cos(g) / w * (math.sin(h + w * T) - math.sin(h))
                    want[1] = -250.25 - v * math.cos(g) / w * (math.cos(h + w * T) - math.cos(h))
                elif q == 0 and r == 0:
                    d = (v * T + a * T * T / 2) * math.cos(g)
                    want[0], want[1] = 100.5 + d * math.cos(h), -250.25 + d * math.sin(h)
                elif r == 0 and a == 0:
                    d = v / q * (math.sin(g1) - math.sin(g))
                    want[0], want[1] = 100.5 + d * math.cos(h), -250.25 + d * math.sin(h)
                d = np.abs(got - want)
                d[3:6] = np.abs((d[3:6] + PI) % (2 * PI) - PI)
                tol = np.concatenate([np.full(3, 5e-4 * (1000 + v * T)), [2e-3 * (abs(w) * T + 1e-3)], np.full(2, 1e-5), [1e-5 * m.hi[6]]])
                rec.check(bool(np.all((d <= tol) | np.isnan(want))), "steps do not follow the closed form segment", start=[h, g, r, v], control=u, durations=cuts, got=got, want=want, p=p)
                rec.maxnote("segment error in tolerances", float(np.nanmax(d / tol)))
                rec.state(p, h, g, r, u, T, len(cuts))
                rec.outcome(got)


def histories(rec, p, method, depth):
    make, m = grid.custom("dubins3d", **PARAMS[p])
    starts = [np.array([100.5, -250.25, -900.0, h, g * (m.hi[4] if g > 0 else -m.lo[4]), r * (m.hi[5] if r > 0 else -m.lo[5]), m.lo[6] + s * (m.hi[6] - m.lo[6])]) for h, g, r, s in ((0.5, 0.25, -0.5, 0.5), (3.1, -0.9, 0.9, 0.1), (-3.1, 0.9, -0.9, 0.9), (-1.0, 0.0, 0.0, 0.5))]
    acts = [np.zeros(3), m.umax.copy(), m.umin.copy(), np.array([0.5, -0.5, 0.25]) * m.umax, np.array([-0.5, 0.25, -0.75]) * m.umax]
    grid.lockstep(rec, make, m, starts, acts, (0.1, 1.0), depth, method, p=p)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = []
    for p in range(len(PARAMS)):
        sc.append(("derivative", dict(p=p)))
        sc.append(("fine", dict(p=p)))
        sc.append(("rate", dict(p=p)))
        sc.append(("closed", dict(p=p)))
        for method in ("Euler", "RK45"):
            sc.append(("accessors", dict(p=p, method=method)))
            if p < 3:
                sc.append(("histories", dict(p=p, method=method, depth=(4 if method == "Euler" else 3) if th else 2)))
    parts = 4 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('dubins3d',) for i in range(parts)]
    return core.run_check("C17", sys.modules[__name__], sc, assumptions=["15 parameter sets (each limit changed on its own and all together); speeds away from zero, where the turn rate is not defined"])
