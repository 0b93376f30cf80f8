"""C21: accessors with units report the plain accessors' values in base units, and convert exactly."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, zoo
from mc.checks.c20 import ANGLE, FT, LENGTH, RATE, SPEED

ACCEL = {"m/s**2": 1.0, "ft/s**2": FT, "km/hour**2": 1000.0 / 3600**2, "inch/minute**2": 0.0254 / 3600, "standard_gravity": 9.80665}
UNITS = {"length": LENGTH, "speed": SPEED, "angle": ANGLE, "rate": RATE, "acceleration": ACCEL}
DIM = {n: "length" for n in ("x", "y", "z", "position")}
DIM.update({n: "speed" for n in ("x_dot", "y_dot", "z_dot", "v", "velocity")})
DIM.update({n: "angle" for n in ("heading", "yaw", "pitch", "gamma", "roll", "theta")})
DIM.update({n: "rate" for n in ("wx", "wy", "wz", "angular_velocity")})
DIM["acceleration"] = "acceleration"
POWERS = {"length": {"[length]": 1}, "speed": {"[length]": 1, "[time]": -1}, "angle": {}, "rate": {"[time]": -1}, "acceleration": {"[length]": 1, "[time]": -2}}
KINDS = ("dubins2d", "dubins3d", "cwh", "rot2d", "sixdof", "int1d", "int2d", "int3d")
# the accessors with units that exist for each kind today; new ones are checked too
EXPECT = {
    "dubins2d": "acceleration gamma heading pitch position roll v velocity x y yaw z",
    "dubins3d": "acceleration gamma heading pitch position roll v velocity x y yaw z",
    "cwh": "position velocity x x_dot y y_dot z z_dot",
    "rot2d": "angular_velocity position velocity x x_dot y y_dot z z_dot wx wy wz",
    "sixdof": "angular_velocity position velocity x x_dot y y_dot z z_dot wx wy wz",
    "int1d": "position velocity x y z", "int2d": "position velocity x y z", "int3d": "position velocity x y z",
}


def base(kind, dim):
    """Size of the kind's base unit of a dimension, in SI."""
    return FT if kind.startswith("dubins") and dim in ("length", "speed", "acceleration") else 1.0


def tagged(e):
    out = {}
    for n in lib.props(e):
        for suffix in ("_with_units", "_with_unit"):
            if n.endswith(suffix):
                out[n] = n[:-len(suffix)]
    return out


def look(rec, kind, e, convert, **info):
    tags = tagged(e)
    missing = set(EXPECT[kind].split()) - set(tags.values())
    rec.check(not missing, "accessors with units are gone", kind=kind, missing=sorted(missing))
    for name, plain in tags.items():
        dim = DIM.get(plain)
        want = np.array(getattr(e, plain), float)
        q = getattr(e, name)
        rec.transition()
        got = np.asarray(q.magnitude, float)
        rec.check(got.shape == want.shape and bool(np.all(got == want)), "the magnitude differs from the plain accessor's", kind=kind, accessor=name, got=got, want=want, **info)
        if dim is None:
            continue
        powers = {k: v for k, v in dict(q.dimensionality).items() if v}
        rec.check(powers == POWERS[dim], "the quantity has the wrong dimension", kind=kind, accessor=name, units=str(q.units), **info)
        if powers != POWERS[dim]:
            continue
        if dim in ("angle", "rate"):
            rec.check("rad" in str(q.units), "an angle is not in radians", kind=kind, accessor=name, units=str(q.units), **info)
        rec.outcome(kind, name, str(q.units))
        units = UNITS[dim]
        for u in units if convert else [list(units)[-1]]:
            conv = np.asarray(q.to(u).magnitude, float)
            rec.transition()
            k = base(kind, dim) / units[u]
            rec.check(zoo.close(conv, want * k, 1e-6, 0), "conversion does not follow the exact factor", kind=kind, accessor=name, unit=u, got=conv, want=want * k, base=str(q.units), **info)
    rec.trace()


def states(kind, cfg):
    return [np.array(s, float) for s in zoo.base_states(kind, cfg)]


def accessors(rec, kind, cfg, method, depth):
    """Breadth first over action histories; every accessor at every state reached, and on a newly built entity."""
    K = zoo.KINDS[kind]
    look(rec, kind, K.make(cfg, method=method), True, fresh=True)
    e = K.make(cfg, method=method)
    frontier = states(kind, cfg)
    acts = zoo.mid_controls(kind, cfg)
    for d in range(depth):
        nxt = []
        for s, u, T in itertools.product(frontier, acts, (0.1, 1.0)):
            e.state = s
            if d == 0 and u is acts[0] and T == 0.1:
                look(rec, kind, e, True, start=s)
            zoo.step(e, T, u.copy())
            look(rec, kind, e, d == 0 and T == 1.0, start=s, control=u, T=T)
            x = np.asarray(e.state, float)
            if rec.state(kind, cfg, method, x):
                nxt.append(x)
        frontier = nxt


def built(rec, kind):
    """Entities built from quantities report the same quantities (as far as single precision goes)."""
    import pint

    R = pint.get_application_registry()
    from mc.checks import c20

    for n, dim in c20.dims(kind).items():
        for unit, v in itertools.product(c20.UNITS[dim], (2.5, -1.0)):
            e = zoo.KINDS[kind].cls(name="e", **{n: R.Quantity(v, unit)})
            tags = {p: t for t, p in tagged(e).items()}
            if n not in tags:
                continue
            back = getattr(e, tags[n]).to(unit).magnitude
            rec.transition()
            rec.trace()
            rec.state(kind, n, unit, v)
            rec.check(abs(float(back) - v) <= 1e-6 * abs(v), "a quantity given does not come back", kind=kind, parameter=n, unit=unit, value=v, got=back)


def own_units(rec, kind):
    """Entities of a user's with every combination of base units: accessors carry those, with the plain magnitude."""
    from safe_autonomy_dynamics.base_models import BaseUnits

    lengths = {"meters": 1.0, "feet": FT, "kilometers": 1e3, "inch": 0.0254}
    times = {"seconds": 1.0, "minutes": 60.0, "hours": 3600.0}
    angles = {"radians": 1.0, "degrees": math.pi / 180, "turn": 2 * math.pi}
    K = zoo.KINDS[kind]
    s = zoo.base_states(kind, "default")[1]
    for (l, lv), (t, tv), (a, av) in itertools.product(lengths.items(), times.items(), angles.items()):
        with core.CodeUnderTest():
            cls = type("Own", (K.cls, ), {"base_units": BaseUnits(l, t, a)})
            e = cls(name="own")
        # the unit system itself: every unit it offers is made of its length, time and angle
        for n, (want, unit) in {"length": (lv, "m"), "time": (tv, "s"), "angle": (av, "rad"), "velocity": (lv / tv, "m/s"), "acceleration": (lv / tv**2, "m/s**2"), "angular_velocity": (av / tv, "rad/s"), "angular_acceleration": (av / tv**2, "rad/s**2")}.items():
            one = e.ureg.Quantity(1.0, getattr(cls.base_units, n))
            rec.transition()
            rec.check(dict(one.dimensionality) == dict(e.ureg.Quantity(1.0, unit).dimensionality) and abs(one.to(unit).magnitude - want) <= 1e-9 * want, "a unit of the system is not made of its base units", unit=n, units=(l, t, a), got=str(one), want=(want, unit))
        e.state = np.array(s, float)
        zoo.step(e, 0.5, zoo.mid_controls(kind, "default")[1].copy())
        size = {"length": lv, "speed": lv / tv, "angle": av, "rate": av / tv, "acceleration": lv / tv**2}
        for name, plain in tagged(e).items():
            dim = DIM.get(plain)
            if dim is None:
                continue
            want = np.array(getattr(e, plain), float)
            q = getattr(e, name)
            rec.transition()
            rec.check(zoo.close(np.asarray(q.magnitude, float), want, 0, 0), "the magnitude differs from the plain accessor's", kind=kind, accessor=name, units=(l, t, a), got=q.magnitude, want=want)
            powers = {k: v for k, v in dict(q.dimensionality).items() if v}
            if rec.check(powers == POWERS[dim], "the quantity has the wrong dimension", kind=kind, accessor=name, units=str(q.units)):
                u = list(UNITS[dim])[-1]
                conv = np.asarray(q.to(u).magnitude, float)
                k = size[dim] / UNITS[dim][u]
                rec.check(zoo.close(conv, want * k, 1e-6, 0), "a quantity is not in the entity's own base units", kind=kind, accessor=name, units=(l, t, a), got=conv, want=want * k)
        # a class with other units leaves the original class alone
        o = K.make("default", s)
        for name, plain in tagged(o).items():
            dim = DIM.get(plain)
            if dim is not None:
                u = list(UNITS[dim])[-1]
                rec.check(zoo.close(getattr(o, name).to(u).magnitude, np.array(getattr(o, plain), float) * base(kind, dim) / UNITS[dim][u], 1e-6, 0), "base units of another class are used", kind=kind, accessor=name)
                rec.transition()
        rec.state(kind, l, t, a)
        rec.trace()
    rec.outcome(kind)


def combined(rec, k1, k2):
    """Quantities of two entities, and the application's own, combine: every accessor of one with every one of the other."""
    import pint

    e1 = zoo.KINDS[k1].make("default", zoo.base_states(k1, "default")[1])
    e2 = zoo.KINDS[k2].make("default", zoo.base_states(k2, "default")[2])
    zoo.step(e2, 0.5, zoo.mid_controls(k2, "default")[1])
    si = lambda e, k, n, dim: np.array(getattr(e, tagged(e)[n]), float) * base(k, dim)  # noqa: E731  pylint: disable=C3001
    for n1, p1 in tagged(e1).items():
        d1 = DIM.get(p1)
        if d1 is None:
            continue
        unit = list(UNITS[d1])[0]
        a = si(e1, k1, n1, d1)
        for how, one in (("application registry", pint.get_application_registry().Quantity(2.5, unit)), ("pint.Quantity", pint.Quantity(2.5, unit))):
            try:
                got = np.asarray((getattr(e1, n1) - one).to(unit).magnitude, float)
            except Exception as ex:  # pylint: disable=W0718
                rec.fail("a quantity does not combine with the application's own", kind=k1, accessor=n1, how=how, error=repr(ex))
                continue
            rec.transition()
            rec.check(zoo.close(got * UNITS[d1][unit], a - 2.5 * UNITS[d1][unit], 1e-6, 1e-9), "a quantity and the application's own combine wrongly", kind=k1, accessor=n1, how=how, got=got)
        for n2, p2 in tagged(e2).items():
            d2 = DIM.get(p2)
            if d2 is None:
                continue
            b = si(e2, k2, n2, d2)
            if a.shape != b.shape and a.size != 1 and b.size != 1:
                continue
            try:
                q = getattr(e1, n1) - getattr(e2, n2) if d1 == d2 else getattr(e1, n1) * getattr(e2, n2)
            except Exception as ex:  # pylint: disable=W0718
                rec.fail("quantities of two entities do not combine", kinds=[k1, k2], accessors=[n1, n2], error=repr(ex))
                continue
            rec.transition()
            got = np.asarray(q.to_base_units().magnitude, float)
            want = a - b if d1 == d2 else a * b
            scale = np.abs(a) + np.abs(b) if d1 == d2 else np.abs(want)
            rec.check(bool(np.all(np.abs(got - want) <= 1e-6 * scale + 1e-12)), "quantities of two entities combine wrongly", kinds=[k1, k2], accessors=[n1, n2], got=got, want=want)
            rec.state(k1, k2, n1, n2)
        rec.trace()
    rec.outcome(k1, k2)


def interleaved(rec, depth):
    """Reading accessors of different kinds in any order does not change what any of them reports."""
    es = {}
    for k in ("dubins2d", "cwh", "rot2d", "dubins3d"):
        es[k] = zoo.KINDS[k].make("default", zoo.base_states(k, "default")[1])
        zoo.step(es[k], 0.5, zoo.mid_controls(k, "default")[1])
    reads = [(k, n) for k, e in es.items() for n in list(tagged(e))[::3]]
    for seq in itertools.product(reads, repeat=depth):
        for k, n in seq:
            getattr(es[k], n)
            rec.transition()
        k, n = seq[-1]
        plain = tagged(es[k])[n]
        q = getattr(es[k], n)
        dim = DIM[plain]
        u = list(UNITS[dim])[1]
        rec.check(zoo.close(q.to(u).magnitude, np.array(getattr(es[k], plain), float) * base(k, dim) / UNITS[dim][u], 1e-6, 0), "an accessor depends on what was read before", sequence=[list(s) for s in seq], got=q.to(u).magnitude)
        rec.trace()
        rec.state(seq)


def run(tier):
    th = tier == "thorough"
    sc = [("interleaved", dict(depth=3 if th else 2))]
    sc += [("combined", dict(k1=a, k2=b)) for a in KINDS for b in KINDS]
    for k in KINDS:
        sc.append(("own_units", dict(kind=k)))
        if k in ("dubins2d", "dubins3d", "cwh", "rot2d", "sixdof"):
            sc.append(("built", dict(kind=k)))
        for cfg in zoo.KINDS[k].configs if th else list(zoo.KINDS[k].configs)[:2]:
            for method in ("Euler", "RK45"):
                sc.append(("accessors", dict(kind=k, cfg=cfg, method=method, depth=3 if th else 2)))
    return core.run_check("C21", sys.modules[__name__], sc, assumptions=["conversion factors of the units listed in the checks (exact definitions)"])
