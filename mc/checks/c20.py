"""C20: initial values given as quantities are converted to base units; wrong dimensions, missing names and unknown parameters are rejected."""
import itertools
import math
import sys
import warnings

import numpy as np

from mc import core, zoo

FT, MI = 0.3048, 1609.344
LENGTH = {"meter": 1.0, "m": 1.0, "km": 1e3, "centimeter": 0.01, "mm": 1e-3, "foot": FT, "ft": FT, "inch": 0.0254, "yard": 3 * FT, "mile": MI, "nautical_mile": 1852.0}
TIME = {"second": 1.0, "s": 1.0, "minute": 60.0, "hour": 3600.0, "ms": 1e-3, "day": 86400.0}
ANGLE = {"radian": 1.0, "rad": 1.0, "degree": math.pi / 180, "deg": math.pi / 180, "milliradian": 1e-3, "turn": 2 * math.pi, "arcminute": math.pi / 10800}
PAIRS = (("m", "s"), ("km", "hour"), ("ft", "s"), ("mile", "hour"), ("inch", "minute"), ("meter", "ms"), ("nautical_mile", "day"))
SPEED = {f"{a}/{b}": LENGTH[a] / TIME[b] for a, b in PAIRS}
SPEED.update({"knot": 1852.0 / 3600, "kph": 1000 / 3600.0, "mph": MI / 3600})
RATE = {f"{a}/{b}": ANGLE[a] / TIME[b] for a in ("rad", "degree", "turn", "milliradian", "arcminute") for b in ("s", "minute", "hour")}
RATE["rpm"] = 2 * math.pi / 60
UNITS = {"length": LENGTH, "speed": SPEED, "angle": ANGLE, "rate": RATE}
WRONG = {
    "length": ["s", "kg", "m/s", "m**2", "1/m", "radian", "degree", "dimensionless", "newton", "degree/s", "degC"],
    "speed": ["s", "m", "kg", "m/s**2", "radian/s", "degree", "dimensionless", "1/s", "s/m"],
    "angle": ["m", "s", "m/s", "degree/s", "kg", "degC", "1/s"],
    "rate": ["m", "s", "m/s", "degree", "radian", "dimensionless", "degree/s**2", "degree*s"],
}
PLANE_DIM = {"x": "length", "y": "length", "z": "length", "heading": "angle", "gamma": "angle", "roll": "angle", "v": "speed"}
SPACE_DIM = {"x": "length", "y": "length", "z": "length", "theta": "angle", "x_dot": "speed", "y_dot": "speed", "z_dot": "speed", "wx": "rate", "wy": "rate", "wz": "rate"}
DEFAULTS = {"v": 200.0, "q4": 1.0}
QUANT = ("dubins2d", "dubins3d", "cwh", "rot2d", "sixdof", "sun")


def dims(kind):
    if kind not in QUANT:  # the integrators' fields are plain numbers
        return {}
    d = PLANE_DIM if kind.startswith("dubins") else SPACE_DIM
    return {n: d[n] for n in zoo.KINDS[kind].ctor_names if n in d}


def factor(kind, dim, unit):
    f = UNITS[dim][unit]
    return f / FT if kind.startswith("dubins") and dim in ("length", "speed") else f


def defaults(kind):
    return {n: DEFAULTS.get(n, 0.0) for n in zoo.KINDS[kind].ctor_names}


def build(kind, **kw):
    return zoo.KINDS[kind].cls(name="e", **kw)


def state_of(kind, vals):
    d = defaults(kind)
    d.update(vals)
    return np.array([d[n] for n in zoo.KINDS[kind].ctor_names], float)


def compare(rec, kind, e, vals, what, **info):
    want = state_of(kind, vals)
    got = np.asarray(e.state, float)
    rec.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 3e-7 * np.abs(want))), what, kind=kind, got=got, want=want, **info)
    rec.trace()
    rec.outcome(kind, got)


def registry(which):
    import pint

    return pint.get_application_registry() if which == "application" else pint.UnitRegistry()


VALUES = (1, 0.0, -2.5, 1234.5, -1e-3, 7, 3.7e-15, -2.6e-9, 1.23456e9)


def units(rec, kind, which):
    """Every initial value in every unit, several magnitudes, on its own."""
    R = registry(which)
    for n, dim in dims(kind).items():
        for unit, v in itertools.product(UNITS[dim], VALUES):
            e = build(kind, **{n: R.Quantity(v, unit)})
            rec.transition()
            compare(rec, kind, e, {n: v * factor(kind, dim, unit)}, "a quantity does not give the state of the equivalent plain number", parameter=n, value=v, unit=unit)
            p = build(kind, **{n: v * factor(kind, dim, unit)})
            rec.transition()
            rec.check(bool(np.all(np.abs(np.asarray(p.state, float) - np.asarray(e.state, float)) <= 3e-7 * np.abs(np.asarray(p.state, float)))), "quantity and plain number give different states", parameter=n, value=v, unit=unit, quantity=e.state, plain=p.state)
            rec.state(kind, which, n, unit, v)


def plain(rec, kind):
    """Numbers of each numeric type are taken in base units."""
    for n in zoo.KINDS[kind].ctor_names:
        for v in (3, 0, -2.5, np.float64(1.25), np.float32(0.75), np.int64(4), 1e6, True, 4.7e-15, -1.2e-9, 16777215.0, -2.6e10):
            e = build(kind, **{n: v})
            rec.transition()
            compare(rec, kind, e, {n: float(v)}, "a plain number does not land in its own component unchanged", parameter=n, value=float(v))
            rec.state(kind, n, type(v).__name__, float(v))


def subsets(rec, kind, part, parts):
    """Every subset of the initial values, each with its own value, the rest taking their defaults; as plain numbers and as quantities."""
    R = registry("application")
    names = zoo.KINDS[kind].ctor_names
    D = dims(kind)
    for k, bits in enumerate(itertools.product((0, 1), repeat=len(names))):
        if k % parts != part:
            continue
        vals = {n: 0.5 + i for i, n in enumerate(names) if bits[i]}
        for form in range(3):
            kw = {}
            for i, n in enumerate(vals):
                kw[n] = vals[n]
                if n in D and (form == 1 or form == 2 and i % 2):
                    unit = sorted(UNITS[D[n]])[(i + k) % len(UNITS[D[n]])]
                    kw[n] = R.Quantity(vals[n] / factor(kind, D[n], unit), unit)
            e = build(kind, **(kw if k % 2 else dict(reversed(list(kw.items())))))
            rec.transition()
            compare(rec, kind, e, vals, "named initial values do not land in their own components", given=vals, form=form)
        rec.state(kind, bits)


def sequences(rec, which, depth):
    """Entities built one after another with different units do not influence each other's conversion."""
    R = registry(which)
    build_list = []
    for kind in QUANT:
        n, dim = list(dims(kind).items())[0]
        for unit in list(UNITS[dim])[1::3]:
            build_list.append((kind, n, dim, unit))
        if kind != "sun":
            n, dim = list(dims(kind).items())[-1]
            build_list.append((kind, n, dim, sorted(UNITS[dim])[-1]))
    for seq in itertools.product(build_list, repeat=depth):
        made = [build(k, **{n: R.Quantity(2.5, u)}) for k, n, dim, u in seq]
        rec.transition(depth)
        for (k, n, dim, u), e in zip(seq, made):
            compare(rec, k, e, {n: 2.5 * factor(k, dim, u)}, "a conversion depends on entities built before", sequence=[list(s) for s in seq])
        rec.state(which, seq)


def rejected(rec, kind, kw, what, **info):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            e = zoo.KINDS[kind].cls(**kw)
        except Exception:  # noqa: B902
            return
    rec.check(False, what, kind=kind, state=e.state, **info)


def wrong(rec, kind, which):
    """Every initial value in every wrong dimension, alone and next to good ones."""
    R = registry(which)
    for n in zoo.KINDS[kind].ctor_names:
        dim = dims(kind).get(n)
        for unit in WRONG[dim] if dim else ["s", "kg"]:
            for v in (1.0, 0, -3.5):
                q = R.Quantity(v, unit)
                rejected(rec, kind, {"name": "e", n: q}, "a quantity of the wrong dimension was accepted", parameter=n, value=v, unit=unit)
                others = {o: 1.0 for o in zoo.KINDS[kind].ctor_names if o != n}
                rejected(rec, kind, {"name": "e", **others, n: q}, "a quantity of the wrong dimension was accepted", parameter=n, value=v, unit=unit)
                rec.transition(2)
                rec.trace()
                rec.state(kind, which, n, unit, v)
        for bad in ("north", [1.0, 2.0], (1.0, ), {"value": 1.0}, None, object(), 1j):
            rejected(rec, kind, {"name": "e", n: bad}, "a value that is not a number was accepted", parameter=n, value=repr(bad)[:20])
            rec.transition()
    # afterwards the kind can still be built
    compare(rec, kind, build(kind), {}, "the defaults are not the documented ones")


UNKNOWN = ("foo", "X", "Name", "position", "velocity", "x_", "_x", "xx", "names", "h", "speed", "mass", "x__dot", "state", "omega", "psi")


def parameters(rec, kind):
    """Missing names, unknown parameters (alone, next to good ones, with any value), parameters of other kinds."""
    good = {n: 1.0 for n in zoo.KINDS[kind].ctor_names}
    compare(rec, kind, build(kind), {}, "the defaults are not the documented ones")
    for kw in ({}, good, {"x": 1.0} if "x" in good else {"theta": 1.0}):
        rejected(rec, kind, kw, "an entity without a name was built", given=list(kw))
        rec.transition()
    rejected(rec, kind, {"name": None}, "None was accepted as a name")
    foreign = set()
    for k in ("dubins3d", "sixdof", "sun"):
        foreign |= set(zoo.KINDS[k].ctor_names)
    family = set(good) | ({"z"} if kind.startswith("dubins") else set()) | (set(zoo.KINDS["int3d"].ctor_names) if kind.startswith("int") else set())
    for n in list(UNKNOWN) + sorted(foreign - family):
        if n in family:
            continue
        for v in (0, 1.0, None, "a"):
            for base in ({}, good):
                rejected(rec, kind, {"name": "e", **base, n: v}, "an unknown parameter was accepted", parameter=n, value=v)
                rec.transition()
                rec.state(kind, n, v, len(base))
                rec.trace()
    for name in ("e", "", "another name", "é"):
        e = zoo.KINDS[kind].cls(name=name)
        rec.check(e.name == name, "the entity has another name", got=e.name, want=name)
        rec.transition()


def validator(rec):
    """The conversion function itself, for units given as text and as unit objects."""
    import pint

    from safe_autonomy_dynamics.base_models import build_unit_conversion_validator_fn

    R = registry("application")
    for dim, table in UNITS.items():
        for target, f in table.items():
            for form in (target, pint.Unit(target)):
                fn = build_unit_conversion_validator_fn(form)
                for unit, v in itertools.product(table, (2.5, -1, 0, 1.23456789012e9, -3.7e-16)):
                    got = fn(R.Quantity(v, unit))
                    rec.transition()
                    want = v * table[unit] / f
                    rec.check(isinstance(got, float) and abs(got - want) <= 1e-12 * abs(want) * 10, "wrong conversion", value=v, unit=unit, target=target, got=got, want=want)
                    rec.state(dim, target, type(form).__name__, unit, v)
                    rec.trace()
                for v in (2.5, -1, np.float32(0.75), 0, 123456789.0, -1.23456789e13, 1.1e-17, 1e300, 10**15 + 1, True):
                    got = fn(v)
                    rec.transition()
                    rec.check(isinstance(got, float) and got == float(v), "a plain number is not passed through", value=float(v), got=got)
                for unit in WRONG[dim]:
                    try:
                        got = fn(R.Quantity(1.0, unit))
                    except ValueError:
                        continue
                    except Exception as e:  # noqa: B902
                        rec.check(False, "a wrong dimension is not reported as a ValueError", unit=unit, target=target, raised=repr(e))
                    else:
                        rec.check(False, "a wrong dimension was converted", unit=unit, target=target, got=got)


def run(tier):
    th = tier == "thorough"
    sc = [("validator", {})]
    for which in ("application", "other"):
        sc.append(("sequences", dict(which=which, depth=3 if th else 2)))
        for k in QUANT:
            sc.append(("units", dict(kind=k, which=which)))
        for k in zoo.KINDS:
            sc.append(("wrong", dict(kind=k, which=which)))
    for k in zoo.KINDS:
        sc.append(("plain", dict(kind=k)))
        sc.append(("parameters", dict(kind=k)))
        parts = 8 if k == "sixdof" else 1
        sc += [("subsets", dict(kind=k, part=i, parts=parts)) for i in range(parts)]
    return core.run_check("C20", sys.modules[__name__], sc, assumptions=["units of length, speed, angle and angular rate listed in the check; values within single precision"])
