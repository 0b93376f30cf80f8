"""C26: F-16 aerodynamic coefficients: table interpolation in every cell, and the Morelli polynomials with their saturation."""
import importlib
import itertools
import math
import sys

import numpy as np

from mc import core, f16ref, grid

INF = math.inf


def low(name, attr=None):
    return getattr(importlib.import_module("safe_autonomy_dynamics.external.aerobench.lowlevel." + name), attr or name)


def sub(grid, inner, band):
    """Every breakpoint with both neighbouring floats and values a hair away, `inner` points inside every cell, and points beyond both ends."""
    out = []
    for g in grid:
        out += [g, float(np.nextafter(g, INF)), float(np.nextafter(g, -INF)), g + 1e-9, g - 1e-9]
    for a, b in zip(grid[:-1], grid[1:]):
        out += [a + (b - a) * (i + 1) / (inner + 1) for i in range(inner)]
    out += [grid[0] - d for d in band] + [grid[-1] + d for d in band]
    return sorted(set(out))


BAND = (0.25, 2.5, 4.999, 5.0, 7.5, 20.0, 45.0, 130.0)
TABLES = {
    "cl": ("ab", f16ref.cl), "cn": ("ab", f16ref.cn), "dlda": ("aw", f16ref.dlda), "dldr": ("aw", f16ref.dldr), "dnda": ("aw", f16ref.dnda),
    "dndr": ("aw", f16ref.dndr), "cm": ("ae", f16ref.cm), "cx": ("ae", f16ref.cx), "dampp": ("a", f16ref.dampp),
}
MIRROR = sorted({-b for b in f16ref.BETAS5} | set(f16ref.BETAS5))
AXIS = {"a": f16ref.ALPHAS, "b": MIRROR, "w": f16ref.BETAS10, "e": f16ref.ELEV}


def num(v):
    return np.array(v, float)


def table(rec, name, inner, part, parts):
    """One table: every cell, breakpoint, neighbour and extrapolation band; odd where lateral; evaluated forwards, backwards and again."""
    axes, ref = TABLES[name]
    fn = low(name)
    grids = [sub(AXIS[a], inner, BAND) for a in axes]
    pts = [p for i, p in enumerate(itertools.product(*grids)) if i % parts == part]
    first = []
    for p in pts:
        with core.CodeUnderTest():
            got = num(fn(*p))
        want = num(ref(*p))
        rec.transition()
        rec.trace()
        tol = 1e-12 * (1 + np.abs(want) + max(1.0, float(np.max(np.abs(p)))))
        rec.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol)), "a tabulated coefficient is not the interpolation of its table", name=name, at=p, got=got, want=want)
        if axes == "ab":
            with core.CodeUnderTest():
                opp = float(fn(p[0], -p[1]))
            rec.check(abs(opp + float(got)) <= 1e-13, "a lateral coefficient is not odd in sideslip", name=name, at=p, got=opp, want=-float(got))
        first.append(got)
        rec.state(name, *[round(v * 1e6) for v in p])
        rec.outcome(name, got)
    for p, g in reversed(list(zip(pts, first))):
        with core.CodeUnderTest():
            again = fn(*(np.float64(v) for v in p))
        rec.transition()
        rec.check(bool(np.all(num(again) == g)), "a coefficient depends on what was evaluated before", name=name, at=p, got=again, want=g)
        if isinstance(again, np.ndarray) and again.flags.writeable:
            again += 5.0
    rec.sample({"name": name, "at": p, "value": g})


def neighbours(rec, name, inner):
    """Continuity: along every grid line in each argument, consecutive floats across every breakpoint give the same value to rounding."""
    axes, _ = TABLES[name]
    fn = low(name)
    for k, ax in enumerate(axes):
        others = [sub(AXIS[a], inner, (2.5, )) for i, a in enumerate(axes) if i != k]
        for rest in itertools.product(*others):
            for g in AXIS[ax]:
                vals = []
                for v in (np.nextafter(g, -INF), g, np.nextafter(g, INF)):
                    p = list(rest)
                    p.insert(k, float(v))
                    with core.CodeUnderTest():
                        vals.append(num(fn(*p)))
                    rec.transition()
                rec.trace()
                rec.check(all(bool(np.all(np.abs(v - vals[1]) <= 1e-12 * (1 + np.abs(vals[1])))) for v in vals), "a coefficient jumps at a breakpoint", name=name, axis=ax, at=g, rest=rest, values=vals)
                rec.state(name, ax, g, rest)
    rec.outcome(name)


def formula(rec, inner):
    """Side force and normal force: closed forms over full grids."""
    cy, cz = low("cy"), low("cz")
    for b, a, r in itertools.product(np.linspace(-40, 40, 17), np.linspace(-25, 25, 11), np.linspace(-30, 30, 11)):
        b, a, r = float(b), float(a), float(r)
        with core.CodeUnderTest():
            got, opp = float(cy(b, a, r)), float(cy(-b, -a, -r))
        want = f16ref.cy(b, a, r)
        rec.transition(2)
        rec.trace()
        rec.check(abs(got - want) <= 1e-12, "the side force coefficient is wrong", at=[b, a, r], got=got, want=want)
        rec.check(abs(got + opp) <= 1e-13, "the side force coefficient is not odd", at=[b, a, r], got=opp)
        rec.state("cy", b, a, r)
    for al, b, e in itertools.product(sub(f16ref.ALPHAS, inner, BAND), np.linspace(-40, 40, 17), (-25.0, -24.0, -10.0, 0.0, 1.0, 24.0, 25.0, 40.0)):
        b = float(b)
        with core.CodeUnderTest():
            got, opp = float(cz(al, b, e)), float(cz(al, -b, e))
        want = f16ref.cz(al, b, e)
        rec.transition(2)
        rec.trace()
        rec.check(abs(got - want) <= 1e-12 * (1 + abs(want)), "the normal force coefficient is wrong", at=[al, b, e], got=got, want=want)
        rec.check(abs(got - opp) <= 1e-13, "the normal force coefficient is not even in sideslip", at=[al, b, e], got=opp, want=got)
        rec.state("cz", round(al * 1e6), b, e)
        rec.outcome(got)
    rec.sample({"cz at": [al, b, e], "value": got})


D = math.pi / 180
NAMES = ("Cx", "Cy", "Cz", "Cl", "Cm", "Cn")


def one_morelli(rec, fn, args, what):
    with core.CodeUnderTest():
        got = num(fn(*args))
    want = num(f16ref.morelli(*args))
    rec.transition()
    rec.trace()
    bad = np.abs(got - want) > 1e-10 * (1 + np.abs(want)) if got.shape == want.shape else np.array([True])
    if bad.any():
        rec.fail(what, at=args, got=got, want=want, wrong=[n for n, b in zip(NAMES, bad) if b])
    return got


def morelli(rec, part, parts, dense):
    """Full tensor grid: more points per variable than its degree determine the polynomials."""
    fn = low("morellif16", "Morellif16")
    al = [v * D for v in ((-10, -4, 1, 7, 16, 27, 38, 45) if dense else (-10, -3, 5, 14, 26, 37, 45))]
    be = [v * D for v in (-30, -13, 2, 9, 30)]
    de = [v * D for v in (-25, -9, 1, 14, 25)]
    da = [v * D for v in ((-21.5, 4, 21.5) if dense else (-21.5, 13))]
    dr = [v * D for v in ((-30, 3, 30) if dense else (-22, 30))]
    rates = (-0.5, 0.75)
    for i, (a, b, e) in enumerate(itertools.product(al, be, de)):
        if i % parts != part:
            continue
        for x, y, p, q, r in itertools.product(da, dr, rates, rates, rates):
            got = one_morelli(rec, fn, (a, b, e, x, y, p, q, r, 11.32, 30.0, 500.0, 0.35, 0.35), "a polynomial coefficient is not the published polynomial")
            rec.state(a, b, e, x, y, p, q, r)
        rec.outcome(got)
    rec.sample({"alpha": a, "beta": b, "elevator": e, "coefficients": got})


def morelli_bands(rec):
    """Saturation of each angle and deflection, alone and together; geometry, speed and centre of gravity; order of evaluation."""
    fn = low("morellif16", "Morellif16")
    lim = [(-10, 45), (-30, 30), (-25, 25), (-21.5, 21.5), (-30, 30)]
    gen = [5 * D, 3 * D, -4 * D, 6 * D, -8 * D]
    tail = (0.2, -0.1, 0.15, 11.32, 30.0, 500.0, 0.35, 0.35)
    done = []
    choices = []
    for k, (lo, hi) in enumerate(lim):
        choices.append([lo * D, hi * D, float(np.nextafter(lo * D, -INF)), float(np.nextafter(lo * D, INF)), float(np.nextafter(hi * D, -INF)), float(np.nextafter(hi * D, INF)), (lo - 1) * D, (hi + 1) * D, (lo + 1) * D, (hi - 1) * D, -4.0, 4.0, gen[k]])
    for i, j in itertools.combinations(range(5), 2):
        for x, y in itertools.product(choices[i], choices[j]):
            args = list(gen)
            args[i], args[j] = x, y
            args = tuple(args) + tail
            done.append((args, one_morelli(rec, fn, args, "a polynomial coefficient is not saturated at its validity limits")))
            rec.state("pair", i, j, x, y)
    for c in itertools.product((0, 1, 2), repeat=5):  # below, inside, above, all combinations
        args = tuple([lo * D - 0.3, g, hi * D + 0.3][k] for k, g, (lo, hi) in zip(c, gen, lim)) + tail
        done.append((args, one_morelli(rec, fn, args, "a polynomial coefficient is not saturated at its validity limits")))
        rec.state("all", c)
    for p, q, r, cbar, b, V, xcg, ref in itertools.product((0.0, 1.5), (0.0, -1.0), (0.0, 0.7), (11.32, 5.0), (30.0, 12.0), (100.0, 900.0), (0.35, 0.3, 0.4), (0.35, 0.25)):
        args = tuple(gen) + (p, q, r, cbar, b, V, xcg, ref)
        done.append((args, one_morelli(rec, fn, args, "a polynomial coefficient depends wrongly on rates, geometry or centre of gravity")))
        rec.state("geometry", p, q, r, cbar, b, V, xcg, ref)
    for args, g in reversed(done):
        with core.CodeUnderTest():
            again = num(fn(*args))
        rec.transition()
        rec.check(bool(np.all(again == g)), "a polynomial coefficient depends on what was evaluated before", at=args, got=again, want=g)
    rec.sample({"at": args, "coefficients": g})


def fine(rec):
    """Differences down to 1e-8 of every argument, from breakpoints, from inside cells and from beyond the tables (see grid.small)."""
    def own(name, ref):
        fn = low(name)
        grid.small(rec, lambda a: np.atleast_1d(num(fn(*a))), lambda a: (np.atleast_1d(num(ref(*a))), 1.0 + np.abs(np.atleast_1d(num(ref(*a))))), pts, scales, name=name)

    al, be, el = (-14.0, -10.0, 0.0, 3.3, 10.0, 43.0, 52.0), (-34.0, -12.5, -10.0, 0.0, 4.4, 30.0), (-26.0, -12.0, 0.0, 7.7, 30.0)
    for name, (axes, ref) in TABLES.items():
        vals = {"a": al, "b": be, "w": be, "e": el}
        pts, scales = list(itertools.product(*(vals[a] for a in axes))), [1.0] * len(axes)
        own(name, ref)
    pts, scales = list(itertools.product(be, (-20.0, 0.0, 6.6), (-30.0, 0.0, 4.4))), [1.0, 1.0, 1.0]
    own("cy", f16ref.cy)
    pts = list(itertools.product(al, be, el))
    own("cz", f16ref.cz)
    fn = low("morellif16", "Morellif16")
    tail = [11.32, 30.0, 500.0, 0.35, 0.35]
    pts = [[a, b, e, x, y, w, -w, 0.5 * w] + tail for a, b, e, x, y, w in itertools.product((-0.05, 0.0, 0.3, 0.7), (-0.2, 0.0, 0.1), (-0.3, 0.0), (0.0, 0.2), (0.0, -0.4), (0.0, 0.3))]
    grid.small(rec, lambda a: fn(*a), lambda a: (f16ref.morelli(*a), 1.0 + np.abs(f16ref.morelli(*a))), pts, [0.1] * 5 + [0.3] * 3 + [0.0] * 5, name="morelli")


def order(rec, depth):
    """Every sequence of calls of different coefficient functions: each call's result is the one it has alone."""
    fns = {n: (low(n), [tuple(3.7 if a == "a" else -7.3 for a in TABLES[n][0]), tuple(-12.0 if a == "a" else 31.0 for a in TABLES[n][0])]) for n in TABLES}
    calls = [(n, a) for n, (_, args) in fns.items() for a in args]
    alone = {c: num(TABLES[c[0]][1](*c[1])) for c in calls}
    for seq in itertools.product(calls, repeat=depth):
        for n, a in seq:
            with core.CodeUnderTest():
                got = num(fns[n][0](*a))
            rec.transition()
            rec.check(bool(np.all(np.abs(got - alone[n, a]) <= 1e-11 * (1 + np.abs(alone[n, a])))), "a coefficient depends on earlier calls", sequence=seq, name=n, at=a, got=got, want=alone[n, a])
        rec.trace()
        rec.state(seq)
    rec.outcome(depth)


def run(tier):
    th = tier == "thorough"
    sc = []
    for n in TABLES:
        parts = 1 if len(TABLES[n][0]) == 1 else 8
        sc += [("table", dict(name=n, inner=23 if th else 7, part=i, parts=parts)) for i in range(parts)]
        sc.append(("neighbours", dict(name=n, inner=3 if th else 1)))
    sc.append(("formula", dict(inner=23 if th else 7)))
    sc += [("morelli", dict(part=i, parts=24, dense=True)) for i in range(24)]
    sc.append(("morelli_bands", {}))
    sc.append(("fine", {}))
    sc.append(("order", dict(depth=3 if th else 2)))
    return core.run_check("C26", sys.modules[__name__], sc, assumptions=["golden data: Stevens and Lewis tables, Morelli coefficients"])
