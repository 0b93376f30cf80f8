"""C27: F-16 air data and engine: published piecewise definitions, thrust tables, and the power lag along every throttle history."""
import itertools
import math
import sys

import numpy as np

from mc import core, f16ref, grid
from mc.checks.c26 import low, sub

INF = math.inf


def both(*pts):
    out = []
    for p in pts:
        out += [p, float(np.nextafter(p, INF)), float(np.nextafter(p, -INF)), p + 1e-6, p - 1e-6]
    return out


def airdata(rec, dense):
    """Every altitude (both regimes, both sides of the boundary) x speed."""
    adc = low("adc")
    alts = sorted(set(both(0.0, 35000.0, 36089.0) + [float(v) for v in np.linspace(-2000, 60000, 63 * dense)] + [float(v) for v in np.linspace(61000, 141000, 41 * dense)] + [-5000.0, -20000.0, 142000.0]))
    speeds = [0.0, 1.0, 150.0, 502.0, 968.1, 2000.0, -50.0] + [float(v) for v in np.linspace(10, 2500, 20 * dense)]
    first = []
    for vt, alt in itertools.product(speeds, alts):
        with core.CodeUnderTest():
            m, qb = adc(vt, alt)
        wm, wq = f16ref.adc(vt, alt)
        rec.transition()
        rec.trace()
        rec.check(abs(m - wm) <= 1e-12 * (1 + abs(wm)), "the Mach number is wrong", speed=vt, altitude=alt, got=m, want=wm)
        rec.check(abs(qb - wq) <= 1e-12 * (1 + abs(wq)), "the dynamic pressure is wrong", speed=vt, altitude=alt, got=qb, want=wq)
        first.append(((vt, alt), (m, qb)))
        rec.state(vt, round(alt * 1e6))
        rec.outcome(m, qb)
    for a, r in reversed(first):
        with core.CodeUnderTest():
            again = tuple(adc(np.float64(a[0]), np.float64(a[1])))
        rec.transition()
        rec.check(all(abs(x - y) <= 1e-13 * (1 + abs(y)) for x, y in zip(again, r)), "air data depend on what was evaluated before", at=a, got=again, want=r)
    rec.sample({"speed and altitude": a, "mach and pressure": r})


def engine(rec, dense):
    """Gearing, lag coefficient, power rate: every piece and both sides of every breakpoint."""
    tgear, rtau, pdot = low("tgear"), low("rtau"), low("pdot")
    for th in sorted(set(both(0.0, 0.77, 1.0, 0.5) + [float(v) for v in np.linspace(-0.1, 1.1, 121 * dense)])):
        with core.CodeUnderTest():
            got = tgear(th)
        want = f16ref.tgear(th)
        rec.transition()
        rec.trace()
        rec.check(abs(got - want) <= 1e-11, "the throttle gearing is wrong", throttle=th, got=got, want=want)
        if 0 <= th <= 1:
            rec.check(-1e-9 <= got <= 100 + 1e-9, "the commanded power leaves 0 to 100", throttle=th, got=got)
        rec.state("tgear", round(th * 1e9))
    for dp in sorted(set(both(25.0, 50.0, 0.0) + [float(v) for v in np.linspace(-120, 120, 241 * dense)])):
        with core.CodeUnderTest():
            got = rtau(dp)
        want = f16ref.rtau(dp)
        rec.transition()
        rec.trace()
        rec.check(abs(got - want) <= 1e-12, "the lag coefficient is wrong", difference=dp, got=got, want=want)
        rec.check(0.1 - 1e-12 <= got <= 1 + 1e-12, "the lag coefficient leaves 0.1 to 1", difference=dp, got=got)
        rec.state("rtau", round(dp * 1e9))
    powers = sorted(set(both(50.0, 40.0, 60.0, 10.0, 35.0) + [float(v) for v in np.linspace(0, 100, 41 * dense)]))
    for p3, p1 in itertools.product(powers, powers):
        with core.CodeUnderTest():
            got = pdot(p3, p1)
        want = f16ref.pdot(p3, p1)
        rec.transition()
        rec.trace()
        rec.check(abs(got - want) <= 1e-10, "the power rate is wrong", power=p3, command=p1, got=got, want=want)
        if p3 != p1:
            rec.check(got * (p1 - p3) > 0, "the power does not move towards the command", power=p3, command=p1, got=got)
        else:
            rec.check(abs(got) <= 1e-12, "the power moves although it is at the command", power=p3, got=got)
        rec.state("pdot", round(p3 * 1e9), round(p1 * 1e9))
        rec.outcome(got)
    rec.sample({"power": p3, "command": p1, "rate": got})


def tables(rec, inner, part, parts):
    """Thrust: every cell of the three tables at breakpoints, neighbours, inside and beyond, at powers over both blends."""
    thrust = low("thrust")
    alts = sub(f16ref.ALTS, inner, (100.0, 5000.0, 20000.0))
    machs = sub(f16ref.MACHS, inner, (0.01, 0.1, 0.5, 1.5))
    powers = both(50.0) + [0.0, 10.0, 25.0, 40.0, 60.0, 77.0, 100.0]
    prev = []
    for i, (alt, mach) in enumerate(itertools.product(alts, machs)):
        if i % parts != part:
            continue
        for p in powers:
            with core.CodeUnderTest():
                got = float(thrust(p, alt, mach))
            want = f16ref.thrust(p, alt, mach)
            rec.transition()
            rec.trace()
            slack = 5e-2 if alt < 0 else 0.0  # the code evaluates just above sea level there
            rec.check(abs(got - want) <= 1e-9 * (1 + abs(want)) + slack + 1e-5 * (abs(alt) < 0.1), "the thrust is not the blend of the interpolated tables", power=p, altitude=alt, mach=mach, got=got, want=want)
            prev.append(((p, alt, mach), got))
            rec.state(p, round(alt * 1e3), round(mach * 1e9))
            rec.outcome(round(got, 3))
        with core.CodeUnderTest():
            lo, hi = thrust(float(np.nextafter(50.0, 0)), alt, mach), thrust(50.0, alt, mach)
        rec.check(abs(lo - hi) <= 1e-6, "the thrust jumps at 50 percent power", altitude=alt, mach=mach, below=lo, at=hi)
    for a, g in reversed(prev):
        with core.CodeUnderTest():
            again = thrust(*(np.float64(v) for v in a))
        rec.transition()
        rec.check(again == g, "the thrust depends on what was evaluated before", at=a, got=again, want=g)
    rec.sample({"power, altitude, mach": a, "thrust": g})


def fine(rec):
    """Differences down to 1e-8 of every argument, from breakpoints and from between them (see grid.small)."""
    alts, speeds = (100.0, 9999.0, 20000.0, 34000.0, 35000.0, 47000.0), (50.0, 502.0, 968.0, 1900.0)
    adc, thrust = low("adc"), low("thrust")
    grid.small(rec, lambda a: adc(*a), lambda a: (f16ref.adc(*a), np.abs(f16ref.adc(*a))), itertools.product(speeds, alts), [100.0, 1000.0], name="adc")
    for name, pts in (("tgear", (0.0, 0.3, 0.77, 0.9)), ("rtau", (-30.0, 0.0, 25.0, 33.0, 50.0, 80.0))):
        fn, ref = low(name), getattr(f16ref, name)
        grid.small(rec, lambda a: [fn(*a)], lambda a: ([ref(*a)], [1.0 + abs(ref(*a))]), [[p] for p in pts], [0.5], name=name)
    pdot = low("pdot")
    grid.small(rec, lambda a: [pdot(*a)], lambda a: ([f16ref.pdot(*a)], [100.0 + abs(f16ref.pdot(*a))]), itertools.product((0.0, 20.0, 49.0, 50.0, 60.0, 100.0), (0.0, 20.0, 49.0, 50.0, 60.0, 100.0)), [10.0, 10.0], name="pdot")
    grid.small(rec, lambda a: [thrust(*a)], lambda a: ([f16ref.thrust(*a)], [3e4]), itertools.product((0.0, 20.0, 50.0, 77.0, 100.0), alts + (10000.0, 52000.0), (0.1, 0.2, 0.55, 1.0, 1.2)), [10.0, 1000.0, 0.1], name="thrust")


def follow(p, cmd, T, rate):
    """Power after time T at a constant command, integrated finely; the whole path."""
    n = 200
    h = T / n
    path = [p]
    for _ in range(n):
        with core.CodeUnderTest():
            k1 = rate(p, cmd)
            k2 = rate(p + h / 2 * k1, cmd)
        p = p + h * k2
        path.append(p)
    return path


def history(rec, first, depth):
    """Every throttle sequence: the power runs monotonically towards each commanded power, never passes it, and stays within 0 to 100."""
    tgear, pdot = low("tgear"), low("pdot")
    alphabet = (0.0, 0.3, 0.7, 0.77, 0.78, 1.0)
    dts = (0.5, 4.0)
    cache = {}

    def run(p, th, T):
        key = (p, th, T)
        if key not in cache:
            with core.CodeUnderTest():
                cmd = tgear(th)
            path = follow(p, cmd, T, pdot)
            ref = follow(p, f16ref.tgear(th), T, f16ref.pdot)
            cache[key] = (cmd, path, ref)
            rec.transition(len(path))
        return cache[key]

    for start in (0.0, 30.0, 50.0, 80.0, 100.0):
        for seq in itertools.product(itertools.product(alphabet, dts), repeat=depth - 1):
            p = start
            for th, T in (first, ) + seq:
                cmd, path, ref = run(p, th, T)
                step = T / (len(path) - 1)
                slack = 5.5 * step * 0.1 + 1e-9 + abs(5.0 * step * 10 * (abs(cmd - 50) < 1))
                way = np.sign(cmd - p)
                d = np.diff(path)
                past = [(v - cmd) * way for v in path]
                rec.check(max(past) <= slack, "the power passes the commanded power", start=start, sequence=seq, throttle=th, power=p, command=cmd, worst=max(past))
                inner = d[[abs(v - cmd) > slack for v in path[:-1]]]
                rec.check(bool(np.all(inner * way > 0)), "the power does not move towards the command", start=start, sequence=seq, throttle=th, power=p, command=cmd)
                rec.check(min(path) >= -1e-6 - slack and max(path) <= 100 + 1e-6 + slack, "the power leaves 0 to 100", start=start, sequence=seq, throttle=th, path=[min(path), max(path)])
                rec.check(abs(path[-1] - ref[-1]) <= 1e-6 + 0.02 * (abs(cmd - 50) < 1), "the power history is not that of the published lag", start=start, throttle=th, power=p, got=path[-1], want=ref[-1])
                p = path[-1]
            rec.trace()
            rec.state(start, first, seq)
            rec.outcome(round(p, 2))
    rec.sample({"start": start, "throttles": seq, "power": p})


def run(tier):
    th = tier == "thorough"
    sc = [("airdata", dict(dense=8 if th else 2)), ("engine", dict(dense=8 if th else 2))]
    sc.append(("fine", {}))
    sc += [("tables", dict(inner=23 if th else 7, part=i, parts=16)) for i in range(16)]
    sc += [("history", dict(first=(a, d), depth=5 if th else 4)) for a in (0.0, 0.3, 0.7, 0.77, 0.78, 1.0) for d in (0.5, 4.0)]
    return core.run_check("C27", sys.modules[__name__], sc, assumptions=["golden data: Stevens and Lewis engine tables", "power histories integrated with steps of at most 0.02 s"])
