"""C28: F-16 equations of motion against an independent vector formulation, for both aerodynamic models."""
import itertools
import math
import sys

import numpy as np

from mc import core, f16ref, grid
from mc.checks.c26 import low

D = math.pi / 180
# a generic flight state and command; every family varies some coordinates over a full product around it
X0 = [502.0, 4.3 * D, -1.7 * D, 0.35, 0.12, 0.8, 0.21, -0.13, 0.07, 1000.0, -2000.0, 7300.0, 35.0]
U0 = [0.42, -3.1, 2.7, -4.9]
NAMES = ["vt", "alpha", "beta", "phi", "theta", "psi", "p", "q", "r", "pn", "pe", "alt", "power", "thtl", "el", "ail", "rdr"]
AX = {
    "vt": (120.0, 502.0, 950.0), "alpha": tuple(v * D for v in (-14, -3, 0, 8.2, 22.0, 47.0)), "beta": tuple(v * D for v in (-33, -7.5, 0, 4.0, 16.0)),
    "phi": (-2.5, 0.0, 0.6, 1.9), "theta": (-1.3, 0.0, 0.45), "psi": (-2.0, 0.0, 1.1, 3.0), "p": (-0.7, 0.0, 0.9), "q": (-0.3, 0.0, 0.4), "r": (-0.25, 0.0, 0.5),
    "pn": (0.0, -5e5), "pe": (0.0, 1e6), "alt": (-100.0, 0.0, 12345.0, 34999.0, 35000.0, 52000.0), "power": (0.0, 30.0, 49.9, 50.0, 77.0, 100.0),
    "thtl": (0.0, 0.3, 0.77, 0.9, 1.0), "el": (-26.0, -11.0, 0.0, 7.0, 25.0), "ail": (-25.0, -6.0, 0.0, 21.5), "rdr": (-32.0, 0.0, 11.0, 30.0),
}
FAMILIES = {
    "aerodynamics": ("alpha", "beta", "el", "ail", "rdr"),
    "damping": ("vt", "alpha", "beta", "p", "q", "r"),
    "attitude": ("phi", "theta", "psi", "alpha", "beta", "vt"),
    "rotation": ("phi", "theta", "p", "q", "r", "beta"),
    "engine": ("vt", "alt", "power", "thtl", "alpha"),
    "surfaces and rates": ("p", "r", "el", "ail", "rdr", "vt"),
    "place": ("pn", "pe", "psi", "alt", "theta", "phi"),
}
# far outside the usual envelope, two coordinates at a time
WIDE = {
    "vt": (0.5, 40.0, 3000.0), "alpha": (-1.6, 1.5), "beta": (-1.5, 1.4), "phi": (-9.0, 3.0, 40.0), "theta": (-1.57, 1.56, 4.0), "psi": (-20.0, 7.0, 100.0),
    "p": (-12.0, -3.2, 2.5, 7.0), "q": (-5.0, -1.5, 3.0), "r": (-4.0, 1.5, 6.0), "pn": (1e9, ), "pe": (-1e9, ), "alt": (-3000.0, 70000.0), "power": (3.0, 99.0),
    "thtl": (0.02, 0.7701, 1.3, -0.2), "el": (-60.0, 55.0), "ail": (-60.0, 45.0), "rdr": (-70.0, 61.0),
}
FULL = {
    "aero full": ("vt", "alpha", "beta", "p", "q", "r", "el", "ail", "rdr"),
    "motion full": ("vt", "alpha", "beta", "phi", "theta", "psi", "p", "q", "r"),
}
OUT = ["vt", "alpha", "beta", "phi", "theta", "psi", "p", "q", "r", "pn", "pe", "alt", "power"]


def split(vals):
    return np.array(vals[:13], float), np.array(vals[13:], float)


def compare(rec, f, x, u, model, adj, **info):
    kw = {} if adj is None else {"adjust_cy": adj}
    x0, u0 = x.copy(), u.copy()
    with core.CodeUnderTest():
        xd, nz, ny, az, ay = f(x, u, model, **kw)
    rec.check(bool(np.all(x == x0)) and bool(np.all(u == u0)), "the state or control is modified", model=model, state=x0, control=u0, got=[x, u])
    wd, wnz, wny, waz, way, mag = f16ref.eom(x, u, model, adj is not False)
    rec.transition()
    rec.trace()
    xd = np.asarray(xd, float)
    if not rec.check(xd.shape == (13, ), "the derivative has the wrong size", got=xd.shape):
        return None
    tol = 1e-9 * (mag + np.abs(wd) + 1e-3)
    if x[11] <= 0.01:  # the thrust is taken just above sea level there
        tol[:3] += 0.05 * f16ref.RM * np.array([1.0, 1.5 / x[0], 1.5 / x[0]])
    bad = np.abs(xd - wd) > tol
    if bad.any():
        rec.fail("the state derivative is not the published motion", model=model, state=dict(zip(NAMES, x)), control=u, wrong=[n for n, b in zip(OUT, bad) if b], got=xd, want=wd)
    big = 1e-9 * (abs(waz) + abs(way) + f16ref.G + 15 * (abs(wd[7]) + abs(wd[8]) + mag[7] + mag[8]))
    rec.check(abs(az - waz) <= big and abs(ay - way) <= big, "a load at the pilot station is wrong", model=model, adjust_cy=adj, state=x, control=u, got=[az, ay], want=[waz, way])
    rec.check(abs(nz - wnz) <= big and abs(ny - wny) <= big, "a load factor is wrong", model=model, adjust_cy=adj, state=x, control=u, got=[nz, ny], want=[wnz, wny])
    speed = math.sqrt(xd[9]**2 + xd[10]**2 + xd[11]**2)
    rec.check(abs(speed - x[0]) <= 1e-9 * x[0], "the navigation rates do not have the magnitude of the airspeed", state=x, got=speed, want=x[0])
    return xd, nz, ny, az, ay


def family(rec, name, model, adj, part, parts, dense=False):
    """Full product over the family's coordinates; the arguments come back untouched."""
    f = low("subf16_model")
    vary = (FAMILIES.get(name) or FULL[name])
    idx = [NAMES.index(n) for n in vary]
    axes = [AX[n] if name in FAMILIES or dense else AX[n][:: 2 if len(AX[n]) > 3 else 1][:3] for n in vary]
    for i, combo in enumerate(itertools.product(*axes)):
        if i % parts != part:
            continue
        vals = X0 + U0
        for k, v in zip(idx, combo):
            vals[k] = v
        x, u = split(vals)
        xs, us = x.copy(), u.copy()
        r = compare(rec, f, xs, us, model, adj)
        rec.check(bool(np.all(xs == x)) and bool(np.all(us == u)), "the state or control is modified", model=model, state=x, control=u, got=[xs, us])
        rec.state(name, model, adj, combo)
        if r is not None:
            rec.outcome(r[0])
    rec.sample({"family": name, "model": model, "varied": dict(zip(vary, combo)), "derivative": r and r[0]})


def wide(rec, model, part, parts):
    """Every pair of coordinates far outside the envelope at once."""
    f = low("subf16_model")
    n = 0
    for a, b in itertools.combinations(NAMES, 2):
        for va, vb in itertools.product(WIDE[a], WIDE[b]):
            n += 1
            if n % parts != part:
                continue
            vals = X0 + U0
            vals[NAMES.index(a)], vals[NAMES.index(b)] = va, vb
            x, u = split(vals)
            r = compare(rec, f, x, u, model, None)
            rec.state(model, a, b, va, vb)
            if r is not None:
                rec.outcome(r[0])


def fine(rec, model, part, parts):
    """Differences down to 1e-8 of every state and control, from flight conditions with zero and nonzero components (see grid.small)."""
    f = low("subf16_model")

    def code(v):
        xd, nz, ny, az, ay = f(*split(v), model)
        return np.concatenate([np.asarray(xd, float), [nz, ny, az, ay]])

    def ref(v):
        wd, wnz, wny, waz, way, mag = f16ref.eom(*split(v), model, True)
        big = abs(waz) + abs(way) + f16ref.G + 15 * (mag[7] + mag[8])
        return np.concatenate([wd, [wnz, wny, waz, way]]), np.concatenate([mag + np.abs(wd) + 1e-3, [big] * 4])

    zero = [502.0, 0.0, 0.0, 0, 0, 0, 0, 0, 0, 0, 0, 9000.0, 30.0, 0.4, 0.0, 0.0, 0.0]
    pts = [zero, X0 + U0]
    for n, v in (("alpha", 0.1), ("beta", -0.05), ("phi", 0.7), ("theta", -0.3), ("p", 0.4), ("q", -0.2), ("r", 0.3), ("el", -5.0), ("ail", 4.0), ("rdr", -6.0), ("alt", 41000.0), ("power", 80.0)):
        for base in (zero, X0 + U0):
            pts.append(list(base))
            pts[-1][NAMES.index(n)] = 0.0 if base is not zero and n not in ("alt", "power") else v
    grid.small(rec, code, ref, pts[part::parts], [100.0, 0.1, 0.1, 0.5, 0.3, 0.5, 0.3, 0.3, 0.3, 0.0, 0.0, 1000.0, 10.0, 0.1, 1.0, 1.0, 1.0], model=model)


def invariance(rec, model):
    """Position never matters; heading only turns the navigation rates; mirror flight mirrors the motion; repeated and interleaved calls agree bit for bit."""
    f = low("subf16_model")
    pts = list(itertools.product((150.0, 700.0), (-0.05, 0.3), (-0.2, 0.0, 0.1), (0.0, 1.2), (-0.4, 0.7), (-0.3, 0.0, 0.6), (-6.0, 0.0, 11.0)))
    for vt, al, be, phi, th, w, d in pts:
        x = np.array([vt, al, be, phi, th, 0.3, w, -w / 2, w / 3, 0.0, 0.0, 9000.0, 44.0])
        u = np.array([0.5, d / 2, d, -d])
        with core.CodeUnderTest():
            base = f(x.copy(), u.copy(), model)
        a = np.asarray(base[0], float)
        for pn, pe, psi in ((1e6, 0.0, 0.3), (0.0, -1e6, 0.3), (0.0, 0.0, 2.0), (-4e4, 5e5, -3.0)):
            y = x.copy()
            y[9], y[10], y[5] = pn, pe, psi
            with core.CodeUnderTest():
                b = f(y, u.copy(), model)
            rec.transition()
            keep = [k for k in range(13) if k not in (9, 10)]
            bb = np.asarray(b[0], float)
            rec.check(bool(np.all(a[keep] == bb[keep])) and tuple(b[1:]) == tuple(base[1:]), "position or heading changes the motion", model=model, state=x, position=[pn, pe], heading=psi, got=bb, want=a)
            dpsi = psi - 0.3
            n = math.cos(dpsi) * a[9] - math.sin(dpsi) * a[10]
            e = math.sin(dpsi) * a[9] + math.cos(dpsi) * a[10]
            rec.check(abs(bb[9] - n) <= 1e-9 * vt and abs(bb[10] - e) <= 1e-9 * vt, "heading does not turn the navigation rates", model=model, heading=psi, got=bb[9:11], want=[n, e])
        with core.CodeUnderTest():
            f(np.array(X0), np.array(U0), "morelli")
            f(np.array(X0), np.array(U0), "stevens", adjust_cy=False)
            again = f(x.copy(), u.copy(), model)
        rec.transition(3)
        rec.check(bool(np.all(np.asarray(again[0]) == a)) and tuple(again[1:]) == tuple(base[1:]), "the derivative depends on earlier calls", model=model, state=x)
        out = again[0]
        out += 3.0
        with core.CodeUnderTest():
            third = f(x.copy(), u.copy(), model)
        rec.check(bool(np.all(np.asarray(third[0]) == a)), "writing to a result changes later results", model=model, state=x)
        rec.trace()
        rec.state(model, vt, al, be, phi, th, w, d)
        rec.outcome(a)
    rec.sample({"model": model, "state": x, "derivative": a})


def inertia(rec, model):
    """The moment equations are those of a rigid body with the F-16's inertias (the published constants, to their rounding)."""
    f = low("subf16_model")
    Ix, Iy, Iz, Ixz = 9496.0, 55814.0, 63100.0, 982.0
    J = np.array([[Ix, 0, -Ixz], [0, Iy, 0], [-Ixz, 0, Iz]])
    for p, q, r, be, el, ail, rdr in itertools.product((-1.0, 0.0, 0.6), (-0.4, 0.0, 0.3), (-0.5, 0.0, 0.8), (-0.1, 0.1), (-10.0, 5.0), (-15.0, 9.0), (-20.0, 12.0)):
        x = np.array([502.0, 0.1, be, 0.3, 0.1, 0.2, p, q, r, 0.0, 0.0, 5000.0, 30.0])
        u = np.array([0.3, el, ail, rdr])
        y = x.copy()
        y[6:9] = 0
        om = np.array([p, q, r])
        with core.CodeUnderTest():
            got = np.asarray(f(x, u, model)[0], float)[6:9]
        # aerodynamic moments from the reference coefficients
        ref = f16ref.eom(x, u, model)[0][6:9]
        h = np.array([160.0, 0, 0])
        gyro = np.linalg.solve(J, -np.cross(om, J @ om + h))
        own = np.array([(0.02755 * p - 0.770 * r + 1.642e-6 * 160) * q, (0.9604 * p - 1.792e-5 * 160) * r + 1.759e-2 * (r * r - p * p), (-0.7336 * p - 0.02755 * r + 1.587e-5 * 160) * q])
        rec.transition()
        rec.trace()
        rec.check(bool(np.all(np.abs(got - (ref - own + gyro)) <= 2e-3 * (om @ om + 0.01))), "the gyroscopic moments are not those of the F-16's inertias", state=x, got=got, want=ref - own + gyro)
        rec.state(model, p, q, r, be, el, ail, rdr)
        rec.outcome(got)
    rec.sample({"rates": om, "gyroscopic accelerations": gyro})


def types(rec, model):
    """States and controls of whole numbers, in every numeric type and container: the derivative is that of the same numbers in floating point."""
    f = low("subf16_model")
    for vt, al, be, phi, th, w, alt, power, el, d in itertools.product((100, 540, 900), (0, 1), (0, -1), (0, 2), (0, 1), (-1, 0, 1), (0, 3600, 45000), (9, 80), (0, -7), (0, 12)):
        x = [vt, al, be, phi, th, -2, w, 2 * w, -w, 300, -70, alt, power]
        u = [1, el, d, -d]
        with core.CodeUnderTest():
            want = f(np.array(x, dtype=float), np.array(u, dtype=float), model)
        for kind, a, b, tol in (("int64", np.array(x), np.array(u), 1e-12), ("int32", np.array(x, dtype=np.int32), np.array(u, dtype=np.int8), 1e-12), ("float32", np.array(x, dtype=np.float32), np.array(u, dtype=np.float32), 1e-3), ("list", [float(v) for v in x], list(u), 1e-12), ("int state", np.array(x), np.array(u, dtype=float), 1e-12)):
            before = list(a)
            with core.CodeUnderTest():
                got = f(a, b, model)
            rec.transition()
            g, v = np.asarray(got[0], float), np.asarray(want[0], float)
            ok = g.shape == (13, ) and bool(np.all(np.abs(g - v) <= tol * (1 + np.abs(v)))) and all(abs(p - q) <= tol * (1 + abs(q)) for p, q in zip(got[1:], want[1:]))
            rec.check(ok, "the numeric type of the state changes the derivative", model=model, numeric_type=kind, state=x, control=u, got=g, want=v)
            rec.check(list(a) == before, "the caller's state was modified", numeric_type=kind)
            rec.state(model, kind, x, u)
        rec.trace()
        rec.outcome(g)


def rejected(rec):
    """Unknown models and wrong vector sizes."""
    f = low("subf16_model")
    good = ("stevens", "morelli")
    for n, m, model in itertools.product(range(0, 18), range(0, 7), good + ("Stevens", "MORELLI", "", None, "table", 0, "stevens ")):
        x = np.array((X0 + [0.1] * 5)[:n])
        u = np.array((U0 + [0.1] * 3)[:m])
        ok = n == 13 and m == 4 and model in good
        try:
            f(x, u, model)
            rec.check(ok, "an invalid model name or vector size is accepted", state_size=n, control_size=m, model=model)
        except Exception as e:  # pylint: disable=W0718
            rec.check(not ok, f"a valid call is rejected: {e!r}", state_size=n, control_size=m, model=model)
        rec.transition()
        rec.trace()
        rec.state(n, m, model)
    rec.outcome(0)


def run(tier):
    th = tier == "thorough"
    sc = [("rejected", {})]
    for model in ("stevens", "morelli"):
        sc += [("invariance", dict(model=model)), ("inertia", dict(model=model)), ("types", dict(model=model))]
        sc += [("fine", dict(model=model, part=i, parts=4)) for i in range(4)]
        sc += [("wide", dict(model=model, part=i, parts=4)) for i in range(4)]
        for name in FAMILIES:
            for part in range(8):
                for adj in ((None, True, False) if th else (None, False)):
                    if adj is False and not th and name not in ("damping", ):
                        continue
                    sc.append(("family", dict(name=name, model=model, adj=adj, part=part, parts=8)))
        for name in FULL:
            for part in range(64):
                sc.append(("family", dict(name=name, model=model, adj=None, part=part, parts=64, dense=th)))
    return core.run_check("C28", sys.modules[__name__], sc, assumptions=["golden data: Stevens and Lewis constants"])
