"""C29: low level controller: LQR feedback, saturation, integrators; the closed loop derivative; controllers do not influence each other."""
import itertools
import math
import sys

import numpy as np

from mc import core, f16ref, grid
from mc.checks.c26 import low

FB = [1, 7, 13, 2, 6, 8, 14, 15]  # alpha, q, Nz integral, beta, p, r, ps integral, Ny+r integral
X0 = np.array(f16ref.XEQ + [0.0, 0.0, 0.0])
DEV = {1: 0.05, 7: 0.2, 13: 0.3, 2: 0.1, 6: 0.4, 8: 0.3, 14: 0.04, 15: 0.15}


def llc_class():
    return low("low_level_controller", "LowLevelController")


def cf16():
    from safe_autonomy_dynamics.external.aerobench.controlled_f16 import controlled_f16

    return controlled_f16


def data(c):
    """Every controller datum, by value."""
    lim = c.ctrlLimits
    return {
        **{k: np.array(getattr(c, n), float) for k, n in (("K", "K_lqr"), ("x", "xequil"), ("u", "uequil")) if hasattr(c, n)},
        "limits": np.array([lim.ThrottleMin, lim.ThrottleMax, lim.ElevatorMinDeg, lim.ElevatorMaxDeg, lim.AileronMinDeg, lim.AileronMaxDeg, lim.RudderMinDeg, lim.RudderMaxDeg], float)
    }


GOLD = {
    "K": np.block([[np.array([f16ref.K_LONG]), np.zeros((1, 5))], [np.zeros((2, 3)), np.array(f16ref.K_LAT)]]),
    "x": np.array(f16ref.XEQ), "u": np.array(f16ref.UEQ), "limits": np.array(f16ref.LIMITS).ravel(),
}


def intact(rec, c, want=GOLD, **info):
    d = data(c)
    for k, v in want.items():
        if k not in d:
            continue
        rec.check(d[k].shape == v.shape and bool(np.all(d[k] == v)), "controller data are not the published ones or were modified", datum=k, got=d[k], want=v, **info)


def judge_control(rec, c, x, ref, limits=f16ref.LIMITS, **info):
    xs, us = x.copy(), ref.copy()
    with core.CodeUnderTest():
        fb, u = c.get_u_deg(us, xs)
    wfb, raw, want = f16ref.control(x, float(ref[3]), limits)
    rec.transition()
    rec.trace()
    fb, u = np.asarray(fb, float), np.asarray(u, float)
    rec.check(bool(np.all(xs == x)) and bool(np.all(us == ref)), "the state or reference is modified", state=x, reference=ref, got=[xs, us], **info)
    ok = fb.shape == (8, ) and u.shape == (4, )
    rec.check(ok and bool(np.all(np.abs(fb - wfb) <= 1e-12 * (1 + np.abs(wfb)))), "the feedback vector is not the deviation from trim", state=x, got=fb, want=wfb, **info)
    rec.check(ok and bool(np.all(np.abs(u - want) <= 1e-9 * (1 + np.abs(raw)))), "the commands are not the saturated feedback plus trim", state=x, reference=ref, got=u, want=want, raw=raw, **info)
    rec.check(ok and all(lo <= v <= hi for v, (lo, hi) in zip(u, limits)), "a command leaves its actuator's limits", got=u, **info)
    rec.outcome(tuple(-1 if r < lo else 1 if r > hi else 0 for r, (lo, hi) in zip(raw, limits)))
    return u


def feedback(rec, scale, part, parts):
    """Full product of every feedback deviation (below, at, above trim) and throttle references: every saturation combination."""
    c = llc_class()()
    intact(rec, c)
    thr = (-0.5, -0.1395, 0.0, 0.4, 0.8605, 2.0)
    for i, signs in enumerate(itertools.product((-1, 0, 1), repeat=8)):
        if i % parts != part:
            continue
        x = X0.copy()
        for k, s in zip(FB, signs):
            x[k] += s * DEV[k] * scale
        for t in thr if i % 3 == 0 else thr[1::3]:
            judge_control(rec, c, x, np.array([1.5, -0.2, 0.3, t]))
            rec.state(scale, signs, t)
    intact(rec, c)
    rec.sample({"state": x, "throttle": t})


def fine(rec):
    """Differences down to 1e-8 of every state and of the throttle reference, at trim, off trim and at the throttle stops (see grid.small)."""
    c = llc_class()()
    f = cf16()

    def code(v):
        fb, u = c.get_u_deg(np.array([0.0, 0.0, 0.0, v[16]]), np.array(v[:16]))
        return np.concatenate([np.asarray(fb, float), np.asarray(u, float)])

    def ref(v):
        fb, raw, u = f16ref.control(np.array(v[:16]), v[16])
        return np.concatenate([fb, u]), 10.0 + np.abs(np.concatenate([fb, raw]))

    off = X0.copy()
    off[FB] += [0.01, -0.02, 0.03, 0.02, -0.05, 0.04, 0.01, -0.02]
    scales = [0.0 if k not in FB else 0.1 for k in range(16)] + [0.1]
    grid.small(rec, code, ref, [list(x) + [t] for x in (X0, off) for t in (0.0, 0.3, -f16ref.UEQ[0], 1 - f16ref.UEQ[0])], scales)
    for model, v2 in itertools.product(("morelli", "stevens"), (False, True)):

        def loop_code(v):
            xd, u, nz, ps, nyr = f(np.array(v[:16]), np.array(v[16:]), c, f16_model=model, v2_integrators=v2)
            return np.concatenate([np.asarray(xd, float), np.asarray(u, float), [nz, ps, nyr]])

        def loop_ref(v):
            xd, u, nz, ps, nyr, mag = closed(np.array(v[:16]), np.array(v[16:]), model, v2)
            return np.concatenate([xd, u, [nz, ps, nyr]]), np.concatenate([mag + np.abs(xd) + 1.0, 10.0 + np.abs(u), mag[13:16] + 10.0])

        pts = [list(x) + r for x in (X0, off) for r in ([0.0, 0.0, 0.0, 0.3], [1.0, 0.2, -0.1, 0.5])]
        grid.small(rec, loop_code, loop_ref, pts, [10.0] + [0.05] * 8 + [0.0, 0.0, 500.0, 10.0, 0.1, 0.01, 0.1, 1.0, 0.5, 0.5, 0.1], eps=1e-11, sizes=range(1, 8), model=model, v2=v2)


def independence(rec):
    """States that are not fed back and references other than the throttle do not matter; each gain one by one; at the limits."""
    c = llc_class()()
    base = X0.copy()
    base[FB] += [0.01, -0.02, 0.03, 0.02, -0.05, 0.04, 0.01, -0.02]
    for k in range(16):
        for d in (1e-6, 0.01, -0.01, 1.0, -1.0, 1e4):
            x = base.copy()
            x[k] += d
            u = judge_control(rec, c, x, np.array([0.0, 0.0, 0.0, 0.2]), component=k)
            if k not in FB:
                u0 = judge_control(rec, c, base, np.array([0.0, 0.0, 0.0, 0.2]))
                rec.check(bool(np.all(u == u0)), "a state that is not fed back changes the commands", component=k, got=u, want=u0)
            rec.state("component", k, d)
    for ref in itertools.product((-5.0, 0.0, 3.0), repeat=3):
        u = judge_control(rec, c, base, np.array(ref + (0.2, )))
        rec.check(bool(np.all(u == judge_control(rec, c, base, np.array([0.0, 0.0, 0.0, 0.2])))), "a reference other than the throttle changes the commands", reference=ref, got=u)
        rec.state("reference", ref)
    rec.check(c.get_num_integrators() == 3, "the controller does not have three integrators", got=c.get_num_integrators())
    for ref in itertools.product((-1.0, 0.5), (-0.25, 2.0), (0.0, 0.75), (0.0, 1.0)):
        for nz, ps, nyr in itertools.product((-2.0, 0.0, 4.5), (-1.0, 0.3), (-0.5, 0.9)):
            with core.CodeUnderTest():
                got = np.array(c.get_integrator_derivatives(np.array(ref), nz, ps, nyr), float)
            want = np.array([nz - ref[0], ps - ref[1], nyr - ref[2]])
            rec.transition()
            rec.trace()
            rec.check(got.shape == (3, ) and bool(np.all(np.abs(got - want) <= 1e-12)), "the integrator derivatives are not the tracking errors", reference=ref, got=got, want=want)
            rec.state("integrators", ref, nz, ps, nyr)
    for bad in ("new", "", None, 0, "OLD", "old "):
        try:
            llc_class()(gain_str=bad)
            rec.fail("an unknown gain set is accepted", gain=bad)
        except Exception:  # pylint: disable=W0718
            pass
        rec.transition()
    for name in ("newAttribute", "Kp", "gain"):
        for obj in (c, c.ctrlLimits):
            try:
                setattr(obj, name, 1)
                rec.fail("a frozen controller accepts a new attribute", name=name)
            except TypeError:
                pass
            rec.transition()
    rec.sample({"commands": u})


def closed(x, ref, model, v2):
    """Reference closed loop derivative."""
    fb, _, u = f16ref.control(x, float(ref[3]))
    xd, nz, ny, _, _, mag = f16ref.eom(x[:13], u, model)
    if v2:
        ps, nyr = xd[6] * math.cos(xd[1]) + xd[8] * math.sin(xd[1]), ny + xd[8]
    else:
        ps, nyr = fb[4] * math.cos(fb[0]) + fb[5] * math.sin(fb[0]), ny + fb[5]
    full = np.concatenate([xd, [nz - ref[0], ps - ref[1], nyr - ref[2]]])
    return full, np.array([u[0]] + [math.radians(v) for v in u[1:]] + [float(v) for v in ref[:3]]), nz, ps, nyr, np.concatenate([mag, [10 * mag[0], 1 + mag[6] + mag[8], 1 + 10 * mag[8]]])


def judge_loop(rec, f, c, x, ref, model, v2, **info):
    xs, rs = x.copy(), ref.copy()
    kw = {}
    if model is not None:
        kw["f16_model"] = model
    if v2 is not None:
        kw["v2_integrators"] = v2
    with core.CodeUnderTest():
        xd, u, nz, ps, nyr = f(xs, rs, c, **kw)
    wd, wu, wnz, wps, wnyr, mag = closed(x, ref, model or "morelli", bool(v2))
    rec.transition()
    rec.trace()
    xd, u = np.asarray(xd, float), np.asarray(u, float)
    rec.check(bool(np.all(xs == x)) and bool(np.all(rs == ref)), "the closed loop modifies its arguments", state=x, reference=ref, got=[xs, rs])
    if not rec.check(xd.shape == x.shape and u.shape == (7, ), "the closed loop result has the wrong size", got=[xd.shape, u.shape]):
        return None
    bad = np.abs(xd - wd) > 2e-8 * (mag + np.abs(wd) + 1e-3)
    rec.check(not bad.any(), "the closed loop derivative is not airframe plus controller", model=model, v2=v2, state=x, reference=ref, wrong=np.flatnonzero(bad), got=xd, want=wd, **info)
    rec.check(bool(np.all(np.abs(u - wu) <= 1e-9 * (1 + np.abs(wu)))), "the reported commands are not throttle, surface angles in radians and references", state=x, reference=ref, got=u, want=wu, **info)
    tol = 2e-8 * (10 + mag[13:16] + np.abs([wnz, wps, wnyr]))
    rec.check(abs(nz - wnz) <= tol[0] and abs(ps - wps) <= tol[1] and abs(nyr - wnyr) <= tol[2], "the reported loads or rates are wrong", model=model, v2=v2, state=x, got=[nz, ps, nyr], want=[wnz, wps, wnyr], **info)
    return xd, u, nz, ps, nyr


def loop(rec, model, v2, part, parts):
    """Full products of flight conditions, attitudes, feedback deviations and references."""
    f, c = cf16(), llc_class()()
    i = 0
    for vt, alt, power, phi, th in itertools.product((300.0, 502.0, 800.0), (1000.0, 36000.0), (9.0567, 70.0), (0.0, 1.2), (0.0389, -0.4)):
        for da, db, p, q, r in itertools.product((0.0, 0.15, -0.1), (0.0, 0.06), (0.0, -0.5), (0.0, 0.3), (0.0, 0.2)):
            for ints in ((0.0, 0.0, 0.0), (0.4, -0.03, 0.1), (-2.0, 1.0, -1.0), (150.0, -350.0, 2e4)):
                i += 1
                if i % parts != part:
                    continue
                x = np.array([vt, 0.0389 + da, db, phi, th, 0.4, p, q, r, 10.0, -20.0, alt, power, *ints])
                ref = np.array([1.0, 0.1, -0.2, 0.5]) if i % 2 else np.array([0.0, 0.0, 0.0, 0.0])
                r5 = judge_loop(rec, f, c, x, ref, model, v2)
                rec.state(model, v2, i)
        if r5 is not None:
            rec.outcome(r5[0])
    intact(rec, c)
    rec.sample({"model": model, "v2": v2, "state": x, "derivative": r5 and r5[0]})


def interleave(rec, first, depth):
    """All sequences of calls on two controllers, one with tighter limits; every result is the one it has alone, nothing leaks between them."""
    f = cf16()
    xa, xb = X0.copy(), X0 + np.array([10, 0.1, 0.05, 0.3, -0.1, 0.2, 0.1, -0.1, 0.2, 5, 5, 900, 3, 0.5, -0.2, 0.3])
    ra, rb = np.array([0.0, 0.0, 0.0, 0.0]), np.array([2.0, -0.3, 0.1, 0.7])
    tight = [(0.0, 0.5), (-2.0, 1.5), (-1.0, 1.0), (-0.5, 0.25)]
    ops = [("u", "A", xa, ra), ("u", "A", xb, rb), ("u", "B", xb, rb), ("f", "A", "morelli", False), ("f", "A", "stevens", True), ("f", "C", "morelli", True), ("tight", "B"), ("new", "A"), ("i", "A"), ("write", "B")]
    for seq in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first, ) + seq
        cs = {"A": llc_class()(), "B": llc_class()(), "C": llc_class()()}
        lims = {"A": f16ref.LIMITS, "B": f16ref.LIMITS, "C": f16ref.LIMITS}
        for k in seq:
            op = ops[k]
            c = cs[op[1]]
            if op[0] == "u":
                u = judge_control(rec, c, op[2], op[3], limits=lims[op[1]], sequence=seq)
                if u.flags.writeable:
                    u += 100.0
            elif op[0] == "f":
                r = judge_loop(rec, f, c, xb, rb, op[2], op[3], sequence=seq)
                for a in r[:2]:
                    if a.flags.writeable:
                        a += 100.0
            elif op[0] == "tight":
                L = c.ctrlLimits
                (L.ThrottleMin, L.ThrottleMax), (L.ElevatorMinDeg, L.ElevatorMaxDeg), (L.AileronMinDeg, L.AileronMaxDeg), (L.RudderMinDeg, L.RudderMaxDeg) = tight
                lims[op[1]] = tight
                rec.transition()
            elif op[0] == "new":
                cs["A"] = llc_class()()
                lims["A"] = f16ref.LIMITS
                rec.transition()
            elif op[0] == "i":
                got = np.array(c.get_integrator_derivatives(rb, 1.0, 2.0, 3.0), float)
                rec.check(bool(np.all(np.abs(got - (np.array([1.0, 2.0, 3.0]) - rb[:3])) <= 1e-12)), "the integrator derivatives are not the tracking errors", sequence=seq, got=got)
                rec.transition()
            else:  # replace a controller's own gains
                if hasattr(c, "K_lqr"):
                    c.K_lqr = np.zeros((3, 8)) + np.asarray(GOLD["K"])
                rec.transition()
        for n, c in cs.items():
            intact(rec, c, want={**GOLD, "limits": np.array(lims[n], float).ravel()}, sequence=seq)
        rec.trace()
        rec.state(seq)
    rec.outcome(first)


ROOMY = [(-2.0, 3.0), (-50.0, 40.0), (-33.0, 44.0), (-70.0, 55.0)]


def custom_limits(rec, part, parts):
    """Actuator limits of a controller's own: every channel asymmetric, tight or roomy, one side at a time, under every saturation combination."""
    names = [("ThrottleMin", "ThrottleMax"), ("ElevatorMinDeg", "ElevatorMaxDeg"), ("AileronMinDeg", "AileronMaxDeg"), ("RudderMinDeg", "RudderMaxDeg")]
    tight = [(0.1, 0.5), (-2.0, 1.5), (-1.0, 0.75), (-0.5, 0.25)]
    sets = [tight, ROOMY, [(-1e9, 1e9)] * 4]
    for ch in range(4):
        for side in range(2):
            for src in (tight, ROOMY):
                L = [list(v) for v in f16ref.LIMITS]
                L[ch][side] = src[ch][side]
                sets.append([tuple(v) for v in L])
    for n, L in enumerate(sets):
        if n % parts != part:
            continue
        c = llc_class()()
        for (a, b), (lo, hi) in zip(names, L):
            setattr(c.ctrlLimits, a, lo)
            setattr(c.ctrlLimits, b, hi)
        for signs in itertools.product((-1, 0, 1), repeat=4):
            for scale in (0.2, 3.0, 100.0):
                x = X0.copy()
                for k, s in zip((7, 13, 14, 15), signs):
                    x[k] += s * DEV[k] * scale
                for t in (-3.0, 0.2, 4.0):
                    judge_control(rec, c, x, np.array([0.0, 0.1, 0.2, t]), limits=L)
                    rec.state(n, signs, scale, t)
        intact(rec, c, want={**GOLD, "limits": np.array(L, float).ravel()})
        intact(rec, llc_class()())


def rejected(rec):
    """Wrong argument kinds and sizes."""
    f, C = cf16(), llc_class()
    c = C()
    good = X0.copy()
    for what, args, kw in (
        ("a list state", (list(good), np.zeros(4), c), {}), ("no controller", (good, np.zeros(4), None), {}), ("a short reference", (good, np.zeros(3), c), {}),
        ("a long reference", (good, np.zeros(5), c), {}), ("an unknown model", (good, np.zeros(4), c), {"f16_model": "linear"}), ("an empty model", (good, np.zeros(4), c), {"f16_model": ""}),
        ("a controller class", (good, np.zeros(4), C), {}), ("a short state", (good[:12], np.zeros(4), c), {}), ("a state without integrators", (good[:13], np.zeros(4), c), {}),
    ):
        try:
            f(*args, **kw)
            rec.fail("an invalid call is accepted", call=what)
        except Exception:  # pylint: disable=W0718
            pass
        rec.transition()
        rec.trace()
        rec.state(what)
    intact(rec, c)
    rec.outcome(0)


def run(tier):
    th = tier == "thorough"
    sc = [("rejected", {}), ("independence", {}), ("fine", {})]
    sc += [("feedback", dict(scale=s, part=i, parts=8)) for s in ((0.1, 0.5, 1.0, 2.0, 10.0) if th else (0.5, 1.0)) for i in range(8)]
    for model in (None, "morelli", "stevens"):
        for v2 in ((None, False, True) if model else (None, )):
            if not th and v2 is False:
                continue
            sc += [("loop", dict(model=model, v2=v2, part=i, parts=8)) for i in range(8)]
    sc += [("custom_limits", dict(part=i, parts=8)) for i in range(8)]
    sc += [("interleave", dict(first=i, depth=5 if th else 4)) for i in range(10)]
    return core.run_check("C29", sys.modules[__name__], sc, assumptions=["golden data: the controller's published gains, trim and limits"])
