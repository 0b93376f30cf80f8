"""C30: F-16 trim constraints and trim cost for all four flight conditions; published trim points."""
import itertools
import math
import sys
import warnings

import numpy as np

from mc import core, f16ref
from mc.checks.c26 import low

BASE = [502.0, 0.12, 0.03, 0.2, 0.15, 0.4, 0.05, -0.04, 0.06, 10.0, 20.0, 4000.0, 33.0]
UB = [0.3, -2.0, 1.0, -1.5]


def constrained(x, u, gam, rr, pr, tr, phi, td, orient):
    """State after the condition's constraints."""
    x = list(x)
    x[12] = f16ref.tgear(u[0])
    if orient in (1, 2, 4):
        x[3] = phi
        x[4] = x[1] + (gam if orient == 2 else 0.0)
        x[6:9] = [rr, td if orient == 4 else pr, 0.0]
    else:
        th, ph = x[4], x[3]
        x[6:9] = [-tr * math.sin(th), tr * math.cos(th) * math.sin(ph), tr * math.cos(th) * math.cos(ph)]
    return x


def cost(x, xd, singam, tr, td, orient):
    sq = lambda *k: sum(xd[i]**2 for i in k)  # noqa: E731
    if orient == 1:
        r = 100.0 * sq(0, 1, 2, 6, 7, 8)
    elif orient == 2:
        r = 500.0 * (xd[11] - x[0] * singam)**2 + sq(0) + 100.0 * sq(1, 2) + 10.0 * sq(6, 7, 8)
    elif orient == 3:
        r = sq(0) + 100.0 * sq(1, 2, 11) + 10.0 * sq(6, 7, 8) + 500.0 * (xd[5] - tr)**2
    else:
        r = 500.0 * (xd[4] - td)**2 + sq(0) + 100.0 * sq(1, 2) + 10.0 * sq(6, 7, 8)
    return r, (math.sqrt(r) if r < 1.0 else r)


def const_of(gam, rr, pr, tr, phi, td, coord, stab, orient):
    return [gam, math.sin(gam), rr, pr, tr, phi, math.cos(phi), math.sin(phi), td, coord, stab, orient]


def params(full):
    a = [(-0.2, 0.0, 0.15), (0.0, 0.3), (0.0, -0.1), (0.0, 0.25, -0.2), (0.0, 0.5, -0.7), (0.0, 0.2)]
    if full:
        a = [(-0.2, 0.0, 0.15), (-0.4, 0.0, 0.3), (0.2, 0.0, -0.1), (0.0, 0.25, -0.2), (0.0, 0.5, -0.7, 1.3), (0.0, 0.2, -0.15)]
    return a


def constraints(rec, orient):
    """Every parameter combination: exactly the documented states are set."""
    f = low("conf16")
    for (gam, rr, pr, tr, phi, td), al, ph, th, thr in itertools.product(itertools.product(*params(True)), (-0.1, 0.3), (0.0, 0.9), (0.0, -0.6), (0.0, 0.5, 0.8)):
        x = np.array(BASE)
        x[1], x[3], x[4] = al, ph, th
        u = np.array(UB)
        u[0] = thr
        want = np.array(constrained(x, u, gam, rr, pr, tr, phi, td, orient))
        for coord, stab in ((0, 0), (1, 1)) if td == 0 else ((0, 0), ):
            xs, us = x.copy(), u.copy()
            c = const_of(gam, rr, pr, tr, phi, td, coord, stab, orient)
            cc = list(c)
            with core.CodeUnderTest():
                rx, ru = f(xs, us, c)
            rec.transition()
            rec.trace()
            rx = np.asarray(rx, float)
            bad = np.abs(rx - want) > 1e-12 * (1 + np.abs(want))
            rec.check(not bad.any(), "the constraints do not set exactly the documented states", orient=orient, parameters=c, state=x, throttle=thr, wrong=np.flatnonzero(bad), got=rx, want=want)
            rec.check(bool(np.all(np.asarray(ru, float) == u)) and bool(np.all(us == u)), "the constraints modify the control", got=ru, want=u)
            rec.check(c == cc, "the constraints modify their parameters", got=c, want=cc)
        rec.state(orient, gam, rr, pr, tr, phi, td, al, ph, th, thr)
        rec.outcome(rx)
    rec.sample({"orient": orient, "parameters": c, "state": rx})


def trimcost(rec, orient, length, model, full, part, parts):
    """Every optimisation vector of the grid x parameters: the cost, and the state and control it was taken at."""
    f = low("clf16")
    if length == 3:
        svals = list(itertools.product((0.05, 0.1395, 0.8), (-6.0, -0.7496, 3.0), (-0.05, 0.0369, 0.2)))
    else:
        svals = list(itertools.product((0.1395, 0.8), (-6.0, -0.7496), (0.0, 2.0), (0.0, -3.0), (0.0369, 0.2), (0.0, 0.8), (0.0369, 0.3)))
    pv = list(itertools.product(*params(full)))
    for i, ((gam, rr, pr, tr, phi, td), s) in enumerate(itertools.product(pv, svals)):
        if i % parts != part:
            continue
        x, u = np.array(BASE), np.array(UB)
        if i % 2:
            x[2], x[5], x[11] = 0.0, 0.0, 30000.0
        wx, wu = x.copy(), u.copy()
        if length == 3:
            wu[0], wu[1], wx[1] = s
        else:
            wu[:4] = s[:4]
            wx[1], wx[3], wx[4] = s[4:]
        wx = np.array(constrained(wx, wu, gam, rr, pr, tr, phi, td, orient))
        kw = {}
        m = "stevens"
        if model is not None:
            kw["model"] = m = model
        adj = [None, True, False][i % 3]
        if adj is not None:
            kw["adjust_cy"] = adj
        xd, _, _, _, _, mag = f16ref.eom(wx, wu, m)
        raw, want = cost(wx, xd, math.sin(gam), tr, td, orient)
        c = const_of(gam, rr, pr, tr, phi, td, 0, 0, orient)
        ss = np.array(s)
        with core.CodeUnderTest():
            got = float(f(ss, x, u, c, **kw))
        rec.transition()
        rec.trace()
        slack = 1e-7 * (1 + want) + 1e-6 * (raw < 1) * 0 + 1e-8 * mag[0]
        if abs(raw - 1.0) > 1e-6:
            rec.check(abs(got - want) <= slack, "the trim cost is not the weighted sum of squared residuals (square rooted below one)", orient=orient, model=m, vector=s, parameters=c, got=got, want=want, sum=raw)
        rec.check(bool(np.all(np.abs(x - wx) <= 1e-12 * (1 + np.abs(wx)))) and bool(np.all(u == wu)), "the state and control are not left at the constrained point", orient=orient, vector=s, got=[x, u], want=[wx, wu])
        rec.check(bool(np.all(ss == np.array(s))), "the optimisation vector is modified", vector=s, got=ss)
        rec.state(orient, length, model, i)
        rec.outcome(raw < 1, round(want, 3))
        rec.note("costs below one", int(raw < 1))
    rec.sample({"orient": orient, "vector": s, "cost": got})


def published(rec):
    """Published trim points have near zero derivatives (table model), from either side of every coordinate the residual grows; costs there are small."""
    sub, clf = low("subf16_model"), low("clf16")
    pts = {
        "nominal": (502.0, 0.0, 0.1385, -0.7588, 0.03691),
        "controller": (502.0, 1000.0, 0.1395, -0.7496, 0.0389),
    }
    for name, (vt, alt, thr, el, al) in pts.items():
        for psi, pn, pe in ((0.0, 0.0, 0.0), (2.0, 1e5, -1e5), (-3.0, 5.0, 5.0)):
            x = np.array([vt, al, 0, 0, al, psi, 0, 0, 0, pn, pe, alt, f16ref.tgear(thr)])
            u = np.array([thr, el, 0.0, 0.0])
            with core.CodeUnderTest():
                xd, nz, ny, _, _ = sub(x.copy(), u.copy(), "stevens")
            xd = np.asarray(xd, float)
            rec.transition()
            rec.trace()
            rec.check(bool(np.all(np.abs(np.delete(xd, (9, 10))) <= np.array([5e-3, 5e-4, 1e-9, 1e-9, 1e-9, 1e-9, 1e-9, 5e-4, 1e-9, 1e-6, 1e-9]))), "a published trim point is not an equilibrium", point=name, got=xd)
            rec.check(abs(nz) <= 0.01 and abs(ny) <= 1e-9, "a published trim point is not at one g", point=name, got=[nz, ny])
            for orient, par in ((1, {}), (2, {}), (3, {}), (4, {})):
                for s in ((thr, el, al), (thr, el, 0.0, 0.0, al, 0.0, al)):
                    xs, us = x.copy(), u.copy()
                    with core.CodeUnderTest():
                        r0 = float(clf(np.array(s), xs, us, const_of(0, 0, 0, 0, 0, 0, 0, 0, orient)))
                    rec.transition()
                    rec.check(0 <= r0 <= 0.05, "the trim cost of a published trim point is not small", point=name, orient=orient, got=r0)
                    for k, d in ((0, 0.05), (0, -0.05), (1, 0.5), (1, -0.5), (len(s) - 3 if len(s) > 3 else 2, 0.01), (len(s) - 3 if len(s) > 3 else 2, -0.01)):
                        t = list(s)
                        t[k] += d
                        if len(t) > 3 and k == 4:
                            t[6] += d
                        with core.CodeUnderTest():
                            r1 = float(clf(np.array(t), x.copy(), u.copy(), const_of(0, 0, 0, 0, 0, 0, 0, 0, orient)))
                        rec.transition()
                        rec.check(r1 > r0, "moving away from a published trim point lowers the cost", point=name, orient=orient, coordinate=k, by=d, at=r0, moved=r1)
            rec.state(name, psi)
            rec.outcome(name, r0)
    # the largest residual grows smoothly: holding the trim for a while stays there
    for name, (vt, alt, thr, el, al) in pts.items():
        x = np.array([vt, al, 0, 0, al, 0, 0, 0, 0, 0, 0, alt, f16ref.tgear(thr)])
        u = np.array([thr, el, 0.0, 0.0])
        x0 = x.copy()
        for _ in range(100):
            with core.CodeUnderTest():
                k1 = np.asarray(sub(x.copy(), u.copy(), "stevens")[0], float)
                k2 = np.asarray(sub(x + 0.005 * k1, u.copy(), "stevens")[0], float)
            x = x + 0.01 * k2
            rec.transition(2)
        d = np.abs(np.delete(x - x0, (9, 10)))
        rec.check(bool(np.all(d <= np.array([0.05, 1e-3, 1e-5, 1e-5, 1e-3, 1e-5, 1e-5, 1e-3, 1e-5, 1.0, 1e-6]))), "holding a published trim point for a second leaves it", point=name, moved=d)
        rec.state(name, "held")
    rec.sample({"point": name, "moved in a second": d})


def nearly(rec, orient, model, vt, alt, gam, full):
    """Approaching an exact trim (of the reference equations) along every coordinate: the cost shrinks with the residuals, down to rounding."""
    from scipy.optimize import fsolve

    f = low("clf16")
    c = const_of(gam, 0, 0, 0, 0, 0, 0, 0, orient)

    def point(s):
        x = [vt, s[2], 0, 0, s[2] + gam, 0, 0, 0, 0, 0, 0, alt, 0]
        u = [s[0], s[1], 0.0, 0.0]
        return constrained(x, u, gam, 0, 0, 0, 0, 0, orient), u

    def residuals(s):
        x, u = point(s)
        xd = f16ref.eom(x, u, model)[0]
        return [xd[0], 100 * xd[1], 100 * xd[7]]

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s0 = fsolve(residuals, [0.2, -1.5, 0.05], xtol=1e-14)
    if max(map(abs, residuals(s0))) > 1e-9:
        raise RuntimeError("the reference equations have no trim here")
    last = None
    for k in range(3):
        for side in (1.0, -1.0):
            for e in np.arange(1, 13, 0.25 if full else 0.5):
                s = list(s0)
                s[k] += side * 10.0**-e
                x, u = point(s)
                xd, _, _, _, _, _ = f16ref.eom(x, u, model)
                want = cost(x, xd, math.sin(gam), 0.0, 0.0, orient)[1]
                xs = np.array([vt, 0, 0, 0, s[2] + gam, 0, 0, 0, 0, 0, 0, alt, 0], float)
                for v in (s, (s[0], s[1], 0.0, 0.0, s[2], 0.0, s[2] + gam)):
                    with core.CodeUnderTest():
                        got = float(f(np.array(v), xs.copy(), np.zeros(4), list(c), model=model))
                    rec.transition()
                    rec.trace()
                    rec.check(abs(got - want) <= 1e-6 * want + 1e-9, "the trim cost near a trim is not that of its residuals", orient=orient, model=model, vector=v, coordinate=k, distance=side * 10.0**-e, got=got, want=want)
                rec.state(orient, model, vt, alt, gam, k, side, e)
                rec.outcome(round(math.log10(want + 1e-12)))
                last = got
    rec.sample({"trim": s0, "cost nearby": last})


def order(rec, depth):
    """All call sequences over conditions on one shared state and control, and on fresh ones: each call's effect is the reference's."""
    f, g = low("clf16"), low("conf16")
    ops = [("cost", o, s) for o in (1, 2, 3, 4) for s in ((0.2, -1.0, 0.05), (0.6, -4.0, 1.0, -2.0, 0.1, 0.3, 0.2))] + [("con", o, None) for o in (1, 2, 3, 4)]
    par = (0.1, 0.05, -0.06, 0.2, 0.3, 0.15)
    for seq in itertools.product(range(len(ops)), repeat=depth):
        x, u = np.array(BASE), np.array(UB)
        wx, wu = x.copy(), u.copy()
        for k in seq:
            kind, o, s = ops[k]
            gam, rr, pr, tr, phi, td = par
            c = const_of(*par, 0, 0, o)
            if s is not None:
                if len(s) == 3:
                    wu[0], wu[1], wx[1] = s
                else:
                    wu[:4] = s[:4]
                    wx[1], wx[3], wx[4] = s[4:]
            wx = np.array(constrained(wx, wu, gam, rr, pr, tr, phi, td, o))
            with core.CodeUnderTest():
                if kind == "cost":
                    got = float(f(np.array(s), x, u, c))
                    want = cost(wx, f16ref.eom(wx, wu, "stevens")[0], math.sin(gam), tr, td, o)[1]
                    rec.check(abs(got - want) <= 1e-6 * (1 + want), "the trim cost depends on earlier calls", sequence=seq, got=got, want=want)
                else:
                    x, u = g(x, u, c)
            rec.transition()
            rec.check(bool(np.all(np.abs(x - wx) <= 1e-12 * (1 + np.abs(wx)))) and bool(np.all(u == wu)), "the constrained point depends on earlier calls", sequence=seq, got=[x, u], want=[wx, wu])
        rec.trace()
        rec.state(seq)
    rec.outcome(depth)


def run(tier):
    th = tier == "thorough"
    sc = [("published", {}), ("order", dict(depth=3 if th else 2))] + [("constraints", dict(orient=o)) for o in (1, 2, 3, 4)]
    for o, gams in ((1, (0.0, )), (2, (0.0, 0.1, -0.05)), (3, (0.0, )), (4, (0.0, ))):
        for model in ("stevens", "morelli"):
            for vt, alt in ((502.0, 0.0), (600.0, 10000.0)) + (((540.0, 3000.0), (700.0, 20000.0), (800.0, 36000.0)) if th else ()):
                sc += [("nearly", dict(orient=o, model=model, vt=vt, alt=alt, gam=g, full=th)) for g in gams]
    for o in (1, 2, 3, 4):
        for n in (3, 7):
            for model in (None, "stevens", "morelli"):
                if model == "stevens" and not th:
                    continue
                parts = 16 if th else 2
                sc += [("trimcost", dict(orient=o, length=n, model=model, full=th, part=i, parts=parts)) for i in range(parts)]
    return core.run_check("C30", sys.modules[__name__], sc, assumptions=["golden data: Stevens and Lewis constants and nominal trim"])
