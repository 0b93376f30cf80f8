"""C04: wrapped components come back as the equivalent angle about their center, whatever the center and however many turns away."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, own, zoo

PI = math.pi
NAN = math.nan
CENTERS = [0.0, PI, -PI, 2.5, -7.0, 100.0, NAN, -0.75, NAN]
OFFS = [0.0, 1.0, -2.5, PI / 2, -PI / 2, 3.0, -3.0, PI - 1e-4, -PI + 1e-4, PI, -PI, PI + 2e-9, -PI - 3e-12, PI + 5e-14]
TURNS = [0, 1, -1, 2, -2, 3, -3, 10, -10, 1000, -1000]


def judge(rec, got, raw, centers, tol, **info):
    """got is raw with every wrapped component replaced by its equivalent within pi of its center."""
    for i, c in enumerate(centers):
        t = tol * (1 + abs(raw[i]))
        if math.isnan(c):
            rec.check(abs(got[i] - raw[i]) <= t, "a component without wrap center was changed", component=i, raw=raw[i], got=got[i], **info)
            continue
        rec.check(abs(got[i] - c) <= PI + t, "a wrapped component is further than pi from its center", component=i, center=c, raw=raw[i], got=got[i], **info)
        k = (got[i] - raw[i]) / (2 * PI)
        rec.check(
            abs(k - round(k)) * 2 * PI <= t, "a wrapped component is not the equivalent angle", component=i, center=c, raw=raw[i], got=got[i], turns=k, **info
        )


def grid(rec, rot, method, jax):
    """Models at rest or in uniform motion: all offsets x turns for every center, in every position of the vector."""
    n = len(CENTERS)
    centers = CENTERS[rot:] + CENTERS[:rot]
    dyn, m = lib.lin(np.zeros((n, n)), np.eye(n), wrap=centers, method=method, use_jax=jax)
    combos = list(itertools.product(OFFS, TURNS))
    if jax:
        combos = [c for c in combos if abs(c[1]) <= 10]
    cc = [0.0 if math.isnan(c) else c for c in centers]
    speeds = (0.0, 0.5, -3.0) if not jax else (0.0, -3.0)
    durs = (1.0, 8.0) if not jax else (1.0, )
    for j in range(len(combos)):
        for spread in (False, True):
            x = np.array([cc[i] + combos[(j + (7 * i if spread else 0)) % len(combos)][0] + 2 * PI * combos[(j + (7 * i if spread else 0)) % len(combos)][1] for i in range(n)])
            for s in speeds:
                for T in durs:
                    u = np.full(n, s)
                    got, _ = lib.dstep(dyn, T, x, u)
                    rec.transition()
                    rec.trace()
                    rec.state(rot, x, s, T)
                    rec.outcome(got)
                    judge(rec, got, x + T * u, centers, {"RK45_JAX": 3e-5}.get(method, 3e-6) if jax else 1e-14, x=x, speed=s, T=T)
                    if s == 0.0 and T == 1.0 and not jax:
                        # wrapping a wrapped vector again leaves it alone (up to the seam)
                        again, _ = lib.dstep(dyn, T, got, u)
                        rec.transition()
                        d = np.abs(again - got)
                        rec.check(np.all((d < 1e-9 * (1 + np.abs(x))) | (np.abs(d - 2 * PI) < 1e-9 * (1 + np.abs(x)))), "wrapping is not idempotent", x=x, got=got, again=again)
    rec.sample({"centers": centers, "x": x, "got": got})


def unwrapped(rec, method):
    """Models without wrap centers (none given, or all NaN) return every component unwrapped, and limits are applied to the angle first."""
    for wrap in (None, [NAN, NAN]):
        dyn, _ = lib.lin(np.zeros((2, 2)), np.eye(2), wrap=wrap, method=method)
        for x in itertools.product((0.0, 3.5, -3.5, 10.0, -400.0), repeat=2):
            for u in ((0.0, 0.0), (5.0, -5.0)):
                got, _ = lib.dstep(dyn, 1.0, x, u)
                rec.transition()
                rec.state("none", x, u)
                want = np.array(x) + np.array(u)
                rec.check(zoo.close(got, want, 1e-11, 1e-11), "angles without wrap centers were changed", x=x, u=u, got=got)
    for lo, hi, c in ((-1.0, 2.0, 0.0), (-10.0, 12.0, 0.0), (0.0, 7.0, PI), (-3.0, 3.0, NAN), (95.0, 103.0, 100.0)):
        dyn, _ = lib.lin(np.zeros((2, 2)), np.eye(2), lo=[lo, -np.inf], hi=[hi, np.inf], wrap=[c, c], method=method)
        for a in np.linspace(lo - 2, hi + 2, 17):
            for b in (a, -a, a + 6 * PI):
                got, _ = lib.dstep(dyn, 1.0, [a, b], [0.0, 0.0])
                rec.transition()
                rec.state("lim", a, b, c)
                judge(rec, got, np.array([min(max(a, lo), hi), b]), [c, c], 1e-11, x=[a, b], limits=[lo, hi])


def entity(rec, kind, cfg, method, depth):
    """Histories of an entity: its angles stay within pi of zero and equivalent to the sum of all turns made so far."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    wrapped = [i for i in range(len(m.names)) if not math.isnan(m.wrap[i])]
    acts = [zoo.mid_controls(kind, cfg)[0], m.umax.copy(), m.umin.copy(), zoo.mid_controls(kind, cfg)[1], zoo.mid_controls(kind, cfg)[2]]
    seams = (PI - 1e-3, -PI + 1e-3, PI, -PI, 0.0, 7.0, -40.0)
    durs = (0.05, 1.0, 6.0)
    if core._TIER == "thorough":
        seams += (2 * PI, 3 * PI, -3 * PI, 628.0)
        durs += (0.3, 2.5)
    e = K.make(cfg, None, method)
    todo = []
    for s in zoo.base_states(kind, cfg)[1:]:
        for i in wrapped:
            for a in seams:
                x = np.array(s, float)
                lo, hi = m.lo[i], m.hi[i]
                if lo <= a <= hi:
                    x[i] = a
                    todo.append((x, 0))
    while todo:
        x, d = todo.pop()
        for u in acts:
            for T in durs:
                e.state = x
                zoo.step(e, T, u.copy())
                rec.transition()
                got = np.asarray(e.state, float)
                rec.check(
                    np.all(np.abs(got[wrapped]) <= PI + 1e-6), "an entity's angle is further than pi from zero", before=x, control=u, T=T, got=got
                )
                # turning rates that are constant over the step give the unwrapped angle exactly
                for i in wrapped:
                    raw = total_turn(m, x, u, T, i, method)
                    if raw is None:
                        continue
                    rec.trace()
                    k = (got[i] - raw) / (2 * PI)
                    tol = 2e-6 * (1 + abs(raw)) + (1e-3 * abs(raw - x[i]) if method != "Euler" else 1e-6 * abs(raw - x[i]))
                    rec.check(abs(k - round(k)) * 2 * PI <= tol, "an entity's angle is not equivalent to the angle turned", name=m.names[i], before=x, control=u, T=T, got=got[i], raw=raw)
                    acc = float(np.asarray(getattr(e, m.names[i])))
                    rec.check(abs(acc - got[i]) < 1e-9, "the angle accessor differs from the state", name=m.names[i], value=acc, state=got)
                others = [i for i in range(len(m.names)) if i not in wrapped]
                if method == "Euler":
                    raw = m.clip(x + T * m.limited(x, u))
                    tol = lib.euler_tol(m, x, u, T)
                    rec.check(np.all(np.abs(got - raw)[others] <= tol[others]), "a component that is not an angle was wrapped", before=x, control=u, T=T, got=got, want=raw)
                if rec.state(kind, cfg, method, got) and d + 1 < depth:
                    todo.append((got, d + 1))
                rec.outcome([float(v) for v in got[wrapped]])


def total_turn(m, x, u, T, i, method):
    rate = m.limited(x, u)
    if method == "Euler":
        return float(m.clip(x + T * rate)[i]) if not lib.at_limit(m, x)[i] else None
    n = m.names[i]
    if n == "heading" and "acceleration" in m.ctrl and len(m.ctrl) == 2:
        return float(x[i] + T * u[0])
    if n in ("gamma", "roll"):
        end = x[i] + T * u[m.ctrl.index(n + "_rate")]
        if m.lo[i] + 1e-3 < min(x[i], end) and max(x[i], end) < m.hi[i] - 1e-3:
            return float(end)
    if n == "theta" and u[2] == 0:
        return float(x[i] + T * x[5])
    return None


def discrete(rec, rot, bounds):
    """Models that are no differential equations, with wrapped, bounded and free components side by side: jumps of every size in every position."""
    n = len(CENTERS)
    centers = CENTERS[rot:] + CENTERS[:rot]
    cc = np.array([0.0 if math.isnan(c) else c for c in centers])
    free = np.isnan(centers)
    lo, hi = np.where(free, -3.0, -np.inf), np.where(free, 40.0, np.inf)
    kw = dict(state_min=lo, state_max=hi) if bounds else {}
    combos = list(itertools.product(OFFS, TURNS))
    for j in range(len(combos)):
        jumps = []
        for k in range(3):
            pick = [combos[(j + 7 * i + 31 * k) % len(combos)] for i in range(n)]
            jumps.append(np.array([o + 2 * PI * t for o, t in pick]))
        dyn = own.dynamics(n, jumps=jumps, angle_wrap_centers=np.array(centers), **kw)
        e = own.entity(False, dyn, n, np.zeros(n), start=cc + 0.5)
        for k, jump in enumerate(jumps):
            x = np.asarray(e.state, float)
            e.step(0.5)
            rec.transition()
            raw = x + jump
            if bounds:
                raw = np.clip(raw, lo, hi)
            judge(rec, np.asarray(e.state, float), raw, centers, 1e-11, before=x, jump=jump, bounds=bounds)
            rec.check(not np.any(e.state_dot), "the derivative the model reports was altered", got=e.state_dot)
            rec.state(rot, bounds, j, k)
        rec.trace()
        rec.outcome(e.state)


def run(tier):
    sc = []
    th = tier == "thorough"
    for method, jax in (("Euler", False), ("RK45", False), ("Euler", True), ("RK45_JAX", True)):
        for rot in range(len(CENTERS)):
            if jax and rot % 4 and not th:
                continue
            if method == "RK45" and rot % 3 and not th:
                continue
            sc.append(("grid", dict(rot=rot, method=method, jax=jax)))
    sc += [("discrete", dict(rot=r, bounds=b)) for r in range(len(CENTERS)) for b in (False, True)]
    for method in ("Euler", "RK45"):
        sc.append(("unwrapped", dict(method=method)))
        for kind in ("dubins2d", "dubins3d", "rot2d"):
            for cfg in zoo.KINDS[kind].configs:
                if kind == "dubins3d" and cfg == "custom" and not th:
                    continue
                sc.append(("entity", dict(kind=kind, cfg=cfg, method=method, depth=2 if method == "Euler" or th else 1)))
    sc.sort(key=lambda s: not s[1].get("jax", False))
    return core.run_check("C04", sys.modules[__name__], sc, assumptions=[
        "centers {0,+-pi,2.5,-7,100,-0.75}, offsets incl. the seam, up to 1000 turns; single precision backend up to 10 turns",
    ])
