"""C05: reported state derivatives respect rate limits, never push past a state limit, and are otherwise the model's own."""
import itertools
import sys

import numpy as np

from mc import core, lib, zoo

INF = np.inf
SLIM = [
    ("none", [-INF] * 3, [INF] * 3), ("both", [-1.0, -2.0, 0.5], [2.0, 0.0, 1.5]), ("low", [-1.0, -2.0, 0.5], [INF] * 3), ("high", [-INF] * 3, [2.0, 0.0, 1.5]),
    ("mixed", [-1.0, -INF, -INF], [INF, 0.0, INF]), ("pinched", [1.0, 1.0, 1.0], [1.0, 1.0, 1.0]), ("scalar", -1.0, 1.0), ("scalar low", -1.0, INF),
    ("scalar high", -INF, 1.0),
]
DLIM = [
    ("none", -INF, INF), ("scalar", -0.5, 0.75), ("scalar low", -0.5, INF), ("scalar high", -INF, 0.75), ("per component", [-0.5, -INF, 0.0], [INF, 0.25, 0.75]),
    ("frozen", 0.0, 0.0), ("wide", -1e6, 1e6),
]
RATES = (-2.0, -0.5, -0.25, 0.0, 0.25, 0.75, 3.0)
SLOW = [s * 10.0**-k for k in (2, 4, 5, 6, 7, 8, 9, 12, 15, 300) for s in (1, -1)]


def points(lo, hi):
    pts = {0.125}
    for v in (lo, hi):
        if np.isfinite(v):
            pts |= {v, v - 0.5, v + 0.5, v - 100.0, v + 100.0, np.nextafter(v, INF), np.nextafter(v, -INF)}
    if np.isfinite(lo) and np.isfinite(hi):
        pts.add((lo + hi) / 2)
    return sorted(pts)


def rule(rec, slim, jax):
    """Every state position (below, just below, at, just above, inside, above) x rate x pair of limits; components independent and coupled."""
    _, lo, hi = next(s for s in SLIM if s[0] == slim)
    lo3, hi3 = np.broadcast_to(np.array(lo, float), 3), np.broadcast_to(np.array(hi, float), 3)
    tol = 1e-6 if jax else 1e-12
    for dname, dlo, dhi in DLIM:
        for sysname, A, B in (("ramps", np.zeros((3, 3)), np.eye(3)), ("coupled", np.array([[0, 1, 0], [-1, -0.5, 0.25], [0.5, 0, -1]]), np.eye(3))):
            if jax and sysname == "coupled" and dname != "scalar":
                continue
            dyn, m = lib.lin(A, B, lo=lo, hi=hi, dlo=dlo, dhi=dhi, use_jax=jax)
            per = [list(itertools.product(points(lo3[i], hi3[i]), RATES)) for i in range(3)]
            n = max(len(p) for p in per)
            if jax:
                step = 3
            else:
                step = 1
            for j in range(0, n, step):
                for strides in ((1, 1, 1), (1, 5, 11), (1, 13, 3)):
                    pick = [per[i][(j * strides[i] + 17 * i) % len(per[i])] for i in range(3)]
                    x, want_raw = np.array([p[0] for p in pick]), np.array([p[1] for p in pick])
                    if jax and any(abs(x[i] - lim) < 1e-6 and x[i] != lim for i in range(3) for lim in (lo3[i], hi3[i])):
                        continue  # not distinguishable in single precision
                    u = want_raw - A @ x
                    d0 = A @ x + B @ u
                    want = np.minimum(np.maximum(d0, np.broadcast_to(dlo, 3)), np.broadcast_to(dhi, 3))
                    want = np.where(x <= lo3, np.maximum(want, 0), want)
                    want = np.where(x >= hi3, np.minimum(want, 0), want)
                    for t in (0.0, 3.0):
                        xa, ua = x.copy(), u.copy()
                        got = np.asarray(dyn.compute_state_dot(t, xa, ua), float)
                        rec.transition()
                        rec.check(
                            np.all(np.abs(got - want) <= tol * (1 + np.abs(A) @ np.abs(x) + np.abs(u))), "the reported derivative breaks the rule", state=x, raw=d0,
                            limits=[lo3, hi3], rate_limits=[dlo, dhi], got=got, want=want, system=sysname
                        )
                        rec.check(zoo.identical(xa, x) and zoo.identical(ua, u), "the arguments were modified")
                    rec.trace()
                    rec.state(slim, dname, sysname, x - lo3, x - hi3, u)
                    rec.outcome(got)
    rec.sample({"state": x, "raw": d0, "got": got})


def slow(rec, slim):
    """However slow the motion: nothing is pushed past a limit, and motion back in or along is left as it is, to the last digit."""
    _, lo, hi = next(s for s in SLIM if s[0] == slim)
    lo3, hi3 = np.broadcast_to(np.array(lo, float), 3), np.broadcast_to(np.array(hi, float), 3)
    for dname, dlo, dhi in DLIM:
        dyn, m = lib.lin(np.zeros((3, 3)), np.eye(3), lo=lo, hi=hi, dlo=dlo, dhi=dhi)
        for i in range(3):
            for x0, r, others in itertools.product(points(lo3[i], hi3[i]), SLOW, (0.25, -0.25, 0.0)):
                x, u = np.array([points(lo3[k], hi3[k])[-1] for k in range(3)]), np.full(3, others)
                x[i], u[i] = x0, r
                want = np.minimum(np.maximum(u, np.broadcast_to(dlo, 3)), np.broadcast_to(dhi, 3))
                want = np.where(x <= lo3, np.maximum(want, 0), want)
                want = np.where(x >= hi3, np.minimum(want, 0), want)
                got = np.asarray(dyn.compute_state_dot(0.0, x.copy(), u.copy()), float)
                rec.transition()
                rec.trace()
                rec.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-15 * np.abs(want))), "a slow motion breaks the rule", state=x, raw=u, limits=[lo3, hi3], rate_limits=[dlo, dhi], got=got, want=want)
                rec.state("slow", slim, dname, i, x - lo3, x - hi3, u)
                rec.outcome(got)


def steps(rec, slim, method):
    """The derivative reported with a completed step obeys the rule at the returned state."""
    _, lo, hi = next(s for s in SLIM if s[0] == slim)
    lo3, hi3 = np.broadcast_to(np.array(lo, float), 3), np.broadcast_to(np.array(hi, float), 3)
    jax = method == "RK45_JAX"
    tol = 1e-5 if jax else 1e-9
    dl = DLIM if not jax else DLIM[:1] + DLIM[4:5]
    for dname, dlo, dhi in dl:
        for sysname, A, B in (("ramps", np.zeros((3, 3)), np.eye(3)), ("coupled", np.array([[0, 1, 0], [-1, -0.5, 0.25], [0.5, 0, -1]]), np.eye(3))):
            dyn, m = lib.lin(A, B, lo=lo, hi=hi, dlo=dlo, dhi=dhi, method=method, use_jax=jax)
            per = [points(lo3[i], hi3[i]) for i in range(3)]
            n = max(len(p) for p in per)
            for j in range(n):
                for shift in range(3):
                    x = np.array([per[i][(j + shift * 2 * i) % len(per[i])] for i in range(3)])
                    for us in ((0.3, -0.4, 0.6), (-3.0, 3.0, -3.0), (3.0, -3.0, 3.0), (0.0, 0.0, 0.0)):
                        u = np.array(us)
                        for T in ((0.37, 7.3) if core._TIER == "thorough" or method == "Euler" else (0.37, )):
                            nx, nd = lib.dstep(dyn, T, x, u)
                            rec.transition()
                            want = m.limited(nx, u)
                            near = np.zeros(3, bool)
                            for lim in (lo3, hi3):
                                fin = np.isfinite(lim)
                                dd = np.abs(nx - np.where(fin, lim, 1e300))
                                near |= (dd > 0) & (dd < (1e-9 if not jax else 1e-5))
                            rec.check(
                                np.all((np.abs(nd - want) <= tol * (1 + np.abs(A) @ np.abs(nx) + np.abs(u))) | near),
                                "the derivative reported with a step breaks the rule at the returned state", before=x, control=u, T=T, state=nx, got=nd, want=want,
                                system=sysname, limits=[lo3, hi3], rate_limits=[dlo, dhi]
                            )
                            rec.trace()
                            rec.state(slim, dname, sysname, x, u, T)
                            rec.outcome(nx, nd)


def at_limits(kind, cfg, m):
    base = [np.array(s, float) for s in zoo.base_states(kind, cfg)[1:]]
    lim = [i for i in range(len(base[0])) if np.isfinite(m.lo[i]) or np.isfinite(m.hi[i])]
    out = list(base)
    for b in base:
        for combo in itertools.product((None, "lo", "hi", "below", "above"), repeat=len(lim)):
            s = b.copy()
            for i, c in zip(lim, combo):
                w = m.hi[i] - m.lo[i]
                if c:
                    s[i] = {"lo": m.lo[i], "hi": m.hi[i], "below": m.lo[i] - 0.4 * w, "above": m.hi[i] + 0.4 * w}[c]
                    if m.names[i] == "v" and s[i] == 0:
                        s[i] = -7.0
            out.append(s)
    return out


def entity(rec, kind, cfg):
    """Entities: derivative of the dynamics at states inside, at and beyond the limits, for extreme and intermediate commands."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg)
    acts = [np.array(a, float) for a in zoo.corner_controls(kind, cfg)] + zoo.mid_controls(kind, cfg)
    # commands past the actuator limits reach a dynamics model that is used directly
    acts += [3 * m.umax, 3 * m.umin]
    for x in at_limits(kind, cfg, m):
        near = lib.at_limit(m, x, 1e-6)
        exact = [v == np.float32(v) for v in np.where(np.isfinite(m.hi), m.hi, 0)]
        for u in acts:
            got = np.asarray(e.dynamics.compute_state_dot(0.0, x.copy(), u.copy()), float)
            rec.transition()
            rec.trace()
            d0 = np.minimum(np.maximum(m.f(x, u), m.dlo), m.dhi)
            want = m.limited(x, u)
            tol = 2e-6 * m.fmag(x, u) + 1e-9 + m.slack(x, u)
            ok = np.abs(got - want) <= tol
            fuzzy = near & ~np.array(exact) & (np.abs(got - d0) <= tol)
            rec.check(bool(np.all(ok | fuzzy)), "an entity's derivative breaks the rule", state=x, control=u, got=got, want=want, raw=d0)
            rec.state(kind, cfg, x, u)
            rec.outcome(got)


def entity_steps(rec, kind, cfg, method):
    """Histories: the derivative stored with each step obeys the rule at the state it leaves the entity in."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    e = K.make(cfg, None, method)
    acts = [m.umin, m.umax] + zoo.mid_controls(kind, cfg)
    durs = (0.137, 2.7) if core._TIER == "quick" else (0.0137, 0.137, 2.7, 31.3)
    starts = at_limits(kind, cfg, m)
    if method == "RK45" and core._TIER == "quick":
        starts = starts[:: max(1, len(starts) // 24)]
    elif kind != "dubins2d":
        starts = starts[:: 2 if core._TIER == "thorough" else 5]
    if kind == "sixdof" and core._TIER == "thorough":
        starts = starts[::3] if method == "Euler" else starts[::12]
        durs = durs[:3]
    for x in starts:
        frontier = [np.array(x, float)]
        for depth in range(2 if core._TIER == "thorough" or method == "Euler" else 1):
            nxt = []
            for s in frontier:
                for u in acts:
                    for T in durs:
                        e.state = s
                        zoo.step(e, T, u.copy())
                        rec.transition()
                        rec.trace()
                        nx, nd = np.asarray(e.state, float), np.asarray(e.state_dot, float)
                        want = m.limited(nx, u)
                        tol = 3e-6 * m.fmag(nx, u) + 1e-9 + m.slack(nx, u)
                        if not np.all(np.isfinite(nx)) or np.abs(nx).max() > 1e12:
                            continue
                        landed = np.zeros(len(nx), bool)  # unlimited motion that happens to end at a limit: either side is right
                        end = s + T * np.clip(m.f(s, u), m.dlo, m.dhi)
                        for lim in (m.lo, m.hi):
                            fin = np.isfinite(lim)
                            landed |= np.abs(end - np.where(fin, lim, 1e300)) <= 1e-5 * (1 + np.abs(np.where(fin, lim, 0)))
                        soft = lib.at_limit(m, nx, 1e-6)
                        ok = (np.abs(nd - want) <= tol)
                        bad = ~ok & ~(landed & soft)
                        # clipped components sit exactly at the stored limit: outward motion must be blocked there
                        for i in np.nonzero(bad & soft)[0]:
                            up = abs(nx[i] - m.hi[i]) < abs(nx[i] - m.lo[i])
                            d0 = min(max(m.f(nx, u)[i], m.dlo[i]), m.dhi[i])
                            blocked = min(d0, 0.0) if up else max(d0, 0.0)
                            bad[i] = abs(nd[i] - blocked) > tol[i]
                        bad &= ~(lib.wrapped_limit(m, nx) & (nd == 0))
                        rec.check(not bad.any(), "the derivative stored with a step breaks the rule at the entity's state", before=s, control=u, T=T, state=nx, got=nd, want=want)
                        if rec.state(kind, cfg, method, nx, nd):
                            nxt.append(nx)
                        rec.outcome(nd)
            frontier = nxt[::3] if core._TIER == "quick" else nxt


def run(tier):
    sc = []
    for s in SLIM:
        sc.append(("rule", dict(slim=s[0], jax=False)))
        sc.append(("slow", dict(slim=s[0])))
        if tier == "thorough" or s[0] in ("both", "mixed", "scalar"):
            sc.append(("rule", dict(slim=s[0], jax=True)))
        for method in ("Euler", "RK45") + (("RK45_JAX", ) if tier == "thorough" or s[0] in ("both", "scalar high") else ()):
            sc.append(("steps", dict(slim=s[0], method=method)))
    for k in zoo.KINDS:
        if k == "sun":
            continue
        for c in zoo.KINDS[k].configs:
            sc.append(("entity", dict(kind=k, cfg=c)))
            for method in ("Euler", "RK45"):
                sc.append(("entity_steps", dict(kind=k, cfg=c, method=method)))
    sc.sort(key=lambda s: (not s[1].get("jax", False), s[1].get("method") != "RK45_JAX", s[1].get("kind") != "sixdof"))
    return core.run_check("C05", sys.modules[__name__], sc, assumptions=[
        "rate limits that exclude zero are left out (the two halves of the rule contradict each other there)",
    ])
