"""C03: limited states never leave their limits after a step; components strictly inside are not altered by the limiting."""
import itertools
import sys

import numpy as np

from mc import core, lib, own, zoo

INF = np.inf


def judge(rec, m, e, x, u, T, method, hist):
    got = np.asarray(e.state, float)
    finite = bool(np.all(np.isfinite(got)))
    if not finite:
        rec.note("non finite states")
        return got, False
    rec.check(lib.in_limits(m, got), "a state component is outside its limits after a step", state=got, lo=m.lo, hi=m.hi, before=x, control=u, T=T, history=hist)
    if method == "Euler":
        rec.check(
            lib.euler_ok(m, x, u, T, got), "the limited step is not the Euler update with limiting and wrapping", before=x, control=u, T=T, got=got,
            want=lib.euler_expect(m, np.asarray(x, float), u, T), history=hist
        )
        rec.trace()
    return got, True


def accessors(rec, m, e, got, hist):
    for i, n in enumerate(m.names):
        if np.isfinite(m.lo[i]) or np.isfinite(m.hi[i]):
            v = float(np.asarray(getattr(e, n)))
            rec.check(
                m.lo[i] - 2e-7 * (abs(m.lo[i]) + 1) <= v <= m.hi[i] + 2e-7 * (abs(m.hi[i]) + 1), "accessor of a limited state is outside its limits",
                name=n, value=v, history=hist
            )


def starts(kind, cfg, m):
    out = [np.array(s, float) for s in zoo.base_states(kind, cfg)[:2]]
    base = out[1]
    lim = [i for i in range(len(base)) if np.isfinite(m.lo[i]) or np.isfinite(m.hi[i])]
    for i in lim:
        for v in (m.lo[i], m.hi[i], m.lo[i] - 0.3 * (m.hi[i] - m.lo[i]) , m.hi[i] + 0.3 * (m.hi[i] - m.lo[i])):
            if m.names[i] == "v" and v == 0:
                continue
            s = base.copy()
            s[i] = v
            out.append(s)
    far = base.copy()
    for i in lim:
        far[i] = m.hi[i] + 3 * (m.hi[i] - m.lo[i])
    out.append(far)
    low = base.copy()
    for i in lim:
        low[i] = m.lo[i] - 3 * (m.hi[i] - m.lo[i])
    out.append(low)
    return out


def history(rec, kind, cfg, method, depth, durations, full, part):
    """All operation sequences (extreme command x duration) up to the depth, from states inside, at and outside the limits."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    acts = zoo.corner_controls(kind, cfg) if full else [zoo.mid_controls(kind, cfg)[0], m.umin.copy(), m.umax.copy(), zoo.mid_controls(kind, cfg)[1], zoo.mid_controls(kind, cfg)[2]]
    ops = [(a, T) for T in durations for a in acts]
    e = K.make(cfg, None, method)
    seen = set()
    frontier = [(s, ()) for k, s in enumerate(starts(kind, cfg, m)) if k % part[1] == part[0]]
    for level in range(depth):
        nxt = []
        for x, hist in frontier:
            for u, T in ops:
                e.state = x
                with core.time_limit(60, "step"):
                    zoo.step(e, T, u.copy())
                rec.transition()
                h = hist + ((T, *[float(v) for v in u]), )
                got, ok = judge(rec, m, e, x, u, T, method, h)
                if not ok:
                    continue
                if rec.state(kind, cfg, method, got):
                    accessors(rec, m, e, got, h)
                    nxt.append((got, h))
                    rec.outcome([float(v) for v in np.where(lib.at_limit(m, got), 1, 0)], got)
        rec.note(f"states at depth {level + 1}", len(nxt))
        frontier = nxt
    if frontier:
        rec.sample({"history": frontier[-1][1], "state": frontier[-1][0]})


def constructed(rec, kind, cfg, method):
    """Entities built outside their limits come inside with the first step, whatever its length."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    for s in starts(kind, cfg, m):
        kw = K.init_kwargs(s[[m.names.index(n) for n in K.ctor_names]] if set(K.ctor_names) <= set(m.names) else s)
        for T in (1e-6, 0.1, 1.0, 5.0):
            for u in (np.zeros(len(m.ctrl)), m.umin, m.umax):
                e = K.make(cfg, None, method, **kw)
                x = np.asarray(e.state, float)
                zoo.step(e, T, u.copy())
                rec.transition()
                judge(rec, m, e, x, u, T, method, (("built", [float(v) for v in x]), T, [float(v) for v in u]))
                rec.state(kind, cfg, x, T, u)
        if kind == "dubins2d":
            e = K.make(cfg, None, method, **kw)
            e.v = s[3]
            zoo.step(e, 0.5)
            rec.transition()
            rec.check(lib.in_limits(m, np.asarray(e.state, float)), "speed set through its setter leaves the limits after a step", v=s[3], state=e.state)


LIMITS = [
    ("scalar both", -2.0, 3.0),
    ("scalar low", -2.0, INF),
    ("scalar high", -INF, 3.0),
    ("per component", [-1.0, -INF, -0.5], [2.0, 1.5, INF]),
    ("first only", [-1.0, -INF, -INF], [2.0, INF, INF]),
    ("last only", [-INF, -INF, -4.0], [INF, INF, -1.0]),
    ("pinched", [0.5, -1.0, -1.0], [0.5, 1.0, 1.0]),
]


def custom(rec, name, lo, hi, method, jax):
    """User models with user supplied bounds: independent ramps and a coupled system, every corner of a state and command grid."""
    tol = 1e-5 if jax else 1e-9
    for sysname, A, B in (
        ("ramps", np.zeros((3, 3)), np.eye(3)),
        ("coupled", [[0, 1, 0], [-1, -0.5, 0], [0, 0.5, -0.25]], [[0, 0, 0], [1, 0, 0], [0, 1, 1]]),
    ):
        dyn, m = lib.lin(A, B, lo=lo, hi=hi, method=method, use_jax=jax)
        levels = (-6.0, -1.0, 0.25, 3.0, 7.0)
        cmds = list(itertools.product((-1.0, 0.0, 2.0), repeat=3))
        durs = (0.0, 0.125, 1.0, 16.0) if not jax else (0.125, 4.0)
        if method == "RK45":
            cmds = [c for c in cmds if c.count(0.0) != 1] if core._TIER == "thorough" else cmds[::4] + [(-1.0, -1.0, 2.0)]
        if jax:
            cmds = cmds[::5]
        pts = list(itertools.product(levels, repeat=3))
        if method != "Euler":
            pts = [p for k, p in enumerate(pts) if k % ((2 if core._TIER == "thorough" else 5) if not jax else 25) == 0]
        for x in pts:
            for u in cmds:
                for T in durs:
                    x0 = np.array(x)
                    nx, _ = lib.dstep(dyn, T, x0, u)
                    rec.transition()
                    rec.check(
                        np.all(nx >= m.lo - tol) and np.all(nx <= m.hi + tol), "a bounded component is outside its bounds after a step", bounds=name, before=x,
                        control=u, T=T, got=nx, system=sysname
                    )
                    rec.state(sysname, name, x, u, T)
                    rec.outcome(nx)
                    if sysname == "ramps":
                        # decoupled: each component is its own clipped ramp, whatever the limiting does to the others
                        rec.trace()
                        for i in range(3):
                            lo_i, hi_i = m.lo[i], m.hi[i]
                            d = u[i]
                            if (x[i] <= lo_i and d < 0) or (x[i] >= hi_i and d > 0):
                                d = 0
                            end = x[i] + T * d
                            # an adaptive step that first meets a limit inside is C06's subject
                            if method == "Euler" or d == 0 or (lo_i + 1e-3 < min(x[i], end) and max(x[i], end) < hi_i - 1e-3):
                                want = min(max(end, lo_i), hi_i)
                                rec.check(
                                    abs(nx[i] - want) <= tol * (1 + abs(want)), "an independent component is not its own clipped ramp", component=i,
                                    bounds=name, before=x, control=u, T=T, got=nx, want=want
                                )


def discrete(rec, name, lo, hi, given, entity, depth, method):
    """Models that are no differential equations, and limits given on one side only: every sequence of jumps ends in the clipped sum of the last jump and the state before it."""
    jumps = [np.array(j) for j in ((0.0, 0.0, 0.0), (5.0, -5.0, 0.5), (-9.0, 0.25, 9.0), (1e6, 1e6, -1e6), (-0.25, 3.0, -0.75))]
    starts_ = [np.array(s) for s in ((0.5, 0.5, -2.0), (-6.0, 8.0, 3.0), (2.0, -1.0, -0.5))]
    kw = {n: v if np.isscalar(v) else np.array(v) for n, v in (("state_min", lo), ("state_max", hi)) if n in given}
    lo_ = np.broadcast_to(np.asarray(lo if "state_min" in given else -INF, float), (3, ))
    hi_ = np.broadcast_to(np.asarray(hi if "state_max" in given else INF, float), (3, ))
    for hist in itertools.product(range(len(jumps)), repeat=depth):
        for x0 in starts_:
            dyn = own.dynamics(3, jumps=[jumps[j] for j in hist], **kw)
            e = own.entity(False, dyn, 3, np.zeros(3), start=x0) if entity else None
            x = x0
            for n, j in enumerate(hist):
                want = np.clip(x + jumps[j], lo_, hi_)
                u = np.array([1.0, -2.0, 3.0]) * (n + 1)
                if entity:
                    e.step(0.5, u)
                    got, dot = e.state, e.state_dot
                else:
                    got, dot = dyn.step(0.5, x.copy(), u)
                rec.transition()
                rec.check(zoo.same(got, want), "a bounded component is outside its bounds after a step" if not np.all((got >= lo_) & (got <= hi_)) else "a component within its bounds was altered", bounds=name, given=given, before=x, jump=jumps[j], got=got, want=want)
                rec.check(zoo.same(dot, u), "the derivative the model reports was altered", got=dot, want=u)
                rec.check(len(dyn.calls) == n + 1 and zoo.same(dyn.calls[-1][1], x), "the model is not stepped once from the state before the step", before=x, calls=len(dyn.calls))
                x = np.array(got, float)
                rec.state(name, given, entity, x)
            rec.trace()
            rec.outcome(x)


def run(tier):
    sc = []
    th = tier == "thorough"
    for k in ("dubins2d", "dubins3d", "rot2d", "sixdof"):
        for c in zoo.KINDS[k].configs:
            if k == "sixdof" and c in ("hill", "cube") and not th:
                continue
            for p in range(2):
                # quick: every extreme command once at every duration, then short alphabets deeper
                full = dict(kind=k, cfg=c, method="Euler", full=True, part=[p, 2])
                if th:
                    sc.append(("history", dict(full, depth=2, durations=[1e-3, 0.1, 1.0, 10.0, 1000.0, 1e5])))
                    if k == "dubins2d":
                        sc.append(("history", dict(full, depth=3, durations=[1e-3, 0.5, 20.0])))
                    sc.append(("history", dict(full, full=False, depth=3, durations=[0.01, 0.5, 20.0])))
                else:
                    sc.append(("history", dict(full, depth=1, durations=[1e-3, 0.1, 1.0, 10.0, 1000.0, 4000.0, 1e5])))
                    sc.append(("history", dict(full, full=False, depth=2, durations=[1e-3, 0.1, 2.0, 1000.0])))
                    if k == "dubins2d":
                        sc.append(("history", dict(full, full=False, depth=3, durations=[0.01, 2.0])))
                deep = k != "sixdof" or th
                sc.append(("history", dict(full, method="RK45", full=False, depth=2 if deep else 1, durations=[0.01, 0.5, 3.0, 25.0] if th else [0.01, 5.0])))
            for mth in ("RK45", "Euler"):
                sc.append(("constructed", dict(kind=k, cfg=c, method=mth)))
    for name, lo, hi in LIMITS:
        for given in (["state_min", "state_max"], ["state_min"], ["state_max"], []):
            for entity in (False, True):
                sc.append(("discrete", dict(name=name, lo=lo, hi=hi, given=given, entity=entity, depth=4 if th else 3, method="")))
        for mth in ("Euler", "RK45"):
            sc.append(("custom", dict(name=name, lo=lo, hi=hi, method=mth, jax=False)))
        sc.append(("custom", dict(name=name, lo=lo, hi=hi, method="Euler", jax=True)))
        sc.append(("custom", dict(name=name, lo=lo, hi=hi, method="RK45_JAX", jax=True)))
    sc.sort(key=lambda s: (s[1]["method"] != "RK45_JAX", s[1].get("kind") != "sixdof", s[1]["method"] != "RK45"))
    return core.run_check("C03", sys.modules[__name__], sc, assumptions=[
        "operation alphabet: extreme and intermediate commands x durations 1e-3..1000 s, sequences up to depth 3 (Euler) / 2 (RK45)",
        "limits may be stored in single precision: 2e-7 relative slack",
    ])
