"""C01: commanded controls are saturated to the actuator limits, with a truthful warning."""
import copy
import itertools
import sys

import numpy as np

from mc import core, own, zoo

EVEHICLES = [k for k in zoo.KINDS if k != "sun"]


def levels(lo, hi, tier):
    """Command levels of one channel: far outside, just outside, at, just inside and well inside both limits."""
    span = hi - lo
    d = 1e-3 * span
    eps = 1e-12 * max(1.0, abs(lo), abs(hi))
    mid = lo + 0.6 * span
    base = [mid, lo, hi, lo - d, hi + d, hi + 5 * span, lo - 5 * span, np.inf, -np.inf, 0.0 if lo <= 0 <= hi else lo]
    if tier == "thorough":
        base += [lo - eps, hi + eps, lo + eps, hi - eps, lo + d, hi - d, 1e30, -1e30]
    return base


def commands(m, tier):
    k = len(m.ctrl)
    lv = [levels(m.umin[i], m.umax[i], tier) for i in range(k)]
    if k <= 2 or (k == 3 and tier == "thorough"):
        yield from itertools.product(*lv)
        return
    if k == 3:
        yield from itertools.product(*[v[:8] for v in lv])
        return
    mid = [v[0] for v in lv]
    n = len(lv[0])
    for i, j in itertools.combinations(range(k), 2):
        for a, b in itertools.product(range(n), range(n)):
            c = list(mid)
            c[i], c[j] = lv[i][a], lv[j][b]
            yield tuple(c)
    for pick in itertools.product(range(1, 5), repeat=2):
        yield tuple(lv[i][pick[i % 2]] for i in range(k))


def encodings(names, u, full):
    d = dict(zip(names, u))
    out = [("dict", d), ("list", list(u)), ("array", np.array(u, dtype=float))]
    if full:
        out.append(("rdict", dict(reversed(list(d.items())))))
        ro = np.array(u, dtype=float)
        ro.setflags(write=False)
        out.append(("readonly", ro))
        out.append(("strided", np.repeat(np.array(u, dtype=float), 2)[::2]))
        out.append(("npdict", {k: np.float64(v) for k, v in d.items()}))
    return out


def limits_of(e, k):
    return (np.broadcast_to(np.asarray(e.control_min, float), (k, )).copy(), np.broadcast_to(np.asarray(e.control_max, float), (k, )).copy())


def saturation(rec, kind, cfg, method, T):
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    tier = core._TIER
    x0 = np.array(zoo.base_states(kind, cfg)[1], dtype=float)
    probe = K.make(cfg, x0, method)
    lo, hi = limits_of(probe, k)
    rec.check(zoo.close(lo, m.umin, 1e-9, 1e-12) and zoo.close(hi, m.umax, 1e-9, 1e-12), "actuator limits differ from the configured ones", got=[lo, hi], want=[m.umin, m.umax])
    default = np.array(probe.control_default, dtype=float)
    rec.check(zoo.identical(default, np.zeros(k)), "neutral command is not zero", got=default)
    base = {}

    def expected(uc):
        key = tuple(uc)
        if key not in base:
            e = K.make(cfg, x0, method)
            with zoo.quiet() as q:
                e.step(T, np.array(uc, dtype=float))
            rec.check(not q.user, "warning for a command within the limits", command=uc)
            base[key] = (e.state, np.array(e.state_dot, dtype=float))
            if method == "Euler":
                want = m.finish(x0 + T * m.limited(x0, uc))
                tol = 2e-6 * (np.abs(x0) + T * m.fmag(x0, uc)) + 1e-9
                rec.check(
                    np.all(np.abs(m.angle_diff(e.state, want)) <= tol), "step with an admissible command is not the model's step", command=uc,
                    got=e.state, want=want
                )
                rec.trace()
        return base[key]

    mids = [v for v in zoo.mid_controls(kind, cfg)]
    for idx, u in enumerate(commands(m, tier)):
        uc = np.minimum(np.maximum(np.array(u, float), lo), hi)
        outside = bool(np.any(np.array(u) < lo) or np.any(np.array(u) > hi))
        ws, wd = expected(uc)
        rec.state(kind, cfg, list(uc), outside)
        for enc, act in encodings(m.ctrl, u, full=(idx % 7 == 0 or k <= 2)):
            e = K.make(cfg, x0, method)
            before = copy.deepcopy(act)
            with zoo.quiet() as q:
                e.step(T, act)
            rec.transition()
            rec.trace()
            ok = zoo.same(e.state, ws) and zoo.same(e.state_dot, wd)
            rec.check(ok, "step differs from the step with the saturated command", encoding=enc, command=u, saturated=uc, got=e.state, want=ws)
            rec.check(bool(q.user) == outside, "limit warning issued" if q.user else "no limit warning", encoding=enc, command=u, limits=[lo, hi])
            if isinstance(act, dict):
                rec.check(act == before and list(act) == list(before), "the caller's action map was modified", command=u)
            else:
                rec.check(zoo.identical(np.array(act, float), np.array(before, float)), "the caller's action was modified", encoding=enc, command=u)
            lo2, hi2 = limits_of(e, k)
            rec.check(
                zoo.identical(e.control_default, default) and zoo.identical(lo2, lo) and zoo.identical(hi2, hi),
                "default command or limits were modified by a step", encoding=enc, command=u
            )
            if idx % 11 == 0:
                # history: same command again, then neutral, on the same entity
                s1 = e.state
                with zoo.quiet() as q2:
                    e.step(T, act)
                rec.transition()
                f = K.make(cfg, s1, method)
                zoo.step(f, T, uc.copy())
                rec.check(zoo.same(e.state, f.state), "repeating the command on the same entity differs", encoding=enc, command=u)
                rec.check(bool(q2.user) == outside, "warning on the repeated command is wrong", encoding=enc, command=u)
                s2 = e.state
                with zoo.quiet() as q3:
                    e.step(T)
                f = K.make(cfg, s2, method)
                zoo.step(f, T, np.zeros(k))
                rec.check(zoo.same(e.state, f.state) and not q3.user, "the neutral step after a saturated command differs", encoding=enc, command=u)
                rec.transition()
        rec.outcome(outside, [float(v) for v in ws])
        rec.sample({"command": u, "saturated": uc, "warns": outside, "state": ws})
    # partial maps: actuators not named stay neutral, and only the named ones are judged
    for r in range(1, k):
        for names in itertools.combinations(range(k), r):
            for side in (0, 1):
                u = np.zeros(k)
                for i in names:
                    u[i] = (lo[i] - 0.5 * (hi[i] - lo[i])) if side else 0.5 * hi[i]
                act = {m.ctrl[i]: u[i] for i in names}
                e = K.make(cfg, x0, method)
                with zoo.quiet() as q:
                    e.step(T, act)
                f = K.make(cfg, x0, method)
                zoo.step(f, T, np.clip(u, lo, hi))
                rec.transition()
                rec.check(zoo.same(e.state, f.state), "partial action map differs from the saturated command", action=act)
                rec.check(bool(q.user) == bool(side), "warning for a partial action map is wrong", action=act)
    # NaN is rejected and leaves the entity as it was
    for r in range(1, min(k, 2) + 1):
        for names in itertools.combinations(range(k), r):
            for other in (mids[0], mids[1], hi * 3):
                u = np.array(other, dtype=float)
                u[list(names)] = np.nan
                for enc, act in encodings(m.ctrl, list(u), full=True):
                    e = K.make(cfg, x0, method)
                    s, d = e.state, np.array(e.state_dot)
                    raised = False
                    try:
                        with core.time_limit(20, "step with NaN action"):
                            zoo.step(e, T, act)
                    except core.Deadline:
                        raise
                    except Exception:  # noqa: B902
                        raised = True
                    rec.transition()
                    rec.check(raised, "a NaN command was accepted", encoding=enc, command=u, state=e.state)
                    rec.check(zoo.identical(e.state, s) and zoo.identical(e.state_dot, d), "a rejected NaN command changed the entity", encoding=enc)
    # other numeric encodings of admissible commands
    ints = np.array([1 if hi[i] >= 1 and lo[i] <= 1 else 0 for i in range(k)])
    for act, want in (
        (ints, ints.astype(float)), ([int(v) for v in ints], ints.astype(float)), (ints.astype(np.float32), ints.astype(float)),
        ({n: int(v) for n, v in zip(m.ctrl, ints)}, ints.astype(float)), (ints.astype(bool), ints.astype(float)),
        ((np.array(mids[1]) * 0.5).astype(np.float32), (np.array(mids[1]) * 0.5).astype(np.float32).astype(float)),
        ({n: np.float32(v) for n, v in zip(m.ctrl, mids[1])}, np.array(mids[1]).astype(np.float32).astype(float)),
        ([np.float64(v) for v in mids[1]], np.array(mids[1])),
    ):
        e, f = K.make(cfg, x0, method), K.make(cfg, x0, method)
        with zoo.quiet() as q:
            e.step(T, act)
        zoo.step(f, T, want)
        rec.transition()
        rec.check(zoo.close(e.state, f.state, 1e-6, 1e-9), "numeric type of the command changes the step", action=repr(act), got=e.state, want=f.state)
        rec.check(not q.user, "warning for an admissible command of another numeric type", action=repr(act))


def edges(rec, kind, cfg, T):
    """Commands beside each limit of each channel, at every distance from one float to a tenth of the range, on both sides."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], dtype=float)
    probe = K.make(cfg, x0, "Euler")
    lo, hi = limits_of(probe, k)
    mid = np.array(zoo.mid_controls(kind, cfg)[1], dtype=float)
    dist = [0.0, None] + [10.0**-p for p in range(15, 0, -1)]
    for i, side, away, d in itertools.product(range(k), (0, 1), (-1, 1), dist):
        b = (lo, hi)[side][i]
        if not np.isfinite(b):
            continue
        u = mid.copy()
        u[i] = np.nextafter(b, away * np.inf) if d is None else b + away * d * (hi[i] - lo[i])
        uc = np.clip(u, lo, hi)
        outside = bool(np.any(u < lo) or np.any(u > hi))
        for enc, act in (("array", u.copy()), ("list", list(u)), ("dict", dict(zip(m.ctrl, u))), ("one", {m.ctrl[i]: float(u[i])})):
            full = np.where(np.arange(k) == i, u, np.asarray(probe.control_default, float)) if enc == "one" else u
            e, f = K.make(cfg, x0, "Euler"), K.make(cfg, x0, "Euler")
            with zoo.quiet() as q:
                e.step(T, act)
            zoo.step(f, T, np.clip(full, lo, hi))
            rec.transition(2)
            rec.state(kind, cfg, i, side, away, d, enc)
            rec.check(bool(q.user) == outside, "limit warning issued" if q.user else "no limit warning", encoding=enc, command=u, limits=[lo, hi])
            rec.check(zoo.same(e.state, f.state) and zoo.same(e.state_dot, f.state_dot), "step differs from the step with the saturated command", encoding=enc, command=u, saturated=uc)
        rec.trace()
        rec.outcome(outside, i, side)


def numbers(rec, kind, cfg, T):
    """Whole-number commands (beyond, at and within the limits) in every numeric type that can hold them act as the same numbers in floating point."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], dtype=float)
    lo, hi = limits_of(K.make(cfg, x0, "Euler"), k)
    whole = (0, 1, -1, 2, -2, 100, -100)
    if k == 1:
        picks = [(v, ) for v in whole + (1000, -1000)]
    elif k <= 3:
        picks = list(itertools.product(whole[:5] if k == 3 else whole, repeat=k)) + [tuple(100 * s for s in g) for g in itertools.product((1, -1), repeat=k)]
    else:
        picks = [tuple(v if j == i else (w if j == (i + 1) % k else 0) for j in range(k)) for i in range(k) for v in whole for w in whole[:5]]
    for u in picks:
        uf = np.array(u, dtype=float)
        uc = np.clip(uf, lo, hi)
        outside = bool(np.any(uf < lo) or np.any(uf > hi))
        f = K.make(cfg, x0, "Euler")
        zoo.step(f, T, uc)
        acts = [np.array(u, dtype=t) for t in (np.int64, np.int32, np.int8, np.float32, np.float16) if abs(uf).max() < 127 or t not in (np.int8, np.float16)]
        acts += [list(u), dict(zip(m.ctrl, u)), {n: np.int64(v) for n, v in zip(m.ctrl, u)}, {n: np.float32(v) for n, v in zip(m.ctrl, u)}, [np.int16(v) for v in u]]
        if uf.min() >= 0:
            acts += [np.array(u, dtype=np.uint8)] if uf.max() < 255 else [np.array(u, dtype=np.uint32)]
        for act in acts:
            e = K.make(cfg, x0, "Euler")
            with zoo.quiet() as q:
                e.step(T, act)
            rec.transition()
            info = dict(command=u, numeric_type=str(getattr(act, "dtype", type(next(iter(act.values())) if isinstance(act, dict) else act[0]).__name__)), container=type(act).__name__)
            rec.check(zoo.close(e.state, f.state, 1e-6, 1e-9) and zoo.close(e.state_dot, f.state_dot, 1e-6, 1e-9), "the numeric type of a command changes what it does", got=e.state, want=f.state, **info)
            rec.check(bool(q.user) == outside, "limit warning issued" if q.user else "no limit warning", limits=[lo, hi], **info)
            rec.state(kind, cfg, *info.values())
        rec.trace()
        rec.outcome(outside)


def users(rec, rotation, k):
    """Entities of a user's own on the base classes: every combination of no limit, one for all and one each, below and above; the model must be given the clipped command."""
    v = np.arange(1, k + 1)
    none = object()
    lows = [none, -np.inf, -1.5, 0, -0.5 * v, -v]
    highs = [none, np.inf, 1.5, 0, 0.75 * v, v]
    defaults = [np.zeros(k), 0.25 * v, np.zeros(k, dtype=int), np.ones(k, dtype=int), -9.0 * v]
    levels_ = (-np.inf, -40.0, -1.5, -1.0, -0.25, 0.0, 0.5, 1.5, 2.25, 1e6, np.inf)
    if k == 1:
        cmds = [np.array([c]) for c in levels_]
    elif k == 2:
        cmds = [np.array(c) for c in itertools.product(levels_, repeat=2)]
    else:
        cmds = [np.array([a if i == j else b for j in range(k)]) for i in range(k) for a in levels_ for b in (0.0, 0.5, 40.0)]
    names = [f"c{i}" for i in range(k)]
    for lo, hi, default in itertools.product(lows, highs, defaults):
        kw = {n: copy.deepcopy(b) for n, b in (("control_min", lo), ("control_max", hi)) if b is not none}
        lo_, hi_ = (np.broadcast_to(np.asarray(d if b is none else b, float), (k, )) for b, d in ((lo, -np.inf), (hi, np.inf)))
        dyn = own.dynamics(k)
        e = own.entity(rotation, dyn, k, default.copy(), control_map={n: i for i, n in enumerate(names)}, **kw)
        for idx, u in enumerate([None] + cmds):
            full = default.astype(float) if u is None else u
            uc = np.clip(full, lo_, hi_)
            outside = bool(np.any(full < lo_) or np.any(full > hi_))
            forms = [None] if u is None else [u.copy(), list(u), dict(zip(names, u))]
            for act in forms if (idx % 5 < 2 or k < 3) else forms[idx % 3 :][:1]:
                x = np.linspace(-2.0, 3.0, k)
                e.state = x
                dyn.calls.clear()
                with zoo.quiet() as q:
                    e.step(0.25, act)
                rec.transition()
                info = dict(command=u, limits=[lo_, hi_], default=default, form=type(act).__name__)
                if rec.check(len(dyn.calls) == 1, "the model is not stepped exactly once", calls=len(dyn.calls), **info):
                    T, s, c = dyn.calls[0]
                    rec.check(c.shape == (k, ) and zoo.same(c, uc), "the command given to the model is not the clipped one", got=c, want=uc, **info)
                    rec.check(float(T) == 0.25 and zoo.same(s, x), "the model is given another state or duration", got=[T, s], **info)
                rec.check(bool(q.user) == outside, "limit warning issued" if q.user else "no limit warning", **info)
                if np.all(np.isfinite(uc)):
                    rec.check(zoo.same(e.state, x + 0.25 * uc) and zoo.same(e.state_dot, uc), "the entity does not take the state and derivative its model reports", got=[e.state, e.state_dot], **info)
        rec.check(zoo.identical(np.asarray(e.control_default), default), "the default command was modified", got=e.control_default, default=default)
        rec.trace()
        rec.state(rotation, k, repr(lo), repr(hi), default)
        rec.outcome(k, repr(lo) != repr(hi))


def reconfigured(rec, kind, cfg):
    """All sequences of limit changes and steps: every step is judged by the limits the entity has when it is taken."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], dtype=float)
    lo0, hi0 = limits_of(K.make(cfg, x0, "Euler"), k)
    sets = [
        (lo0, hi0),
        (0.25 * lo0, 0.5 * hi0),
        (2.0 * lo0, 3.0 * hi0),
        (float(np.min(lo0) / 3), float(np.max(hi0) / 3)),  # one number for every channel
        (-np.inf, np.inf),
        (lo0 * (np.arange(k) % 2), hi0 * (np.arange(k) % 2 == 0)),
    ]
    cmds = [0.9 * hi0, 2.5 * lo0, np.where(np.arange(k) % 2, 0.3 * lo0, 1.5 * hi0)]
    depth = 3 if core._TIER == "thorough" else 2
    for hist in itertools.product(range(len(sets)), repeat=depth):
        e = K.make(cfg, x0, "Euler")
        e.other = K.make(cfg, x0, "Euler")  # a twin whose limits stay
        for n, h in enumerate((0, ) + hist):
            lo, hi = sets[h]
            if n:
                e.control_min, e.control_max = copy.deepcopy(lo), copy.deepcopy(hi)
            for u in cmds:
                f = K.make(cfg, e.state, "Euler")
                f.control_min, f.control_max = -np.inf, np.inf
                outside = bool(np.any(u < lo) or np.any(u > hi))
                with zoo.quiet() as q:
                    e.step(0.1, u.copy())
                zoo.step(f, 0.1, np.clip(u, lo, hi))
                rec.transition(2)
                rec.check(zoo.same(e.state, f.state) and zoo.same(e.state_dot, f.state_dot), "after a change of the limits a step is not saturated to the limits in force", limits=[lo, hi], command=u, history=hist, got=e.state, want=f.state)
                rec.check(bool(q.user) == outside, "after a change of the limits the warning is wrong", limits=[lo, hi], command=u, history=hist)
        l2, h2 = limits_of(e.other, k)
        rec.check(zoo.identical(l2, lo0) and zoo.identical(h2, hi0), "the limits of another entity changed")
        rec.state(kind, cfg, hist)
        rec.trace()
        rec.outcome(hist)


def run(tier):
    sc = [("users", dict(rotation=r, k=k)) for r in (False, True) for k in (1, 2, 4)]
    for k in EVEHICLES:
        for c in zoo.KINDS[k].configs:
            sc.append(("edges", dict(kind=k, cfg=c, T=0.5)))
            sc.append(("numbers", dict(kind=k, cfg=c, T=0.5)))
            if tier == "thorough" or c == "default":
                sc.append(("reconfigured", dict(kind=k, cfg=c)))
            sc.append(("saturation", dict(kind=k, cfg=c, method="Euler", T=0.5)))
            if tier == "thorough" or (c != "default" and (k, c) not in (("sixdof", "cube"), ("sixdof", "wheel"))):
                sc.append(("saturation", dict(kind=k, cfg=c, method="RK45", T=0.5)))
    sc.sort(key=lambda s: (s[1].get("method") != "RK45", s[1].get("kind") != "sixdof"))
    return core.run_check("C01", sys.modules[__name__], sc, assumptions=[
        "command levels per channel: far/just outside, at, just/well inside each limit, and +-inf; full product for up to 3 channels, all pairs for 6",
        "beside each limit: distances from one float to a tenth of the range on both sides; limits reassigned between steps: all sequences of 2 (thorough 3) of 6 limit sets",
    ])
