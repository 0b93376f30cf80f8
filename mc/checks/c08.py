"""C08: trajectory samples are the solution at equally spaced times of the last step, and asking for them does not change the step."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, zoo

KS = (1, 2, 3, 7, 20)


def controls(kind, cfg):
    m = zoo.KINDS[kind].ref(cfg)
    acts = zoo.mid_controls(kind, cfg)[:2]
    if len(m.ctrl):
        acts = acts + [m.umin.copy(), m.umax.copy()]
    return acts


def judge(rec, m, e, k, x0, u, T, **info):
    info = dict(info, x0=x0, T=T, k=k)
    tr, tt = e.dynamics.trajectory, e.dynamics.trajectory_t
    tr, tt = (None if v is None else np.asarray(v, float) for v in (tr, tt))
    st = np.asarray(e.state, float)
    if not rec.check(tr is not None and tt is not None and tr.shape == (k, len(x0)) and tt.shape == (k, ), "not exactly the requested number of samples", shape=None if tr is None else tr.shape, want=k, **info):
        return
    want_t = T * np.arange(1, k + 1) / k
    rec.check(np.all(np.abs(tt - want_t) <= 1e-9 * (1 + T)), "sample times are not equally spaced up to the step duration", got=tt, want=want_t, **info)
    lo, hi = lib.limit_slack(m)
    rec.check(bool(np.all(tr >= m.lo - lo) and np.all(tr <= m.hi + hi)), "a sample is outside the state limits", samples=tr, **info)
    d = m.angle_diff(tr[-1], st)
    rec.check(bool(np.all(np.abs(d) <= 1e-9 * (1 + np.abs(tr[-1])))), "the last sample is not the state the step returned", sample=tr[-1], state=st, **info)
    if lib.rotation(m, x0, u, T) > lib.TWO_PI or not lib.in_limits(m, np.asarray(x0, float)):
        return
    x1, inf = m.flow(x0, u, T, dense=list(want_t))
    if x1 is None or inf["cross"]:
        rec.note("limit met inside")
        return
    S = np.max([lib.step_scale(m, x0, u, T, x) for x in x1], axis=0)
    err = np.abs(m.angle_diff(tr, x1)) / S
    rec.maxnote("sample error in tolerances", float(err.max()))
    rec.check(bool(np.all(err <= lib.FACTOR)), "a sample is not the solution at its time", samples=tr, want=x1, error=float(err.max()), **info)
    rec.trace()


def faithful(rec, kind, cfg):
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    durs = [0.05, 1.0, 6.0, 30.0]
    if kind in ("cwh", "int1d", "int2d", "int3d"):
        durs.append(400.0)
    if kind == "sixdof":
        durs = [0.05, 1.0, 10.0]
    ks = KS if core._TIER == "thorough" or kind in ("dubins2d", "cwh", "rot2d", "int1d") else (1, 3, 7)
    if core._TIER == "thorough":
        durs += [0.4, 2.5, 15.0]
        ks += (4, 5, 50, 200)
    else:
        ks += (60, )
    ents = {k: K.make(cfg, None, "RK45", trajectory_samples=k) for k in ks}
    zero = K.make(cfg, None, "RK45")
    starts = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
    for i in range(len(m.lo)):  # starts at and outside the limits
        if np.isfinite(m.hi[i]):
            s = starts[1].copy()
            s[i] = m.hi[i]
            starts.append(s)
            s = starts[1].copy()
            s[i] = m.lo[i] - 0.2 * (m.hi[i] - m.lo[i])
            if m.names[i] != "v" or s[i] != 0:
                starts.append(s)
            if kind == "sixdof":
                break
    for s, u, T in itertools.product(starts, controls(kind, cfg), durs):
        zero.state = s
        zoo.step(zero, T, u.copy())
        base, bdot = np.asarray(zero.state, float), np.asarray(zero.state_dot, float)
        rec.transition()
        scale = np.maximum(np.abs(s), np.abs(base)) + T * (m.fmag(s, u) + m.fmag(base, u))
        for k, e in ents.items():
            e.state = s
            zoo.step(e, T, u.copy())
            rec.transition()
            rec.state(kind, cfg, s, u, T, k)
            rec.outcome(e.dynamics.trajectory[0] if e.dynamics.trajectory is not None else 0)
            got = np.asarray(e.state, float)
            rec.check(bool(np.all(np.abs(m.angle_diff(got, base)) <= 1e-8 * scale + 1e-10)), "the number of samples changes the resulting state", k=k, got=got, want=base, start=s, control=u, T=T)
            near = lib.at_limit(m, got)
            rec.check(
                bool(np.all((np.abs(np.asarray(e.state_dot) - bdot) <= 1e-6 * (1 + m.fmag(base, u))) | near)), "the number of samples changes the reported derivative", k=k,
                got=e.state_dot, want=bdot
            )
            judge(rec, m, e, k, s, u, T, start=s, control=u)
    rec.sample({"start": s, "control": u, "T": T, "k": k, "last": got})


def histories(rec, kind, cfg):
    """All two and three step histories over a small alphabet: samples always belong to the most recent step."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    acts = controls(kind, cfg)[:3]
    ops = list(itertools.product(acts, (0.2, 1.5)))
    depth = 3 if core._TIER == "thorough" and kind != "sixdof" else 2
    for k in ((2, 5) if kind != "sixdof" else (3, )):
        for s0 in zoo.base_states(kind, cfg)[1:2]:
            for hist in itertools.product(range(len(ops)), repeat=depth):
                e, z = K.make(cfg, s0, "RK45", trajectory_samples=k), K.make(cfg, s0, "RK45")
                for h in hist:
                    u, T = ops[h]
                    x = np.asarray(e.state, float)
                    zoo.step(e, T, u.copy())
                    zoo.step(z, T, u.copy())
                    rec.transition()
                    judge(rec, m, e, k, x, u, T, history=hist)
                rec.state(kind, cfg, k, hist)
                rec.check(bool(np.all(np.abs(m.angle_diff(e.state, z.state)) <= 1e-6 * (1 + np.abs(np.asarray(z.state))))), "histories with and without samples end differently", k=k, history=hist, got=e.state, want=z.state)
                # a failed step in between does not make samples of another step look current
                old = np.array(e.dynamics.trajectory), np.array(e.dynamics.trajectory_t)
                try:
                    zoo.step(e, 0.3, "not an action")
                except Exception:  # noqa: B902
                    pass
                rec.check(zoo.identical(e.dynamics.trajectory, old[0]) and zoo.identical(e.dynamics.trajectory_t, old[1]), "a rejected step replaced the samples", history=hist)


def models(rec):
    """User models: explicit time, limits met inside the step, wrapped angles."""
    for k in KS + (60, 150):
        for T in (0.3, 2.0, 5.0):
            dyn = lib.custom_ode(lambda t, x, u: np.array([math.cos(t), 2 * t]), trajectory_samples=k)
            for x in ((0.0, 0.0), (4.0, -1.0)):
                for rep in range(2):
                    lib.dstep(dyn, T, x, [0.0])
                    rec.transition()
                    rec.trace()
                    rec.state("time", k, T, x, rep)
                    t = T * np.arange(1, k + 1) / k
                    want = np.array(x) + np.stack([np.sin(t), t * t], axis=1)
                    got = np.asarray(dyn.trajectory)
                    rec.check(got.shape == want.shape and np.all(np.abs(got - want) <= lib.FACTOR * (1e-6 + 1e-3 * (np.abs(want) + T * np.array([1, 2 * T])))), "a sample is not the solution at its time", k=k, T=T, got=got, want=want)
                    rec.check(zoo.close(dyn.trajectory_t, t, 1e-12, 1e-12), "sample times are wrong", k=k, T=T)
            for lo, hi, u in ((-1.0, 2.0, 3.0), (-1.0, 2.0, -5.0), (-np.inf, 0.5, 1.0)):
                dyn, m = lib.lin(np.zeros((2, 2)), np.eye(2), lo=lo, hi=hi, trajectory_samples=k)
                nx, _ = lib.dstep(dyn, T, [0.0, 0.25], [u, 0.0])
                got = np.asarray(dyn.trajectory)
                rec.transition()
                rec.state("limit", k, T, lo, hi, u)
                rec.check(got.shape == (k, 2) and np.all(got <= m.hi) and np.all(got >= m.lo), "a sample is outside the state limits", got=got, lo=lo, hi=hi)
                rec.check(got.shape == (k, 2) and zoo.close(got[-1], nx, 1e-12, 1e-12), "the last sample is not the returned state", got=got, state=nx)
            dyn, m = lib.lin(np.zeros((2, 2)), np.eye(2), wrap=[0.0, math.nan], trajectory_samples=k)
            nx, _ = lib.dstep(dyn, T, [3.0, 3.0], [1.0, 1.0])
            got = np.asarray(dyn.trajectory)
            rec.transition()
            rec.state("wrap", k, T)
            t = T * np.arange(1, k + 1) / k
            d = np.remainder(got[:, 0] - (3.0 + t) + math.pi, 2 * math.pi) - math.pi
            rec.check(got.shape == (k, 2) and np.all(np.abs(d) < 1e-9) and zoo.close(got[:, 1], 3 + t, 1e-9, 1e-9), "samples of a wrapped model are not its solution up to whole turns", got=got)


def counts(rec, part, parts):
    """Every number of samples with every duration of a grid (their quotients round both ways)."""
    th = core._TIER == "thorough"
    big = [b + d for b in (100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 5000, 10000) for d in (-1, 0, 1)]
    for k in list(range(1 + part, 121 if th else 49, parts)) + big[part::parts]:
        dyn, _ = lib.lin(np.zeros((1, 1)), np.eye(1), trajectory_samples=k)
        dp, _ = lib.lin(np.zeros((1, 1)), np.eye(1))
        da, _ = lib.lin(np.array([[0.0, 1.0], [0.0, 0.0]]), np.array([[0.0], [1.0]]), trajectory_samples=k)
        for T in [0.1, 1.0, 7.3, 86400.1] if k in big and k > 90 else [i / 10 for i in range(1, 64 if th else 32)] + [0.01, 0.07, 1 / 3, 1e-3, 0.7e-3, 60.0, 86400.1, math.pi, -0.1, -1.0, -7.3, -1e-3, 1, 2, 7, -3, np.int64(5), np.int8(11), np.float32(0.75)]:
            nx, _ = lib.dstep(dyn, T, [1.0], [0.5])
            n0, _ = lib.dstep(dp, T, [1.0], [0.5])
            rec.transition(2)
            tt, tr = np.asarray(dyn.trajectory_t, float), np.asarray(dyn.trajectory, float)
            t = T * np.arange(1, k + 1) / k
            ok = rec.check(tt.shape == (k, ) and tr.shape == (k, 1), "not exactly the requested number of samples", k=k, T=T, shape=tr.shape)
            if ok:
                rec.check(bool(np.all(np.abs(tt - t) <= 1e-12 * abs(T))) and abs(tt[-1] - T) <= 1e-15 * abs(T), "sample times are not equally spaced up to the step duration", k=k, T=T, got=tt[-1])
                rec.check(zoo.close(tr[:, 0], 1 + 0.5 * t, 1e-9, 1e-9), "a sample is not the solution at its time", k=k, T=T)
            rec.check(zoo.close(nx, n0, 1e-12, 1e-12) and zoo.close(nx, [1 + 0.5 * T], 1e-9, 1e-9), "the number of samples changes the resulting state", k=k, T=T, got=nx, want=n0)
            # uniformly accelerated: every sample on the parabola
            for x0, v0, a in ((0.0, 0.0, 1.0), (-3.0, 0.5, -0.25)):
                lib.dstep(da, T, [x0, v0], [a])
                rec.transition()
                tr = np.asarray(da.trajectory, float)
                want = np.stack([x0 + v0 * t + 0.5 * a * t * t, v0 + a * t], axis=1)
                rec.check(tr.shape == want.shape and bool(np.all(np.abs(tr - want) <= 1e-9 * (1e-3 + np.abs(want) + np.array([abs(x0) + abs(v0 * T) + 0.5 * T * T, abs(v0) + abs(T)])))), "a sample of a uniformly accelerated motion is off the parabola", k=k, T=T, start=[x0, v0], command=a, got=tr, want=want)
            rec.state("count", k, T)
            rec.trace()
    rec.outcome("count", part)


def settings(rec):
    """All sequences of steps with the number of samples reassigned in between; equal and almost equal durations in a row."""
    ops = list(itertools.product((1, 2, 3, 10), (0.5, 0.5000001, 2.0)))
    for kind in ("rot2d", "dubins2d", None):
        for hist in itertools.product(ops, repeat=2 if kind else 3):
            if kind:
                m = zoo.KINDS[kind].ref("default")
                e = zoo.KINDS[kind].make("default", zoo.base_states(kind, "default")[1], "RK45", trajectory_samples=5)
                z = zoo.KINDS[kind].make("default", zoo.base_states(kind, "default")[1], "RK45")
                u = zoo.mid_controls(kind, "default")[1]
            else:
                dyn, _ = lib.lin(np.zeros((1, 1)), np.eye(1), trajectory_samples=4)
                x = np.array([1.0])
            for k, T in hist:
                rec.transition()
                if kind:
                    e.dynamics.trajectory_samples = k
                    x = np.asarray(e.state, float)
                    zoo.step(e, T, u.copy())
                    zoo.step(z, T, u.copy())
                    judge(rec, m, e, k, x, u, T, history=hist)
                    rec.check(bool(np.all(np.abs(m.angle_diff(e.state, z.state)) <= 1e-6 * (1 + np.abs(np.asarray(z.state))))), "changing the number of samples changes the states", history=hist)
                else:
                    dyn.trajectory_samples = k
                    nx, _ = lib.dstep(dyn, T, x, [0.5])
                    t = T * np.arange(1, k + 1) / k
                    tt, tr = np.asarray(dyn.trajectory_t, float), np.asarray(dyn.trajectory, float)
                    if rec.check(tt.shape == (k, ) and tr.shape == (k, 1), "not exactly the requested number of samples", k=k, T=T, shape=tr.shape, history=hist):
                        rec.check(zoo.close(tt, t, 1e-12, 0) and zoo.close(tr[:, 0], x + 0.5 * t, 1e-9, 0) and zoo.close(nx, x + 0.5 * T, 1e-9, 0), "a sample is not the solution at its time", k=k, T=T, history=hist)
                    x = np.asarray(nx, float)
            rec.state(kind, hist)
            rec.trace()
    rec.outcome("settings")


def rejected(rec):
    """Methods without samples reject the request when building or stepping, and the entity stays as it was; only whole numbers of samples."""
    for kind, K in zoo.KINDS.items():
        if not K.samples:
            continue
        for method in ("Euler", "RK45_JAX"):
            for k in (1, 2, 10):
                e = None
                raised = False
                try:
                    e = K.make("default", zoo.base_states(kind, "default")[1], method, trajectory_samples=k)
                    before = e.state
                    zoo.step(e, 0.5)
                except Exception:  # noqa: B902
                    raised = True
                rec.transition()
                rec.state(kind, method, k)
                rec.check(raised, "samples requested from a method that cannot provide them", kind=kind, method=method, k=k)
                if e is not None:
                    rec.check(zoo.identical(e.state, before), "a rejected step changed the entity", kind=kind, method=method)
        for bad in (2.0, 2.5, "3", None, [1]):
            raised = False
            try:
                K.make("default", None, "RK45", trajectory_samples=bad)
            except Exception:  # noqa: B902
                raised = True
            rec.transition()
            rec.state(kind, repr(bad))
            rec.check(raised, "a number of samples that is not an integer was accepted", kind=kind, value=repr(bad))
    for method in ("Euler", "RK45_JAX"):
        for k in (1, 3):
            raised = False
            try:
                dyn, _ = lib.lin(-np.eye(2), np.eye(2), method=method, use_jax=True, trajectory_samples=k)
                lib.dstep(dyn, 0.5, [1.0, 2.0], [0.0, 0.0])
            except Exception:  # noqa: B902
                raised = True
            rec.transition()
            rec.check(raised, "samples requested from a jax method that cannot provide them", method=method, k=k)
    rec.trace()


def run(tier):
    sc = [("models", {}), ("rejected", {}), ("settings", {})] + [("counts", dict(part=i, parts=8)) for i in range(8)]
    for k in zoo.KINDS:
        if not zoo.KINDS[k].samples:
            continue
        for c in zoo.KINDS[k].configs:
            sc.append(("faithful", dict(kind=k, cfg=c)))
            sc.append(("histories", dict(kind=k, cfg=c)))
    sc.sort(key=lambda s: s[1].get("kind") != "sixdof")
    return core.run_check("C08", sys.modules[__name__], sc, assumptions=[
        "samples per step 1,2,3,7,20 (thorough also 4,5,50,200); steps of zero length with two or more samples are left out (no distinct sample times exist)",
    ])
