"""C19: the sun's angle advances at the mean motion, whatever the durations, integration method or backend."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, zoo

NS = [None, 0.001027, 0.01, 0.25, 3, -0.01, 0, 1e-6, 4e-9, -3e-12]
BACKENDS = [("RK45", False), ("Euler", False), ("RK45", True), ("Euler", True), ("RK45_JAX", True)]
THETAS = [None, 0.0, 1.5, -4.0, math.pi, -math.pi, 100.0, 1e-6]
DURS = (0.0, 0.1, 1.0, 7.25, 3600.0)


def rate(n):
    return 0.001027 if n is None else float(n)


def build(n, method, jax, theta):
    from safe_autonomy_dynamics.cwh.sun_model import SunEntity

    kw = {} if n is None else {"n": n}
    if theta is not None:
        kw["theta"] = theta
    return SunEntity(name="sun", integration_method=method, use_jax=jax, **kw)


def tol(jax, scale, steps):
    return 2e-6 * steps * (1 + scale) if jax else 1e-13 * (steps + 1) * scale + 1e-300


def steps(rec, n, method, jax, depth):
    """Every sequence of durations up to the depth, from every configured angle; each prefix is checked."""
    r = rate(n)
    for th in THETAS:
        e = build(n, method, jax, th)
        start = np.float32(0.0 if th is None else th)
        rec.check(abs(float(e.theta) - start) <= 1e-6 * (1 + abs(start)), "the sun does not start at its configured angle", got=e.theta, want=start)
        seqs = [s for d in range(1, depth + 1) for s in itertools.product(DURS, repeat=d)]
        for seq in seqs if th in (None, 1.5) else [s for s in seqs if len(s) == 1 or s[0] != s[-1]][:: 1 if depth > 2 and not jax else 3]:
            e.state = np.array([start], dtype=float)
            t = 0.0
            for T in seq:
                zoo.step(e, T, None)
                t += T
                rec.transition()
            want = start + r * t
            got = float(e.theta)
            rec.trace()
            k = tol(jax, abs(start) + abs(r * t), len(seq))
            rec.check(abs(got - want) <= k, "the sun's angle is not start + n t", n=r, start=start, durations=seq, got=got, want=want, method=method, jax=jax)
            rec.maxnote("error in tolerances", abs(got - want) / k)
            rec.check(np.shape(e.state) == (1, ) and float(np.asarray(e.state)[0]) == got, "the state is not the angle", state=e.state, theta=e.theta)
            if seq[-1] > 0:
                rec.check(np.shape(e.state_dot) == (1, ) and abs(float(np.asarray(e.state_dot)[0]) - r) <= 1e-6 * abs(r), "the reported rate is not the mean motion", got=e.state_dot, want=r, method=method, jax=jax)
            rec.state(n, method, jax, th, seq)
            rec.outcome(got)
    rec.sample({"n": n, "method": method, "jax": jax, "durations": seq, "theta": got})


def derivative(rec, n, method, jax):
    e = build(n, method, jax, None)
    for th in (0.0, 1.5, -4.0, 1e6, math.pi):
        for t in (0.0, 1.0, 1e4):
            got = np.asarray(e.dynamics.compute_state_dot(t, np.array([th]), np.array([])), float)
            rec.transition()
            rec.trace()
            rec.state(n, method, jax, th, t)
            rec.check(got.shape == (1, ) and abs(got[0] - rate(n)) <= 1e-6 * abs(rate(n)), "the angle's rate is not the mean motion", n=n, theta=th, t=t, got=got, jax=jax)


def splits(rec, method, jax):
    """A duration split in k equal or unequal parts gives the same angle."""
    for n in (0.001027, 0.25, -0.01):
        for T in (1.0, 100.0, 6118.0) if method != "RK45_JAX" else (100.0, ):
            for parts in [[1.0], [0.5] * 2, [0.1] * 10, [0.01] * (2 if method == "RK45_JAX" else 100) + ([0.98] if method == "RK45_JAX" else []), [0.9, 0.1], [0.1, 0.9], [1e-3, 0.999], [0.25, 0.0, 0.75]]:
                e = build(n, method, jax, 0.5)
                for f in parts:
                    zoo.step(e, f * T, None)
                    rec.transition()
                rec.trace()
                got, want = float(e.theta), 0.5 + n * T
                rec.check(abs(got - want) <= tol(jax, abs(n * T) + (0 if jax else 0.5), len(parts)**0.5 if jax else len(parts)) * 3, "the angle depends on how the time is split", n=n, T=T, parts=len(parts), got=got, want=want, method=method, jax=jax)
                rec.state(n, method, jax, T, parts)
                rec.outcome(got)


def together(rec, method, jax):
    """Suns with different mean motions, stepped in turn, do not mix up."""
    rates = [0.001027, 0.25, -0.01, 3.0]
    for order in list(itertools.permutations(range(4)))[:: 6 if method == "RK45_JAX" else 1]:
        suns = [build(n, method, jax, 0.25 * i) for i, n in enumerate(rates)]
        for k in range(2):
            for i in order:
                zoo.step(suns[i], 1.0 + i, None)
                rec.transition()
        rec.trace()
        for i, n in enumerate(rates):
            want = 0.25 * i + 2 * n * (1.0 + i)
            rec.check(abs(float(suns[i].theta) - want) <= tol(jax, abs(want) + 1, 2), "suns disturb each other", order=order, got=suns[i].theta, want=want)
        rec.state(method, jax, order)


def sweep(rec, kind, part, parts):
    """Parameters and states over many orders of magnitude (see lib.sweep)."""
    lib.sweep(rec, kind, part, parts)


def run(tier):
    th = tier == "thorough"
    sc = [("together", dict(method=method, jax=jax)) for method, jax in BACKENDS[::-1]]
    for (method, jax) in BACKENDS:
        sc.append(("splits", dict(method=method, jax=jax)))
        for n in NS:
            sc.append(("steps", dict(n=n, method=method, jax=jax, depth=(4 if not jax else 3) if th else (1 if method == "RK45_JAX" else 2 if jax else 3))))
            sc.append(("derivative", dict(n=n, method=method, jax=jax)))
    parts = 1 * (4 if tier == "thorough" else 1)
    sc += [("sweep", dict(kind=k, part=i, parts=parts)) for k in ('sun',) for i in range(parts)]
    return core.run_check("C19", sys.modules[__name__], sc, assumptions=["eight mean motions, eight start angles, five durations, all duration sequences up to the stated depth"])
