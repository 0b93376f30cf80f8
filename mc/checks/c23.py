"""C23: equality of vehicle entities is equality of their kinematic state within a kind; comparing changes nothing."""
import itertools
import math
import sys
import warnings

import numpy as np

from mc import core, lib, zoo

PI = math.pi
KINDS = ("dubins2d", "dubins3d", "cwh", "rot2d", "sixdof", "int1d", "int2d", "int3d")


def eq(a, b):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = a == b
        n = a != b
    return bool(r), bool(n)


def family(kind, cfg):
    """Different states: base states, each component moved by large, small and tiny amounts (and through zero)."""
    m = zoo.KINDS[kind].ref(cfg)
    out = [np.array(s, float) for s in zoo.base_states(kind, cfg)]
    for base in out[1:2]:
        for i, n in enumerate(m.names):
            if n.startswith("q"):
                continue
            deltas = [0.125, -0.125, 1e-3, 1e-6, 1e-9, 1e-12, -1e-15]
            for d in deltas:
                s = base.copy()
                s[i] += d * max(1.0, abs(s[i]))
                out.append(s)
            s = base.copy()
            s[i] = -s[i]
            out.append(s)
            if n not in ("v", ):
                s = base.copy()
                s[i] = 0.0
                out.append(s)
                for tiny in (1e-13, -1e-30):  # from zero by very little
                    s = s.copy()
                    s[i] = tiny
                    out.append(s)
    if kind == "sixdof":
        from mc.checks.c14 import ATT

        for q in ATT[::2][:30]:
            s = out[1].copy()
            s[3:7] = q
            if not any(np.allclose(np.abs(np.dot(q, t[3:7])), 1, atol=1e-12) for t in out):
                out.append(s)
        for axis, angle in itertools.product(range(3), (1e-3, -1e-5, 1e-7, 1e-9)):  # attitudes a tiny turn apart
            s = out[1].copy()
            h = np.zeros(3)
            h[axis] = 0.5 * angle
            v, w = s[3:6].copy(), s[6]
            s[3:6], s[6] = v + w * h + np.cross(v, h), w - float(v @ h)
            out.append(s)
    if kind.startswith("dubins"):
        # standing still with different headings; mirrored motion
        i, j = m.names.index("heading"), m.names.index("v")
        for h in (0.3, 1.0):
            s = out[1].copy()
            s[i], s[j] = h, 1e-30
            out.append(s)
        s = out[1].copy()
        s[i], s[j] = s[i] - PI, -s[j]
        out.append(s)
    uniq = []
    for s in out:
        if not any(np.array_equal(s, t) for t in uniq):
            uniq.append(s)
    return uniq


def pairs(rec, kind, cfg, part, parts):
    """All pairs of different states: unequal both ways; same states: equal both ways; nothing is modified."""
    K = zoo.KINDS[kind]
    S = family(kind, cfg)
    A = [K.make(cfg, s) for s in S]
    B = [K.make(cfg, s) for s in S]
    for i, j in itertools.product(range(len(S)), repeat=2):
        if (i + j) % parts != part:
            continue
        r, n = eq(A[i], B[j])
        r2, n2 = eq(B[j], A[i])
        rec.transition(2)
        rec.trace()
        rec.check(r == r2, "equality is not symmetric", kind=kind, a=S[i], b=S[j], ab=r, ba=r2)
        rec.check(n != r and n2 != r2, "!= is not the opposite of ==", kind=kind, a=S[i], b=S[j])
        if i == j:
            rec.check(r, "two entities in the same state compare unequal", kind=kind, state=S[i])
        else:
            rec.check(not r, "two entities in different states compare equal", kind=kind, a=S[i], b=S[j], component=[K.names[k] for k in np.flatnonzero(S[i] != S[j])])
        rec.state(kind, cfg, i, j)
        rec.outcome(kind, r, i == j)
    for i, s in enumerate(S):
        rec.check(eq(A[i], A[i])[0], "an entity does not equal itself", kind=kind, state=s)
        rec.check(zoo.identical(A[i].state, s) and zoo.identical(B[i].state, s), "comparing modified an entity", kind=kind, state=s, got=A[i].state)


def histories(rec, kind, cfg, method, depth):
    """Two entities with the same history stay equal, a third that differs in any one action (with an effect) does not; comparing in between changes nothing."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    acts = zoo.mid_controls(kind, cfg)
    start = np.array(zoo.base_states(kind, cfg)[1], float)
    kw = K.init_kwargs(start.astype(np.float32))
    for seq in itertools.product(range(len(acts)), repeat=depth):
        a, b = (K.make(cfg, method=method, **kw) for _ in range(2))
        ref = K.make(cfg, method=method, **kw)
        for k in seq:
            for e in (a, b, ref):
                zoo.step(e, 0.5, acts[k].copy())
                rec.transition()
            before = lib.observe(a), lib.observe(b)
            r, _ = eq(a, b)
            r2, _ = eq(b, a)
            rec.check(r and r2, "entities with identical history compare unequal", kind=kind, sequence=seq, state=a.state)
            rec.check(lib.same_obs(lib.observe(a), before[0]) is None and lib.same_obs(lib.observe(b), before[1]) is None, "comparing modified an entity", kind=kind, sequence=seq)
        rec.check(lib.same_obs(lib.observe(a), lib.observe(ref)) is None, "comparing between steps changes the steps", kind=kind, sequence=seq, got=a.state, want=ref.state)
        for pos in range(depth):
            other = (seq[pos] + 1) % len(acts)
            c = K.make(cfg, method=method, **kw)
            for p, k in enumerate(seq):
                zoo.step(c, 0.5, acts[other if p == pos else k].copy())
                rec.transition()
            if not np.array_equal(np.asarray(c.state), np.asarray(a.state)):
                r, r2 = eq(a, c)[0], eq(c, a)[0]
                rec.check(not r and not r2, "entities that moved differently compare equal", kind=kind, sequence=seq, changed=pos, a=a.state, b=c.state)
        rec.trace()
        rec.state(kind, cfg, method, seq)
        rec.outcome(a.state)


class Pretender:
    """Not an entity, but with every attribute of one."""

    def __init__(self, e):
        self.__dict__["e"] = e

    def __getattr__(self, n):
        return getattr(self.__dict__["e"], n)


def others(rec):
    """Entities of different kinds sharing position, velocity and attitude, and other objects, are never equal."""
    made = {}
    for k in KINDS:
        K = zoo.KINDS[k]
        vals = dict.fromkeys(K.ctor_names, 0.0)
        rest = {n: v for n, v in vals.items()}
        if "q4" in rest:
            rest["q4"] = 1.0
        moving = dict(rest)
        for n in ("x_dot", "xdot"):
            if n in moving:
                moving[n] = 250.0
        if "v" in moving:
            moving["v"] = 250.0
            rest["v"] = 0.0
        made[k] = [K.cls(name="e", **rest), K.cls(name="e", **moving)]
    made["sun"] = [zoo.KINDS["sun"].cls(name="e"), zoo.KINDS["sun"].cls(name="e", theta=1.0)]
    for k1, k2 in itertools.product(made, repeat=2):
        if k1 == k2:
            continue
        for a, b in itertools.product(made[k1], made[k2]):
            r, n = eq(a, b)
            rec.transition()
            rec.trace()
            rec.check(not r and n, "entities of different kinds compare equal", kinds=[k1, k2], a=a.state, b=b.state)
            rec.state(k1, k2)
    for k in KINDS:
        for a in made[k]:
            for o in (None, 0, 1.0, "e", a.name, (), [], {}, object(), a.state.tolist(), type(a), a.config, a.dynamics, True, Pretender(a)):
                r, n = eq(a, o)
                rec.transition()
                rec.check(not r and n, "an entity equals something that is not an entity", kind=k, other=repr(o)[:40])
                rec.state(k, type(o).__name__)
    rec.sample({"kinds": list(made)})


def run(tier):
    th = tier == "thorough"
    sc = [("others", {})]
    for k in KINDS:
        for cfg in zoo.KINDS[k].configs:
            if cfg == "default" or th:
                for part in range(4):
                    sc.append(("pairs", dict(kind=k, cfg=cfg, part=part, parts=4)))
            for method in ("Euler", "RK45"):
                if cfg == "default" or th:
                    sc.append(("histories", dict(kind=k, cfg=cfg, method=method, depth=4 if th else 3 if method == "Euler" else 2)))
    return core.run_check("C23", sys.modules[__name__], sc, assumptions=["component differences from 0.125 down to 1e-15 (relative above 1), and down to 1e-30 from zero"])
