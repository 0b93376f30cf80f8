"""C02: named, list and array actions are equivalent; every name drives its own channel; bad actions are rejected."""
import collections
import itertools
import sys

import numpy as np

from mc import core, zoo

VEH = [k for k in zoo.KINDS if k != "sun"]


def orders(names):
    if len(names) <= 4:
        return list(itertools.permutations(names))
    return [tuple(names), tuple(reversed(names)), tuple(names[3:] + names[:3]), tuple(names[1::2] + names[0::2])]


def channels(rec, kind, cfg, method, T):
    """All subsets of actuators x all key orders x all encodings, against the reference model's channel assignment."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    states = zoo.base_states(kind, cfg)[:2]
    vals = [zoo.mid_controls(kind, cfg)[1], zoo.mid_controls(kind, cfg)[2]]
    for x0 in states:
        x0 = np.array(x0, float)
        for val in vals:
            for r in range(0, k + 1):
                for sub in itertools.combinations(range(k), r):
                    u = np.zeros(k)
                    for i in sub:
                        u[i] = val[i]
                    base = K.make(cfg, x0, method)
                    zoo.step(base, T, u.copy())
                    ws, wd = base.state, np.array(base.state_dot)
                    if method == "Euler":
                        want = m.finish(x0 + T * m.limited(x0, u))
                        tol = 2e-6 * (np.abs(x0) + T * m.fmag(x0, u)) + 1e-9
                        rec.check(
                            np.all(np.abs(m.angle_diff(ws, want)) <= tol), "array command does not act on the documented channels", command=u,
                            got=ws, want=want
                        )
                    rec.state(kind, cfg, list(x0), list(u))
                    acts = [("list", [float(v) for v in u]), ("pylist", u.tolist()), ("array", u.copy())]
                    for o in orders([m.ctrl[i] for i in sub]):
                        acts.append((f"dict{o}", {n: float(u[m.ctrl.index(n)]) for n in o}))
                    some = [(m.ctrl[i], float(u[i])) for i in sub]
                    acts += [("ordered", collections.OrderedDict(some)), ("defaults", collections.defaultdict(lambda: 0.5, some)), ("own dict", Named(some)), ("own list", Listed(float(v) for v in u)), ("own array", u.copy().view(Arrayed))]
                    if r == 0:
                        acts.append(("none", None))
                    if r < k:
                        full = {n: float(u[i]) for i, n in enumerate(m.ctrl)}
                        acts.append(("fulldict", full))
                        acts.append(("rfulldict", dict(reversed(list(full.items())))))
                    for label, act in acts:
                        e = K.make(cfg, x0, method)
                        with zoo.quiet() as q:
                            e.step(T, act)
                        rec.transition()
                        rec.trace()
                        rec.check(
                            zoo.same(e.state, ws) and zoo.same(e.state_dot, wd), "the same command in another form gives another step", form=label,
                            command=u, got=e.state, want=ws
                        )
                        rec.check(not q.user, "warning for an admissible command", form=label, command=u)
                        rec.check(zoo.identical(e.control_default, np.zeros(k)), "the default command was modified", form=label)
                        # and the command does not stick: the following neutral step is that of a fresh entity
                        s1 = e.state
                        zoo.step(e, T)
                        f = K.make(cfg, s1, method)
                        zoo.step(f, T)
                        rec.check(zoo.same(e.state, f.state), "a command outlives its step", form=label, command=u)
                    rec.outcome(list(ws))
    # the name map itself
    e = K.make(cfg, states[0], method)
    rec.check(set(e.control_map) == set(m.ctrl) and sorted(e.control_map.values()) == list(range(k)), "actuator names are not mapped one to one", got=dict(e.control_map))
    # one actuator at a time: which derivative it moves
    for i, n in enumerate(m.ctrl):
        x0 = np.array(states[0], float)
        e, z = K.make(cfg, x0, "Euler"), K.make(cfg, x0, "Euler")
        zoo.step(e, T, {n: float(vals[0][i])})
        zoo.step(z, T)
        moved = [m.names[j] for j in range(len(m.names)) if abs(e.state[j] - z.state[j]) > 1e-12]
        u = np.zeros(k)
        u[i] = vals[0][i]
        want = [m.names[j] for j in range(len(m.names)) if abs(m.f(x0, u)[j] - m.f(x0, u * 0)[j]) > 1e-12]
        rec.check(moved == want, "actuator moves the wrong state component", actuator=n, moved=moved, want=want)
    rec.sample({"command": vals[0], "forms": "all subsets x key orders x encodings"})


class Weird:
    pass


class Named(dict):
    """a user's mapping"""


class Listed(list):
    """a user's list"""


class Arrayed(np.ndarray):
    """a user's array"""


def rejected(rec, kind, cfg, method):
    """Unknown names at every position of the map, and unsupported types: rejected, nothing changed, still usable."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    good = dict(zip(m.ctrl, [float(v) for v in zoo.mid_controls(kind, cfg)[1]]))
    bad_names = ["bogus", "", "thrust", m.ctrl[0].upper(), m.ctrl[0] + " ", "thrust_w", "x", 0, None, ("thrust_x", )]
    bad_names += [n for KK in zoo.KINDS.values() for n in KK.ctrl if n not in m.ctrl]
    cases = []
    for b in dict.fromkeys(bad_names):
        for pos in range(k + 1):
            items = list(good.items())
            items.insert(pos, (b, 0.1))
            cases.append((KeyError, dict(items)))
        cases.append((KeyError, {b: 0.0}))
    u = [float(v) for v in good.values()]
    for t in (tuple(u), "thrust_x", b"ab", 1, 0.5, True, set(u), frozenset(u), Weird(), iter(u), range(k), (v for v in u), np.float64(0.5), complex(0, 1)):
        cases.append((ValueError, t))
    # more elements than actuators: no command at all
    for extra in (1, 2, k, 10):
        long = u + [u[i % k] for i in range(extra)]
        cases += [(Exception, long), (Exception, np.array(long)), (Exception, np.zeros(k + extra)), (Exception, [0.0] * (k + extra)), (Exception, np.array(long, dtype=np.float32))]
    # a value for one actuator is one number
    for n in (m.ctrl[0], m.ctrl[-1]):
        for v in ([0.1, 0.2], (0.1, 0.2), [0.1] * 3, np.array([0.1, 0.2]), [0.0, 0.0], "a", "", complex(0, 1), {}, Weird(), [[0.1, 0.2]], np.zeros((2, 2)), [], np.zeros(0)):
            cases += [(Exception, {n: v}), (Exception, {**good, n: v}), (Exception, {n: v, **{o: w for o, w in good.items() if o != n}})]
    prev = K.make(cfg, x0, method)
    zoo.step(prev, 0.5, good)
    s, d = prev.state, np.array(prev.state_dot)
    follow = K.make(cfg, x0, method)
    zoo.step(follow, 0.5, good)
    zoo.step(follow, 0.25, None)
    for exc, act in cases:
        e = K.make(cfg, x0, method)
        zoo.step(e, 0.5, good)
        raised = None
        try:
            zoo.step(e, 0.25, act)
        except Exception as ex:  # noqa: B902
            raised = ex
        rec.transition()
        rec.trace()
        rec.state(kind, cfg, repr(act)[:90] if not isinstance(act, Weird) else "weird")
        rec.check(isinstance(raised, exc), f"{exc.__name__} expected", action=repr(act), raised=repr(raised))
        rec.check(zoo.identical(e.state, s) and zoo.identical(e.state_dot, d), "a rejected action changed the entity", action=repr(act), got=e.state, want=s)
        zoo.step(e, 0.25, None)
        rec.check(zoo.same(e.state, follow.state), "the step after a rejected action differs", action=repr(act), got=e.state, want=follow.state)
        rec.outcome(type(raised).__name__)


NUMBERS = [("int 0", 0), ("int 1", 1), ("int -1", -1), ("true", True), ("false", False), ("float", 0.25), ("float32", np.float32(-0.1)), ("int64", np.int64(1)), ("int8", np.int8(-1)),
           ("float64", np.float64(0.03125)), ("minus zero", -0.0), ("zero dim", np.array(0.0625)), ("denormal", 5e-324)]


def numbers(rec, kind, cfg, method):
    """Every mixture of number types in a list or map is the command of its values; arrays of other number types too."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    if k <= 2:
        combos = list(itertools.product(NUMBERS, repeat=k))
    else:
        combos = []
        for i, j in (itertools.permutations if core._TIER == "thorough" or k == 3 else itertools.combinations)(range(k), 2):
            for a, b in itertools.product(NUMBERS, repeat=2):
                c = [NUMBERS[(i + j) % 2 * 5]] * k
                c[i], c[j] = a, b
                combos.append(tuple(c))
    for c in combos:
        u = np.array([float(v) for _, v in c])
        base = zoo.step(K.make(cfg, x0, method), 0.5, u)
        acts = [("list", [v for _, v in c]), ("map", {n: v for n, (_, v) in zip(m.ctrl, c)}), ("reversed map", {n: v for n, (_, v) in reversed(list(zip(m.ctrl, c)))})]
        if all(float(v) == int(v) for _, v in c):
            acts += [("int array", np.array([int(v) for _, v in c])), ("int8 array", np.array([int(v) for _, v in c], dtype=np.int8))]
        if all(float(np.float32(v)) == float(v) for _, v in c):
            acts.append(("float32 array", u.astype(np.float32)))
        acts += [("strided", np.repeat(u, 3)[::3]), ("big endian", u.astype(">f8"))]
        ro = u.copy()
        ro.flags.writeable = False
        acts.append(("read only", ro))
        for label, act in acts:
            e = zoo.step(K.make(cfg, x0, method), 0.5, act)
            rec.transition()
            rec.trace()
            rec.check(
                zoo.same(e.state, base.state) and zoo.same(e.state_dot, base.state_dot), "the same command given with other number types is another step", form=label,
                types=[n for n, _ in c], command=u, got=e.state, want=base.state
            )
        rec.state(kind, cfg, *[n for n, _ in c])
        rec.outcome(list(base.state))


def sequences(rec, kind, cfg, method, depth):
    """All sequences of partial name maps (every subset of actuators): actuators not named are at their default in every step."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    vals = zoo.mid_controls(kind, cfg)[1]
    letters = [("none", None, np.zeros(k))]
    for r in range(k + 1):
        for sub in itertools.combinations(range(k), r):
            u = np.zeros(k)
            u[list(sub)] = vals[list(sub)]
            letters.append(("map" + "".join(map(str, sub)), {m.ctrl[i]: float(vals[i]) for i in sub}, u))
    letters += [("list", [float(v) for v in -vals * 0.5], -vals * 0.5), ("array", vals * 0.25, vals * 0.25)]
    for seq in itertools.product(letters, repeat=depth):
        e, f = K.make(cfg, x0, method), K.make(cfg, x0, method)
        for n, act, u in seq:
            zoo.step(e, 0.5, act)
            zoo.step(f, 0.5, u.copy())
            rec.transition()
        rec.trace()
        rec.state(kind, cfg, *[n for n, _, _ in seq])
        rec.check(zoo.same(e.state, f.state), "a sequence of name maps is another history than the same commands in full", sequence=[n for n, _, _ in seq], got=e.state, want=f.state)


def defaults(rec, kind, cfg, method):
    """Default commands of an entity's own (any number type, not neutral): every subset of names overrides its channels and no other, every order."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    vals, other = zoo.mid_controls(kind, cfg)[1:3]
    whole = np.where(m.umax >= 1, 1, 0)
    for label, d in (("float", other * 0.5), ("integer", whole), ("int8", whole.astype(np.int8)), ("float32", (other * 0.5).astype(np.float32)), ("zeros", np.zeros(k, dtype=int)), ("bool", whole.astype(bool))):
        d64 = d.astype(float)
        for r in range(k + 1):
            for sub in itertools.combinations(range(k), r):
                u = d64.copy()
                u[list(sub)] = vals[list(sub)]
                acts = [{m.ctrl[i]: float(vals[i]) for i in o} for o in (sub, sub[::-1])] + ([None] if r == 0 else [])
                for act in acts:
                    e, f = K.make(cfg, x0, method), K.make(cfg, x0, method)
                    e.control_default = d.copy()
                    for _ in range(2):
                        zoo.step(e, 0.5, act)
                        zoo.step(f, 0.5, u.copy())
                        rec.transition()
                    rec.trace()
                    rec.check(zoo.same(e.state, f.state) and zoo.same(e.state_dot, f.state_dot), "actuators not named do not keep their default, or named ones do not take their value", default=d, type=label, action=act, got=e.state, want=f.state)
                    rec.check(e.control_default.dtype == d.dtype and zoo.identical(e.control_default, d), "the default command was modified", default=d, action=act, got=e.control_default)
                rec.state(kind, cfg, method, label, sub)


def nomap(rec):
    """Entities without any actuator (the sun): maps are rejected, empty commands accepted."""
    K = zoo.KINDS["sun"]
    for cfg in K.configs:
        for act in ({}, {"thrust_x": 1.0}):
            e = K.make(cfg, [1.5])
            raised = None
            try:
                zoo.step(e, 1.0, act)
            except Exception as ex:  # noqa: B902
                raised = ex
            rec.transition()
            if act:
                rec.check(raised is not None, "named command accepted without an actuator map")
                rec.check(zoo.identical(e.state, [1.5]), "a rejected action changed the entity")
        for act in (None, [], np.array([])):
            e = K.make(cfg, [1.5])
            zoo.step(e, 1.0, act)
            rec.transition()
            rec.trace()
            rec.state(cfg, repr(act))
            rec.check(zoo.close(e.state, [1.5 + K.ref(cfg).n], 1e-7, 1e-9), "the sun does not advance", got=e.state)


def jaxforms(rec, kind, cfg, use_jax, method):
    """jax arrays are accepted in place of numpy arrays."""
    import jax.numpy as jnp

    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    over = {"use_jax": True} if use_jax else {}
    for x0 in zoo.base_states(kind, cfg)[:2]:
        x0 = np.array(x0, float)
        for u in zoo.mid_controls(kind, cfg):
            e = K.make(cfg, None, method, **over)
            f = K.make(cfg, None, method, **over)
            e.state = x0
            f.state = x0
            with zoo.quiet() as q:
                e.step(0.5, jnp.array(u))
            zoo.step(f, 0.5, u)
            rec.transition()
            rec.trace()
            rec.state(kind, cfg, list(x0), list(u))
            rec.check(zoo.close(e.state, f.state, 2e-6, 1e-6), "jax array command gives another step", command=u, got=e.state, want=f.state)
            rec.check(not q.user, "warning for an admissible jax array command", command=u)
            e = K.make(cfg, None, method, **over)
            e.state = x0
            f = K.make(cfg, None, method, **over)
            f.state = x0
            with zoo.quiet() as q:
                e.step(0.5, jnp.array(m.umax * 2 + 1))
            zoo.step(f, 0.5, m.umax)
            rec.check(zoo.close(e.state, f.state, 2e-6, 1e-6) and bool(q.user), "jax array command is not saturated with a warning", got=e.state, want=f.state)
            rec.transition()


def run(tier):
    sc = []
    for k in VEH:
        for c in zoo.KINDS[k].configs:
            sc.append(("channels", dict(kind=k, cfg=c, method="Euler", T=0.5)))
            sc.append(("rejected", dict(kind=k, cfg=c, method="Euler")))
            if tier == "thorough":
                sc.append(("channels", dict(kind=k, cfg=c, method="RK45", T=0.5)))
                sc.append(("rejected", dict(kind=k, cfg=c, method="RK45")))
                sc.append(("channels", dict(kind=k, cfg=c, method="Euler", T=0.01)))
        if tier == "quick" and k != "sixdof":
            sc.append(("channels", dict(kind=k, cfg=list(zoo.KINDS[k].configs)[1], method="RK45", T=0.5)))
            sc.append(("rejected", dict(kind=k, cfg="default", method="RK45")))
        c = list(zoo.KINDS[k].configs)[1]
        sc.append(("numbers", dict(kind=k, cfg=c, method="Euler")))
        sc.append(("defaults", dict(kind=k, cfg=c, method="Euler")))
        if k != "sixdof" or tier == "thorough":
            sc.append(("defaults", dict(kind=k, cfg="default", method="RK45")))
        if tier == "thorough":
            sc.append(("numbers", dict(kind=k, cfg="default", method="RK45")))
            sc.append(("sequences", dict(kind=k, cfg="default", method="RK45", depth=2 if k != "sixdof" else 1)))
        sc.append(("sequences", dict(kind=k, cfg=c, method="Euler", depth={"sixdof": 2}.get(k, 4 if len(zoo.KINDS[k].ctrl) < 3 else 3))))
        sc.append(("jaxforms", dict(kind=k, cfg=c, use_jax=False, method="Euler")))
        if k == "rot2d":
            sc.append(("jaxforms", dict(kind=k, cfg=c, use_jax=True, method="Euler")))
    sc.append(("nomap", {}))
    sc.sort(key=lambda s: (s[0] != "jaxforms", s[1].get("kind") != "sixdof"))
    return core.run_check("C02", sys.modules[__name__], sc, assumptions=["one generic and its mirrored command level per actuator; all subsets of actuators; all key orders up to 4 names"])
