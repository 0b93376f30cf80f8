"""C07: a step that fails raises and leaves the entity untouched and usable; every fault point of a step is tried."""
import itertools
import math
import sys
import warnings

import numpy as np

from mc import core, lib, zoo

LAYERS = ("compute_state_dot", "state_transition_system", "state_transition_input")


class Boom(Exception):
    pass


EXC = [Boom, RuntimeError, ValueError, FloatingPointError, KeyboardInterrupt, MemoryError, StopIteration, KeyError, ArithmeticError, IndexError]


class Fault:
    """Replace one public method of a dynamics object by one that raises (or returns a number that is not finite) at its k-th call, or at calls k to last (k=0: only counts)."""

    def __init__(self, dyn, name, k, exc, last=None):
        self.dyn, self.name, self.k, self.exc, self.n, self.fired, self.last = dyn, name, k, exc, 0, False, last

    def __enter__(self):
        orig = getattr(self.dyn, self.name)

        def wrapper(*a, **kw):
            self.n += 1
            if self.n == self.k or (self.last is not None and self.k and self.k <= self.n <= self.last):
                self.fired = True
                if isinstance(self.exc, float):
                    r = np.array(orig(*a, **kw), float)
                    r.flat[-1 if self.n % 2 else 0] = self.exc
                    return r
                raise self.exc("injected")
            return orig(*a, **kw)

        setattr(self.dyn, self.name, wrapper)
        return self

    def __exit__(self, *a):
        delattr(self.dyn, self.name)
        return False


def snap(e):
    t = getattr(e.dynamics, "trajectory", None)
    return (e.state, np.array(e.state_dot, copy=True), None if t is None else np.array(t))


def attempt(fn):
    """(exception or None); anything the step raises counts, also BaseException."""
    try:
        with zoo.quiet():
            fn()
    except core.Deadline:
        raise
    except BaseException as ex:  # noqa: B902 pylint: disable=W0718
        return ex
    return None


def same_entity(e, s):
    return zoo.identical(e.state, s[0]) and zoo.identical(np.asarray(e.state_dot), s[1]) and e.state.dtype == s[0].dtype


def judge(rec, e, twin, before, ex, must_raise, **info):
    """After a failed attempt: it raised, nothing changed, and the next steps are those of a twin that never attempted it."""
    if must_raise and not rec.check(ex is not None, "a step that could not be completed raised nothing", state=e.state, **info):
        return
    if ex is None:
        return
    rec.check(same_entity(e, before), "a failed step changed the entity", before=before[:2], after=[e.state, e.state_dot], error=repr(ex), **info)
    for T in (0.3, 0.7):
        for x in (e, twin):
            zoo.step(x, T)
    ok = zoo.identical(e.state, twin.state) and zoo.identical(np.asarray(e.state_dot), np.asarray(twin.state_dot))
    rec.check(ok, "a step after a failed one differs from the step without it", got=e.state, want=twin.state, **info)
    te, tt = getattr(e.dynamics, "trajectory", None), getattr(twin.dynamics, "trajectory", None)
    rec.check((te is None) == (tt is None) and (te is None or zoo.identical(te, tt)), "the trajectory after a failed step differs", **info)
    rec.transition(3)


def preludes(kind, cfg):
    u = zoo.mid_controls(kind, cfg)[1 if len(zoo.KINDS[kind].ctrl) else 0]
    return [[], [(0.4, u)], [(0.4, u), ("fail", 2), (0.1, None)]]


def apply(e, pre, layer):
    for T, u in pre:
        if T == "fail":
            with Fault(e.dynamics, layer, u, Boom):
                attempt(lambda: e.step(0.2))
        else:
            zoo.step(e, T, None if u is None or not len(u) else np.array(u))


def points(rec, kind, cfg, method, samples):
    """Every evaluation of the model in a step fails once: each layer x each index x each history x each kind of exception (rotating)."""
    K = zoo.KINDS[kind]
    over = {"trajectory_samples": 3} if samples else {}
    u = zoo.mid_controls(kind, cfg)
    u = u[-1]
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    T = 0.5
    for layer in LAYERS:
        probe = K.make(cfg, x0, method, **over)
        if not callable(getattr(probe.dynamics, layer, None)):
            continue
        for pi, pre in enumerate(preludes(kind, cfg)):
            e = K.make(cfg, x0, method, **over)
            apply(e, pre, layer)
            with Fault(e.dynamics, layer, 0, Boom) as f:
                zoo.step(e, T, u.copy() if len(u) else None)
            total = f.n
            rec.note("fault points", total)
            for k in range(1, total + 1):
                excs = EXC if core._TIER == "thorough" else [EXC[(k + 3 * pi) % len(EXC)], EXC[4] if k % 3 == 0 else EXC[(k + 5) % len(EXC)]]
                for exc in excs:
                    e, twin = K.make(cfg, x0, method, **over), K.make(cfg, x0, method, **over)
                    apply(e, pre, layer)
                    apply(twin, [p for p in pre if p[0] != "fail"], layer)
                    before = snap(e)
                    act = u.copy() if len(u) else None
                    with Fault(e.dynamics, layer, k, exc) as f:
                        ex = attempt(lambda: e.step(T, act))
                    rec.evals += 1
                    rec.transition()
                    rec.trace()
                    if not f.fired:
                        rec.note("not reached")
                        continue
                    rec.nontrivial.add(core.canon((kind, cfg, method, layer, k, pi, exc.__name__)))
                    rec.state(kind, cfg, method, layer, k, pi)
                    rec.outcome(type(ex).__name__, k)
                    judge(rec, e, twin, before, ex, True, layer=layer, evaluation=k, of=total, exception=exc.__name__, history=pi)
                    rec.check(act is None or zoo.identical(act, u), "the action was modified by a failed step")
    rec.sample({"layers": LAYERS, "evaluations": total})


def numbers(rec, kind, cfg, method):
    """Every evaluation of a step returns a number that is not finite, once or from then on: if the step raises, the entity is as before."""
    K = zoo.KINDS[kind]
    u = zoo.mid_controls(kind, cfg)[-1]
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    T = 0.5
    for layer in LAYERS:
        probe = K.make(cfg, x0, method)
        if not callable(getattr(probe.dynamics, layer, None)):
            continue
        with Fault(probe.dynamics, layer, 0, Boom) as f:
            zoo.step(probe, T, u.copy() if len(u) else None)
        for pi, pre in enumerate(preludes(kind, cfg)[:2]):
            for k, value, last in itertools.product(range(1, f.n + 1), (math.nan, math.inf, -math.inf), (None, 10**9)):
                if k == 2 and value != value and method == "RK45":
                    continue  # the solver never returns from a step whose first derivative differs from the one it was asked before
                e, twin = K.make(cfg, x0, method), K.make(cfg, x0, method)
                apply(e, pre, layer)
                apply(twin, pre, layer)
                before = snap(e)
                with Fault(e.dynamics, layer, k, value, last):
                    try:
                        with core.time_limit(5, "step with a value that is not finite"):
                            ex = attempt(lambda: e.step(T, u.copy() if len(u) else None))
                    except core.Deadline:
                        rec.note("did not return")
                        continue
                rec.evals += 1
                rec.transition()
                rec.trace()
                rec.state(kind, cfg, method, layer, k, pi, repr(value), last)
                rec.outcome(type(ex).__name__, k)
                judge(rec, e, twin, before, ex, False, layer=layer, evaluation=k, of=f.n, value=repr(value), onwards=last is not None, history=pi)


def odd(rec, kind, cfg, method):
    """Steps that fail from states at and outside the limits, with angles turns away: first, middle and last evaluation of each layer."""
    K = zoo.KINDS[kind]
    acts = [a for a in zoo.mid_controls(kind, cfg)] if core._TIER == "thorough" else [zoo.mid_controls(kind, cfg)[-1]]
    T = 0.5
    for x0, u, layer in itertools.product(zoo.odd_states(kind, cfg), acts, LAYERS):
        e = K.make(cfg, x0, method)
        if not callable(getattr(e.dynamics, layer, None)):
            continue
        with Fault(e.dynamics, layer, 0, Boom) as f:
            zoo.step(e, T, u.copy() if len(u) else None)
        for k in sorted({1, 2, f.n // 2, f.n} & set(range(1, f.n + 1))):
            e, twin = K.make(cfg, x0, method), K.make(cfg, x0, method)
            before = snap(e)
            rec.check(zoo.identical(before[0], x0), "setting the state did not give that state", got=before[0], want=x0)
            with Fault(e.dynamics, layer, k, EXC[k % len(EXC)]) as f2:
                ex = attempt(lambda: e.step(T, u.copy() if len(u) else None))
            rec.evals += 1
            rec.transition()
            rec.trace()
            if not f2.fired:
                rec.note("not reached")
                continue
            rec.nontrivial.add(core.canon((kind, cfg, method, layer, k, tuple(x0), tuple(u))))
            rec.state(kind, cfg, method, layer, k, x0, u)
            rec.outcome(type(ex).__name__, k)
            judge(rec, e, twin, before, ex, True, layer=layer, evaluation=k, of=f.n, start=x0)
        for bad in (math.nan, "a", None):
            if method == "Euler" and bad is math.nan:
                continue
            e, twin = K.make(cfg, x0, method), K.make(cfg, x0, method)
            before = snap(e)
            ex = attempt(lambda: e.step(bad, u.copy() if len(u) else None))
            rec.transition()
            judge(rec, e, twin, before, ex, bad is math.nan, T=repr(bad), start=x0)


def stuck(n):
    """User models the solver cannot carry to the end: finite time blow-up, derivative gone NaN or infinite at or after some time."""
    one = np.ones(n)
    return {
        "blow up": (lambda t, x, u: x * x, 1.0, lambda x, t: x / (1 - x * t)),
        "nan": (lambda t, x, u: x * math.nan, 0.0, None),
        "nan one": (lambda t, x, u: np.where(np.arange(n) == n - 1, math.nan, 1.0), 0.0, None),
        "inf": (lambda t, x, u: x * 0 + math.inf, 0.0, None),
        "nan later": (lambda t, x, u: one if t < 0.3 else x * math.nan, 0.3, lambda x, t: x + t),
        "inf later": (lambda t, x, u: one if t < 0.3 else one * math.inf, 0.3, lambda x, t: x + t),
        "nan state": (lambda t, x, u: np.where(x < 1.5, 1.0, math.nan), 0.5, lambda x, t: x + t),
        "tan": (lambda t, x, u: 1 + x * x, math.pi / 4, lambda x, t: np.tan(t + np.arctan(x))),
    }


def unreachable(rec, name, samples):
    """The solver cannot reach the end of the step: exception, entity untouched; short steps of the same model complete and are right."""
    kind = "cwh"
    K = zoo.KINDS[kind]
    fn, tb, sol = stuck(6)[name]
    x0 = np.ones(6)
    for hist in ((), (0.1, ), (0.05, 0.05)):
        left = tb - sum(hist) if sol and name in ("blow up", "nan state", "tan") else tb
        if hist and tb == 0.0:
            continue
        just = 1.001 if "nan" in name or "inf" in name else 1.01  # the solver places a pole of the solution to its tolerance only
        for T in (0.02, 0.5 * left, 0.9 * left, just * left, 1.03 * left, 1.1 * left, left + 0.3, 2 * left + 1.0, 40.0, 1e-3, 1e-6):
            if T <= 0 or (T < left and T < 0.02):
                continue
            over = {"trajectory_samples": samples} if samples else {}

            def build():
                e = K.make("default", x0, "RK45")
                e.dynamics = lib.custom_ode(fn, **over)
                for h in hist:
                    zoo.step(e, h)
                return e

            e, twin = build(), build()
            before = snap(e)
            with core.time_limit(60, f"step of model '{name}'"):
                ex = attempt(lambda: e.step(T))
            rec.evals += 1
            rec.transition()
            rec.trace()
            rec.nontrivial.add(core.canon((name, hist, T, samples)))
            rec.state(name, hist, T, samples)
            rec.outcome(name, ex is None)
            if T > left * (just - 1e-6):
                rec.check(ex is not None, "a step past the end of the solution returned a state", model=name, T=T, history=hist, state=e.state)
                if ex is not None:
                    rec.check(same_entity(e, before), "a failed step changed the entity", model=name, T=T, error=repr(ex))
                    # usable afterwards: another model takes over from the same state
                    for x in (e, twin):
                        x.dynamics = K.make("default").dynamics
                        zoo.step(x, 0.5)
                    rec.check(zoo.identical(e.state, twin.state), "the entity does not continue from its state after a failed step", model=name, T=T)
            elif sol and T < left * 0.95 and T < left - 0.01:
                if rec.check(ex is None, "a step the model can complete was refused", model=name, T=T, error=repr(ex)):
                    want = sol(before[0], T)
                    rec.check(zoo.close(e.state, want, 2e-2, 1e-3), "the state returned is not the one at the end of the step", model=name, T=T, got=e.state, want=want)


def unreachable_jax(rec, name):
    """The traced integrator cannot raise: a step it could not carry to the end says so in values that are not finite."""
    import jax.numpy as jnp

    known = core.known_findings("C07")
    one, where = jnp.ones(3), jnp.where
    fn, tb, x0 = {
        "blow up": (lambda t, x, u: x * x, 1.0, 1.0),
        "nan": (lambda t, x, u: x * math.nan, 0.0, 1.0),
        "nan one": (lambda t, x, u: where(jnp.arange(3) == 2, math.nan, 1.0), 0.0, 1.0),
        "inf": (lambda t, x, u: x * 0 + math.inf, 0.0, 1.0),
        "nan later": (lambda t, x, u: where(t < 0.3, one, x * math.nan), 0.3, 1.0),
        "inf later": (lambda t, x, u: where(t < 0.3, one, one * math.inf), 0.3, 1.0),
        "nan state": (lambda t, x, u: where(x < 1.5, 1.0, math.nan), 0.5, 1.0),
        "tan": (lambda t, x, u: 1 + x * x, math.pi / 4, 1.0),
        "edge": (lambda t, x, u: 1 + jnp.sqrt(1 - x), 2 * (math.sqrt(0.5) - math.log(1 + math.sqrt(0.5))), 0.5),
    }[name]
    for hist in ((), (0.1, )):
        left = tb - sum(hist) if name in ("blow up", "nan state", "tan", "edge") else tb
        if hist and tb == 0.0:
            continue
        for T in (0.9 * left, 1.03 * left, 1.1 * left, left + 0.3, 2 * left + 1.0, 40.0):
            if T < 1e-3:
                continue
            e = zoo.KINDS["cwh"].make("default", np.full(6, x0), "RK45")
            e.dynamics = lib.custom_ode(lambda t, x, u: jnp.concatenate([fn(t, x[:3], u), jnp.zeros(3)]), integration_method="RK45_JAX", use_jax=True)
            for h in hist:
                zoo.step(e, h)
            before = snap(e)
            with core.time_limit(60, f"step of model '{name}'"):
                ex = attempt(lambda: e.step(T))
            rec.evals += 1
            rec.transition()
            rec.trace()
            rec.nontrivial.add(core.canon((name, hist, T)))
            rec.state(name, hist, T)
            rec.outcome(name, ex is None)
            if ex is not None:
                rec.check(same_entity(e, before), "a failed step changed the entity", model=name, T=T, error=repr(ex))
            told = ex is not None or not (np.all(np.isfinite(np.asarray(e.state, float))) and np.all(np.isfinite(np.asarray(e.state_dot, float))))
            if T > left:
                key = f"jax/{name.replace(' ', '-')}"
                if not told and key in known:
                    rec.known.append((key, known[key][1]))
                    continue
                rec.check(told, "a step past the end of the solution returned an ordinary state and derivative", model=name, T=T, history=hist, state=e.state, state_dot=e.state_dot, key=key)
            else:
                rec.check(not told, "a step the model can complete was not completed", model=name, T=T, history=hist, state=e.state, error=repr(ex))


def durations(rec, kind):
    """Durations and arguments no step can be made of."""
    K = zoo.KINDS[kind]
    x0 = np.array(zoo.base_states(kind, "default")[1], float)
    u = zoo.mid_controls(kind, "default")[-1]
    k = len(K.ctrl)
    bad = [(math.nan, None, True), (math.inf, None, True), ("a", None, False), (None, None, False), ([1, 2], None, False)]
    if k:
        bad += [(0.5, {"no_such": 0.1}, True), (0.5, {K.ctrl[0]: 0.1, "no_such": 0.1}, True), (0.5, {K.ctrl[-1]: 0.2, "": 1}, True), (0.5, "abc", True),
                (0.5, 3.0, True), (0.5, (0.1, ) * k, True), (0.5, {0.1}, True), (0.5, object(), True), (0.5, [math.nan] * k, True), (0.5, {K.ctrl[0]: math.nan}, True),
                (0.5, np.full(k, math.nan), True), (0.5, np.zeros(k + 1), False), (0.5, np.zeros(k + 2), False), (0.5, ["x"] * k, True), (0.5, {K.ctrl[0]: "x"}, True),
                (0.5, {K.ctrl[0]: [0.1, 0.2]}, True), (0.5, [None] * k, True), (0.5, {K.ctrl[-1]: None}, False), (0.5, np.zeros((2, k + 1)), False)]
    for method in ("RK45", "Euler"):
        for T, a, must in bad:
            if isinstance(T, float) and not math.isfinite(T) and method == "Euler":
                continue  # an Euler update of non finite length is defined, if useless
            for pre in ([], [(0.4, u)]):
                e, twin = K.make("default", x0, method), K.make("default", x0, method)
                apply(e, pre, LAYERS[0])
                apply(twin, pre, LAYERS[0])
                before = snap(e)
                with core.time_limit(30, f"step({T!r}, {a!r})"):
                    ex = attempt(lambda: e.step(T, a))
                rec.evals += 1
                rec.transition()
                rec.trace()
                rec.nontrivial.add(core.canon((kind, method, repr(T), repr(a)[:40], len(pre))))
                rec.state(kind, method, repr(T), repr(a)[:30], len(pre))
                rec.outcome(type(ex).__name__)
                judge(rec, e, twin, before, ex, must, T=repr(T), action=repr(a), method=method)


def warned(rec, kind, cfg, method):
    """Programs that turn warnings into errors: a step stopped by one leaves the entity untouched and usable like any other that fails."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    umax = np.where(np.isfinite(m.umax), m.umax, 1e9)
    acts = [umax * 1.5 + 1, umax + 1e-3]
    for i in range(k):
        u = np.zeros(k)
        u[i] = (m.umin[i] if np.isfinite(m.umin[i]) else -1e9) * 2 - 0.5
        acts.append(u)
    acts.append(zoo.mid_controls(kind, cfg)[-1])
    starts = list(zoo.base_states(kind, cfg)[1:]) + list(zoo.odd_states(kind, cfg))[:6]
    for x0, u, form, pre in itertools.product(starts, acts, ("array", "list", "dict"), preludes(kind, cfg)):
        over = {"trajectory_samples": 3} if K.samples and method == "RK45" else {}
        e, twin = K.make(cfg, x0, method, **over), K.make(cfg, x0, method, **over)
        apply(e, pre, LAYERS[0])
        apply(twin, [p for p in pre if p[0] != "fail"], LAYERS[0])
        before = snap(e)
        act = {"array": u.copy(), "list": list(map(float, u)), "dict": dict(zip(m.ctrl, map(float, u)))}[form]

        def go():
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                e.step(0.5, act)

        ex = None
        try:
            go()
        except core.Deadline:
            raise
        except BaseException as err:  # noqa: B902 pylint: disable=W0718
            ex = err
        rec.evals += 1
        rec.transition()
        rec.trace()
        rec.state(kind, cfg, method, x0, u, form, len(pre))
        rec.outcome(type(ex).__name__)
        if ex is None:
            # nothing to warn of, or nothing said: the step then is the ordinary one
            zoo.step(twin, 0.5, u.copy())
            rec.check(
                zoo.identical(e.state, twin.state) and zoo.identical(np.asarray(e.state_dot), np.asarray(twin.state_dot)),
                "a step differs when warnings are errors", got=e.state, want=twin.state, action=u, form=form
            )
            continue
        rec.nontrivial.add(core.canon((kind, cfg, method, tuple(x0), tuple(u), form, len(pre))))
        judge(rec, e, twin, before, ex, True, action=u, form=form, why="warnings are errors")


def model_object(rec, method, n):
    """A dynamics model used directly: arguments survive a failing step, and the model works as new afterwards."""
    log = {"n": 0, "k": 0}

    def fn(t, x, u):
        log["n"] += 1
        if log["n"] == log["k"]:
            raise Boom("injected")
        xp = np if isinstance(x, np.ndarray) else __import__("jax.numpy").numpy
        return xp.asarray(-0.5 * x + u)

    jax = method == "RK45_JAX"
    dyn, fresh = lib.custom_ode(fn, integration_method=method, use_jax=jax), lib.custom_ode(fn, integration_method=method, use_jax=jax)
    x, u = np.linspace(-1, 2, n), np.linspace(0.5, -0.5, n)
    log.update(n=0, k=0)
    want = lib.dstep(fresh, 1.5, x, u)
    total = log["n"]
    for k in range(1, total + 1):
        xa, ua = x.copy(), u.copy()
        log.update(n=0, k=k)
        ex = attempt(lambda: dyn.step(1.5, xa, ua))
        fired = log["n"] >= k
        log.update(n=0, k=0)
        rec.evals += 1
        rec.transition()
        rec.trace()
        rec.nontrivial.add(core.canon((method, n, k)))
        rec.state(method, n, k)
        if not fired:
            rec.note("not reached")
            continue
        rec.check(ex is not None, "a failing model evaluation was swallowed", evaluation=k, of=total)
        rec.check(zoo.identical(xa, x) and zoo.identical(ua, u), "a failing step modified its arguments", evaluation=k)
        got = lib.dstep(dyn, 1.5, x, u)
        rec.check(zoo.identical(got[0], want[0]) and zoo.identical(got[1], want[1]), "a model that failed once steps differently afterwards", evaluation=k, got=got, want=want)


def run(tier):
    sc = []
    for k in zoo.KINDS:
        for c in list(zoo.KINDS[k].configs)[:None if tier == "thorough" else 2]:
            for method in ("RK45", "Euler"):
                sc.append(("points", dict(kind=k, cfg=c, method=method, samples=False)))
                sc.append(("numbers", dict(kind=k, cfg=c, method=method)))
                if method == "RK45" or tier == "thorough":
                    sc.append(("odd", dict(kind=k, cfg=c, method=method)))
            if zoo.KINDS[k].samples and (c == "default" or tier == "thorough"):
                sc.append(("points", dict(kind=k, cfg=c, method="RK45", samples=True)))
            if zoo.KINDS[k].ctrl:
                for method in ("RK45", "Euler"):
                    sc.append(("warned", dict(kind=k, cfg=c, method=method)))
        sc.append(("durations", dict(kind=k)))
    for name in stuck(1):
        for s in (0, 4):
            sc.append(("unreachable", dict(name=name, samples=s)))
    sc += [("unreachable_jax", dict(name=n)) for n in ("blow up", "nan", "nan one", "inf", "nan later", "inf later", "nan state", "tan", "edge")]
    for method in ("RK45", "Euler", "RK45_JAX"):
        for n in (1, 3):
            sc.append(("model_object", dict(method=method, n=n)))
    sc.sort(key=lambda s: (s[1].get("method") != "RK45_JAX" and s[0] != "unreachable_jax", s[1].get("kind") != "sixdof", s[1].get("method") != "RK45"))
    return core.run_check("C07", sys.modules[__name__], sc, level="fault_enumeration", rule=(
        "one run per (kind, configuration, method, model method, evaluation index, history, exception type); distinct by that tuple; counted only when the fault "
        "fired or the step was impossible by construction"
    ), assumptions=["faults are exceptions at model evaluations, impossible arguments, and models whose solution ends inside the step"])
