"""C09: a step depends only on the entity's own state, its action and the duration."""
import itertools
import sys

import numpy as np

from mc import core, lib, zoo

METHODS = ("RK45", "Euler")


def alphabet(kind, cfg, th):
    acts = zoo.mid_controls(kind, cfg)
    m = zoo.KINDS[kind].ref(cfg)
    acts = [None] + acts[1:] + ([2 * m.umax] if len(m.ctrl) else [])
    durs = (0.5, 7.0) if not th else (0.05, 0.5, 7.0)
    return [(a, T) for a in acts for T in durs]


def do(e, op):
    a, T = op
    zoo.step(e, T, None if a is None else np.array(a, float))


def result(e):
    return np.array(e.state, float), np.array(e.state_dot, float)


def same(a, b):
    return zoo.identical(a[0], b[0]) and zoo.identical(a[1], b[1])


def nearby(x):
    """States that a cache, a tolerance or a rounding could confuse with x."""
    out = []
    for d in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.4):
        out.append(x + d * (1 + np.abs(x)))
        y = x.copy()
        y[-1] += d
        out.append(y)
    out.append(-x)
    out.append(x[::-1].copy())
    return out


def replay(rec, kind, cfg, method):
    """Every state reached by action histories, restored into fresh, used, renamed and sampling entities, steps to exactly the same successor
    as in a process in which nothing else ever happened."""
    K = zoo.KINDS[kind]
    th = core._TIER == "thorough"
    ops = alphabet(kind, cfg, th)
    starts = [np.array(s, float) for s in zoo.base_states(kind, cfg)[1:]]
    # references from processes that have never stepped anything
    want = {}
    succ = {}

    def ref(i, x):
        def fn():
            out = []
            for op in ops:
                e = K.make(cfg, x, method)
                do(e, op)
                out.append(result(e))
            return out

        def one(j):
            def g():
                e = K.make(cfg, x, method)
                do(e, ops[j])
                return result(e)

            return g

        want[i] = lib.pristine(fn)
        # the first op of each table on its own, so that the table itself is not a history
        alone = lib.pristine(one(len(ops) - 1))
        rec.check(same(alone, want[i][-1]), "a step depends on entities stepped earlier", start=x, op=ops[-1], got=want[i][-1], want=alone)

    nodes = list(starts)
    frontier = list(range(len(nodes)))
    for i in frontier:
        ref(i, nodes[i])
    depth = 2 if th else 1
    for _ in range(depth):
        new = []
        for i in frontier:
            for j, op in enumerate(ops):
                x = want[i][j][0]
                if rec.state(kind, cfg, method, x):
                    nodes.append(x)
                    succ[(i, j)] = len(nodes) - 1
                    new.append(len(nodes) - 1)
                    if not th and len(new) >= 8:
                        break
        for i in new:
            ref(i, nodes[i])
        frontier = new
    rec.trace(len(nodes) * len(ops))

    used = K.make(cfg, None, method)
    for i, x in enumerate(nodes):
        m = K.ref(cfg)
        for y in nearby(x):
            # pollute: the same entity and another one, at states close to x
            if not lib.in_limits(m, y):
                y = m.clip(y)
            for e in (used, K.make(cfg, y, method)):
                e.state = y
                do(e, ops[i % len(ops)])
                rec.transition()
            for j in (i % len(ops), (i + 1) % len(ops)):
                used.state = x
                do(used, ops[j])
                rec.transition()
                rec.check(same(result(used), want[i][j]), "a step depends on an earlier step from another state", start=x, op=ops[j], near=y, got=result(used), want=want[i][j])
        for j, op in enumerate(ops):
            for mode in range(5):
                if mode == 0:
                    e = used
                    e.state = x
                elif mode == 1:
                    e = K.make(cfg, x, method, name="another name")
                elif mode == 2:
                    e = K.make(cfg, None, method)
                    do(e, ops[(j + 1) % len(ops)])
                    e.state = x
                elif mode == 3:
                    e = K.make(cfg, x, method)
                    lib.observe(e)
                    e == used  # noqa: B015
                else:
                    # restore a state that was read back from an entity
                    src = K.make(cfg, x, method)
                    e = K.make(cfg, None, method)
                    for o in ops[:2]:
                        do(src, o)
                    src.state = x
                    e.state = src.state
                do(e, op)
                rec.transition()
                rec.check(same(result(e), want[i][j]), "the same state and action do not give the same step", start=x, op=op, mode=mode, got=result(e), want=want[i][j])
                rec.outcome(e.state)
    rec.sample({"start": nodes[-1], "op": ops[0], "result": want[len(nodes) - 1][0]})


def interfere(kind, cfg, other, ocfg, b, k, method):
    """Operations on other entities (b: a live second entity)."""
    K, O = zoo.KINDS[kind], zoo.KINDS[other]
    oops = alphabet(other, ocfg, False)

    def step0():
        do(b, oops[0])

    def step1():
        do(b, oops[-1])

    def create():
        for c in O.configs:
            do(O.make(c, zoo.base_states(other, c)[1], k), oops[1 % len(oops)])

    def recreate():
        for c in K.configs:
            K.make(c, None, method, name="e")

    def query():
        lib.observe(b)

    def reconfigure():
        b.state = np.array(zoo.base_states(other, ocfg)[2], float)
        if hasattr(b, "set_sim"):
            b.set_sim(None)
        b.control_default = np.asarray(b.control_default) + 0.01
        b.control_min, b.control_max = np.asarray(b.control_min) * 0.5, np.asarray(b.control_max) * 0.5
        b.dynamics.state_min, b.dynamics.state_max = np.asarray(b.dynamics.state_min) * 0.5 - 1, np.asarray(b.dynamics.state_max) * 0.5 + 1
        if b.control_map:
            b.control_map = {"renamed " + n: i for n, i in b.control_map.items()}

    def fail():
        for bad in ("x", {"nope": 1.0}, [float("nan")] * max(1, len(O.ctrl))):
            try:
                zoo.step(b, 1.0, bad)
            except Exception:  # noqa: B902
                pass

    return [step0, step1, create, recreate, query, reconfigure, fail]


def interleave(rec, kind, cfg, method):
    """All interleavings of a two step history with one operation on another entity of any kind before, between and after."""
    K = zoo.KINDS[kind]
    ops = alphabet(kind, cfg, False)
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    hists = [(1, 2), (len(ops) - 1, 0)] if len(ops) > 2 else [(0, 1), (1, 0)]

    def solo(h):
        def fn():
            e = K.make(cfg, x0, method)
            out = []
            for j in h:
                do(e, ops[j])
                out.append(result(e))
            return out, lib.observe(e)

        return fn

    want = [lib.pristine(solo(h)) for h in hists]
    rec.trace(len(hists))
    others = [(o, c) for o in zoo.KINDS for c in zoo.KINDS[o].configs]
    for other, ocfg in others:
        if core._TIER != "thorough" and ocfg != "default" and other != kind and method == "RK45":
            continue
        for h, (w, wobs) in zip(hists, want):
            seqs = list(itertools.product(range(7), repeat=2)) if core._TIER == "thorough" or method == "Euler" and other == kind else [(i, (i + 1) % 7) for i in range(7)]
            for s in seqs:
                b = zoo.KINDS[other].make(ocfg, zoo.base_states(other, ocfg)[1], method)
                I = interfere(kind, cfg, other, ocfg, b, "Euler", method)
                e = K.make(cfg, x0, method)
                for n, j in enumerate(h):
                    if n < len(s):
                        I[s[n]]()
                    do(e, ops[j])
                    rec.transition()
                    rec.check(same(result(e), w[n]), "another entity's operations changed a step", other=other, cfg=ocfg, ops=s, history=h, step=n, got=result(e), want=w[n])
                before = result(e)
                for f in I:
                    f()
                    rec.transition()
                rec.check(same(result(e), before), "another entity's operations changed this entity", other=other, cfg=ocfg, ops=s)
                d = lib.same_obs(lib.observe(e), wobs)
                rec.check(d is None, "another entity's operations changed an observable", other=other, cfg=ocfg, ops=s, observable=d)
                rec.state(kind, cfg, method, other, ocfg, h, s)


def twins(rec, kind, cfg, method):
    """All interleavings of two histories on two entities of the same configuration, compared with the histories run alone."""
    K = zoo.KINDS[kind]
    ops = alphabet(kind, cfg, False)
    n = 3 if core._TIER == "thorough" else 2
    xs = [np.array(s, float) for s in zoo.base_states(kind, cfg)[1:3]]
    rng = range(len(ops))
    hists = [tuple((a + i) % len(ops) for i in range(n)) for a in rng]
    solo = {}
    for k, x in enumerate(xs):
        for h in hists:
            e = K.make(cfg, x, method)
            out = []
            for j in h:
                do(e, ops[j])
                out.append(result(e))
            solo[k, h] = out
    for ha, hb in itertools.product(hists, hists):
        for order in set(itertools.permutations("a" * n + "b" * n)):
            for shared in (False, True):
                E = {"a": K.make(cfg, xs[0], method), "b": K.make(cfg, xs[0] if shared else xs[1], method)}
                pos = {"a": 0, "b": 0}
                for who in order:
                    h = ha if who == "a" else hb
                    do(E[who], ops[h[pos[who]]])
                    rec.transition()
                    want = solo[0 if who == "a" or shared else 1, h][pos[who]]
                    rec.check(same(result(E[who]), want), "interleaving with a twin changed a step", who=who, order=order, histories=[ha, hb], got=result(E[who]), want=want)
                    pos[who] += 1
                rec.state(kind, cfg, method, ha, hb, order, shared)
    rec.trace(len(hists) * 2)


def siblings(rec, kind, method):
    """Entities of one class that differ in a single constructor parameter: every ordered pair steps from the same states, alternating, and each
    goes on as in a process in which the other never existed."""
    K = zoo.KINDS[kind]
    V = zoo.variants(kind)
    ops = alphabet(kind, "default", False)[1:4]
    xs = [np.array(s, float) for s in zoo.base_states(kind, "default")]
    xs += zoo.odd_states(kind, "default")[-2:]

    def solo(v):
        def fn():
            out = []
            for x in xs:
                for op in ops:
                    e = K.make("default", x, method, **V[v])
                    do(e, op)
                    out.append(result(e))
            return out, lib.observe(e)

        return fn

    want = [lib.pristine(solo(i)) for i in range(len(V))]
    distinct = sum(any(not same(a, b) for a, b in zip(want[0][0], w[0])) for w in want[1:])
    rec.maxnote("siblings that move differently", distinct)
    rec.trace(len(V))
    for i, j in itertools.permutations(range(len(V)), 2):
        n = 0
        for x in xs:
            for op in ops:
                a, b = K.make("default", x, method, **V[i]), K.make("default", x, method, **V[j])
                do(a, op)
                do(b, op)
                rec.transition(2)
                ok = rec.check(same(result(b), want[j][0][n]), "an entity with other parameters changed a step", first=sorted(V[i]), second=sorted(V[j]), start=x, op=op, got=result(b), want=want[j][0][n])
                ok = ok and rec.check(same(result(a), want[i][0][n]), "an entity with other parameters changed a step", first=sorted(V[j]), second=sorted(V[i]), start=x, op=op, got=result(a), want=want[i][0][n])
                if not ok:
                    return
                n += 1
        rec.state(kind, method, i, j)
        d = lib.same_obs(lib.observe(b), want[j][1])
        rec.check(d is None, "an entity with other parameters changed an observable", observable=d, first=sorted(V[i]), second=sorted(V[j]))
    rec.outcome(kind, method, distinct)


def model_classes():
    """{class label: (state, control, [builder of one parameter set])}: the dynamics models themselves, without an entity around them."""
    from safe_autonomy_dynamics.base_models import BaseLinearODESolverDynamics
    from safe_autonomy_dynamics.cwh.point_model import CWHDynamics, generate_cwh_matrices
    from safe_autonomy_dynamics.cwh.rotational_model import CWHRotation2dDynamics
    from safe_autonomy_dynamics.cwh.sixdof_model import SixDOFDynamics
    from safe_autonomy_dynamics.cwh.sun_model import SunDynamics
    from safe_autonomy_dynamics.dubins import Dubins2dDynamics, Dubins3dDynamics
    from safe_autonomy_dynamics.integrators import IntegratorDynamics, generate_dynamics_matrices

    def of(cls, *kws):
        return [lambda kw=kw: cls(**{k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}) for kw in kws]

    def linear(gen, *args):
        out = []
        for a in args:

            def build(a=a):
                A, B = gen(*a)
                d = BaseLinearODESolverDynamics(A=A, B=B)
                A += 100.0  # matrices handed out are the caller's
                B -= 50.0
                return d

            out.append(build)
        return out

    s = {k: np.array(zoo.base_states(k, "default")[1], float) for k in zoo.KINDS}
    u = {k: np.array(zoo.mid_controls(k, "default")[-1], float) for k in zoo.KINDS}
    lim = np.array([np.inf, np.inf, np.inf, 260.0])
    eye = np.diag([0.05, 0.2, 0.1])
    return {
        "cwh": (s["cwh"], u["cwh"], of(CWHDynamics, {}, dict(m=3.0), dict(n=0.05), dict(m=3.0, n=0.05), dict(state_max=120.0), dict(integration_method="Euler"))),
        "cwh matrices": (s["cwh"], u["cwh"], linear(generate_cwh_matrices, (12, 0.001027, "3d"), (3.0, 0.001027, "3d"), (12, 0.05, "3d"))),
        "cwh 2d": (s["int2d"], u["int2d"], linear(generate_cwh_matrices, (12, 0.001027), (3.0, 0.001027), (12, 0.05))),
        "rot2d": (s["rot2d"], u["rot2d"], of(CWHRotation2dDynamics, {}, dict(m=3.0), dict(n=0.05), dict(inertia=0.5), dict(ang_acc_limit=1e-4), dict(ang_vel_limit=1e-3), dict(angle_wrap_centers=np.array([np.nan, np.nan, 3.0, np.nan, np.nan, np.nan])))),
        "sixdof": (s["sixdof"], u["sixdof"], of(SixDOFDynamics, {}, dict(m=3.0), dict(n=0.05), dict(inertia_matrix=eye), dict(ang_vel_limit=1e-3), dict(body_frame_thrust=False))),
        "dubins2d": (s["dubins2d"], u["dubins2d"], of(Dubins2dDynamics, {}, dict(state_max=lim), dict(state_dot_max=2.0), dict(angle_wrap_centers=np.array([np.nan, np.nan, 3.0, np.nan])))),
        "dubins3d": (s["dubins3d"], u["dubins3d"], of(Dubins3dDynamics, {}, dict(g=9.8), dict(g=1.6), dict(state_dot_min=-1.0), dict(trajectory_samples=2))),
        "int1d": (s["int1d"], u["int1d"], of(IntegratorDynamics, {}, dict(m=5.0), dict(damping=0.8))),
        "int3d": (s["int3d"], u["int3d"], of(IntegratorDynamics, dict(mode="3d"), dict(m=5.0, mode="3d"), dict(damping=0.8, mode="3d"))),
        "int matrices": (s["int2d"], u["int2d"], linear(generate_dynamics_matrices, (1.0, 0.0, "2d"), (5.0, 0.0, "2d"), (1.0, 0.8, "2d"))),
        "sun": (s["sun"], u["sun"], of(SunDynamics, {}, dict(n=0.5), dict(n=-0.01))),
    }


def models(rec, label):
    """Every ordered pair of dynamics models of one class (and one of every other class): building and stepping the second in between changes
    no step of the first, nor of an entity built on the same kind."""
    M = model_classes()
    x, u, builders = M[label]

    def steps(d):
        out = []
        y = x
        for T in (0.5, 3.0):
            y, dy = lib.dstep(d, T, y, u)
            out.append((np.array(y, float), np.array(dy, float)))
        return out

    want = [lib.pristine(lambda b=b: steps(b())) for b in builders]
    rec.trace(len(want))
    others = [(label, i, b) for i, b in enumerate(builders)] + [(o, i, b) for o in M if o != label for i, b in enumerate(M[o][2])]

    def eq(a, b):
        return all(same(p, q) for p, q in zip(a, b))

    for i, build in enumerate(builders):
        for o, j, other in others:
            ox, ou = M[o][0], M[o][1]
            for when in ("before", "after", "stepped", "between"):
                rec.transition()
                b = other() if when == "before" else None
                a = build()
                got = []
                y = x
                b = b or (other() if when != "between" else None)
                if when == "stepped":
                    lib.dstep(b, 0.5, ox, ou)
                for T in (0.5, 3.0):
                    y, dy = lib.dstep(a, T, y, u)
                    got.append((np.array(y, float), np.array(dy, float)))
                    if when == "between":
                        b = other()
                        lib.dstep(b, 0.5, ox, ou)
                rec.check(eq(got, want[i]), "another model changed a step", model=label, parameters=i, other=o, other_parameters=j, when=when, got=got, want=want[i])
                if o == label:
                    rec.check(eq(steps(b), want[j]), "another model changed a step", model=label, parameters=j, other=o, other_parameters=i, when=when)
                rec.state(label, i, o, j, when)
    # entities of every kind go on as before while models are built and stepped, and after leads and partners are registered
    for kind, K in zoo.KINDS.items():
        x0 = np.array(zoo.base_states(kind, "default")[1], float)
        ops = alphabet(kind, "default", False)[:2]

        def solo():
            e = K.make("default", x0, "RK45")
            out = []
            for op in ops:
                do(e, op)
                out.append(result(e))
            return out

        w = lib.pristine(solo)
        for j, other in enumerate(builders + [None]):
            e = K.make("default", x0, "RK45")
            for n, op in enumerate(ops):
                if other is None:
                    for o2 in ("cwh", "dubins2d", "sixdof"):
                        mate = zoo.KINDS[o2].make("default", zoo.base_states(o2, "default")[2])
                        for reg in ("register_lead", "register_partner"):
                            if hasattr(e, reg):
                                getattr(e, reg)(mate)
                        zoo.step(mate, 1.0)
                else:
                    lib.dstep(other(), 0.5, x, u)
                do(e, op)
                rec.transition()
                rec.check(same(result(e), w[n]), "building another model or registering another entity changed a step", kind=kind, model=label, parameters=j, got=result(e), want=w[n])
            rec.state(kind, label, j)
    rec.outcome(label)


def buffers(rec, kind, cfg, method):
    """Callers that refill one array, list or map between steps, pass parts of one, or hand the same one to several entities: the contents at the step count."""
    import jax.numpy as jnp

    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    k = len(m.ctrl)
    vals = zoo.mid_controls(kind, cfg) + [m.umin.copy(), m.umax.copy(), 2 * m.umax + 0.5]
    x0s = [np.array(s, float) for s in zoo.base_states(kind, cfg)[1:3]]

    class Sub(np.ndarray):
        """An array of a class of its own."""

    plan = np.zeros((4, k))

    def fill(form, held, u):
        if form in ("array", "subclass", "read only"):
            held.flags.writeable = True
            held[...] = u
            if form == "read only":
                held.flags.writeable = False
            return held
        if form == "list":
            held[:] = [float(v) for v in u]
            return held
        if form == "dict":
            for n, v in zip(m.ctrl, u):
                held[n] = float(v)
            return held
        if form == "dict of arrays":
            for n, v in zip(m.ctrl, u):
                held[n][...] = v
            return held
        if form == "row":
            plan[2] = u
            return plan[2]
        if form == "column":
            held[:, 1] = u
            return held[:, 1]
        return jnp.array(u)

    forms = {
        "array": lambda: np.zeros(k), "subclass": lambda: np.zeros(k).view(Sub), "read only": lambda: np.zeros(k), "list": lambda: [0.0] * k, "dict": dict,
        "dict of arrays": lambda: {n: np.zeros(()) for n in m.ctrl}, "row": lambda: None, "column": lambda: np.zeros((k, 3)), "jax": lambda: None,
    }
    for form in forms:
        for seq in itertools.product(range(len(vals)), repeat=3):
            if form == "jax" and (seq[0] + seq[1] + seq[2]) % 7 or len(vals) ** 3 > 100 and core._TIER != "thorough" and sum(seq) % 2:
                continue
            held = forms[form]()
            E = [K.make(cfg, x, method) for x in x0s]
            F = [K.make(cfg, x, method) for x in x0s]
            for j in seq:
                act = fill(form, held, vals[j])
                for e, f in zip(E, F):
                    with zoo.quiet():
                        e.step(0.5, act)
                        f.step(0.5, jnp.array(vals[j]) if form == "jax" else vals[j].copy())
                    rec.transition(2)
                    rec.check(
                        zoo.identical(e.state, f.state) and zoo.identical(np.asarray(e.state_dot), np.asarray(f.state_dot)),
                        "a step does not use what the caller's action holds at the time", form=form, sequence=seq, at=j, command=vals[j], got=e.state, want=f.state
                    )
            rec.trace()
            rec.state(kind, cfg, method, form, seq)
            rec.outcome(E[0].state)


def late(rec, kind, cfg, method, n):
    """A long life: every one of thousands of steps is the one a much younger entity takes from the same state."""
    K = zoo.KINDS[kind]
    x0 = np.array(zoo.base_states(kind, cfg)[1], float)
    ops = [(a, T) for a in [None] + zoo.mid_controls(kind, cfg)[1:3] for T in (0.5, 0.125)]
    e = K.make(cfg, x0, method)
    y = None
    for i in range(n):
        if i % 37 == 0:  # a new one takes over at moments no round count falls on together
            y = K.make(cfg, x0, method)
        if i % 61 == 60:
            e.state = x0
        y.state = np.array(e.state, float)
        op = ops[(i + i // 7) % len(ops)]
        do(e, op)
        do(y, op)
        rec.transition(2)
        if not rec.check(same(result(e), result(y)), "an entity steps differently late in its life", kind=kind, step=i + 1, op=op, got=result(e), want=result(y)):
            break
        if i % 8 == 0:
            rec.state(kind, cfg, method, e.state)
    rec.trace()
    rec.outcome(kind, e.state)


def run(tier):
    sc = [("models", dict(label=m)) for m in ("cwh", "cwh matrices", "cwh 2d", "rot2d", "sixdof", "dubins2d", "dubins3d", "int1d", "int3d", "int matrices", "sun")]
    for k in zoo.KINDS:
        for method in METHODS:
            sc.append(("siblings", dict(kind=k, method=method)))
            n = {"Euler": 4200, "RK45": 1100}[method] * (3 if tier == "thorough" else 1)
            sc.append(("late", dict(kind=k, cfg=list(zoo.KINDS[k].configs)[0], method=method, n=n)))
        for c in zoo.KINDS[k].configs:
            for method in METHODS:
                sc.append(("replay", dict(kind=k, cfg=c, method=method)))
                if tier == "thorough" or method == "Euler" or c == "default":
                    sc.append(("interleave", dict(kind=k, cfg=c, method=method)))
                if zoo.KINDS[k].ctrl and (tier == "thorough" or method == "Euler" and c == list(zoo.KINDS[k].configs)[1]):
                    sc.append(("buffers", dict(kind=k, cfg=c, method=method)))
                if tier == "thorough" or method == "Euler":
                    sc.append(("twins", dict(kind=k, cfg=c, method=method)))
    sc.sort(key=lambda s: (s[1].get("kind", "sixdof") != "sixdof", s[1].get("method", "")))
    return core.run_check("C09", sys.modules[__name__], sc, fresh=True, assumptions=[
        "one operation of another entity per gap; equality is bit for bit; references come from processes that did nothing else",
    ])
