"""C24: relative position and velocity follow the current states and the currently registered simulation."""
import itertools
import math
import sys

import numpy as np

from mc import core, lib, zoo

KINDS = ("cwh", "rot2d", "sixdof")


class Sim:
    """A simulation as the spacecraft see it: entities by name."""

    def __init__(self, **entities):
        self.sim_entities = dict(entities)


def pos(kind, s):
    m = zoo.KINDS[kind].ref("default")
    return np.array([s[m.names.index(n)] if n in m.names else 0.0 for n in ("x", "y", "z")], float)


def vel(kind, s):
    m = zoo.KINDS[kind].ref("default")
    return np.array([s[m.names.index(n)] if n in m.names else 0.0 for n in ("x_dot", "y_dot", "z_dot")], float)


def near(got, want):
    got = np.asarray(got, float)
    return got.shape == (3, ) and bool(np.all(np.abs(got - want) <= 1e-13 * np.abs(want) + 1e-30))


def grid(kind):
    out = [np.array(s, float) for s in zoo.base_states(kind, "default")]
    m = zoo.KINDS[kind].ref("default")
    for i, n in enumerate(m.names):
        if n in ("x", "y", "z", "x_dot", "y_dot", "z_dot"):
            for v in (1.0, -3e4):
                s = out[0].copy()
                s[i] = v
                out.append(s)
    for f in (1 / 3, -math.pi * 1e3, 1.23456789012e-7, 1.1e-10, -8729.12345678e3, 1.3e9):  # values with no short decimal or binary form, in every component
        s = out[1].copy()
        for i, n in enumerate(m.names):
            if n in ("x", "y", "z", "x_dot", "y_dot", "z_dot"):
                s[i] = f * math.sqrt(i + 2)
        out.append(s)
    for i, n in enumerate(m.names):  # a hair's breadth from another state of the grid
        if n in ("x", "y_dot", "x_dot"):
            s = out[1].copy()
            s[i] += 1e-10 * max(1.0, abs(s[i]))
            out.append(s)
    if kind == "rot2d":
        s = out[1].copy()
        s[2] = 3.0
        out.append(s)
    if kind == "sixdof":
        s = out[1].copy()
        s[3:7] = zoo.unit([1, 0, 0, 1])
        out.append(s)
    return out


def values(rec, k1, k2):
    """All pairs of states of two kinds: difference, antisymmetry; all are independent of attitude; results do not alias states."""
    G1, G2 = grid(k1), grid(k2)
    a, b = zoo.KINDS[k1].make("default", G1[0], name="a"), zoo.KINDS[k2].make("default", G2[0], name="b")
    sim = Sim(a=a, b=b)
    a.set_sim(sim)
    b.set_sim(sim)
    for i, (s1, s2) in enumerate(itertools.product(G1, G2)):
        a.state, b.state = s1.copy(), s2.copy()
        # relative values are the same whether or not (and whichever way round) one is registered as the other's lead
        for e, lead in ((a, (None, b, None, a)[i % 4]), (b, (None, None, a, b)[i // 2 % 4])):
            if hasattr(e, "register_lead"):
                e.register_lead(lead)
        for fn, f in (("entity_relative_position", pos), ("entity_relative_velocity", vel)):
            want = f(k2, s2) - f(k1, s1)
            ab, ba = getattr(a, fn)("b"), getattr(b, fn)("a")
            rec.transition(2)
            rec.check(near(ab, want), "relative value is not the other entity's minus the own", fn=fn, kinds=[k1, k2], own=s1, other=s2, got=ab, want=want)
            rec.check(near(ba, -want), "relative value is not antisymmetric", fn=fn, kinds=[k1, k2], own=s2, other=s1, got=ba, want=-want)
            rec.check(near(getattr(a, fn)("a"), np.zeros(3)), "relative value with respect to itself is not zero", fn=fn, kind=k1, state=s1)
            for v in (ab, ba):
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v += 77.0
            rec.check(zoo.identical(a.state, s1) and zoo.identical(b.state, s2), "a relative value's array shares memory with a state", fn=fn, kinds=[k1, k2])
            rec.check(near(getattr(a, fn)("b"), want), "writing to a returned relative value changes later results", fn=fn, kinds=[k1, k2])
        rec.trace()
        rec.state(k1, k2, s1, s2)
        rec.outcome(k1, k2, np.sign(pos(k2, s2) - pos(k1, s1)))


def others(rec, kind):
    """Targets of every other kind of entity; unknown names; no simulation."""
    for st in grid(kind)[:4]:
        a = zoo.KINDS[kind].make("default", st, name="a")
        targets = {k: zoo.KINDS[k].make("default", zoo.base_states(k, "default")[1], name=k) for k in ("dubins2d", "dubins3d", "int3d", "cwh", "rot2d", "sixdof")}
        sim = Sim(a=a, **targets)
        a.set_sim(sim)
        for k, e in targets.items():
            if np.shape(e.position) != (3, ):
                continue
            want = np.asarray(e.position, float) - pos(kind, st)
            got = a.entity_relative_position(k)
            rec.transition()
            rec.check(near(got, want), "relative position to another kind of entity is wrong", kind=kind, target=k, got=got, want=want)
            if np.shape(e.velocity) == (3, ):
                want = np.asarray(e.velocity, float) - vel(kind, st)
                got = a.entity_relative_velocity(k)
                rec.transition()
                rec.check(near(got, want), "relative velocity to another kind of entity is wrong", kind=kind, target=k, got=got, want=want)
            rec.state(kind, k, st)
        for bad in ("", "A", "nobody", "b", "a ", None, 0):
            for fn in ("entity_relative_position", "entity_relative_velocity"):
                try:
                    r = getattr(a, fn)(bad)
                    rec.fail("an unknown entity name is accepted", kind=kind, name=repr(bad), got=r)
                except Exception:  # pylint: disable=W0718
                    pass
                rec.transition()
                rec.state(kind, fn, repr(bad))
        rec.check(zoo.identical(a.state, st), "a rejected name changed the state", kind=kind)
        lone = zoo.KINDS[kind].make("default", st, name="a")
        for fn in ("entity_relative_position", "entity_relative_velocity"):
            try:
                r = getattr(lone, fn)("a")
                rec.fail("a relative value is reported without a simulation", kind=kind, got=r)
            except Exception:  # pylint: disable=W0718
                pass
        given = zoo.KINDS[kind].make("default", st, name="a", sim=sim)
        got = given.entity_relative_position("cwh")
        rec.check(near(got, np.asarray(targets["cwh"].position, float) - pos(kind, st)), "the simulation given to the constructor is not used", kind=kind, got=got)
        rec.trace()
    rec.outcome(kind)


OPS = ("step a", "step b", "step c", "set b", "build", "sim a", "sim b", "swap", "replace", "drop", "lead", "late", "query")


class World:
    """Three spacecraft in two simulations, and a model of which entity each name means to whom."""

    def __init__(self, kinds):
        self.kinds = dict(zip("abc", kinds))
        self.e = {n: zoo.KINDS[k].make("default", np.array(zoo.base_states(k, "default")[1 + i % 2], float) * 1.0, method="Euler", name=n) for i, (n, k) in enumerate(self.kinds.items())}
        self.sims = [Sim(**self.e), Sim(a=self.e["a"], b=self.e["c"]), Sim()]
        self.names = [{"a": "a", "b": "b", "c": "c"}, {"a": "a", "b": "c"}, {}]
        self.of = {"a": 0, "b": 0, "c": 0}
        for e in self.e.values():
            e.set_sim(self.sims[0])
        self.n = 0

    def op(self, o):
        self.n += 1
        w, _, who = o.partition(" ")
        if w == "step":
            zoo.step(self.e[who], 1.0, zoo.mid_controls(self.kinds[who], "default")[1].copy())
        elif w == "set":
            s = np.array(self.e[who].state, float)
            s[:2] += 10.0 * self.n
            self.e[who].state = s
        elif w == "build":  # a new spacecraft takes the place of c in the first simulation
            k = self.kinds["c"]
            self.e["c"] = zoo.KINDS[k].make("default", np.array(zoo.base_states(k, "default")[2], float), method="Euler", name="c")
            self.e["c"].set_sim(self.sims[0])
            self.of["c"] = 0
            for s, names in zip(self.sims, self.names):
                for n, v in names.items():
                    if v == "c":
                        s.sim_entities[n] = self.e["c"]
        elif w == "sim":
            self.of[who] = {0: 1, 1: 0, 2: 0}[self.of[who]]
            self.e[who].set_sim(self.sims[self.of[who]])
        elif w == "swap":  # two names change places
            d, m = self.sims[0].sim_entities, self.names[0]
            if "b" in m and "c" in m:
                d["b"], d["c"] = d["c"], d["b"]
                m["b"], m["c"] = m["c"], m["b"]
        elif w == "replace":  # the simulation's table is replaced
            i = 0
            self.sims[i].sim_entities = dict(self.sims[i].sim_entities)
            self.sims[i].sim_entities["d"] = self.e["c"]
            self.names[i]["d"] = "c"
        elif w == "lead":  # others that bear the names of the simulation's entities are registered for the spacecraft's own purposes
            for n, e in self.e.items():
                for name in "abc":
                    if name != n:
                        k = self.kinds[name]
                        d = zoo.KINDS[k].make("default", np.array(zoo.base_states(k, "default")[2], float) + self.n, method="Euler", name=name)
                        if self.n % 2 == 0:  # every other time the simulation's own entity
                            d = self.e[name]
                        for reg in ("register_lead", "register_partner"):
                            if hasattr(e, reg):
                                getattr(e, reg)(d)
                        if hasattr(e, "lead"):
                            e.lead = d
                        break
        elif w == "late":  # a simulation is registered before its entities are there; the next time they come in
            if self.of["a"] != 2:
                self.sims[2].sim_entities.clear()
                self.names[2].clear()
                self.e["a"].set_sim(self.sims[2])
                self.of["a"] = 2
            else:
                self.sims[2].sim_entities.update(a=self.e["a"], b=self.e["c"], d=self.e["b"])
                self.names[2].update(a="a", b="c", d="b")
        elif w == "drop":
            self.sims[0].sim_entities.pop("b", None)
            self.names[0].pop("b", None)

    def judge(self, rec, seq):
        st = {n: np.array(e.state, float) for n, e in self.e.items()}
        for n, e in self.e.items():
            m = self.names[self.of[n]]
            for name in ("a", "b", "c", "d"):
                for fn, f in (("entity_relative_position", pos), ("entity_relative_velocity", vel)):
                    if name in m:
                        t = m[name]
                        got = getattr(e, fn)(name)
                        want = f(self.kinds[t], st[t]) - f(self.kinds[n], st[n])
                        rec.check(near(got, want), "relative value does not reflect the current states and simulation", fn=fn, of=n, to=name, sequence=seq, kinds=self.kinds, got=got, want=want)
                    else:
                        try:
                            r = getattr(e, fn)(name)
                            rec.fail("a name that is no longer in the registered simulation is accepted", fn=fn, of=n, to=name, sequence=seq, got=r)
                        except Exception:  # pylint: disable=W0718
                            pass
                    rec.transition()
        for n, e in self.e.items():
            rec.check(zoo.identical(e.state, st[n]), "a query changed a state", of=n, sequence=seq)


def histories(rec, kinds, first, depth):
    """All operation sequences up to a depth, queries in between being operations themselves."""
    for rest in itertools.product(OPS, repeat=depth - 1):
        seq = (first, ) + rest
        w = World(kinds)
        for o in seq:
            if o == "query":
                w.judge(rec, seq)
            else:
                w.op(o)
                rec.transition()
        w.judge(rec, seq)
        rec.trace()
        rec.state(kinds, seq)
        rec.outcome([w.e[n].state[0] for n in "abc"], w.of, w.names)
    rec.sample({"kinds": kinds, "sequence": seq})


def run(tier):
    th = tier == "thorough"
    sc = [("values", dict(k1=a, k2=b)) for a in KINDS for b in KINDS] + [("others", dict(kind=k)) for k in KINDS]
    combos = list(itertools.permutations(KINDS)) if th else [("cwh", "rot2d", "sixdof"), ("rot2d", "sixdof", "cwh"), ("sixdof", "cwh", "rot2d")]
    combos += [(k, k, k) for k in KINDS] if th else []
    for c in combos:
        for o in OPS:
            sc.append(("histories", dict(kinds=c, first=o, depth=5 if th else 4)))
    return core.run_check("C24", sys.modules[__name__], sc, assumptions=["a simulation is an object with a sim_entities mapping"])
