"""C11: entities stepped from different threads do not interfere.

Stateless model checking of the real code under a controlled scheduler.  Two threads each run a short program on their own
entity.  A trace function stops a thread in front of chosen source lines of the library (bytecodes in the fine mode), so that
a schedule is the list of positions at which control moves to the other thread.  All schedules with at most the stated number
of preemptions are run; the outcome of every one must be, bit for bit, what each program gives when run alone."""
import itertools
import os
import sys
import threading
import warnings

import numpy as np

from mc import boot, core, lib, zoo

PREFIX = os.path.realpath(boot.REPO) + os.sep
BLOCK = 0.25  # seconds after which a thread that makes no progress counts as blocked on a lock of the library
_files = {}


def in_library(fn):
    r = _files.get(fn)
    if r is None:
        r = _files[fn] = os.path.realpath(fn).startswith(PREFIX)
    return r


class Thread:
    """A program that runs until its next switch point."""

    def __init__(self, run, prog, who, fine):
        self.run, self.prog, self.who, self.fine = run, prog, who, fine
        self.count = 0
        self.stop_at = None
        self.go = threading.Event()
        self.done = False
        self.blocked = False
        self.result = None
        self.thread = threading.Thread(target=self.body, daemon=True)

    def point(self):
        self.count += 1
        if self.stop_at is not None and self.count >= self.stop_at and not self.run.free:
            self.stop_at = None
            self.run.yielded.set()
            self.go.wait()
            self.go.clear()

    def tracer(self, frame, event, arg):
        if not in_library(frame.f_code.co_filename):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.fine else "line"):
            self.point()
        return self.local

    def body(self):
        self.go.wait()
        self.go.clear()
        sys.settrace(self.tracer)
        try:
            self.result = (True, self.prog())
        except BaseException as e:  # noqa: B902
            self.result = (False, f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.done = True
            self.run.yielded.set()


class Run:
    """One execution under one schedule: [(thread, number of points to run or None for to the end), ...]."""

    def __init__(self, progs, fine=False):
        self.yielded = threading.Event()
        self.free = False
        self.T = [Thread(self, p, i, fine) for i, p in enumerate(progs)]
        for t in self.T:
            t.thread.start()

    def resume(self, t, points):
        if t.done:
            return
        t.stop_at = None if points is None else t.count + points
        self.yielded.clear()
        t.blocked = False
        t.go.set()
        while not self.yielded.wait(BLOCK):
            if t.done:
                return
            now = t.count
            if not self.yielded.wait(BLOCK) and t.count == now and any(not o.done for o in self.T if o is not t):
                t.blocked = True  # waits for a lock the other thread holds
                return

    def execute(self, schedule):
        listen()
        blocked = False
        for who, points in schedule:
            self.resume(self.T[who], points)
            if self.T[who].blocked:
                blocked = True
                break
        if blocked:
            self.free = True
            for t in self.T:
                t.stop_at = None
                t.go.set()
        else:
            for t in self.T:
                if not t.done:
                    self.resume(t, None)
        for t in self.T:
            t.thread.join(60)
            if t.thread.is_alive():
                e = RuntimeError("two entities stepped from two threads never finish")
                e._code_under_test = True
                raise e
        return [t.result for t in self.T], [t.count for t in self.T], blocked


def program(kind, cfg, method, variant):
    """A program for one entity: builds nothing shared; it is observed when both programs have ended."""
    K = zoo.KINDS[kind]
    m = K.ref(cfg)
    acts = zoo.mid_controls(kind, cfg)
    e = K.make(cfg, zoo.base_states(kind, cfg)[1 + variant % 2], method, name=f"e{variant}")
    u = acts[(1 + variant) % len(acts)] if len(m.ctrl) else np.zeros(0)
    named = dict(zip(K.ctrl, [float(v) for v in u]))
    over = 2 * (m.umax if variant else m.umin)

    def prog():
        e.told = _told[threading.get_ident()] = []
        if variant == 0:
            e.step(0.5, np.array(u))
        elif variant == 1:
            e.step(0.75, dict(named) if K.ctrl else None)
        elif variant == 2:
            e.step(0.25, list(over))
        else:
            e.step(0.5)
        return e

    return prog


_told = {}


def listen():
    """From here on, every warning goes to the list of the thread that issued it."""
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = lambda message, category, *a, **k: _told.get(threading.get_ident(), []).append((category, str(message)))


def told(e):
    """How many limit warnings a program got."""
    return len(zoo.for_user(e.told))


def expect(make):
    """What a program gives when it is alone."""
    listen()
    e = make()()
    return lib.observe(e), told(e)


def judge(rec, res, want, info):
    for who, (r, w) in enumerate(zip(res, want)):
        if not r[0]:
            rec.fail("a step raised because of another thread", who=who, error=r[1], **info)
            continue
        obs = lib.observe(r[1])
        w, warned = w
        d = lib.same_obs(obs, w)
        rec.check(told(r[1]) == warned, "the limit warnings of a step next to another thread are others than alone", who=who, got=told(r[1]), want=warned, **info)
        rec.check(d is None, "an entity stepped next to another thread ends differently", who=who, observable=d, got=obs["state"], want=w["state"], **info)
        rec.outcome(obs["state"])


def explore(rec, a, b, bound, fine=False, part=0, parts=1):
    """All schedules of two programs with at most `bound` preemptions."""
    mk = [lambda: program(*a), lambda: program(*b)]
    want = [expect(f) for f in mk]
    # lengths, from the two schedules without preemption
    n = [0, 0]
    for first in (0, 1):
        res, counts, blocked = Run([f() for f in mk], fine).execute([(first, None), (1 - first, None)])
        rec.transition(sum(counts))
        rec.trace()
        judge(rec, res, want, dict(schedule="serial", programs=[a, b]))
        n = [max(x, y) for x, y in zip(n, counts)]
    rec.check(all(n), "nothing of the library was traced", counts=n)
    for first in (0, 1):
        for i in range(1 + part, n[first] + 1, parts):
            seconds = [None] if bound == 1 else [None] + list(range(1, n[1 - first] + 1))
            for j in seconds:
                sched = [(first, i), (1 - first, j)]
                res, counts, blocked = Run([f() for f in mk], fine).execute(sched)
                rec.transition(sum(counts))
                rec.trace()
                rec.state(a, b, first, i, j)
                if blocked:
                    rec.note("schedules cut short by a lock")
                judge(rec, res, want, dict(schedule=sched, programs=[a, b]))
    rec.sample({"programs": [a, b], "points": n, "schedule": sched})


def run(tier):
    th = tier == "thorough"
    sc = []
    kinds = list(zoo.KINDS)

    def add(ka, ca, ma, va, kb, cb, mb, vb, bound, **kw):
        six = [ka, kb].count("sixdof")
        parts = 1 if bound == 1 else (2, 4, 16)[six]
        for part in range(parts):
            sc.append(("explore", dict(a=[ka, ca, ma, va], b=[kb, cb, mb, vb], bound=bound, part=part, parts=parts, **kw)))

    for k in kinds:
        other = [c for c in zoo.KINDS[k].configs if c != "default"][0]
        deep = th or k in ("dubins2d", "sun", "int2d")
        add(k, "default", "Euler", 0, k, other, "Euler", 3, 2 if deep else 1)
        add(k, "default", "Euler", 1, k, "default", "Euler", 2, 2 if th and k != "sixdof" else 1)
        add(k, "default", "Euler", 0, k, "default", "Euler", 1, 2 if th and k != "sixdof" else 1)
        if k != "sixdof" or th:
            add(k, "default", "Euler", 0, k, "default", "Euler", 1, 1, fine=True)
        if k != "sixdof" or th:
            add(k, "default", "RK45", 0, k, other, "RK45", 3, 1)
            add(k, "default", "RK45", 1, k, "default", "RK45", 2, 1)
        if th:
            add(k, "default", "RK45", 0, k, "default", "Euler", 2, 1)
            if k != "sixdof":
                add(k, "default", "RK45", 0, k, other, "RK45", 3, 1, fine=True)
            add(k, "default", "Euler", 2, k, other, "Euler", 1, 1, fine=True)
    for x, y in itertools.combinations(kinds, 2):
        six = "sixdof" in (x, y) and not {"cwh", "sun"} & {x, y}
        add(x, "default", "Euler", 0, y, "default", "Euler", 1, 2 if th and not six else 1)
        if th or "sixdof" not in (x, y):
            add(x, "default", "RK45", 0, y, "default", "Euler", 3, 1)
        if th:
            add(x, "default", "Euler", 2, y, "default", "RK45", 3, 1)
    sc.sort(key=lambda s: (-s[1]["bound"], "sixdof" not in (s[1]["a"][0], s[1]["b"][0])))
    return core.run_check("C11", sys.modules[__name__], sc, assumptions=[
        "two threads; at most two preemptions for pairs of Euler steps, one for steps with RK45 and at bytecode granularity",
        "preemption points are the source lines (bytecodes in the fine scenarios) of the library; numpy, scipy and the interpreter's own calls are atomic",
    ])
