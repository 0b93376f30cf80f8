"""C31: the fixed step Euler integrator: visited times, updates, completion, dense outputs, rejected arguments."""
import itertools
import math
import sys

import numpy as np

from mc import core

STARTS = (0.0, -1.0, 0.5, 1000.0)
STEPS = (0.001, 0.1, 0.25, 1.0 / 3.0, 1.0, 2.7, 7.0, 60.1)


def euler(*a, **kw):
    from safe_autonomy_dynamics.external.aerobench.util import Euler

    with core.CodeUnderTest():
        return Euler(*a, **kw)


def f1(t, y):
    return np.array([0.5 * t - 0.25 * y[0] + 1.0])


def f2(t, y):
    return np.array([y[1], -0.5 * y[0] + math.sin(t), 1.0])


def f3(t, y):
    return np.array([0.0 * t, -3.0, y[0] * 0.125 + t])


SAME = np.array([1.0, -0.5, 0.25])


def f4(t, y):
    """The same array every time."""
    return SAME


def f5(t, y):
    """The state it was given."""
    return y


FS = {"one": (f1, [1.5]), "oscillator": (f2, [1.0, -0.5, 0.25]), "mixed": (f3, [0.75, 2.0, -1.0]), "constant": (f4, [0.5, 1.0, 2.0]), "growth": (f5, [1.0, -0.25])}


def ends(step, n):
    """Ends of intervals around n steps: exact, within and just outside the tolerance on both sides, and part of a step away."""
    for k in range(1, n + 1):
        for d in (0.0, 1e-10, -1e-10, 1e-7, -1e-7, 0.3 * step, -0.3 * step, 0.999 * step):
            if k * step + d > 0:
                yield k * step + d


def visit(start, step, end, tol):
    """All admissible sequences of visited times (more than one where rounding decides)."""
    out = [[start]]
    done = []
    while out:
        ts = out.pop()
        nxt = ts[-1] + step
        eps = 4e-15 * (abs(end) + abs(step) + 1) * (len(ts) + 2)
        if nxt + tol >= end - eps:
            done.append(ts + [end])
        if nxt + tol < end + eps:
            out.append(ts + [nxt])
        if len(done) > 4 or len(ts) > 200:
            break
    return done


def same_time(a, b):
    return abs(a - b) <= 1e-12 * (1 + abs(b))


def drive(rec, fn, y0, start, step, end, tol, dense):
    """Run to completion; dense: for every step whether a dense output is taken after it. Judges every visited state."""
    f = fn
    init = np.array(y0)
    keep = init.copy()
    kw = {} if tol is None else {"time_tol": tol}
    calls = []

    def der(t, y):
        calls.append(t)
        return f(t, y)

    e = euler(der, start, init, end, step=step, **kw)
    info = dict(start=start, step=step, end=end, tol=tol)
    rec.check(e.status == "running" and e.t == start and bool(np.all(e.y == keep)), "a new integrator is not at its start", **info)
    try:
        with core.CodeUnderTest():
            e.dense_output()(start)
        rec.fail("a dense output is given before the first step", **info)
    except Exception:  # pylint: disable=W0718
        pass
    ts, ys = [start], [keep.copy()]
    fns = []
    limit = int((end - start) / step) + 5
    while e.status == "running":
        if len(ts) > limit:
            rec.fail("the integrator does not finish", times=ts[-3:], **info)
            return
        tb, yb = e.t, np.array(e.y, float)
        with core.CodeUnderTest():
            e.step()
        rec.transition()
        want = yb + (e.t - tb) * f(tb, yb)
        if not rec.check(bool(np.all(np.abs(np.asarray(e.y, float) - want) <= 1e-12 * (1 + np.abs(want)))), "an update is not state plus elapsed time times the derivative at its start", t=tb, y=yb, got=e.y, want=want, **info):
            return
        ts.append(e.t)
        ys.append(np.array(e.y, float))
        k = len(ts) - 2
        if dense is None or dense >> k & 1:
            with core.CodeUnderTest():
                fns.append((k, e.dense_output()))
            rec.transition()
        rec.check(bool(np.all(SAME == [1.0, -0.5, 0.25])), "the caller's derivative is modified", got=SAME, **info)
        SAME[:] = [1.0, -0.5, 0.25]
        rec.check(e.status in ("running", "finished"), "an unknown status is reported", status=e.status, **info)
        rec.check((e.status == "finished") == (e.t == end), "the status does not tell whether the end is reached", status=e.status, t=e.t, **info)
    rec.check(e.t == end, "the integrator does not finish exactly at the end time", t=e.t, **info)
    legal = visit(start, step, end, 1e-9 if tol is None else tol)
    rec.check(any(len(p) == len(ts) and all(same_time(a, b) for a, b in zip(ts, p)) for p in legal), "the visited times are not start, start + step, ..., end", times=ts, want=legal[0], **info)
    rec.check(bool(np.all(init == keep)), "the caller's initial state is modified", got=init, want=keep, **info)
    for _ in range(2):
        with core.CodeUnderTest():
            e.step()
        rec.transition()
        rec.check(e.t == end and e.status == "finished" and bool(np.all(e.y == ys[-1])), "a step after the end changes the result", t=e.t, y=e.y, want=ys[-1], **info)
    with core.CodeUnderTest():
        fns.append((len(ts) - 2, e.dense_output()))
    for k, d in fns + fns[::-1]:
        for w in (0.0, 0.25, 0.5, 1.0):
            t = ts[k] + w * (ts[k + 1] - ts[k])
            with core.CodeUnderTest():
                got = np.asarray(d(t), float)
            want = (1 - w) * ys[k] + w * ys[k + 1]
            rec.transition()
            tol2 = 1e-9 * (1 + np.abs(want)) + 1e-13 * (1 + abs(t)) * np.abs(ys[k + 1] - ys[k]) / (ts[k + 1] - ts[k])
            rec.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol2)), "a dense output does not interpolate the ends of its step", taken_after=k, t=t, got=got, want=want, **info)
    rec.trace()
    rec.state(start, step, end - start, tol, dense)
    rec.outcome(ys[-1])
    return ts, ys


def completion(rec, fname, start, n):
    """Every step size, end and tolerance around up to n steps."""
    fn, y0 = FS[fname]
    for step in STEPS:
        for span in ends(step, n):
            for tol in (None, 0, 1e-3, 1e-6, 0.05):
                end = start + span
                if end <= start:
                    continue
                drive(rec, fn, np.array(y0), start, step, end, tol, None)
    for step in STEPS:  # much longer runs
        drive(rec, fn, np.array(y0), start, step, start + 97.0 * step, None, 0)
        drive(rec, fn, np.array(y0), start, step * 1e3, start + step, None, None)
    rec.sample({"f": fname, "start": start, "step": step})


def interleavings(rec, fname, n):
    """Dense outputs taken after every subset of the steps, and read after all of them."""
    fn, y0 = FS[fname]
    for step, part in ((0.25, 0.0), (0.25, 0.1), (1.0, -0.3)):
        for mask in range(2**n):
            drive(rec, fn, np.array(y0), 0.5, step, 0.5 + n * step + part, None, mask)
    rec.sample({"f": fname, "steps": n})


def pair(rec, n):
    """All interleavings of two integrators with the same derivative and initial state array: neither sees the other."""
    y0 = np.array([1.0, -0.5, 0.25])

    def alone(step):
        e = euler(f2, 0.0, y0.copy(), n * step, step=step)
        out = []
        while e.status == "running":
            e.step()
            out.append((e.t, np.array(e.y, float)))
        return out

    want = {s: alone(s) for s in (0.25, 0.5)}
    for order in set(itertools.permutations([0.25] * n + [0.5] * n)) if n <= 4 else []:
        shared = y0.copy()
        es = {s: euler(f2, 0.0, shared, n * s, step=s) for s in (0.25, 0.5)}
        i = {0.25: 0, 0.5: 0}
        outs = []
        for s in order:
            es[s].step()
            t, y = want[s][i[s]]
            rec.transition()
            rec.check(es[s].t == t and bool(np.all(es[s].y == y)), "an integrator is influenced by another", order=order, step=s, got=es[s].y, want=y)
            lo = want[s][i[s] - 1] if i[s] else (0.0, y0)
            outs.append((es[s].dense_output(), lo, (t, y)))
            i[s] += 1
        for d, a, b in outs:
            mid = np.asarray(d((a[0] + b[0]) / 2), float)
            rec.check(bool(np.all(np.abs(mid - (a[1] + b[1]) / 2) <= 1e-12 * (1 + np.abs(mid)))), "a dense output changes when another integrator steps", order=order)
        rec.check(bool(np.all(shared == y0)), "the caller's initial state is modified", got=shared)
        rec.trace()
        rec.state(order)
    rec.outcome(n)


def rejected(rec):
    """Steps that are not positive and intervals that are not forward."""
    for step, start, end in itertools.product((None, 0, -0.1, 0.0, math.nan, 0.1, 5.0), (0.0, 2.0), (0.0, 1.0, 2.0, -1.0, math.nan)):
        ok = step is not None and step > 0 and end > start
        kw = {} if step is None else {"step": step}
        try:
            euler(f1, start, np.array([1.0]), end, **kw)
            rec.check(ok, "an invalid step or interval is accepted", step=step, start=start, end=end)
        except Exception as e:  # pylint: disable=W0718
            rec.check(not ok, f"a valid step and interval is rejected: {e!r}", step=step, start=start, end=end)
        rec.transition()
        rec.trace()
        rec.state(step, start, end)
    rec.outcome(0)


def run(tier):
    th = tier == "thorough"
    sc = [("rejected", {})]
    sc += [("completion", dict(fname=f, start=s, n=9 if th else 4)) for f in FS for s in STARTS]
    sc += [("interleavings", dict(fname=f, n=k)) for f in FS for k in range(1, 13 if th else 9)]
    sc += [("pair", dict(n=k)) for k in ((1, 2, 3, 4) if th else (1, 2, 3))]
    return core.run_check("C31", sys.modules[__name__], sc)
