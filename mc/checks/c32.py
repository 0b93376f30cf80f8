"""C32: safety verification: all short histories of safe, on-limit and violating ticks, for every subset of limits."""
import itertools
import math
import sys

import numpy as np

from mc import core

NAMES = ("altitude", "Nz", "v", "alpha", "betaMaxDeg")
UP, DOWN = math.inf, -math.inf
# Limit sets: (limits, a value inside all of them).  The second has zero and equal ends, the third is open on one side.
SETS = {
    "ordinary": (dict(altitude=(0.0, 45000.0), Nz=(-5.0, 18.0), v=(300.0, 2500.0), alpha=(-0.17, 0.5), betaMaxDeg=30.0), dict(altitude=3600.0, Nz=1.0, v=540.0, alpha=0.04, betaMaxDeg=-0.1)),
    "zero": (dict(altitude=(-100.0, 0.0), Nz=(0.0, 0.0), v=(0.0, 900.0), alpha=(0.0, 0.25), betaMaxDeg=0), dict(altitude=-50.0, Nz=0.0, v=200.0, alpha=0.125, betaMaxDeg=0.0)),
    "open": (dict(altitude=[1000, UP], Nz=[DOWN, 9], v=np.array([0.5, 0.75]), alpha=np.array([-2.0, -1.0]), betaMaxDeg=100.0), dict(altitude=1e6, Nz=-1e6, v=0.625, alpha=-1.5, betaMaxDeg=1.0)),
    "same": (dict(altitude=(1.0, 2.0), Nz=(3.0, 4.0), v=(5.0, 6.0), alpha=(7.0, 8.0), betaMaxDeg=10.0), dict(altitude=1.5, Nz=3.5, v=5.5, alpha=7.5, betaMaxDeg=0.1)),
}
COLUMN = {"v": 0, "alpha": 1, "betaMaxDeg": 2, "altitude": 11}


def kinds(lset):
    """Every kind of tick: (name of the limit concerned or None, its value, whether it is within that limit)."""
    lim, safe = SETS[lset]
    out = [(None, None, True)]
    for n in NAMES:
        if n == "betaMaxDeg":
            m = math.radians(lim[n])
            for s in (1.0, -1.0):
                out += [(n, s * m * (1 - 1e-9), True), (n, s * (m * (1 + 1e-9) + 1e-12), False), (n, s * (m + 0.3), False), (n, s * 2 * math.pi, False), (n, s * (m + 4 * math.pi), False)]
        else:
            lo, hi = float(lim[n][0]), float(lim[n][1])
            if lo > DOWN:
                out += [(n, lo, True), (n, float(np.nextafter(lo, DOWN)), False)]
            if hi < UP:
                out += [(n, hi, True), (n, float(np.nextafter(hi, UP)), False)]
            if hi < UP:
                out.append((n, hi + 1e7, False))
            if lo > DOWN:
                out.append((n, lo - 1e7, False))
        out.append((n, math.nan, False))
    return out


def row(lset, kind, ext):
    """State row and load factor of a tick.  Everything that is not verified has values no limit would allow."""
    safe = SETS[lset][1]
    r = np.array([0.0, 0.0, 0.0, -8e8, 8.1e8, -8.2e8, 8.3e8, -8.4e8, 8.5e8, -8.6e8, 8.7e8, 0.0, -8.8e8] + [-9e8, 9.1e8, -9.2e8][: 3 if ext else 0])
    nz = safe["Nz"]
    for n, c in COLUMN.items():
        r[c] = safe[n]
    if kind[0] == "Nz":
        nz = kind[1]
    elif kind[0] is not None:
        r[COLUMN[kind[0]]] = kind[1]
    return r, nz


def verifiers(lset, subset, ext):
    """Verifiers with exactly the limits of the subset; what is not specified is left out or None."""
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier

    lim = SETS[lset][0]
    a = {n: lim[n] for n in subset}
    b = {n: (lim[n] if n in subset else None) for n in NAMES}
    out = []
    with core.CodeUnderTest():
        for kw in (a, b):
            s = SafetyLimits(**kw)
            out.append(SafetyLimitsVerifier(s, LowLevelController()) if ext else SafetyLimitsVerifier(s))
    return out


def accepts(v, res):
    try:
        v.verify(res)
        return True
    except Exception:  # pylint: disable=W0718
        return False


def judge(rec, v, ticks, subset, lset, ext, rows):
    res = {"states": np.array([rows[k][0] for k in ticks]), "Nz_list": [rows[k][1] for k in ticks], "ps_list": [1e9 * (i + 1) for i in range(len(ticks))], "times": list(range(len(ticks))), "status": "finished"}
    want = all(k[2] or k[0] not in subset for k in ticks)
    got = accepts(v, res)
    rec.transition()
    if got != want:
        rec.fail("a history within all its limits is rejected" if want else "a history beyond a limit is accepted", limits=lset, specified=subset, controller_states=ext, ticks=[(k[0], k[1]) for k in ticks])
    rec.trace()
    return res, want


def histories(rec, lset, subset, ext, n):
    """All histories of n ticks of every kind."""
    ks = kinds(lset)
    vs = verifiers(lset, subset, ext)
    rows = {k: row(lset, k, ext) for k in ks}
    for i, ticks in enumerate(itertools.product(ks, repeat=n)):
        v = vs[i % 2] if n > 1 else vs[0]
        for w in (vs if n == 1 else [v]):
            res, want = judge(rec, w, ticks, subset, lset, ext, rows)
        if n <= 2:
            s0, n0 = np.array([rows[k][0] for k in ticks]), [rows[k][1] for k in ticks]
            rec.check(bool(np.array_equal(res["states"], s0, equal_nan=True)) and all(a == b or a != a for a, b in zip(res["Nz_list"], n0)), "verifying a history changes it", ticks=ticks)
            rec.check(accepts(v, res) == want, "verifying a history a second time gives another verdict", ticks=ticks)
            rec.transition()
        rec.state(lset, ext, [(k[0], k[1]) for k in ticks])
        rec.outcome(want)
    rec.sample({"limits": lset, "specified": subset, "ticks": n, "kinds": len(ks)})


def long_histories(rec, lset, ext, n):
    """One violating tick anywhere in a long history of safe and on-limit ticks; also the same verifier over several histories."""
    ks = kinds(lset)
    good = [k for k in ks if k[2]]
    rows = {k: row(lset, k, ext) for k in ks}
    v = verifiers(lset, NAMES, ext)[0]
    base = [good[i % len(good)] for i in range(n)]
    judge(rec, v, base, NAMES, lset, ext, rows)
    for i in range(n):
        for k in ks:
            if not k[2]:
                judge(rec, v, base[:i] + [k] + base[i + 1 :], NAMES, lset, ext, rows)
                rec.state(i, k[0], k[1])
    judge(rec, v, base, NAMES, lset, ext, rows)
    rec.outcome(n)


def very_long(rec, lset, ext, n):
    """Very long histories with a violating last tick, and one at and around each round number of ticks before."""
    ks = kinds(lset)
    good = [k for k in ks if k[2]]
    bad = [k for k in ks if not k[2]]
    rows = {k: row(lset, k, ext) for k in ks}
    v = verifiers(lset, NAMES, ext)[0]
    marks = sorted({b + d for b in [500, 1000, 2000, 5000, 10000, n - 1] + [2**i for i in range(8, 14)] for d in (-1, 0, 1) if 0 <= b + d < n})
    base = [good[i % len(good)] for i in range(n)]
    states, nzs = np.array([rows[k][0] for k in base]), [rows[k][1] for k in base]
    for j, i in enumerate(marks):
        for k in bad if i >= n - 2 else (bad[j % len(bad)], bad[(j + 5) % len(bad)]):
            st, nz = states.copy(), list(nzs)
            st[i], nz[i] = rows[k]
            for m in (i + 1, n):
                got = accepts(v, {"states": st[:m], "Nz_list": nz[:m], "ps_list": [0.0] * m, "times": list(range(m)), "status": "finished"})
                rec.transition()
                rec.check(not got, "a history beyond a limit is accepted", limits=lset, tick=i, of=m, value=k[:2])
            rec.state(lset, ext, i, k[:2])
    rec.check(accepts(v, {"states": states, "Nz_list": nzs, "ps_list": [0.0] * n, "times": list(range(n)), "status": "finished"}), "a history within all its limits is rejected", ticks=n)
    rec.trace()
    rec.outcome(n)


def rates(rec, lset, ext):
    """Stability roll rates under their limit, with values on the same side of it whether read in degrees or radians: all histories up to three ticks."""
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier

    ks = kinds(lset)
    some = [ks[0]] + [next(k for k in ks if k[0] == n and not k[2]) for n in ("altitude", "Nz", "betaMaxDeg")]
    for limit, values in ((500.0, ((1.0, True), (-2.0, True), (4e4, False), (math.nan, False))), (0.0, ((-3.0, True), (2.0, False))), (-1.0, ((-70.0, True), (-0.01, False), (2.0, False))), (0, ((0.0, True), (1e-3, False))), (None, ((1e9, True), (math.nan, True)))):
        for subset in ((), NAMES, ("Nz", )):
            with core.CodeUnderTest():
                s = SafetyLimits(psMaxAccelDeg=limit, **{n: SETS[lset][0][n] for n in subset})
                v = SafetyLimitsVerifier(s, LowLevelController()) if ext else SafetyLimitsVerifier(s)
            for n in (1, 2, 3):
                for ticks in itertools.product(values, repeat=n):
                    for pos in range(n):
                        for k in some:
                            rr = [row(lset, k if i == pos else ks[0], ext) for i in range(n)]
                            want = all(t[1] for t in ticks) and (k[2] or k[0] not in subset)
                            got = accepts(v, {"states": np.array([r[0] for r in rr]), "Nz_list": [r[1] for r in rr], "ps_list": [t[0] for t in ticks]})
                            rec.transition()
                            rec.check(got == want, "the stability roll rate is judged wrongly", limit=limit, specified=subset, rates=ticks, tick=k[:2], want=want)
                            rec.state(lset, ext, limit, subset, ticks, pos, k[:2])
            rec.trace()
    rec.outcome(lset)


def late_rates(rec, lset, ext, n):
    """A roll rate violation anywhere in a long history: a single tick, a run up to the end, and a run from the start."""
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier

    ks = kinds(lset)
    states, nz = zip(*[row(lset, ks[0], ext)] * n)
    for limit, good, bads in ((500.0, (1.0, -2.0), (4e4, math.nan)), (0.0, (-3.0, ), (2.0, ))):
        with core.CodeUnderTest():
            s = SafetyLimits(psMaxAccelDeg=limit, **SETS[lset][0])
            v = SafetyLimitsVerifier(s, LowLevelController()) if ext else SafetyLimitsVerifier(s)
        base = [good[i % len(good)] for i in range(n)]
        for i in range(n):
            for bad in bads:
                for shape, ps in (("tick", base[:i] + [bad] + base[i + 1 :]), ("from", base[:i] + [bad] * (n - i)), ("until", [bad] * (i + 1) + base[i + 1 :]), ("none", base)):
                    got = accepts(v, {"states": np.array(states), "Nz_list": list(nz), "ps_list": ps, "times": list(range(n)), "status": "finished"})
                    rec.transition()
                    rec.check(got == (shape == "none"), "the stability roll rate is judged wrongly", limit=limit, rate=bad, tick=i, of=n, shape=shape)
            rec.state(lset, ext, limit, i)
        rec.trace()
    rec.outcome(n)


def reused(rec, lset, ext, part, depth):
    """One verifier and one set of result buffers, rewritten in place between verifications; limits changed on the verifier in between: all sequences."""
    import copy

    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController
    from safe_autonomy_dynamics.external.aerobench.util import SafetyLimits, SafetyLimitsVerifier

    lim = copy.deepcopy(SETS[lset][0])
    ks = kinds(lset)
    firsts = [next(k for k in ks if k[0] == n and not k[2]) for n in NAMES]
    contents = [(ks[0], 0.0)] + [(k, 0.0) for k in firsts] + [(ks[0], 3e4)]
    acts = [("write", c) for c in contents] + [("set", n) for n in NAMES] + [("clear", n) for n in NAMES] + [("new", None), ("other", None)]
    rows = {k: row(lset, k, ext) for k in ks}
    for seq in itertools.product(range(len(acts)), repeat=depth):
        if seq[0] % 4 != part:
            continue
        with core.CodeUnderTest():
            s = SafetyLimits(psMaxAccelDeg=500.0, **lim)
            v = SafetyLimitsVerifier(s, LowLevelController()) if ext else SafetyLimitsVerifier(s)
        on = set(NAMES) | {"ps"}
        st, nz, ps = np.array([rows[ks[0]][0]] * 3), [rows[ks[0]][1]] * 3, [0.0] * 3
        res = {"states": st, "Nz_list": nz, "ps_list": ps}
        tick, rate = ks[0], 0.0
        for j, a in enumerate((None, ) + seq):
            what, arg = acts[a] if a is not None else ("none", None)
            if what == "write":
                tick, rate = arg
                p = j % 3
                st[:], nz[:], ps[:] = rows[ks[0]][0], [rows[ks[0]][1]] * 3, [0.0] * 3
                st[p], nz[p], ps[p] = rows[tick][0], rows[tick][1], rate
            elif what == "set":
                setattr(v.safety_limits, arg, lim[arg])
                on.add(arg)
            elif what == "clear":
                setattr(v.safety_limits, arg, None)
                on.discard(arg)
            elif what == "new":
                v.safety_limits = SafetyLimits(Nz=lim["Nz"], v=lim["v"])
                on = {"Nz", "v"}
            elif what == "other":
                v.safety_limits = SafetyLimits(psMaxAccelDeg=500.0, altitude=lim["altitude"], betaMaxDeg=lim["betaMaxDeg"])
                on = {"ps", "altitude", "betaMaxDeg"}
            want = (tick[2] or tick[0] not in on) and (rate == 0.0 or "ps" not in on)
            rec.transition()
            rec.check(accepts(v, res) == want, "a verification answers for an earlier content or an earlier limit", limits=lset, sequence=[acts[i][0] + " " + str(acts[i][1]) for i in seq], at=j, want=want)
        rec.trace()
        rec.state(lset, ext, seq)
    rec.outcome(lset, part)


def both(rec, lset, ext):
    """Two limits violated or met at once in one tick: all pairs of kinds of different limits."""
    ks = kinds(lset)
    safe = SETS[lset][1]
    for subset in (s for r in range(6) for s in itertools.combinations(NAMES, r)):
        v = verifiers(lset, subset, ext)[0]
        for a, b in itertools.product(ks, repeat=2):
            if a[0] == b[0] or a[0] is None or b[0] is None:
                continue
            r, nz = row(lset, a, ext)
            if b[0] == "Nz":
                nz = b[1]
            else:
                r[COLUMN[b[0]]] = b[1]
            want = (a[2] or a[0] not in subset) and (b[2] or b[0] not in subset)
            got = accepts(v, {"states": np.array([r]), "Nz_list": [nz], "ps_list": [0.0]})
            rec.transition()
            rec.trace()
            rec.check(got == want, "a tick with two values at or beyond limits is judged wrongly", specified=subset, values=(a[:2], b[:2]), want=want)
            rec.state(subset, a[:2], b[:2])
    rec.outcome(len(safe))


def run(tier):
    th = tier == "thorough"
    sc = []
    subsets = [s for r in range(6) for s in itertools.combinations(NAMES, r)]
    for lset in SETS:
        for ext in (False, True):
            for s in subsets:
                for n in (1, 2, 3, 4):
                    # all subsets up to two ticks; three (four) ticks with every single limit, all of them and none
                    if n <= 2 or (n == 3 and (th or len(s) in (0, 5) or (len(s) == 1 and lset == "ordinary"))) or (n == 4 and th and (len(s) == 5 and lset in ("ordinary", "zero"))):
                        sc.append(("histories", dict(lset=lset, subset=list(s), ext=ext, n=n)))
            sc.append(("long_histories", dict(lset=lset, ext=ext, n=900 if th else 330)))
            sc.append(("very_long", dict(lset=lset, ext=ext, n=12000 if th else 2500)))
            sc.append(("rates", dict(lset=lset, ext=ext)))
            sc.append(("late_rates", dict(lset=lset, ext=ext, n=200 if th else 60)))
            sc.append(("both", dict(lset=lset, ext=ext)))
            if th or (lset, ext) in (("ordinary", False), ("zero", True)):
                sc += [("reused", dict(lset=lset, ext=ext, part=p, depth=4 if th else 3)) for p in range(4)]
    sc.sort(key=lambda x: -x[1].get("n", 0))
    return core.run_check("C32", sys.modules[__name__], sc)
