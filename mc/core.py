"""Explorer back end: scenarios are run exhaustively, what they covered is counted, violations become replay files.

A check is a list of *scenarios*: (function name, JSON parameters).  Each scenario is an exhaustive exploration of one
bounded part of the state space (one system configuration, usually); it runs in a worker process and reports into a
`Rec`.  A violation carries a `trace` (the operation list) so that it can be replayed without the explorer."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from mc import boot

OUT = os.path.join(boot.VERIF, "out")
MAX_REPORT = 12


class Rec:
    """What one scenario explored."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.known = []  # (key, text)
        self.notes = {}

    # --- counting -------------------------------------------------------------------------------------------------
    def state(self, *key):
        h = canon(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def transition(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(canon(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(plain(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def maxnote(self, key, v):
        self.notes["max:" + key] = max(self.notes.get("max:" + key, v), v)

    # --- judging --------------------------------------------------------------------------------------------------
    def fail(self, what, **detail):
        self.nviol += 1
        if len(self.violations) < MAX_REPORT:
            self.violations.append({"what": what, "detail": plain(detail)})

    def check(self, ok, what, **detail):
        if not ok:
            self.fail(what, **detail)
        return bool(ok)


def plain(o):
    import numpy as np

    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return plain(o.tolist())
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def canon(o):
    """Stable hash of a state. Floats enter with 9 significant digits: states closer than that are not told apart."""
    return hashlib.blake2b(_ser(o).encode(), digest_size=8).digest()


def _ser(o):
    import numpy as np

    if isinstance(o, (float, np.floating)):
        return f"{float(o):.9g}"
    if isinstance(o, np.ndarray):
        return "[" + ",".join(f"{float(v):.9g}" for v in o.ravel()) + "]"
    if isinstance(o, (list, tuple)):
        return "(" + ",".join(_ser(v) for v in o) + ")"
    if isinstance(o, dict):
        return "{" + ",".join(f"{k}:{_ser(v)}" for k, v in sorted(o.items(), key=lambda kv: str(kv[0]))) + "}"
    return repr(o)


# --- running ----------------------------------------------------------------------------------------------------------
_MODULE = None
_TIER = "quick"


def _work(item):
    idx, name, params = item
    rec = Rec()
    t0 = time.time()
    err = None
    try:
        getattr(_MODULE, name)(rec, **params)
    except Exception as e:  # pylint: disable=W0718
        tb = traceback.extract_tb(e.__traceback__)
        inner = tb[-1].filename if tb else ""
        in_code = any(os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO) + os.sep) for f in tb)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if in_code or getattr(e, "_code_under_test", False):
            # the code under test raised where the property says it completes
            rec.fail(f"unexpected {type(e).__name__}: {e}", where=inner, traceback=text)
        elif isinstance(e, (TypeError, ValueError, AttributeError, LookupError, AssertionError, ArithmeticError)):
            # the harness reads every observation of the unchanged tree: one it cannot read (an object that cannot be built, a missing
            # attribute, a value of another shape or type) is the code's doing; only failures of the sandbox are left as errors
            rec.fail(f"an observation does not have the form it must have ({type(e).__name__}: {e})", where=inner, traceback=text)
        else:
            err = text
    return idx, name, params, rec.__dict__, time.time() - t0, err


def run_check(pid, module, scenarios, level="model_checking", assumptions=(), rule=None, procs=8, budget=840, exhaustive=True, fresh=False):
    """Run all scenarios, write evidence, print verdict, return exit code."""
    global _MODULE, _TIER
    _MODULE = module
    _TIER = boot.tier()
    t0 = time.time()
    items = [(i, n, p) for i, (n, p) in enumerate(scenarios)]
    results = []
    errors = []
    timed_out = False
    if procs <= 1:
        for it in items:
            results.append(_work(it))
    else:
        import warnings

        warnings.filterwarnings("ignore", message="os.fork")
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, max(1, len(items))), maxtasksperchild=1 if fresh else None) as pool:  # fresh: every scenario in an unused process
            pend = pool.imap_unordered(_work, items, chunksize=1)
            for _ in items:
                left = budget - (time.time() - t0)
                try:
                    results.append(pend.next(timeout=max(left, 0.1)))
                except mp.TimeoutError:
                    timed_out = True
                    break
                if os.environ.get("SAD_FAILFAST") and results[-1][3]["nviol"]:  # development only: the first violation is enough
                    break
            pool.terminate()
    results.sort(key=lambda r: r[0])
    agg = Rec()
    viol = []
    per = {}
    nviol = 0
    slow = []
    for idx, name, params, d, dt, err in results:
        if err:
            errors.append((name, params, err))
        agg.states |= {(idx, s) for s in d["states"]}
        agg.transitions += d["transitions"]
        agg.traces += d["traces"]
        agg.evals += d["evals"]
        agg.nontrivial |= {(idx, s) for s in d["nontrivial"]}
        agg.outcomes |= d["outcomes"]
        agg.known += d["known"]
        nviol += d["nviol"]
        for s in d["samples"]:
            if len(agg.samples) < 6 and sum(1 for x in agg.samples if x.get("scenario") == name) < 2:
                agg.samples.append({"scenario": name, "params": plain(params), "case": s})
        for k, v in d["notes"].items():
            if k.startswith("max:"):
                agg.notes[k] = max(agg.notes.get(k, v), v)
            else:
                agg.notes[k] = agg.notes.get(k, 0) + v
        for v in d["violations"]:
            viol.append({"scenario": name, "params": plain(params), **v})
        c = per.setdefault(name, {"scenarios": 0, "transitions": 0, "seconds": 0.0})
        c["scenarios"] += 1
        c["transitions"] += d["transitions"]
        c["seconds"] = round(c["seconds"] + dt, 2)
        slow.append((dt, name, params))
    cov = {}
    if level in ("fault_enumeration", "exploration"):
        cov["evaluations"] = agg.evals or agg.transitions
        cov["distinct_nontrivial"] = len(agg.nontrivial or agg.states)
        cov["rule"] = rule or ""
    else:
        cov["states"] = len(agg.states)
        cov["transitions"] = agg.transitions
        cov["traces_validated_against_impl"] = agg.traces
    cov["samples"] = agg.samples or [{"scenario": n, "params": plain(p)} for _, n, p in items[:2]]
    cov["distinct_outcomes"] = len(agg.outcomes)
    cov["scenarios"] = per
    cov["exhaustive"] = bool(exhaustive and not timed_out and not errors and len(results) == len(items))
    if agg.notes:
        cov["notes"] = plain(agg.notes)
    if timed_out:
        cov["cap"] = f"time budget of {budget} s reached with {len(results)} of {len(items)} scenarios complete"
    ev = {
        "property": pid, "tier": boot.tier(), "seed": boot.seed(), "level": level, "coverage": cov,
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    evdir = os.environ.get("SAD_EVIDENCE", os.path.join(boot.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1)
    for key in sorted({k for k, _ in agg.known}):
        text = next(t for k, t in agg.known if k == key)
        print(f"KNOWN-FINDING: property={pid} {text}")
    if os.environ.get("SAD_VERBOSE"):
        for dt, n, p in sorted(slow, key=lambda x: x[0], reverse=True)[:8]:
            print(f"  {dt:7.2f}s {n} {p}")
    print(
        f"{pid} tier={boot.tier()} scenarios={len(results)}/{len(items)} states={len(agg.states)} transitions={agg.transitions} "
        f"traces={agg.traces} outcomes={len(agg.outcomes)} notes={plain(agg.notes)} wall={time.time() - t0:.1f}s"
    )
    if viol:
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{pid}.replay.json")
        with open(path, "w", encoding="utf8") as f:
            json.dump({"property": pid, "violations": viol[:50], "total": nviol}, f, indent=1)
        for v in viol[:5]:
            print(f"  {v['scenario']} {v['params']}: {v['what']}\n    {json.dumps(v['detail'])[:900]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for name, params, err in errors[:3]:
            print(f"CHECK ERROR in {name} {params}:\n{err}")
        return 2
    if timed_out or len(results) != len(items):
        print("CHECK ERROR: exploration did not complete in its time budget")
        return 2
    if cov.get("states", 1) == 0 or (agg.transitions == 0 and agg.evals == 0):
        print("CHECK ERROR: nothing explored")
        return 2
    return 0


def known_findings(pid):
    """Entries `known: property=<id> key=<key> bound=<float> <text>` of the committed known-findings file."""
    res = {}
    path = os.path.join(boot.VERIF, "known_findings.txt")
    with open(path, encoding="utf8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 4)
            kv = dict(p.split("=", 1) for p in parts[1:4])
            if kv["property"] == pid:
                res[kv["key"]] = (float(kv["bound"]), f"{kv['key']} {parts[4]}")
    return res


class CodeUnderTest:
    """Context manager: an exception raised inside is the code under test's, whatever module it surfaces in."""

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if ev is not None:
            ev._code_under_test = True
        return False


class Deadline(Exception):
    pass


class time_limit:
    """Bound one call into the code under test (a hang is a violation, not a hung check)."""

    def __init__(self, seconds, what="call"):
        self.seconds = seconds
        self.what = what

    def __enter__(self):
        def handler(signum, frame):
            e = Deadline(f"{self.what} did not finish within {self.seconds} s")
            e._code_under_test = True
            raise e

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def main(argv):
    pid = argv[1]
    boot.attach()
    mod = __import__(f"mc.checks.{pid.lower()}", fromlist=["x"])
    if len(argv) > 3 and argv[2] == "--replay":
        global _MODULE
        _MODULE = mod
        with open(argv[3], encoding="utf8") as f:
            rep = json.load(f)
        bad = 0
        seen = set()
        for v in rep["violations"]:
            k = json.dumps([v["scenario"], v["params"]])
            if k in seen:
                continue
            seen.add(k)
            r = Rec()
            try:
                getattr(mod, v["scenario"])(r, **v["params"])
            except Exception as e:  # pylint: disable=W0718
                print("raised", repr(e))
                bad += 1
            for x in r.violations:
                print(v["scenario"], v["params"], x["what"], json.dumps(x["detail"])[:2000])
                bad += 1
        return 1 if bad else 0
    return mod.run(boot.tier())


if __name__ == "__main__":
    sys.exit(main(sys.argv))
