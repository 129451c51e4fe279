"""Runner shared by every property monitor.

A property module exposes KINDS, a dict
    kind -> (case_function, quick_cases, thorough_cases)
A case function gets ``(rng, rec)``: a numpy RandomState seeded from
(VERIF_SEED, property, kind, index) and a Recorder.  It drives the real code
of /repo and calls ``rec.check`` (an oracle verdict on an observed event),
``rec.event`` (an observation), ``rec.nontrivial(signature)`` and
``rec.inconclusive(reason)``.

Verdicts are three valued.  A failed ``check`` is a violation; a case which
could not be decided is counted as inconclusive and never folded into either
of the others; a run whose deciding oracle was never (or hardly ever) reached
ends with exit status 3.
"""
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter
from contextlib import contextmanager, redirect_stdout

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REGAIN_REPO", "/repo")
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def case_seed(seed, prop, kind, i):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, kind, i)).encode()).digest()
    return int.from_bytes(h[:4], "big")


def short(x, depth=0):
    """Compact JSON-able rendering of a witness."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): short(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [short(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size <= 64:
            return x.tolist()
        return {"ndarray": list(x.shape), "head": x.ravel()[:16].tolist()}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Recorder:
    def __init__(self, prop, kind, seed, index, tier):
        self.prop, self.kind, self.seed = prop, kind, seed
        self.index, self.tier = index, tier
        self.events = Counter()
        self.checks = Counter()
        self.violations = []
        self.known = []
        self.inconcl = []
        self.sig = None
        self.desc = {}
        self.stats = {}

    def describe(self, **kw):
        self.desc.update(kw)

    def event(self, name, n=1):
        self.events[name] += n

    def stat(self, name, value):
        """Keep the maximum of a measured quantity (e.g. optimality gap)."""
        value = float(value)
        if value == value:
            self.stats[name] = max(self.stats.get(name, -1e300), value)

    def nontrivial(self, *sig):
        self.sig = "|".join(str(s) for s in sig)

    def check(self, oracle, cond, **witness):
        """One oracle verdict on one observed event."""
        self.checks[oracle] += 1
        if not bool(cond):
            self.violations.append({"oracle": oracle, "witness": short(witness)})
        return bool(cond)

    def finding(self, key, cond, **witness):
        """Oracle for behaviour listed as a known finding under ``key``."""
        self.checks["known:" + key] += 1
        if not bool(cond):
            self.known.append({"key": key, "witness": short(witness)})

    def close(self, oracle, got, want, rtol=1e-7, atol=1e-9, **witness):
        import numpy as np

        self.checks[oracle] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
            same = g.shape == w.shape and bool(
                np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        except Exception as e:
            same, g, w = False, repr(got)[:200], want
            witness["error"] = repr(e)
        if not same:
            self.violations.append({"oracle": oracle, "witness": short(
                dict(witness, got=g, want=w))})
        return same

    def inconclusive(self, reason):
        self.inconcl.append(reason)

    @contextmanager
    def watching_warnings(self):
        """Collect warnings raised by the code under test."""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield w


def not_converged(w):
    return any("converge" in str(x.message).lower() for x in w)


def internal(module, name, *params):
    """An internal solver: by its name or, should it have been renamed, by its parameters; None when gone."""
    import inspect
    f = getattr(module, name, None)
    if f is not None:
        return f
    for f in vars(module).values():
        if inspect.isfunction(f) and f.__module__ == module.__name__ and \
                set(params) <= set(inspect.signature(f).parameters):
            return f
    return None


def size(rng, lo, hi, big, often=0.07):
    """A size in [lo, hi), now and then a larger one up to big."""
    if rng.rand() < often:
        return int(rng.randint(hi, big + 1))
    return int(rng.randint(lo, hi))


@contextmanager
def quiet():
    """Swallow the prints of the library."""
    with redirect_stdout(io.StringIO()):
        yield


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_case(args):
    prop, kind, idx, seed, tier, limit = args
    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    mod = importlib.import_module("regmon.props." + prop.lower())
    fn = mod.KINDS[kind][0]
    cs = case_seed(seed, prop, kind, idx)
    rec = Recorder(prop, kind, cs, idx, tier)
    rng = np.random.RandomState(cs)
    np.random.seed((cs + 1) % (2 ** 32))
    import random

    random.seed(cs)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(rng, rec)
    except Inconclusive as e:
        rec.inconclusive(str(e))
    except CaseTimeout:
        rec.inconclusive("case exceeded its %d s watchdog" % limit)
    except (MemoryError, KeyboardInterrupt):
        rec.inconclusive("out of memory or interrupted")
    except Exception as e:
        # the code under test failed to deliver on a valid input
        tb = traceback.format_exc().strip().splitlines()
        rec.check("delivers a result on a valid input", False,
                  exception=repr(e), traceback=tb[-8:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(kind=kind, index=idx, seed=cs, events=rec.events, checks=rec.checks,
                violations=rec.violations, known=rec.known, inconclusive=rec.inconcl,
                sig=rec.sig, desc=short(rec.desc), wall=time.time() - t0,
                stats=rec.stats)


def load_known():
    """Listed findings: lines 'finding: property=<id> key=<key> <text>'."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: "):
                parts = line[len("finding: "):].strip().split(" ", 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out[(prop, key)] = parts[2]
    return out


def run(prop, tier, seed, only=None, scale=1.0, jobs=None, budget=None):
    t0 = time.time()
    mod = importlib.import_module("regmon.props." + prop.lower())
    limit = getattr(mod, "CASE_LIMIT", 120)
    if budget is None:
        budget = 420 if tier == "quick" else 7200
    # optional work in the parent before forking (native builds, ...)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    tasks = []
    for kind, (fn, nq, nt) in mod.KINDS.items():
        if only and kind != only:
            continue
        n = nq if tier == "quick" else nt
        n = max(1, int(round(n * scale)))
        tasks += [(prop, kind, i, seed, tier, limit) for i in range(n)]
    # interleave kinds so that a budget cut hurts all of them equally
    tasks.sort(key=lambda t: (case_seed(0, "order", t[1], t[2]), t[1], t[2]))
    jobs = jobs or min(8, os.cpu_count() or 1)
    results, cut = [], 0
    if jobs == 1:
        for t in tasks:
            if time.time() - t0 > budget:
                cut += 1
                continue
            results.append(_run_case(t))
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(jobs, maxtasksperchild=200)
        try:
            pending = pool.imap_unordered(_run_case, tasks, chunksize=1)
            while len(results) < len(tasks):
                left = budget - (time.time() - t0)
                if left <= 0:
                    break
                try:
                    results.append(pending.next(timeout=max(1.0, left)))
                except mp.TimeoutError:
                    break
        finally:
            pool.terminate()
            pool.join()
        cut = len(tasks) - len(results)
    results.sort(key=lambda r: (r["kind"], r["index"]))
    return finish(prop, tier, seed, mod, tasks, results, cut, time.time() - t0)


def finish(prop, tier, seed, mod, tasks, results, cut, wall):
    events, checks, kinds = Counter(), Counter(), Counter()
    incon = Counter()
    stats = {}
    known = load_known()
    viol, known_hits = [], Counter()
    decided = 0
    sigs = set()
    for r in results:
        events.update(r["events"])
        checks.update(r["checks"])
        kinds[r["kind"]] += 1
        for k, v in r["stats"].items():
            stats[k] = max(v, stats.get(k, -1e300))
        for i in r["inconclusive"]:
            incon[r["kind"] + ": " + i] += 1
        if r["checks"]:
            decided += 1
        if r["sig"] is not None:
            sigs.add(r["kind"] + "|" + r["sig"])
        for v in r["violations"]:
            viol.append((r, v))
        for v in r["known"]:
            if (prop, v["key"]) in known:
                known_hits[v["key"]] += 1
            else:
                viol.append((r, dict(oracle=v["key"], witness=v["witness"])))
    if hasattr(mod, "aggregate") and results:
        for name, good, wit in mod.aggregate(results):
            checks[name] += 1
            if not good:
                viol.append((results[0], dict(oracle=name, witness=wit)))
    # deciding oracles must have been reached for every kind of workload
    kind_checks = Counter()
    for r in results:
        kind_checks[r["kind"]] += sum(r["checks"].values())
    starved = [k for k in set(t[1] for t in tasks) if kind_checks[k] == 0]

    samples = []
    seen = set()
    for r in results:
        if r["kind"] in seen:
            continue
        seen.add(r["kind"])
        samples.append(dict(kind=r["kind"], case_seed=r["seed"], case=r["desc"],
                            observed=dict(r["events"]), verdicts=dict(r["checks"]),
                            inconclusive=r["inconclusive"]))
    evid = dict(
        property=prop, tier=tier, seed=int(seed), level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples[:12],
            cases_per_workload=dict(kinds),
            decided_cases=decided,
            oracle_verdicts=dict(checks),
            observed_events=dict(events),
            inconclusive=dict(incon),
            extremes_measured={k: float("%.3g" % v) for k, v in stats.items()},
            cases_not_run_budget=cut,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    evdir = os.environ.get("REGMON_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    code = 0
    if viol:
        code = 1
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = Counter()
        for r, v in viol:
            key = (r["kind"], v["oracle"])
            shown[key] += 1
            if shown[key] > 1 or len(shown) > 6:
                continue
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, r["kind"], r["index"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=r["kind"], index=r["index"],
                               seed=int(seed), tier=tier, case=r["desc"],
                               violations=r["violations"], known=r["known"],
                               how="cd /verif && python -m regmon --replay " + path),
                          f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  workload=%s oracle=%s" % (r["kind"], v["oracle"]))
            print("  witness=%s" % json.dumps(v["witness"], default=str)[:1500])
        evid["coverage"]["violated_oracles"] = {"%s/%s" % k: n for k, n in shown.items()}
    for k in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, k)]))
    if not viol and (starved or not decided):
        code = 3
        print("INCONCLUSIVE property=%s: no oracle verdict in workload(s) %s" % (
            prop, ", ".join(sorted(starved)) or "all"))
    evid["coverage"]["known_findings_seen"] = dict(known_hits)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, default=str)
    print("%s %s seed=%s: %d cases (%d distinct non-trivial), %d oracle verdicts, "
          "%d events, %d inconclusive, %d violations, %.1f s" % (
              prop, tier, seed, len(results), len(sigs), sum(checks.values()),
              sum(events.values()), sum(incon.values()), len(viol), wall))
    return code
