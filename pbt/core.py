"""Sub-check registry, runner, evidence, replay, known findings."""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

from hypothesis.errors import UnsatisfiedAssumption

from pbt import env

REGISTRY = {}  # prop -> list[Sub]

# quick runs draw this many times the number of cases a sub-check states (kept to about a minute per property)
QUICK_TIMES = {"C01": 6, "C02": 6, "C03": 5, "C04": 6, "C05": 5, "C06": 5, "C07": 1.5, "C08": 3, "C09": 1.5, "C10": 6, "C11": 6, "C12": 5,
               "C13": 1, "C14": 4, "C15": 5, "C16": 4, "C17": 1, "C18": 4, "C19": 4, "C20": 5, "C21": 4, "C22": 1, "C23": 5, "C24": 3, "C25": 4}
FAILED = None  # when the first violation of this run was seen (shared by the workers)


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, shards):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards


def sub(prop, name, strategy, quick=200, thorough=None, rule="", shards=1):
    """Register check(case, rec) over cases drawn from `strategy`.

    `prop` may be a list: the same generated check then belongs to several properties.
    """

    def deco(fn):
        for p in [prop] if isinstance(prop, str) else prop:
            REGISTRY.setdefault(p, []).append(
                Sub(p, name, strategy, fn, quick, thorough or quick * 15, rule, shards)
            )
        return fn

    return deco


def load_checks():
    import pbt.checks as pkg

    for m in sorted(m.name for m in pkgutil.iter_modules(pkg.__path__)):
        importlib.import_module("pbt.checks." + m)


# --------------------------------------------------------------------------- known findings
def known_findings():
    out = {}
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:") :].split(None, 2)
            prop = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return out


KNOWN = None


class Rec:
    """What one execution of a check records about its case."""

    def __init__(self, prop):
        self.prop = prop
        self.labels = []
        self.nt = False
        self.known_hit = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True

    def known(self, key, message):
        """The case shows the listed finding `key`; unlisted means a violation."""
        if (self.prop, key) in KNOWN:
            self.known_hit.append(key)
        else:
            raise Violation(message)


def sut(fn, *args, **kwargs):
    """Call code under test; an exception on a valid input breaks the property."""
    try:
        return fn(*args, **kwargs)
    except (Violation, CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa
        name = getattr(fn, "__qualname__", repr(fn))
        raise Violation("%s raised %s: %s" % (name, type(e).__name__, str(e)[:300]))


@contextlib.contextmanager
def sutblock(what):
    try:
        yield
    except (Violation, CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def fail(msg):
    raise Violation(msg)


def expect(cond, msg, *fmt):
    if not cond:
        raise Violation(msg % fmt if fmt else msg)


# --------------------------------------------------------------------------- running
def _alarm(signum, frame):
    raise CaseTimeout()


def exec_case(s, case, rec, limit=100):
    """Run one case with a wall-clock guard (a hit is inconclusive, never a violation)."""
    import numpy as np

    np.random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        s.check(case, rec)
    except (Violation, CaseTimeout, KeyboardInterrupt, NameError, ImportError, MemoryError, OSError, UnsatisfiedAssumption):
        raise
    except Exception as e:
        # no case raises on the tree the checks were built on: the code under test raised outside a
        # guarded call, or returned something the oracle cannot read as a number
        fr = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("%s: %s (%s:%d) on a valid input" % (type(e).__name__, str(e)[:300], os.path.basename(fr.filename), fr.lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def norm(case):
    return json.loads(json.dumps(case))


def run_sub(args):
    prop, idx, n, seed, deadline, shard = args
    s = REGISTRY[prop][idx]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    try:
        import hypothesis.internal.conjecture.engine as eng

        eng.MAX_SHRINKING_SECONDS = 60
    except Exception:
        pass
    res = dict(
        sub=s.name, evaluations=0, distinct=set(), labels=Counter(), samples=[], known=Counter(),
        timeouts=0, skipped=0, failure=None, error=None, wall=0.0,
    )
    t0 = time.time()
    last = {}

    def body(case):
        if time.time() > deadline or (FAILED is not None and FAILED.value and time.time() > FAILED.value + 90):
            res["skipped"] += 1
            return
        case = norm(case)
        rec = Rec(prop)
        res["evaluations"] += 1
        try:
            exec_case(s, case, rec)
        except CaseTimeout:
            res["timeouts"] += 1
            return
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            if FAILED is not None and not FAILED.value:
                FAILED.value = time.time()
            raise
        res["labels"].update(set(rec.labels))
        res["known"].update(set(rec.known_hit))
        if rec.nt:
            txt = json.dumps(case, sort_keys=True)
            h = hashlib.blake2b(txt.encode(), digest_size=8).digest()
            if h not in res["distinct"]:
                res["distinct"].add(h)
                if len(res["samples"]) < 2 and len(txt) < 1500 and len(res["distinct"]) > 3:
                    res["samples"].append(case)

    test = given(s.strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
            HealthCheck.differing_executors,
        ],
        print_blob=False,
    )(test)
    test = hypothesis.seed(zlib.crc32(("%s/%s/%d" % (prop, s.name, shard)).encode()) + 1000003 * seed)(test)
    devnull = open(os.devnull, "w")
    try:
        with contextlib.redirect_stdout(devnull):
            test()
    except Violation as e:
        res["failure"] = (last["case"], str(e))
    except BaseException as e:  # harness error, or Flaky around a violation
        if "case" in last:
            res["failure"] = (last["case"], last["msg"] + " [not reproducible in one call: %s]" % type(e).__name__)
        else:
            res["error"] = traceback.format_exc()[-3000:]
    res["wall"] = time.time() - t0
    return prop, idx, res


def write_replay(prop, name, case, msg):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (prop, name, h))
    json.dump({"property": prop, "sub": name, "case": case, "message": msg}, open(path, "w"), indent=1)
    return os.path.relpath(path, env.VERIF)


def regressions(prop):
    path = os.path.join(env.VERIF, "regress", prop + ".json")
    return json.load(open(path)) if os.path.exists(path) else []


def run_property(prop, tier, seed, only=None, scale=1.0):
    global KNOWN, FAILED
    KNOWN = known_findings()
    FAILED = mp.Value("d", 0.0)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier == "quick" else 5400))
    deadline = t0 + budget
    subs = REGISTRY[prop]
    violations, errors, known = [], [], Counter()
    nreg = 0
    by_name = {s.name: s for s in subs}
    for r in regressions(prop):
        s = by_name.get(r["sub"])
        if s is None or (only and s.name not in only):
            continue
        nreg += 1
        rec = Rec(prop)
        try:
            exec_case(s, norm(r["case"]), rec)
            known.update(set(rec.known_hit))
        except Violation as e:
            violations.append((s.name, r["case"], "regression case: " + str(e)))
        except CaseTimeout:
            pass
        except Exception:
            errors.append(traceback.format_exc()[-3000:])
    jobs = []
    for i, s in enumerate(subs):
        if only and s.name not in only:
            continue
        n = int((s.quick * QUICK_TIMES.get(prop, 1) if tier == "quick" else s.thorough) * scale) or 1
        shards = max(s.shards, min(8, n // (400 if tier == "quick" else 200) + 1))
        for k in range(shards):
            jobs.append((prop, i, max(1, n // shards), seed, deadline, k))
    jobs.sort(key=lambda j: -j[2])
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    results = {}
    if nproc == 1:
        outs = map(run_sub, jobs)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(nproc, maxtasksperchild=1)
        outs = pool.imap_unordered(run_sub, jobs, chunksize=1)
    for p, i, r in outs:
        name = r["sub"]
        if name not in results:
            results[name] = r
        else:
            a = results[name]
            for k in ("evaluations", "timeouts", "skipped"):
                a[k] += r[k]
            a["distinct"] |= r["distinct"]
            a["labels"] += r["labels"]
            a["known"] += r["known"]
            a["samples"] = (a["samples"] + r["samples"])[:3]
            a["wall"] += r["wall"]
        if r["failure"]:
            violations.append((name,) + tuple(r["failure"]))
        if r["error"]:
            errors.append("%s: %s" % (name, r["error"]))
        known.update(r["known"])
    if pool:
        pool.close()
        pool.join()
    total = sum(r["evaluations"] for r in results.values())
    nontriv = sum(len(r["distinct"]) for r in results.values())
    cov = {
        "evaluations": total,
        "distinct_nontrivial": nontriv,
        "rule": "cases drawn by Hypothesis from the structured strategy of each sub-check, seeded by VERIF_SEED; "
        "distinct by content; non-trivial as stated per sub-check: "
        + "; ".join("%s: %s" % (s.name, s.rule or "check reached its oracle with non-default data") for s in subs),
        "samples": [{"sub": n, "case": c} for n, r in sorted(results.items()) for c in r["samples"][:2]][:40],
        "per_sub": {
            n: {
                "evaluations": r["evaluations"],
                "distinct_nontrivial": len(r["distinct"]),
                "labels": dict(sorted(r["labels"].items())),
                "inconclusive_timeouts": r["timeouts"],
                "skipped_budget": r["skipped"],
                "wall_s": round(r["wall"], 2),
            }
            for n, r in sorted(results.items())
        },
        "regression_cases": nreg,
        "known_findings_hit": dict(known),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "reference formulas in pbt/ref.py and in the checks are right (they are cross-checked by quadrature and by one another)",
            "scipy/numpy of /opt/venv behave as documented",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    best = {}  # one report per sub-check: its smallest case
    for v in violations:
        k = (v[0], v[2].startswith("regression case"))
        if k not in best or len(json.dumps(v[1])) < len(json.dumps(best[k][1])):
            best[k] = v
    for name, case, msg in best.values():
        path = write_replay(prop, name, case, msg)
        print("  %s/%s: %s" % (prop, name, msg))
        print("  case: %s" % json.dumps(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for key in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, KNOWN.get((prop, key), "")))
    for e in errors:
        print("HARNESS ERROR\n" + e, file=sys.stderr)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d harness errors, %.1fs"
        % (prop, tier, seed, total, nontriv, len(violations), len(errors), time.time() - t0)
    )
    if violations:
        return 1
    return 2 if errors else 0
