"""Workload runner, monitors' ledger, verdicts and evidence.

A check module (vp/checks/cNN.py) provides

* ``RULE``       how cases are made and what makes one non-trivial (text for the evidence);
* ``REQUIRED``   names of the monitor counters that must be positive for a "held" verdict;
* ``cases(tier, seed)``  list of JSON-able case descriptions;
* ``run(case, mon, rng)``  executes the real code under the case and feeds the monitor.
"""
import collections
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

HELD, VIOLATED, HARNESS_ERROR, INCONCLUSIVE = 0, 1, 2, 3
CASE_TIMEOUT_S = 400
MAX_DETAIL = 1500
# Exceptions raised while working with the objects the code under test returned.
UNUSABLE = (AttributeError, IndexError, KeyError, RuntimeError, TypeError, ValueError,
            ZeroDivisionError, OverflowError)
NOT_UNUSABLE = (RecursionError,)


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case cannot be judged (for instance a run that diverged)."""


class Stop(Exception):
    """The case was judged (a violation was recorded) and cannot go on."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return jsonable(float(x))
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 60 else f"array{x.shape}"
    if hasattr(x, "detach"):
        return jsonable(x.detach().cpu().numpy())
    return str(x)[:300]


class Mon:
    """Ledger of one case: what the monitors observed and what they decided."""

    def __init__(self):
        self.decisions = 0
        self.counters = collections.Counter()
        self.violations = []
        self.signature = None

    def saw(self, what, n=1):
        """An event was observed by the monitor called ``what``."""
        self.counters[what] += n

    def nontrivial(self, *parts):
        """The case is non-trivial; ``parts`` identify what was observed."""
        h = hashlib.sha1(repr(jsonable(parts)).encode()).hexdigest()[:16]
        self.signature = h if self.signature is None else \
            hashlib.sha1((self.signature + h).encode()).hexdigest()[:16]

    def check(self, ok, mechanism, /, **detail):
        self.decisions += 1
        if not ok:
            if len(self.violations) < 20:
                self.violations.append({
                    "mechanism": mechanism,
                    "detail": json.dumps(jsonable(detail))[:MAX_DETAIL]
                })
        return bool(ok)

    def close(self, got, want, tol, mechanism, /, **detail):
        """|got - want| <= tol elementwise, equal non-finite values included."""
        g = np.asarray(got, dtype=np.float64)
        w = np.asarray(want, dtype=np.float64)
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w) if g.size == w.size == 1 else (g, w)
            except ValueError:
                pass
        if g.shape != w.shape:
            return self.check(False, mechanism + " (shape)", **dict(
                detail, got_shape=g.shape, want_shape=w.shape))
        t = np.broadcast_to(np.asarray(tol, dtype=np.float64), w.shape)
        fin = np.isfinite(w)
        with np.errstate(invalid="ignore"):
            bad = np.where(fin, ~(np.abs(g - w) <= t), ~((g == w) | (np.isnan(g) & np.isnan(w))))
        if bad.any():
            k = int(np.argmax(bad.ravel()))
            return self.check(False, mechanism, **dict(
                detail, got=g.ravel()[k], want=w.ravel()[k], tol=t.ravel()[k], at=k,
                entries_off=int(bad.sum()), entries=int(bad.size)))
        return self.check(True, mechanism)

    @contextlib.contextmanager
    def under_test(self, what):
        """Any exception in the block is the fault of the code under test."""
        try:
            yield
        except (Skip, Stop, CaseTimeout):
            raise
        except Exception as e:
            if gave_up(e):
                raise Skip("the external conic solver gave up")
            self.check(False, "%s raised %s on valid input" % (what, type(e).__name__),
                       message=str(e)[:300], traceback=traceback.format_exc()[-900:])
            raise Stop()

    def raises(self, fn, mechanism, /, types=(Exception,), **detail):
        """``fn`` must refuse with an exception of one of the given types."""
        try:
            out = fn()
        except types:
            return self.check(True, mechanism)
        except CaseTimeout:
            raise
        except Exception as e:  # another kind of refusal
            return self.check(False, mechanism + " (other exception)",
                              **dict(detail, raised=type(e).__name__ + ": " + str(e)[:200]))
        return self.check(False, mechanism, **dict(detail, returned=str(out)[:200]))


def gave_up(e):
    """The conic solver, which is not under test, failed numerically."""
    return type(e).__module__ == "cvxpy.error" and type(e).__name__ == "SolverError"


def sub_rng(seed, prop, index, salt=0):
    return np.random.default_rng(
        np.random.SeedSequence([seed & 0xFFFFFFFF, zlib.crc32(prop.encode()), index, salt]))


def seed_globals(seed, prop, index):
    import torch
    torch.set_grad_enabled(True)  # a step that raised may have left it off
    torch.set_default_dtype(torch.float32)
    s = int(sub_rng(seed, prop, index, 99).integers(2**31 - 1))
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


# -- worker ------------------------------------------------------------------------------------

_W = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def _init_worker(prop, repo):
    import torch
    torch.set_num_threads(1)
    warnings.simplefilter("ignore")
    _W["mod"] = importlib.import_module("vp.checks." + prop.lower())
    _W["prop"] = prop
    _W["repo"] = os.path.join(os.path.realpath(repo), "skwdro") + os.sep
    signal.signal(signal.SIGALRM, _alarm)
    null = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(null, 1)
        os.dup2(null, 2)


def _from_repo(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    return [f for f in frames if os.path.realpath(f.filename).startswith(_W["repo"])]


def _run_case(case):
    mod, prop = _W["mod"], _W["prop"]
    mon = Mon()
    seed, index = case["seed"], case["index"]
    status, note = "ok", None
    seed_globals(seed, prop, index)
    t0 = time.time()
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case, mon, sub_rng(seed, prop, index))
    except Skip as e:
        status, note = "skipped", str(e)[:200]
    except Stop:
        pass
    except CaseTimeout:
        status, note = "timeout", "case exceeded %d s" % CASE_TIMEOUT_S
    except Exception as e:
        frames = _from_repo(e)
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if gave_up(e):
            status, note = "skipped", "the external conic solver gave up"
        elif frames:
            # valid input, and the code under test raised
            status = "ok"
            mon.check(False, "raised %s on valid input (%s)" % (
                type(e).__name__, case.get("kind", "case")),
                message=str(e)[:300], where=frames[-1].filename.split("/skwdro/")[-1],
                function=frames[-1].name, traceback=tb[-900:])
        elif isinstance(e, UNUSABLE) and not isinstance(e, NOT_UNUSABLE):
            # what the code under test handed over cannot be worked with
            mon.check(False, "a result cannot be used as documented (%s: %s)" % (
                case.get("kind", "case"), type(e).__name__), message=str(e)[:300],
                traceback=tb[-900:])
        else:
            status, note = "error", tb
    finally:
        signal.alarm(0)
    return {"case": case, "status": status, "note": note, "decisions": mon.decisions,
            "counters": dict(mon.counters), "violations": mon.violations,
            "signature": mon.signature, "t": time.time() - t0}


# -- known findings ----------------------------------------------------------------------------

def load_known(here, prop):
    """Lines ``known: property=<id> mechanism=<text> :: <what fails>``."""
    out = {}
    path = os.path.join(here, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            head = "known: property=%s mechanism=" % prop
            if line.startswith(head):
                mech, _, what = line[len(head):].partition(" :: ")
                out[mech.strip()] = what.strip()
    return out


# -- main --------------------------------------------------------------------------------------

# how often the case list of a check is repeated (quick, thorough); every repetition draws anew
# since the random choices of a case depend on its index
REPEAT = {"C14": (2, 2), "C17": (2, 1), "C19": (2, 2), "C21": (2, 2), "C23": (2, 1),
          "C24": (1, 1), "C31": (1, 1), "C32": (2, 2)}


def number(cases, seed, times=1):
    cases = [dict(c) for _ in range(times) for c in cases]
    for k, c in enumerate(cases):
        c["index"] = k
        c["seed"] = seed
    return cases


def main(argv, here, repo):
    t0 = time.time()
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]

    warnings.simplefilter("ignore")
    mod = importlib.import_module("vp.checks." + prop.lower())
    import skwdro
    loaded = os.path.realpath(os.path.dirname(skwdro.__file__))
    if loaded != os.path.join(os.path.realpath(repo), "skwdro"):
        print("harness error: skwdro imported from %s, expected %s" % (loaded, repo))
        return HARNESS_ERROR

    if replay:
        data = json.load(open(replay))
        cases = [data["case"]]
    else:
        times = REPEAT.get(prop, (4, 3))[tier == "thorough"]
        cases = number(mod.cases(tier, seed), seed, times)
    if "--only" in argv:
        cases = [cases[int(argv[argv.index("--only") + 1])]]
    jobs = min(len(cases), int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1),
               getattr(mod, "MAX_JOBS", 64))

    results, broken = [], None
    order = sorted(range(len(cases)), key=lambda k: -cases[k].get("cost", 1))
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker,
                                initargs=(prop, repo)) as pool:
        futs = [pool.submit(_run_case, cases[k]) for k in order]
        for f in futs:
            try:
                results.append(f.result())
            except Exception as e:
                broken = "%s: %s" % (type(e).__name__, e)
                break
    results.sort(key=lambda r: r["case"]["index"])

    counters = collections.Counter()
    signatures = set()
    for r in results:
        counters.update(r["counters"])
        if r["signature"] is not None:
            signatures.add(r["signature"])
    decisions = sum(r["decisions"] for r in results)
    errors = [r for r in results if r["status"] == "error"]
    timeouts = [r for r in results if r["status"] == "timeout"]
    skipped = [r for r in results if r["status"] == "skipped"]

    known = load_known(here, prop)
    known_hits, unlisted = collections.Counter(), []
    for r in results:
        for v in r["violations"]:
            if v["mechanism"] in known:
                known_hits[v["mechanism"]] += 1
            else:
                unlisted.append((r["case"], v))

    evdir = os.path.join(here, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay_path = None
    if unlisted:
        case, v = unlisted[0]
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, prop + ".json")
        if replay:
            replay_path = replay
        else:
            with open(replay_path, "w") as fo:
                json.dump({"property": prop, "case": case, "violations":
                           [w for c, w in unlisted if c is case]}, fo, indent=1)

    missing = [k for k in getattr(mod, "REQUIRED", []) if counters[k] == 0] if not replay else []
    max_skip = getattr(mod, "MAX_SKIPPED", 0.5)
    if not replay:
        step = max(1, len(results) // 4)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(signatures),
                "rule": mod.RULE,
                "oracle_decisions": decisions,
                "observed_events": dict(sorted(counters.items())),
                "skipped_cases": len(skipped),
                "samples": [dict(jsonable(r["case"]), observed=r["counters"])
                            for r in results[::step][:5]],
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": [dict(mechanism=v["mechanism"], detail=v["detail"], case=jsonable(c))
                           for c, v in unlisted[:10]],
        }
        if known_hits:
            evidence["coverage"]["known_findings_seen"] = dict(known_hits)
        with open(os.path.join(evdir, prop + ".json"), "w") as fo:
            json.dump(evidence, fo, indent=1)

    for m, n in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, known[m] or m, n))
    print("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d decisions=%d skipped=%d wall=%.1fs"
          % (prop, tier, seed, len(results), len(signatures), decisions, len(skipped),
             time.time() - t0))
    print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
    if unlisted:
        mechs = collections.Counter(v["mechanism"] for _, v in unlisted)
        for m, n in mechs.most_common(12):
            det = next(v for _, v in unlisted if v["mechanism"] == m)["detail"]
            print("  violated: %s (%d)  %s" % (m, n, det[:700]))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        sys.stdout.flush()
        return VIOLATED
    if errors or broken:
        print("harness error: " + (broken or errors[0]["note"]))
        if errors:
            print(json.dumps(jsonable(errors[0]["case"])))
        return HARNESS_ERROR
    if timeouts:
        print("inconclusive: %d cases timed out, first %s" % (
            len(timeouts), json.dumps(jsonable(timeouts[0]["case"]))))
        return INCONCLUSIVE
    if missing:
        print("inconclusive: monitors that observed nothing: " + ", ".join(missing))
        return INCONCLUSIVE
    if not replay and (decisions == 0 or not signatures):
        print("inconclusive: no oracle decision was taken")
        return INCONCLUSIVE
    if not replay and len(skipped) > max_skip * len(results):
        print("inconclusive: %d of %d cases skipped, first: %s" % (
            len(skipped), len(results), skipped[0]["note"]))
        return INCONCLUSIVE
    return HELD
