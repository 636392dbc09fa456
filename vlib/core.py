"""Driver shared by all checks: sharded Hypothesis search, shrinking, replay, evidence.

A check module `checks/PXX.py` exposes
    TITLE   short text
    RULE    how cases are made / what is non-trivial (goes to the evidence)
    SUBS    list of Sub
A Sub's strategy draws a JSON-able `spec` (every random choice is inside it);
`run(spec)` rebuilds the case from the spec, exercises spreg through its public
API and raises Violation when the property is broken.
"""
import argparse
import contextlib
import copy
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key  # call-site key, matched against known_findings.json


class Reject(Exception):
    """The generated case is outside the property's domain (counted)."""


class _Stop(KeyboardInterrupt):
    """Leaves Hypothesis immediately (budget, or shrinking took long enough)."""


@dataclass
class Sub:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[dict], Optional[dict]]
    quick: int = 200
    thorough: int = 4000
    probe: Optional[list] = None      # explicit specs always run first (regressions)
    note: str = ""


@contextlib.contextmanager
def sut(what, expect=()):
    """Run code under test; an unexpected exception on a valid input is a violation."""
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield
    except (Violation, Reject):
        raise
    except expect:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        loc = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:])
        raise Violation("%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], loc)) from e


@contextlib.contextmanager
def series_ok(W):
    """Unstandardised weights may have no convergent power series at the estimated
    parameter: spreg documents and raises that, so such a case is outside the domain.
    With row sums <= 1 and |parameter| < 1 the series always converges: never excused."""
    try:
        yield
    except Exception as e:
        if "power expansion will not converge" in str(e) and abs(W).sum(1).max() > 1 + 1e-9:
            raise Reject("power expansion does not converge")
        raise


def jhash(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        data = json.load(fh)
    return {e["key"]: e for e in data.get("findings", [])
            if e["property"] == prop and e.get("status") == "known"}


# ---------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------
_MOD = None
_KNOWN = {}
_DEADLINE = None


CASE_SECONDS = 150     # an ordinary case takes well under a second


class _Hang(BaseException):
    pass


def _alarm(*a):
    raise _Hang()


def _run_one(sub, spec):
    """One case -> ('ok', info) | ('reject',) | ('known', key) | ('fail', msg, key)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            info = sub.run(copy.deepcopy(spec)) or {}
        # findings that leave the rest of the case judged: [(key, message)]
        for key, msg in info.get("known", ()):
            if key not in _KNOWN:
                return ("fail", msg, key)
        return ("ok", info)
    except _Hang:
        return ("fail", "no result after %d s" % CASE_SECONDS, None)
    except Reject as e:
        return ("reject", str(e))
    except Violation as v:
        if v.key is not None and v.key in _KNOWN:
            return ("known", v.key)
        return ("fail", str(v), v.key)
    except Exception as e:  # the case is valid on the unchanged tree: anything else is a break
        tb = traceback.extract_tb(e.__traceback__)
        if type(e).__name__ == "LinAlgError" and not any("/spreg/" in f.filename for f in tb):
            return ("reject", "a matrix of the reference computation is singular")
        loc = "; ".join("%s:%d:%s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
        return ("fail", "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], loc), None)
    finally:
        signal.alarm(0)


def _shard(args):
    subname, shard, seed, n, shrink_s = args
    sub = {s.name: s for s in _MOD.SUBS}[subname]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = dict(sub=subname, shard=shard, evals=0, rejects=0, nontrivial=set(), known={},
              labels={}, samples=[], fail=None, error=None, cut=False, slow=(0.0, None))
    fail = {"spec": None, "msg": None, "key": None, "t0": None, "size": None}

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink))
    @given(sub.strategy())
    def test(spec):
        now = time.monotonic()
        if fail["t0"] is not None and now - fail["t0"] > shrink_s:
            raise _Stop()
        if _DEADLINE is not None and now > _DEADLINE:
            st["cut"] = True
            raise _Stop()
        first = fail["t0"] is None
        if first:
            st["evals"] += 1
        r = _run_one(sub, spec)
        dt = time.monotonic() - now
        if dt > st["slow"][0]:
            st["slow"] = (dt, spec)
        if r[0] == "ok":
            if first:
                info = r[1]
                if info.get("nontrivial", True):
                    st["nontrivial"].add(jhash(spec))
                    st["samples"] = (st["samples"] + [{"sub": subname, "spec": spec}])[-1:]
                for k in {k for k, _ in info.get("known", ())}:
                    st["known"][k] = st["known"].get(k, 0) + 1
                for l in info.get("labels", ()):
                    st["labels"][l] = st["labels"].get(l, 0) + 1
        elif r[0] == "reject":
            if first:
                st["rejects"] += 1
                st["labels"]["reject:" + r[1][:60]] = st["labels"].get("reject:" + r[1][:60], 0) + 1
        elif r[0] == "known":
            if first:
                st["known"][r[1]] = st["known"].get(r[1], 0) + 1
        else:
            size = len(json.dumps(spec, default=str))
            if fail["spec"] is None or size <= fail["size"]:
                fail.update(spec=copy.deepcopy(spec), msg=r[1], key=r[2], size=size)
            if fail["t0"] is None:
                fail["t0"] = time.monotonic()
            raise Violation(r[1])

    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:  # harness error (or hypothesis Flaky after a failure)
        if fail["spec"] is None:
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if fail["spec"] is not None:
        st["fail"] = {"spec": fail["spec"], "msg": fail["msg"], "key": fail["key"],
                      "shard_seed": seed, "shard_n": n}
    st["nontrivial"] = sorted(st["nontrivial"])
    return st


def _init(modname, known, deadline):
    global _MOD, _KNOWN, _DEADLINE
    _MOD = importlib.import_module("checks." + modname)
    _KNOWN = known
    _DEADLINE = deadline


# ---------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------
def _write_replay(prop, fail, subname):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, subname, jhash(fail["spec"])))
    with open(path, "w") as fh:
        json.dump({"property": prop, "sub": subname, **fail}, fh, indent=1, default=str)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--max-seconds", type=float, default=None)
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        from vlib import boot
        boot.boot()
        mod = importlib.import_module("checks." + prop)
    except BaseException:
        traceback.print_exc()
        print("ERROR: cannot load check or code under test")
        return 2
    known = load_known(prop)
    subs = [s for s in mod.SUBS if a.sub is None or s.name == a.sub]

    if a.replay:
        with open(a.replay) as fh:
            rp = json.load(fh)
        _init(prop, known, None)
        sub = {s.name: s for s in mod.SUBS}[rp["sub"]]
        r = _run_one(sub, rp["spec"])
        print(r)
        if r[0] == "fail":
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        return 0

    budget = a.max_seconds or (420.0 if tier == "quick" else 3600.0)
    deadline = time.monotonic() + budget
    shrink_s = 20.0 if tier == "quick" else 60.0
    tasks = []
    for s in subs:
        n = int(max(1, round((s.quick if tier == "quick" else s.thorough) * a.scale)))
        # small shards so that cheap and expensive subs balance over the processes
        nsh = max(1, min(NPROC if tier == "quick" else 4 * NPROC, n // 4 or 1))
        for k in range(nsh):
            m = n // nsh + (1 if k < n % nsh else 0)
            sd = zlib.crc32(("%s/%s/%d/%d" % (prop, s.name, k, seed)).encode())
            tasks.append((s.name, k, sd, m, shrink_s))
    # interleave
    tasks.sort(key=lambda t: (t[1], t[0]))
    _init(prop, known, deadline)
    results, fails, errors = [], [], []
    known_hits = {}
    probes = 0
    probe_samples = []
    for s in subs:   # fixed regression specs first (saved shrunk inputs, known findings)
        for spec in s.probe or []:
            probes += 1
            try:
                r = _run_one(s, spec)
            except BaseException:
                errors.append(traceback.format_exc()[-3000:])
                continue
            if r[0] == "fail":
                fails.append((s.name, {"spec": spec, "msg": r[1], "key": r[2], "probe": True}))
            elif r[0] == "known":
                known_hits[r[1]] = known_hits.get(r[1], 0) + 1
            elif r[0] == "ok":
                for k in {k for k, _ in r[1].get("known", ())}:
                    known_hits[k] = known_hits.get(k, 0) + 1
    ctx = mp.get_context("fork")
    with ctx.Pool(NPROC, initializer=_init, initargs=(prop, known, deadline)) as pool:
        try:
            for st in pool.imap_unordered(_shard, tasks, chunksize=1):
                results.append(st)
        except BaseException:
            errors.append(traceback.format_exc())
    per, labels, samples, allnt = {}, {}, [], set()
    evals = rejects = 0
    cut = False
    for st in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        p = per.setdefault(st["sub"], {"evaluations": 0, "rejected": 0, "nontrivial": set()})
        p["evaluations"] += st["evals"]
        p["rejected"] += st["rejects"]
        p["nontrivial"].update(st["nontrivial"])
        allnt.update((st["sub"], h) for h in st["nontrivial"])
        evals += st["evals"]
        rejects += st["rejects"]
        cut = cut or st["cut"]
        for k, v in st["labels"].items():
            kk = st["sub"] + ":" + k
            labels[kk] = labels.get(kk, 0) + v
        for k, v in st["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        if st["shard"] == 0:
            samples.extend(st["samples"][:1])
        if st["fail"]:
            fails.append((st["sub"], st["fail"]))
        if st["error"]:
            errors.append("%s[%d]: %s" % (st["sub"], st["shard"], st["error"]))
    for p in per.values():
        p["nontrivial"] = len(p["nontrivial"])
    evals += probes
    seen, uniq = set(), []
    for name, f in sorted(fails, key=lambda x: len(json.dumps(x[1]["spec"], default=str))):
        if name in seen:
            continue
        seen.add(name)
        uniq.append((name, f))
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(allnt),
            "rule": getattr(mod, "RULE", ""), "samples": samples[:12],
            "rejected_outside_domain": rejects, "fixed_probe_cases": probes,
            "per_sub": per, "labels": labels, "known_finding_hits": known_hits,
            "budget_cut": cut,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(uniq),
    }
    if not samples:
        ev["coverage"]["samples"] = [{"note": "no nontrivial case"}]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if os.environ.get("VERIF_SLOW"):
        for st in sorted(results, key=lambda r: -r["slow"][0])[:3]:
            print("   slow %.1fs %s %s" % (st["slow"][0], st["sub"], json.dumps(st["slow"][1], default=str)))
    print("%s [%s seed=%d] evaluations=%d nontrivial=%d rejected=%d wall=%.1fs%s" % (
        prop, tier, seed, evals, len(allnt), rejects, wall, " (budget cut)" if cut else ""))
    for n, p in sorted(per.items()):
        print("   %-28s %s" % (n, p))
    for k in sorted(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    for name, f in uniq:
        path = _write_replay(prop, f, name)
        print("  %s: %s" % (name, f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if uniq:
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS-ERROR", e)
        return 2
    return 0
