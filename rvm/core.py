"""Monitoring core: cases are generated and driven in worker processes, monitors count
their evaluations and record violations, and the verdict is three-valued."""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RVM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(os.path.realpath(SRC), "rascal") + os.sep


class Inconclusive(BaseException):
    """Raised when a case cannot be decided (watchdog, precondition not reached)."""


class _Alarm(BaseException):
    pass


def to_json(o, depth=0):
    import numpy as np

    if isinstance(o, (str, bool, type(None))):
        return o
    if isinstance(o, (int, float)):
        return o if o == o and abs(o) != float("inf") else repr(o)
    if isinstance(o, np.generic):
        return to_json(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.size > 60:
            return {"shape": list(o.shape), "head": to_json(o.ravel()[:20].tolist(), depth + 1)}
        return to_json(o.tolist(), depth + 1)
    if isinstance(o, dict):
        return {str(k): to_json(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        o = list(o)
        r = [to_json(v, depth + 1) for v in o[:60]]
        if len(o) > 60:
            r.append("... %d items" % len(o))
        return r
    return repr(o)[:300]


class Ctx:
    def __init__(self, prop, tier, seed, index, scratch, verbose=False):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        self.scratch = scratch
        self.counts = Counter()
        self.tags = Counter()
        self.violations = []
        self.known = []
        self.desc = {}
        self.nontrivial = False
        self.data = {}
        self.verbose = verbose

    # -- monitors -----------------------------------------------------------------------------
    def check(self, ok, monitor, **detail):
        """One evaluation of a monitor's oracle."""
        self.counts[monitor] += 1
        if not bool(ok):
            self.violate(monitor, **detail)
        return bool(ok)

    def violate(self, monitor, **detail):
        if len(self.violations) < 20:
            self.violations.append({"monitor": monitor, "detail": to_json(detail)})
        if self.verbose:
            print("  !!", monitor, json.dumps(to_json(detail))[:2000])

    def finding(self, fid, **detail):
        """The observed misbehaviour has the mechanism of a listed finding."""
        self.known.append((fid, to_json(detail)))

    def case(self, nontrivial=True, **desc):
        self.desc.update(to_json(desc))
        self.nontrivial = self.nontrivial or bool(nontrivial)

    def tag(self, name, n=1):
        self.tags[name] += n

    def raises(self, monitor, fn, *a, exc=Exception, **k):
        """fn must raise exc."""
        try:
            r = fn(*a, **k)
        except exc as e:
            self.counts[monitor] += 1
            return e
        self.counts[monitor] += 1
        self.violate(monitor, problem="no error raised", result=r, args=a, kwargs=k)
        return None

    def tmp(self, name=""):
        d = os.path.join(self.scratch, "case%d" % self.index)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name) if name else d


def in_sut(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(PKG):
            return True
        tb = tb.tb_next
    return False


# -- coverage of the code under test ---------------------------------------------------------------
_LINES = {}


def start_line_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "rvm-lines")
    except ValueError:
        return

    cache = {}

    def on_line(code, line):
        f = code.co_filename
        m = cache.get(f)
        if m is None:
            m = cache[f] = os.path.realpath(f).startswith(PKG)
        if m:
            _LINES.setdefault(os.path.basename(f), set()).add(line)
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, on_line)
    mon.set_events(3, mon.events.LINE)


def take_lines():
    r = {k: sorted(v) for k, v in _LINES.items()}
    _LINES.clear()
    return r


# -- running one case --------------------------------------------------------------------------
def seed_ints(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return [int.from_bytes(h[i : i + 4], "little") for i in range(0, 16, 4)]


def run_case(mod, tier, seed, index, scratch, verbose=False, limit=None):
    import numpy as np

    ctx = Ctx(mod.ID, tier, seed, index, scratch, verbose)
    rng = np.random.default_rng(seed_ints(seed, mod.ID, index))
    np.random.seed(seed_ints(seed, mod.ID, index, "np")[0])
    random.seed(seed_ints(seed, mod.ID, index, "py")[0])
    status = "ok"
    note = None
    t0 = time.time()
    limit = limit or getattr(mod, "CASE_SECONDS", 120)

    def on_alarm(sig, frame):
        raise _Alarm()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    cwd = os.getcwd()
    try:
        mod.run(ctx, rng, index)
    except Inconclusive as e:
        status, note = "inconclusive", str(e)
    except _Alarm:
        status, note = "inconclusive", "watchdog after %d s" % limit
    except Exception as e:
        tb = traceback.format_exc()
        note = tb
        resource = isinstance(e, MemoryError) or getattr(e, "errno", None) in (12, 23, 24, 28)
        if resource:
            status = "harness-error"
        else:
            # an error out of the code under test, or a result the monitors cannot interpret
            m = "no-unexpected-error" if in_sut(e.__traceback__) else "result-well-formed"
            ctx.counts[m] += 1
            ctx.violate(m, error=repr(e), traceback=tb[-1800:], case=ctx.desc)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
    d = os.path.join(scratch, "case%d" % index)
    if os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)
    return {
        "index": index,
        "status": status,
        "note": note,
        "counts": ctx.counts,
        "tags": ctx.tags,
        "violations": ctx.violations,
        "known": ctx.known,
        "desc": ctx.desc,
        "nontrivial": ctx.nontrivial,
        "data": ctx.data,
        "lines": take_lines(),
        "t": time.time() - t0,
    }


_G = {}


def _init_worker(modname, tier, seed, scratch):
    import importlib

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G["mod"] = importlib.import_module(modname)
    _G["args"] = (tier, seed, scratch)
    start_line_monitor()


def _work(idx):
    return [run_case(_G["mod"], *_G["args"][:2], i, _G["args"][2]) for i in idx]


def prepare_env():
    """Called before numpy/matplotlib are imported."""
    scratch = tempfile.mkdtemp(prefix="rvm-")
    os.environ.update(
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
        TQDM_DISABLE="1",
    )
    os.makedirs(os.environ["MPLCONFIGDIR"])
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    return scratch


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out[d["id"]] = d
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int, nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        r = json.load(open(a.replay))
        a.tier, a.seed, a.only = r["tier"], r["seed"], [r["case"]] if r["case"] >= 0 else None
        a.no_evidence = True
    t0 = time.time()
    scratch = prepare_env()
    try:
        return _main(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, scratch, t0):
    import importlib
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    os.chdir(scratch)
    modname = "rvm.props." + a.property.lower()
    mod = importlib.import_module(modname)
    import rascal

    real = os.path.realpath(rascal.__file__)
    if not real.startswith(PKG):
        print("rascal imported from", real, "not from", PKG)
        return 2
    n = a.cases or mod.cases(a.tier)
    results = []
    if a.only is not None:
        start_line_monitor()
        for i in a.only:
            results.append(run_case(mod, a.tier, a.seed, i, scratch, verbose=True, limit=1800))
            r = results[-1]
            print("case", i, r["status"], json.dumps(r["desc"])[:3000])
            if r["note"]:
                print(r["note"])
    else:
        from concurrent.futures import ProcessPoolExecutor
        from concurrent.futures.process import BrokenProcessPool
        import multiprocessing as mp

        chunk = max(1, min(getattr(mod, "CHUNK", 8), n // (a.jobs * 4) or 1))
        todo = [list(range(s, min(n, s + chunk))) for s in range(0, n, chunk)]
        deadline = t0 + (780 if a.tier == "quick" else 4 * 3600)
        ex = ProcessPoolExecutor(
            a.jobs, mp.get_context("fork"), _init_worker, (modname, a.tier, a.seed, scratch)
        )
        futs = [ex.submit(_work, c) for c in todo]
        broken = False
        for c, f in zip(todo, futs):
            if time.time() - t0 > 150 and sum(bool(r["violations"]) for r in results) >= 3:
                print("stopped early: violations found after %d cases" % len(results))
                broken = True
                break
            try:
                results.extend(f.result(timeout=max(1, deadline - time.time())))
            except (BrokenProcessPool, TimeoutError) as e:
                broken = True
                results.extend(
                    {"index": i, "status": "inconclusive", "note": repr(e), "counts": Counter(),
                     "tags": Counter(), "violations": [], "known": [], "desc": {}, "nontrivial": False,
                     "data": {}, "lines": {}, "t": 0}
                    for i in c
                )
        if broken:
            for p in list(getattr(ex, "_processes", {}).values()):
                p.kill()
        ex.shutdown(wait=not broken, cancel_futures=True)
    return report(a, mod, results, t0, scratch)


def report(a, mod, results, t0, scratch):
    prop = mod.ID
    counts, tags, lines = Counter(), Counter(), {}
    fps, samples = set(), []
    known_list = load_known(prop)
    known_hit = Counter()
    viols = []
    status = Counter()
    for r in results:
        status[r["status"]] += 1
        counts.update(r["counts"])
        tags.update(r["tags"])
        for f, ls in r["lines"].items():
            lines.setdefault(f, set()).update(ls)
        if r["nontrivial"]:
            fp = hashlib.sha1(json.dumps(r["desc"], sort_keys=True).encode()).hexdigest()
            if fp not in fps:
                fps.add(fp)
                if len(samples) < 3 and len(json.dumps(r["desc"])) < 4000:
                    samples.append({"case": r["index"], **r["desc"]})
        for fid, det in r["known"]:
            if fid in known_list:
                known_hit[fid] += 1
            else:
                viols.append((r["index"], {"monitor": "finding:" + fid, "detail": det}))
        for v in r["violations"]:
            viols.append((r["index"], v))
    if hasattr(mod, "finalize") and a.only is None:
        fctx = Ctx(prop, a.tier, a.seed, -1, scratch)
        mod.finalize(fctx, [r for r in results if r["status"] == "ok"])
        counts.update(fctx.counts)
        tags.update(fctx.tags)
        viols.extend((-1, v) for v in fctx.violations)

    rc = 0
    rdir = os.path.join(VERIF, "replays", prop)
    if viols and not a.replay:
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
    seen = Counter()
    for idx, v in viols:
        rc = 1
        seen[v["monitor"]] += 1
        if seen[v["monitor"]] > 1 or len(seen) > 6:
            continue
        if a.replay:
            path = a.replay
        else:
            path = os.path.join(rdir, "%s-%d.json" % ("".join(ch if ch.isalnum() else "_" for ch in v["monitor"])[:50], idx))
            json.dump(
                {"property": prop, "tier": a.tier, "seed": a.seed, "case": idx, "monitor": v["monitor"],
                 "detail": v["detail"], "desc": next((r["desc"] for r in results if r["index"] == idx), {}),
                 "how": "/opt/venv/bin/python /verif/rvm/run.py %s --replay <this file>" % prop},
                open(path, "w"), indent=1,
            )
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   monitor=%s case=%d %s" % (v["monitor"], idx, json.dumps(v["detail"])[:700]))
    if seen:
        print("   violations by monitor:", dict(seen))
    for fid, d in known_list.items():
        if known_hit[fid]:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    # inconclusive?
    problems = []
    if a.only is None and not a.cases:
        for m, k in getattr(mod, "REQUIRED", {}).items():
            if counts[m] < k:
                problems.append("monitor %r evaluated %d < %d times" % (m, counts[m], k))
        if status["inconclusive"] > max(2, 0.1 * len(results)):
            problems.append("%d of %d cases inconclusive" % (status["inconclusive"], len(results)))
        for fid in known_list:
            if not known_hit[fid]:
                print("note: listed finding %s was not observed in this run" % fid)
    if status["harness-error"]:
        problems.append("%d harness errors" % status["harness-error"])
        for r in results:
            if r["status"] == "harness-error":
                print("harness error in case", r["index"], "\n", r["note"])
                break
    for r in results:
        if r["status"] == "inconclusive":
            print("inconclusive case", r["index"], r["note"])
            break
    if problems and rc == 0:
        print("INCONCLUSIVE:", "; ".join(problems))
        rc = 2
    if os.environ.get("RVM_SLOW"):
        for r in sorted(results, key=lambda r: -r["t"])[:8]:
            print("slow", r["index"], round(r["t"], 1), json.dumps(r["desc"])[:600])
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(fps),
            "rule": mod.RULE,
            "samples": samples,
            "monitor_evaluations": dict(sorted(counts.items())),
            "observed": dict(sorted(tags.items())),
            "case_status": dict(status),
            "rascal_lines_executed": {f: len(s) for f, s in sorted(lines.items())},
            "known_findings_observed": dict(known_hit),
            "slowest_case_s": round(max([r["t"] for r in results] or [0]), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    if not a.no_evidence and a.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor evaluations, %s, %.1f s -> %s"
        % (prop, a.tier, a.seed, len(results), len(fps), sum(counts.values()), dict(status),
           time.time() - t0, {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc])
    )
    return rc
