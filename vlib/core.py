"""
Runner: property = list of facets.  A facet is a hypothesis strategy producing a JSON-able case, and a plain function
which judges the case against an explicit oracle.  Nothing in here looks at how the code under test is written.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 120      # s; the cases take milliseconds, so this only ends calls that do not terminate
SHRINK_BUDGET = 45      # s
NPROC = min(8, os.cpu_count() or 8)


class Violation(Exception):
    pass


class CaseTimeout(Exception):
    pass


class ShrinkStop(BaseException):
    pass


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", shards=1, exhaustive=False):
        self.name = name
        self.strategy = strategy      # callable returning a hypothesis strategy, or a list of cases (exhaustive)
        self.check = check            # check(case, ctx)
        self.quick = quick
        self.thorough = thorough or quick * 15
        self.rule = rule
        self.shards = shards
        self.exhaustive = exhaustive


class Ctx:
    """per-case bookkeeping"""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.append(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, complex):
        return {"re": o.real, "im": o.imag}
    return repr(o)


def _through_repo(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(boot.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


class _Alarm:
    def __enter__(self):
        signal.signal(signal.SIGALRM, self._fire)
        signal.alarm(CASE_TIMEOUT)

    def __exit__(self, *a):
        signal.alarm(0)

    @staticmethod
    def _fire(*a):
        raise CaseTimeout("call did not terminate within %d s (normally milliseconds)" % CASE_TIMEOUT)


def run_case(facet, case, ctx=None):
    """returns None if the property held, else a message.  Harness errors propagate."""
    ctx = ctx or Ctx()
    random.seed(0)
    try:
        with _Alarm(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.check(case, ctx)
    except Violation as e:
        return str(e)
    except Exception as e:
        if _through_repo(e.__traceback__):
            fr = traceback.extract_tb(e.__traceback__)
            where = [f for f in fr if os.path.realpath(f.filename).startswith(boot.REPO + "/")][-1]
            return "valid input raised %s: %s (in %s)" % (type(e).__name__, str(e)[:200], where.name)
        if isinstance(e, (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError)):
            # the library returned something the check cannot even be applied to (wrong shape, type, missing field)
            fr = traceback.extract_tb(e.__traceback__)[-1]
            return "unusable result: %s: %s (at %s:%s)" % (type(e).__name__, str(e)[:200], os.path.basename(fr.filename), fr.lineno)
        raise
    return None


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


def _quiet_stdout():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.close(dn)
    sys.stdout = open(os.devnull, "w")


def run_task(args):
    """one (facet, shard): executed in its own forked process"""
    pid, fi, shard, n, seed, quiet = args
    if quiet:
        _quiet_stdout()
    mod = importlib.import_module("props." + pid.lower())
    facet = mod.FACETS[fi]
    t0 = time.time()
    out = {"facet": facet.name, "fi": fi, "shard": shard, "n": n, "seed": seed, "evals": 0, "distinct": set(),
           "labels": {}, "samples": [], "fail": None, "error": None}
    state = {"fail": None, "t_fail": None, "len": None}

    def one(case):
        ctx = Ctx()
        if state["t_fail"] and time.time() - state["t_fail"] > SHRINK_BUDGET:
            raise ShrinkStop()
        if state["fail"] is None:
            out["evals"] += 1
        msg = run_case(facet, case, ctx)
        if state["fail"] is None:
            h = hashlib.md5(canon(case).encode()).hexdigest()[:16]
            if ctx.is_nontrivial:
                if h not in out["distinct"] and len(out["samples"]) < 2 and len(canon(case)) < 1500:
                    out["samples"].append({"facet": facet.name, "case": json.loads(canon(case)), "labels": ctx.labels})
                out["distinct"].add(h)
            for lb in set(ctx.labels):
                out["labels"][lb] = out["labels"].get(lb, 0) + 1
        if msg is not None:
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
                state["first"] = json.loads(canon(case))
            ln = len(canon(case))
            if state["len"] is None or ln <= state["len"]:
                state["len"] = ln
                state["fail"] = (json.loads(canon(case)), msg)
            if "did not terminate" in msg:
                raise ShrinkStop()
            raise Violation(msg)

    try:
        if facet.exhaustive:
            for i, case in enumerate(facet.strategy()):
                if i % facet.shards == shard:
                    one(case)
        else:
            from hypothesis import HealthCheck, Phase, given, settings
            from hypothesis import seed as hseed

            @hseed(seed)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
            @given(facet.strategy())
            def test(case):
                one(case)

            test()
    except (Violation, ShrinkStop):
        pass
    except BaseException as e:  # includes hypothesis' Flaky (history-dependent failures)
        if state["fail"] is None:
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["fail"] is not None:
        out["fail"] = {"case": state["fail"][0], "message": state["fail"][1], "first": state["first"]}
    out["wall"] = time.time() - t0
    return out


def _worker(task, conn):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    try:
        res = run_task(task)
    except BaseException as e:
        res = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:], "fail": None,
               "facet": str(task), "evals": 0, "distinct": set(), "labels": {}, "samples": [], "wall": 0.}
    conn.send(res)
    conn.close()


def run_pool(tasks, stop_on_fail=True):
    """at most NPROC forked processes; deterministic per task; stops early after a violation"""
    pending = list(tasks)
    running = {}
    results = []
    ctx = mp.get_context("fork")
    stopping = False
    while pending or running:
        while pending and len(running) < NPROC and not stopping:
            t = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(t, b))
            p.start()
            b.close()
            running[p] = (a, t)
        ready = mp.connection.wait([c for c, _ in running.values()], timeout=5)
        for p in list(running):
            conn, t = running[p]
            if conn in ready:
                try:
                    results.append(conn.recv())
                except EOFError:
                    results.append({"error": "worker for %s died" % (t,), "fail": None, "facet": str(t), "evals": 0,
                                    "distinct": set(), "labels": {}, "samples": [], "wall": 0.})
                p.join()
                del running[p]
                if results[-1]["fail"] and stop_on_fail:
                    stopping = True
        if stopping:
            pending = []
            for p in running:
                p.terminate()
            for p in list(running):
                p.join()
            running = {}
    return results


def load_known(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    with open(fn) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]


def save_replay(pid, facet, fail, extra):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "facet": facet, "case": fail["case"], "message": fail["message"],
            "first_failing_case": fail.get("first"), **extra}
    h = hashlib.md5(canon(body["case"]).encode()).hexdigest()[:10]
    fn = os.path.join(d, "%s_%s_%s.json" % (pid, facet, h))
    with open(fn, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True, default=_js)
    return fn


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args(argv)
    pid = a.property
    os.environ["VERIF_TIER"] = a.tier       # for lists of cases which depend on it
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        boot.setup()
        mod = importlib.import_module("props." + pid.lower())
    except Exception as e:
        if _through_repo(e.__traceback__):
            # the library cannot even be imported
            fn = save_replay(pid, "import", {"case": {}, "message": repr(e)}, {})
            print("library does not import: %r" % e)
            print("VIOLATION property=%s replay=%s" % (pid, fn))
            return 1
        traceback.print_exc()
        return 2

    if a.replay:
        with open(a.replay) as f:
            body = json.load(f)
        facet = [f for f in mod.FACETS if f.name == body["facet"]][0]
        msg = run_case(facet, body["case"])
        if msg is None and body.get("shard_seed") is not None and body.get("history_dependent"):
            r = run_task((pid, mod.FACETS.index(facet), body["shard"], body["n"], body["shard_seed"], False))
            msg = r["fail"] and r["fail"]["message"]
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("property held on this case")
        return 0

    tasks = []
    for fi, f in enumerate(mod.FACETS):
        if a.facet and a.facet != f.name:
            continue
        n = f.quick if a.tier == "quick" else f.thorough
        n = max(1, int(n * a.scale))
        shards = f.shards if a.tier == "quick" else max(f.shards, NPROC)
        shards = f.shards if f.exhaustive else min(shards, n)
        for s in range(shards):
            m = n // shards + (1 if s < n % shards else 0)
            tasks.append((pid, fi, s, m, derive_seed(pid, f.name, s, seed), True))

    fails = []
    # 1. regression corpus
    corpus_evals = 0
    cfn = os.path.join(ROOT, "corpus", pid + ".json")
    results = []
    if os.path.exists(cfn) and not a.facet:
        with open(cfn) as fh:
            for item in json.load(fh):
                facet = [f for f in mod.FACETS if f.name == item["facet"]]
                if not facet:
                    continue
                corpus_evals += 1
                so = sys.stdout
                sys.stdout = open(os.devnull, "w")
                try:
                    msg = run_case(facet[0], item["case"])
                except Exception:
                    sys.stdout = so
                    traceback.print_exc()
                    return 2
                finally:
                    sys.stdout = so
                if msg:
                    fails.append((facet[0].name, {"case": item["case"], "message": msg}, {"source": "corpus"}))
    if not fails or a.all:
        # longest first is not known; interleave the facets so that all get started early
        tasks.sort(key=lambda t: (t[2], t[1]))
        results = run_pool(tasks, stop_on_fail=not a.all)

    errors = [r for r in results if r.get("error")]
    for r in results:
        if r["fail"]:
            fails.append((r["facet"], r["fail"], {"shard": r["shard"], "shard_seed": r["seed"], "n": r["n"],
                                                  "verif_seed": seed, "tier": a.tier}))
    known = load_known(pid)
    new = []
    for facet, fail, extra in fails:
        k = [x for x in known if x["facet"] == facet and canon(x["case"]) == canon(fail["case"])]
        if not k:
            new.append((facet, fail, extra))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    distinct = {}
    labels = {}
    samples = []
    per_facet = {}
    for r in results:
        if "fi" not in r:
            continue
        distinct.setdefault(r["facet"], set()).update(r["distinct"])
        pf = per_facet.setdefault(r["facet"], {"evaluations": 0, "wall_s": 0.})
        pf["evaluations"] += r["evals"]
        pf["wall_s"] = round(pf["wall_s"] + r["wall"], 2)
        for k, v in r["labels"].items():
            labels[r["facet"] + ":" + k] = labels.get(r["facet"] + ":" + k, 0) + v
        if r["shard"] == 0:
            samples.extend(r["samples"])
    for k in per_facet:
        per_facet[k]["distinct_nontrivial"] = len(distinct[k])
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(p["evaluations"] for p in per_facet.values()) + corpus_evals,
                       "distinct_nontrivial": sum(len(v) for v in distinct.values()),
                       "rule": "; ".join("%s: %s" % (f.name, f.rule) for f in mod.FACETS),
                       "samples": samples[:12], "per_facet": per_facet, "labels": dict(sorted(labels.items())),
                       "regression_corpus_cases": corpus_evals,
                       "exhaustive_facets": [f.name for f in mod.FACETS if f.exhaustive]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)

    if a.verbose:
        for k, v in per_facet.items():
            print("%-28s evals %6d  nontrivial %6d  cpu %.1fs" % (k, v["evaluations"], v["distinct_nontrivial"], v["wall_s"]))
        for k, v in sorted(labels.items()):
            print("   %-60s %d" % (k, v))

    if new:
        for facet, fail, extra in new[:5 if a.all else 1]:
            # is the shrunk case enough on its own (fresh process), or does it need the history of its shard?
            fac = [f for f in mod.FACETS if f.name == facet]
            if fac and "shard" in extra:
                ctx = mp.get_context("fork")
                q, b = ctx.Pipe(duplex=False)

                def again(conn=b, f=fac[0], c=fail["case"]):
                    _quiet_stdout()
                    try:
                        conn.send(run_case(f, c))
                    except BaseException:
                        conn.send(None)
                p = ctx.Process(target=again)
                p.start()
                b.close()
                try:
                    extra["history_dependent"] = q.recv() is None
                except EOFError:
                    extra["history_dependent"] = True
                p.join()
            fn = save_replay(pid, facet, fail, extra)
            print("[%s/%s] %s" % (pid, facet, fail["message"]))
            print("case: %s" % canon(fail["case"])[:1200])
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        return 1
    if errors:
        for r in errors:
            print("HARNESS ERROR in %s:\n%s" % (r["facet"], r["error"]))
        return 2
    print("%s: property held on %d cases (%d distinct non-trivial), %.1f s" %
          (pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0
