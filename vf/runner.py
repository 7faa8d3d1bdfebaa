"""Runs the cases of one property over all cores, writes evidence, reports violations."""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU = 200          # CPU seconds one case may use before it counts as not terminating
MEM = 4 << 30          # address space of one worker


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def repo_path():
    return os.environ.get("VERIF_REPO", "/repo")


def _lib_frame(tb):
    """True if the exception was raised while executing library code."""
    base = os.path.join(repo_path(), "sidermit")
    return any(os.path.abspath(f.filename).startswith(base) for f in traceback.extract_tb(tb))


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:400]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    return repr(x)[:400]


def run_case(mod, prop, seed, tier, index, tmp):
    from vf.common import Ctx, Violation
    rng = random.Random("%s:%s:%s" % (seed, prop, index))
    cx = Ctx(rng, index, tier, seed, tmp)
    out = {"index": index, "viol": None}
    t0 = time.process_time()
    cpu = getattr(mod, "CASE_CPU", CASE_CPU)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        try:
            mod.case(cx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        out["viol"] = {"what": e.what, "detail": jsonable(e.detail)}
    except CaseTimeout:
        out["viol"] = {"what": "no result within %d s of CPU time (the case normally takes far less)" % cpu, "detail": {}}
    except MemoryError:
        out["viol"] = {"what": "memory exhausted while processing a small input", "detail": {}}
    except Exception as e:                       # raised on an input of the domain, or a malformed result
        where = "library raised on a valid input" if _lib_frame(e.__traceback__) else "result has an unusable form"
        out["viol"] = {"what": "%s: %s: %s" % (where, type(e).__name__, e),
                       "detail": {"traceback": traceback.format_exc()[-3000:]}}
    out.update(ev=dict(cx.ev), sig=cx.signature(), nontrivial=bool(cx.nontrivial),
               desc=jsonable(cx.desc), cpu=time.process_time() - t0)
    return out


_W = {}


def _init(prop, seed, tier, tmp):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    d = tempfile.mkdtemp(dir=tmp)
    os.chdir(d)
    _W.update(prop=prop, seed=seed, tier=tier, tmp=d, mod=importlib.import_module("vf.props.%s" % prop))


def _work(indices):
    out = []
    for index in indices:
        out.append(run_case(_W["mod"], _W["prop"], _W["seed"], _W["tier"], index, _W["tmp"]))
        if out[-1]["viol"]:
            break
    return out


def known_findings():
    """[(property, text, key)] of lines 'known: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                parts = line.split(None, 3)
                res.append((parts[1].split("=", 1)[1], parts[3].strip(), parts[2].split("=", 1)[1]))
    return res


def load_library():
    repo = repo_path()
    sys.path.insert(0, repo)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
    import sidermit
    import sidermit.optimization.optimizer  # noqa: F401
    got = os.path.realpath(os.path.dirname(sidermit.__file__))
    want = os.path.realpath(os.path.join(repo, "sidermit"))
    if got != want:
        raise RuntimeError("imported sidermit from %s, not from %s" % (got, want))
    logging.disable(logging.CRITICAL)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--selftest", action="store_true", help="only load the library and the checks")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int, help="override the number of cases")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    a = ap.parse_args(argv)
    if a.selftest:
        load_library()
        ps = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "vf", "props")) if len(f) == 6 and f[0].isupper() and f.endswith(".py"))
        for p in ps:
            importlib.import_module("vf.props." + p)
        print("ready: %d checks" % len(ps))
        return 0
    if not a.property:
        ap.error("--property is required")
    t0 = time.time()
    prop, tier, seed = a.property, a.tier, a.seed
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    os.environ["MPLBACKEND"] = "Agg"
    try:
        return _main(a, prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _main(a, prop, tier, seed, tmp, t0):
    try:
        load_library()
        mod = importlib.import_module("vf.props.%s" % prop)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: the library under test could not be loaded" % prop)
        return 2

    if a.replay or a.case is not None:
        idx = a.case
        if a.replay:
            r = json.load(open(a.replay))
            seed, tier, idx = r["seed"], r["tier"], r["case"]
        cwd = os.getcwd()
        res = run_case(mod, prop, seed, tier, idx, tempfile.mkdtemp(dir=tmp))
        os.chdir(cwd)
        print(json.dumps({k: res[k] for k in ("index", "desc", "ev", "viol", "cpu")}, indent=1))
        return 1 if res["viol"] else 0

    n = a.cases or mod.CASES[tier]
    soft = getattr(mod, "WALL", {}).get(tier, 420 if tier == "quick" else 3000)
    tot, sigs, viols, known_hit, samples = Counter(), set(), [], [], []
    evaluations, maxcpu = 0, 0.0
    knowns = [k for k in known_findings() if k[0] == prop]
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(a.jobs, initializer=_init, initargs=(prop, seed, tier, tmp))
    truncated = False
    try:
        size = max(1, min(16, n // (a.jobs * 8) or 1))
        it = pool.imap_unordered(_work, [list(range(i, min(i + size, n))) for i in range(0, n, size)])
        queue = []
        while True:
            if not queue:
                if viols and not a.all:
                    break
                try:
                    queue = it.next(timeout=600)[::-1]
                except StopIteration:
                    break
                except mp.TimeoutError:
                    print("ERROR property=%s: a worker stopped answering" % prop)
                    return 2
            r = queue.pop()
            evaluations += 1
            maxcpu = max(maxcpu, r["cpu"])
            tot.update(r["ev"])
            if r["nontrivial"]:
                sigs.add(r["sig"])
            if len(samples) < 4 and r["desc"] and r["nontrivial"]:
                samples.append({"case": r["index"], "input": r["desc"], "observed": r["ev"]})
            if r["viol"]:
                k = [x for x in knowns if x[2] == r["viol"]["detail"].get("key")]
                if k:
                    if k[0] not in known_hit:
                        known_hit.append(k[0])
                else:
                    viols.append(r)
            if time.time() - t0 > soft:
                truncated = True
                break
    finally:
        pool.terminate()
        pool.join()

    wall = time.time() - t0
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
           "samples": samples, "events": dict(sorted(tot.items())), "planned_cases": n,
           "stopped_by_wall_clock": truncated, "max_case_cpu_s": round(maxcpu, 3)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    if viols:
        viols.sort(key=lambda r: r["index"])
        d = os.path.join(HERE, "out", "replays")
        os.makedirs(d, exist_ok=True)
        for r in viols[:5]:
            path = os.path.join(d, "%s_%s_s%d_c%d.json" % (prop, tier, seed, r["index"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": r["index"], "violation": r["viol"],
                           "input": r["desc"], "rerun": "check.py --property %s --replay %s" % (prop, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %d: %s" % (r["index"], r["viol"]["what"]))
            for kk, vv in list(r["viol"]["detail"].items())[:6]:
                print("    %s: %s" % (kk, str(vv)[-1500:]))
        if len(viols) > 5:
            print("  ... %d violating cases" % len(viols))
        return 1
    need = getattr(mod, "MUST_SEE", [])
    missing = [m for m in need if not tot.get(m)]
    if missing or not evaluations:
        print("ERROR property=%s: never observed %s" % (prop, missing))
        return 2
    print("OK property=%s cases=%d distinct=%d events=%d wall=%.1fs%s" % (
        prop, evaluations, len(sigs), sum(tot.values()), wall, " (wall cap)" if truncated else ""))
    return 0
