"""Runs one property's check: shards, seeds, shrinking, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"
SHARDS = 8
CASE_CPU_S = 60
HISTORY = 40


def setup_paths():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)

    # modules of /repo are always compiled from their source: no stale .pyc can stand in for a changed file
    from importlib.machinery import FileFinder, SourceFileLoader

    class FromSource(SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    finder = FileFinder.path_hook((FromSource, [".py"]))

    def hook(path):
        if path != REPO and not path.startswith(REPO + "/"):
            raise ImportError(path)
        return finder(path)

    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()


def load(pid):
    return importlib.import_module(f"vf.props.{pid.lower()}")


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


class CaseTimeout(BaseException):
    pass


class OutOfTime(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    """Runs the check on one case. Returns its info dict; raises Violation or HarnessError."""
    from vf.core import HarnessError, Violation

    case = json.loads(json.dumps(case))  # the check gets its own copy, as a replay would
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    try:
        info = mod.check(case) or {}
        for key, msg in info.get("known", {}).items():
            if key not in known_findings(mod.__name__.rsplit(".", 1)[1].upper()):
                raise Violation(msg)
        return info
    except (Violation, HarnessError, CaseTimeout):
        raise
    except (MemoryError, ImportError, OSError) as e:
        if isinstance(e, OSError) and _in_repo(e):
            raise Violation(f"unexpected {type(e).__name__}: {e}") from e
        raise HarnessError(f"{type(e).__name__}: {e}") from e
    except Exception as e:
        if _in_repo(e):
            where = "raised by the code under test"
        else:
            where = "while reading its results"
        raise Violation(f"unexpected {type(e).__name__} {where}: {e}\n" + traceback.format_exc(limit=-6)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------ worker
def worker(pid, tier, shard, out):
    setup_paths()
    import warnings

    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    from vf.core import HarnessError, Violation

    engine.MAX_SHRINKING_SECONDS = 40
    mod = load(pid)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = mod.EXAMPLES[0 if tier == "quick" else 1]
    budget = float(os.environ.get("VERIF_BUDGET_S") or (150 if tier == "quick" else 780))
    t0 = time.time()

    res = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "known": [], "violation": None,
           "out_of_time": False, "rule": mod.RULE, "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}
    seen = set()
    nontrivial = set()
    history = []
    first_fail = []
    stop_counting = [False]

    def write():
        res["nontrivial"] = sorted(nontrivial)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    def record(case, info):
        if stop_counting[0]:
            return
        res["evaluations"] += 1
        h = digest(case)
        for lab in info.get("labels", []):
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        for k in info.get("known", {}):
            if k not in res["known"]:
                res["known"].append(k)
        if h in seen:
            return
        seen.add(h)
        if info.get("nontrivial"):
            nontrivial.add(h)
            if len(res["samples"]) < 2 and len(json.dumps(case)) < 4000:
                res["samples"].append(case)

    def execute(case):
        if time.time() - t0 > budget and not first_fail:
            res["out_of_time"] = True
            raise OutOfTime()
        try:
            info = run_case(mod, case)
        except CaseTimeout:
            res["violation"] = {
                "case": case,
                "message": f"no result after {getattr(mod, 'CASE_CPU_S', CASE_CPU_S)} s of CPU time "
                           "(a case takes well under a second): does not terminate",
                "history": [], "shrunk": False}
            write()
            os._exit(0)
        except HarnessError as e:
            res["error"] = f"{e}\ncase: {json.dumps(case)[:3000]}\n{traceback.format_exc()[-3000:]}"
            write()
            os._exit(0)
        except Violation as e:
            if not first_fail:
                first_fail.append((case, str(e), list(history)))
            stop_counting[0] = True
            raise
        record(case, info)
        history.append(case)
        if len(history) > HISTORY:
            history.pop(0)

    def found(case, msg, shrunk, hist):
        res["violation"] = {"case": case, "message": msg, "shrunk": shrunk, "history": hist}

    # hand-written seed cases first (shard 0), then the generated search
    corpus = getattr(mod, "CORPUS", []) if shard == 0 else []
    for case in corpus:
        try:
            execute(case)
        except Violation as e:
            found(case, str(e), False, [])
            write()
            return

    last = []

    @hypothesis.seed(seed * 1009 + shard)
    @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
              report_multiple_bugs=False, print_blob=False)
    @given(mod.cases(tier))
    def prop(case):
        try:
            execute(case)
        except Violation as e:
            last[:] = [case, str(e)]
            raise Violation("violation") from None

    import io
    from contextlib import redirect_stderr, redirect_stdout

    try:
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            prop()
    except OutOfTime:
        pass
    except hypothesis.errors.Flaky:
        c, m, h = first_fail[0]
        found(c, m + "\n(depends on earlier cases in the same process)", False, h)
    except Violation:
        found(last[0], last[1], True, [])
    except BaseExceptionGroup as e:  # noqa: F821  (several kinds of failure)
        if first_fail:
            c, m, h = first_fail[0]
            found(c, m, False, h)
        else:
            res["error"] = "".join(traceback.format_exception(e))[-4000:]
    except Exception as e:
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    write()


# ------------------------------------------------------------------ parent
_KNOWN = {}


def known_findings(pid):
    """Keys of the committed findings of a property: key -> text."""
    if pid in _KNOWN:
        return _KNOWN[pid]
    out = _KNOWN[pid] = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = text
    return out


def env_for(shard):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent")
    env.pop("PYTHONPATH", None)
    return env


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    if a.selftest:
        setup_paths()
        from vf.selftest import run
        return run()
    if not a.pid:
        ap.error("which property?")
    if a.shard is not None:
        worker(a.pid, a.tier, a.shard, a.out)
        return 0
    if a.replay:
        return replay(a.pid, a.replay)

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = tempfile.mkdtemp(prefix="vf-")
    shards = int(os.environ.get("VERIF_SHARDS") or SHARDS)
    try:
        procs = []
        for s in range(shards):
            out = os.path.join(scratch, f"{s}.json")
            err = open(os.path.join(scratch, f"{s}.err"), "w")
            env = env_for(s)
            env["TMPDIR"] = scratch
            p = subprocess.Popen([PYTHON, os.path.join(VERIF, "run.py"), a.pid, "--tier", a.tier, "--shard", str(s),
                                  "--out", out], env=env, cwd=scratch, stdout=err, stderr=err)
            procs.append((s, p, out, err))
        results, errors = [], []
        deadline = t0 + (820 if a.tier == "quick" else 3000)
        for s, p, out, err in procs:
            try:
                p.wait(timeout=max(1.0, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            err.close()
            if os.path.exists(out):
                r = json.load(open(out))
                r["shard"] = s
                results.append(r)
                if r.get("error"):
                    errors.append(f"shard {s}: {r['error']}")
            else:
                errors.append(f"shard {s}: exit {p.returncode}: " + open(err.name).read()[-3000:])
        return report(a, seed, results, errors, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, seed, results, errors, t0):
    viol = [r for r in results if r.get("violation")]
    nontrivial = set()
    labels = {}
    known = []
    for r in results:
        nontrivial |= set(r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k in r["known"]:
            if k not in known:
                known.append(k)
    listed = known_findings(a.pid)
    evidence = {
        "property": a.pid,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": results[0]["rule"] if results else "",
            "samples": [s for r in results for s in r["samples"]][:4],
            "labels": dict(sorted(labels.items())),
            "shards_stopped_by_time_budget": sum(bool(r["out_of_time"]) for r in results),
            "shards": len(results),
        },
        "assumptions": results[0]["assumptions"] if results else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in sorted(known):
        if k in listed:
            print(f"KNOWN-FINDING: property={a.pid} {listed[k]}")
    if viol:
        v = min(viol, key=lambda r: r["shard"])
        rep = {"property": a.pid, "seed": seed, "shard": v["shard"], **v["violation"]}
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{a.pid}-{digest(rep['case'])}.json")
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        print(rep["message"][:2000])
        print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    if errors:
        print("\n".join(errors)[:6000], file=sys.stderr)
        return 2
    c = evidence["coverage"]
    print(f"{a.pid} held: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    return 0


def replay(pid, path):
    """Plain re-run of a saved case, without the library."""
    rep = json.load(open(path))
    if os.environ.get("PYTHONHASHSEED") != str(rep.get("shard", 0)) or sys.executable != PYTHON:
        env = env_for(rep.get("shard", 0))
        return subprocess.call([PYTHON, os.path.join(VERIF, "run.py"), pid, "--replay", os.path.abspath(path)], env=env)
    setup_paths()
    from vf.core import Violation

    mod = load(pid)
    for c in rep.get("history", []):
        try:
            run_case(mod, c)
        except Violation:
            break
    try:
        run_case(mod, rep["case"])
    except (Violation, CaseTimeout) as e:
        print(str(e) or "does not terminate")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay: the property held on this case")
    return 0
