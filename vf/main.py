"""Runner: property id -> generated-input search, evidence, replay, verdict."""
import argparse
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.boot()
import core  # noqa: E402
from core import Rec, Violation, run_case, cjson, chash  # noqa: E402

VERIF = boot.VERIF
LEVEL = "exploration"


def log(*a):
    print(*a, flush=True)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def load_prop(pid):
    # import the package under test once in the parent (forked by workers)
    import optbinning
    got = os.path.realpath(optbinning.__file__)
    want = os.path.realpath(os.path.join(boot.REPO, "optbinning",
                                         "__init__.py"))
    if got != want:
        raise boot.HarnessError("optbinning imported from " + got)
    return importlib.import_module("props." + pid.lower())


class _StopShard(BaseException):
    pass


# A case takes milliseconds; one that is still running after this many
# seconds counts as a fit that does not terminate.
CASE_LIMIT = 150


def _alarm(signum, frame):
    raise Violation("case did not finish within {} s".format(CASE_LIMIT))


def run_shard(sub, n_examples, seed, known_ids, stop_flag, deadline, max_shrink):
    """One Hypothesis campaign.  Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import random
    import numpy as np

    signal.signal(signal.SIGALRM, _alarm)
    rec = Rec(known_ids)
    res = dict(sub=sub.name, evals=0, nontrivial=set(), labels={}, skips={},
               samples=[], failure=None, harness=None, known={},
               stopped=False)
    state = dict(failed=False, since_fail=0, t_fail=None, cache={})

    def body(case):
        if os.path.exists(stop_flag) and not state["failed"]:
            raise _StopShard()
        if time.time() > deadline and not state["failed"]:
            res["stopped"] = True
            raise _StopShard()
        key = None
        if state["failed"]:
            key = cjson(case)
            if key in state["cache"]:
                raise state["cache"][key]
            state["since_fail"] += 1
            if (state["since_fail"] > max_shrink or
                    time.time() - state["t_fail"] > 60):
                return
        random.seed(0)
        np.random.seed(0)
        signal.alarm(CASE_LIMIT)
        try:
            try:
                skip = run_case(sub, case, rec)
            finally:
                signal.alarm(0)
        except Violation as v:
            k = cjson(case)
            state["cache"][k] = v
            if not state["failed"]:
                state["failed"] = True
                state["t_fail"] = time.time()
                open(stop_flag, "w").close()
            best = res["failure"]
            if best is None or len(k) < len(cjson(best["case"])):
                res["failure"] = dict(case=json.loads(k), msg=str(v))
            raise
        if state["failed"]:
            return
        res["evals"] += 1
        for lab in rec._case_labels:
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if skip is not None:
            res["skips"][skip] = res["skips"].get(skip, 0) + 1
        elif rec._nt:
            h = chash(case)
            if h not in res["nontrivial"]:
                res["nontrivial"].add(h)
                if len(res["samples"]) < 2:
                    res["samples"].append(cjson(case)[:1500])

    test = given(sub.strategy())(body)
    test = settings(max_examples=n_examples, database=None, deadline=None,
                    derandomize=False, report_multiple_bugs=False,
                    print_blob=False,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _StopShard:
        pass
    except boot.HarnessError as e:
        res["harness"] = str(e)
    except Violation:
        pass
    except BaseException as e:
        if res["failure"] is None:
            res["harness"] = "".join(traceback.format_exception(e))
    res["known"] = rec.known_hits
    return res


def worker(task, cpu, out):
    try:
        try:
            os.sched_setaffinity(0, {cpu})
        except OSError:
            pass
        # the library prints now and then; keep stdout for verdicts
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        res = run_shard(*task)
    except BaseException as e:
        res = dict(sub=task[0].name, evals=0, nontrivial=set(), labels={},
                   skips={}, samples=[], failure=None, known={},
                   harness="".join(traceback.format_exception(e)),
                   stopped=False)
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)
    os._exit(0)


def run_tasks(tasks, cpus):
    results = []
    free = list(cpus)
    running = {}
    todo = list(tasks)
    n = 0
    while todo or running:
        while todo and free:
            cpu = free.pop(0)
            task = todo.pop(0)
            out = os.path.join(boot.SCRATCH, "r{}".format(n))
            n += 1
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                worker(task, cpu, out)
            running[pid] = (cpu, out, task)
        pid, status = os.wait()
        if pid not in running:
            continue
        cpu, out, task = running.pop(pid)
        free.append(cpu)
        if os.path.exists(out):
            with open(out, "rb") as f:
                results.append(pickle.load(f))
            os.unlink(out)
        else:
            results.append(dict(
                sub=task[0].name, evals=0, nontrivial=set(), labels={},
                skips={}, samples=[], failure=None, known={}, stopped=False,
                harness="worker died with status {}".format(status)))
    return results


def write_replay(pid, sub, failure):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    h = chash(failure["case"]).hex()
    path = os.path.join(d, "{}-{}-{}.json".format(pid, sub, h))
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub=sub, message=failure["msg"],
                       case=failure["case"]), f, indent=1)
    return path


def do_replay(pid, mod, path):
    with open(path) as f:
        r = json.load(f)
    subs = {s.name: s for s in mod.SUBS}
    known = [k for k in load_known() if k.get("status") == "known"]
    rec = Rec([k["id"] for k in known if pid in k["properties"]])
    try:
        skip = run_case(subs[r["sub"]], r["case"], rec)
    except Violation as v:
        log("VIOLATION property={} replay={}".format(pid, path))
        log(str(v))
        return 1
    log("replay passes", "" if skip is None else "(skipped: %s)" % skip)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import hypothesis
        import optbinning
        log("hypothesis", hypothesis.__version__, "optbinning",
            optbinning.__file__)
        return 0
    pid = a.pid.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        mod = load_prop(pid)
    except boot.HarnessError:
        raise
    except Exception as e:
        where = core.repo_frame(e)
        traceback.print_exc()
        log("check error: cannot import ({})".format(where))
        return 2
    if a.replay:
        return do_replay(pid, mod, a.replay)

    known = [k for k in load_known()
             if k.get("status") == "known" and pid in k["properties"]]
    known_ids = [k["id"] for k in known]
    cpus = sorted(os.sched_getaffinity(0))[:8]
    nw = len(cpus)
    budget = 420 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    stop_flag = os.path.join(boot.SCRATCH, "stop")
    tasks = []
    for si, sub in enumerate(mod.SUBS):
        if a.sub and sub.name != a.sub:
            continue
        total = int((sub.quick if tier == "quick" else sub.thorough) * a.scale)
        shards = max(1, min(8 if tier == "quick" else 32, total // 5))
        per = max(1, total // shards)
        for k in range(shards):
            s = (seed * 1000003 + si * 7919 + k * 104729 + 17) % (2 ** 63)
            tasks.append((sub, per, s, known_ids, stop_flag, deadline, 400))
    # long tasks first
    tasks.sort(key=lambda t: -t[1] * t[0].weight)
    results = run_tasks(tasks, cpus)

    evals = sum(r["evals"] for r in results)
    nontriv = set()
    for r in results:
        nontriv |= {(r["sub"], h) for h in r["nontrivial"]}
    labels, skips, khits, per_sub = {}, {}, {}, {}
    for r in results:
        ps = per_sub.setdefault(r["sub"], dict(evaluations=0, nontrivial=0))
        ps["evaluations"] += r["evals"]
        ps["nontrivial"] += len(r["nontrivial"])
        for d, t in ((r["labels"], labels), (r["skips"], skips),
                     (r["known"], khits)):
            for k, v in d.items():
                kk = k if t is khits else r["sub"] + ":" + k
                t[kk] = t.get(kk, 0) + v
    samples, seen = [], {}
    for r in sorted(results, key=lambda r: r["sub"]):
        for s in r["samples"]:
            if seen.get(r["sub"], 0) < 2:
                seen[r["sub"]] = seen.get(r["sub"], 0) + 1
                samples.append(dict(sub=r["sub"], case=s))
    failures = [r for r in results if r["failure"]]
    harness = [r for r in results if r["harness"]]
    rule = mod.RULE + " Sub-checks: " + "; ".join(
        "{}: {}".format(s.name, s.rule) for s in mod.SUBS if s.rule)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL,
              coverage=dict(evaluations=evals,
                            distinct_nontrivial=len(nontriv), rule=rule,
                            samples=samples, per_sub=per_sub, labels=labels,
                            skipped=skips, known_finding_hits=khits,
                            budget_reached=any(r["stopped"]
                                               for r in results)),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=core.jdefault)

    for k in known:
        log("KNOWN-FINDING: property={} {} (hits: {})".format(
            pid, k["what"], khits.get(k["id"], 0)))
    for r in harness:
        log("CHECK-ERROR in {}:\n{}".format(r["sub"], r["harness"][-6000:]))
    log("{}: {} evaluations, {} distinct non-trivial, {:.1f}s {}".format(
        pid, evals, len(nontriv), time.time() - t0,
        json.dumps(per_sub)))
    if failures:
        # report the smallest per sub-check
        best = {}
        for r in failures:
            b = best.get(r["sub"])
            if b is None or (len(cjson(r["failure"]["case"])) <
                             len(cjson(b["failure"]["case"]))):
                best[r["sub"]] = r
        for name, r in best.items():
            path = write_replay(pid, name, r["failure"])
            log("VIOLATION property={} replay={}".format(pid, path))
            log("  sub={} {}".format(name, r["failure"]["msg"]))
        return 1
    return 2 if harness else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
