"""Generated-case runner: Hypothesis drives, plain JSON cases replay.

A check module (checks/<id>.py) lists Parts.  Each Part has a Hypothesis
strategy producing a JSON-serialisable case and a ``run(case, rec)`` oracle
that raises Violation when the property is broken on that case.  Because the
case is plain data, the shrunk failure is written as JSON and replayed by
calling ``run`` directly, without Hypothesis.
"""
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case."""


class Inconclusive(Exception):
    """The case could not be decided (budget, resource); never an alarm."""


class Rec(object):
    """Per-case recorder: what the generated case exercised."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.excluded = 0

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        """Mark the case non-trivial (by the check's stated rule)."""
        if cond:
            self.nontrivial = True


class Part(object):
    def __init__(self, name, strategy, run, quick, thorough=None, shards=8,
                 max_sample=1200):
        self.name = name
        self.strategy = strategy        # zero-arg callable -> strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough or quick * 10
        self.shards = shards
        self.max_sample = max_sample


class Probe(object):
    """Deterministic replay of one known finding (see known_findings.jsonl)."""

    def __init__(self, key, run):
        self.key = key
        self.run = run


def from_repo(tb):
    """Does the traceback pass through the code under test?"""
    base = os.path.join(REPO, "capture")
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(base):
            return True
        tb = tb.tb_next
    return False


def execute(part, case, rec):
    """Run one case.  Returns None or a violation message; harness errors
    propagate."""
    try:
        part.run(case, rec)
        return None
    except Violation as exc:
        return str(exc)
    except (Inconclusive, KeyboardInterrupt):
        raise
    except BaseException as exc:  # noqa: B902
        if type(exc).__module__.startswith("hypothesis"):
            raise
        if from_repo(exc.__traceback__):
            return "unexpected {} in the code under test: {}\n{}".format(
                type(exc).__name__, exc,
                "".join(traceback.format_exception(exc))[-1800:])
        raise


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=repr).encode("utf-8",
                                                              "surrogatepass")
    ).hexdigest()


class Budget(object):
    """Soft wall-clock stop: what is left over is reported as not run."""

    def __init__(self, seconds):
        self.end = time.time() + seconds

    def over(self):
        return time.time() > self.end


SHRINK_SECONDS = 90


def run_shard(part, seed, examples, budget):
    """Run one Hypothesis campaign in this process; returns a result dict."""
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    import hypothesis

    res = {
        "evaluations": 0, "keys": set(), "labels": {}, "excluded": 0,
        "samples": [], "fail": None, "skipped": 0, "inconclusive": 0,
        "error": None, "valid": 0,
    }
    state = {"t_fail": None}

    class Stop(Exception):
        pass

    def one(case):
        if state["t_fail"] is None and budget.over():
            res["skipped"] += 1
            return
        if state["t_fail"] is not None and (
                time.time() - state["t_fail"] > SHRINK_SECONDS):
            # Shrinking budget used: keep the best case found so far.
            raise Stop()
        rec = Rec()
        try:
            msg = execute(part, case, rec)
        except Inconclusive:
            res["inconclusive"] += 1
            return
        res["evaluations"] += 1
        for lab in set(rec.labels):
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        res["excluded"] += rec.excluded
        if rec.nontrivial:
            key = case_key(case)
            if key not in res["keys"]:
                res["keys"].add(key)
                if len(res["samples"]) < 3 and len(
                        json.dumps(case, default=repr)) < part.max_sample:
                    res["samples"].append(case)
        if msg is not None:
            size = len(json.dumps(case, default=repr))
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            if res["fail"] is None or size <= res["fail"][2]:
                res["fail"] = (case, msg, size)
            raise Stop()

    test = given(case=part.strategy())(one)
    test = settings(
        max_examples=examples, deadline=None, database=None,
        derandomize=False, print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink), verbosity=Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Stop:
        pass
    except BaseException as exc:  # noqa: B902
        if res["fail"] is None:
            res["error"] = "".join(traceback.format_exception(exc))[-6000:]
    return res


def fork_map(jobs, nproc=8):
    """Run zero-arg callables in forked processes, return pickled results."""
    results = [None] * len(jobs)
    tmp = tempfile.mkdtemp(prefix="vh-map-")
    running = {}
    pending = list(range(len(jobs)))[::-1]
    try:
        while pending or running:
            while pending and len(running) < nproc:
                idx = pending.pop()
                out = os.path.join(tmp, str(idx))
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        value = jobs[idx]()
                        with open(out, "wb") as fil:
                            pickle.dump(value, fil)
                    except BaseException:  # noqa: B902
                        traceback.print_exc()
                        code = 97
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (idx, out)
            pid, _ = os.wait()
            if pid in running:
                idx, out = running.pop(pid)
                if os.path.exists(out):
                    with open(out, "rb") as fil:
                        results[idx] = pickle.load(fil)
                    os.unlink(out)
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def shard_seed(seed, prop, part, index):
    text = "{}/{}/{}/{}".format(seed, prop, part, index)
    return int(hashlib.sha256(text.encode()).hexdigest()[:12], 16)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    found = []
    if os.path.exists(path):
        with open(path) as fil:
            for line in fil:
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    item = json.loads(line)
                    if item.get("property") == prop and (
                            item.get("status") == "known"):
                        found.append(item)
    return found


def run_check(module, args):
    prop = module.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    default_budget = 420 if tier == "quick" else 3600
    budget = Budget(float(os.environ.get("VERIF_BUDGET", default_budget)))
    start = time.time()
    failures = []
    errors = []
    total = {"evaluations": 0, "keys": set(), "labels": {}, "excluded": 0,
             "samples": [], "skipped": 0, "inconclusive": 0}
    per_part = {}

    rdir = os.path.join(VERIF, "replays")
    if os.path.isdir(rdir):
        for name in os.listdir(rdir):
            if name.startswith(prop + "-"):
                os.unlink(os.path.join(rdir, name))

    # Known findings: replay exactly the listed input of each.
    known_lines = []
    probes = {p.key: p for p in getattr(module, "PROBES", [])}
    for item in load_known(prop):
        probe = probes.get(item["key"])
        if probe is None:
            errors.append("known finding {} has no probe".format(item["key"]))
            continue
        rec = Rec()
        try:
            msg = execute(probe, None, rec)
        except Inconclusive:
            msg = None
        if msg is not None:
            known_lines.append("KNOWN-FINDING: property={} {}".format(
                prop, item["what"]))
    for line in known_lines:
        print(line)
    sys.stdout.flush()

    # Regression cases: plain replays kept next to the check.
    for part in module.PARTS:
        if args.part and part.name != args.part:
            continue
        reg = getattr(module, "REGRESSIONS", {}).get(part.name, [])
        for case in reg:
            rec = Rec()
            try:
                msg = execute(part, case, rec)
            except Inconclusive:
                continue
            total["evaluations"] += 1
            if msg is not None:
                failures.append((part, case, msg, len(json.dumps(case))))
                break

    jobs = []
    meta = []
    for part in module.PARTS:
        if args.part and part.name != args.part:
            continue
        count = part.quick if tier == "quick" else part.thorough
        count = max(1, int(count * args.scale))
        shards = max(1, min(part.shards, count))
        for idx in range(shards):
            each = count // shards + (1 if idx < count % shards else 0)
            sseed = shard_seed(seed, prop, part.name, idx)
            jobs.append(lambda p=part, s=sseed, n=each: run_shard(
                p, s, n, budget))
            meta.append(part)
    if not failures:
        results = fork_map(jobs, int(os.environ.get("VERIF_JOBS", "8")))
    else:
        results = []
    for part, res in zip(meta, results):
        info = per_part.setdefault(part.name, {
            "evaluations": 0, "distinct_nontrivial": 0, "skipped": 0,
            "inconclusive": 0, "excluded": 0, "classes": {}})
        if res is None:
            errors.append("shard of {} died".format(part.name))
            continue
        if res["error"]:
            errors.append("{}: {}".format(part.name, res["error"]))
        if res["fail"]:
            case, msg, size = res["fail"]
            failures.append((part, case, msg, size))
        new = {(part.name, k) for k in res["keys"]} - total["keys"]
        total["keys"] |= new
        info["distinct_nontrivial"] += len(new)
        for field in ("evaluations", "skipped", "inconclusive", "excluded"):
            total[field] += res[field]
            info[field] += res[field]
        for lab, num in res["labels"].items():
            info["classes"][lab] = info["classes"].get(lab, 0) + num
        if len([s for s in total["samples"]
                if s["part"] == part.name]) < 3:
            total["samples"].extend(
                {"part": part.name, "case": s} for s in res["samples"][:1])

    violations = []
    by_part = {}
    for fail in failures:
        by_part.setdefault(fail[0].name, []).append(fail)
    for name, fails in sorted(by_part.items()):
        fails.sort(key=lambda f: f[3])
        for part, case, msg, _ in fails[:3]:
            # Confirm outside Hypothesis: the replay is what we report.
            confirmed = None
            for _ in range(3):
                try:
                    confirmed = execute(part, case, Rec())
                except Inconclusive:
                    confirmed = None
                if confirmed:
                    break
            if confirmed:
                violations.append((part, case, confirmed))
                break
            sys.stderr.write("not reproducible, not reported: {} {}\n{}\n"
                             .format(name, json.dumps(case)[:3000], msg))
    wall = time.time() - start
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["keys"]),
            "rule": module.RULE,
            "samples": total["samples"][:12],
            "parts": per_part,
            "not_run_for_time": total["skipped"],
            "inconclusive": total["inconclusive"],
            "excluded_by_construction": total["excluded"],
            "known_findings_reproduced": len(known_lines),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not args.part:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", prop + ".json")
        with open(path + ".tmp", "w") as fil:
            json.dump(evidence, fil, indent=1, default=repr)
            fil.write("\n")
        os.replace(path + ".tmp", path)
    print("{} seed={} tier={} evaluations={} nontrivial={} skipped={} "
          "inconclusive={} wall={:.1f}s".format(
              prop, seed, tier, total["evaluations"], len(total["keys"]),
              total["skipped"], total["inconclusive"], wall))
    if args.verbose:
        print(json.dumps(per_part, indent=1, sort_keys=True))
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for part, case, msg in violations:
            rpath = os.path.join(rdir, "{}-{}.json".format(prop, part.name))
            with open(rpath, "w") as fil:
                json.dump({"property": prop, "part": part.name,
                           "case": case, "message": msg}, fil, indent=1)
                fil.write("\n")
            print("--- {} / {}: {}".format(prop, part.name, msg[:6000]))
            print("VIOLATION property={} replay={}".format(prop, rpath))
        sys.stdout.flush()
        return 1
    if errors:
        for err in errors[:4]:
            sys.stderr.write("HARNESS ERROR: {}\n".format(err))
        return 2
    return 0


def run_replay(module, path):
    with open(path) as fil:
        data = json.load(fil)
    part = [p for p in module.PARTS if p.name == data["part"]][0]
    msg = execute(part, data["case"], Rec())
    if msg:
        print(msg)
        print("VIOLATION property={} replay={}".format(module.PROPERTY, path))
        return 1
    print("holds on replayed case")
    return 0
