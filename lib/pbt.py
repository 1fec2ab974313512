"""
Small property-based-testing runner shared by every check in /verif/checks.

A check module builds one `Check` and registers sub-checks on it.  A sub-check is

  * a Hypothesis strategy producing JSON-serialisable *cases*,
  * a body `body(case) -> bool | None` that drives the real code in /repo, compares it with an explicit
    oracle, raises on a violation, and returns True when the case was non-trivial by the sub-check's rule,
  * optionally a list (or function returning a list) of hand-picked / enumerated boundary cases run first.

Every random choice is made by Hypothesis, seeded from VERIF_SEED, without a database.  A failing case is shrunk by
Hypothesis and written as a replay file; `run.py ID --replay FILE` executes the body on the saved case directly.
"""

import contextlib
import hashlib
import io
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The harness (not the code under test) is wrong or cannot run."""


class CaseTimeout(Exception):
    """A single generated case did not return (generous limit)."""


class _OutOfBudget(BaseException):
    pass


CASE_TIMEOUT_S = 60 if os.environ.get("VERIF_TIER", "quick") == "quick" else 240
# the quick tier runs the counts written in the checks times this factor: about 15 s per check on 8 cores
QUICK_SCALE = {
    "C01": 3, "C02": 2, "C03": 3, "C04": 2, "C05": 2, "C06": 2, "C07": 2, "C08": 1, "C09": 6, "C10": 6, "C11": 8, "C12": 16,
    "C13": 10, "C14": 6, "C15": 2, "C16": 1, "C17": 2, "C18": 6, "C19": 6, "C20": 3, "C21": 6, "C22": 4, "C23": 3, "C24": 6,
    "C25": 4, "C26": 4, "C27": 2, "C28": 1.5, "C30": 6,
}  # fmt: skip
MEMORY_LIMIT = 8 << 30  # address space of one worker: a runaway allocation fails in the case that asks for it


def jhash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule, examples=None, shards=1, thorough_shards=None):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = examples
        self.shards = shards
        self.thorough_shards = thorough_shards


class Check:
    def __init__(self, pid, title, assumptions=()):
        self.pid = pid
        self.title = title
        self.assumptions = list(assumptions)
        self.subs = []
        self.findings = []  # (key, description, callable -> None when still failing as listed / raises otherwise)

    def sub(self, name, strategy=None, quick=200, thorough=None, rule="", examples=None, shards=1, thorough_shards=None):
        def deco(fn):
            self.subs.append(
                Sub(name, strategy, fn, quick, thorough or quick * 20, rule, examples, shards, thorough_shards)
            )
            return fn

        return deco

    def known_finding(self, key, what):
        """Register a reproducer for a finding listed in KNOWN_FINDINGS.txt; fn() returns True while it still fails."""

        def deco(fn):
            self.findings.append((key, what, fn))
            return fn

        return deco


# --------------------------------------------------------------------------------------------------------------------


def _alarm(signum, frame):
    raise CaseTimeout(f"a single case did not return within {CASE_TIMEOUT_S} s")


@contextlib.contextmanager
def _quiet():
    """The code under test prints; keep stdout for the check's own lines."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield


def run_body(sub, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT_S)
    try:
        with _quiet():
            return sub.body(case)
    finally:
        signal.alarm(0)


def _run_shard(args, trace=None):
    check, idx, shard, n_shards, tier, seed, deadline = args
    sub = check.subs[idx]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        "sub": sub.name,
        "evaluations": 0,
        "nontrivial": set(),
        "samples": [],
        "failure": None,
        "truncated": False,
        "error": None,
    }

    def execute(case, counting=True):
        if trace:
            with open(trace, "w") as f:
                json.dump(case, f)
        res = run_body(sub, case)
        if counting:
            stats["evaluations"] += 1
            if res:
                h = jhash([sub.name, case])
                if h not in stats["nontrivial"]:
                    stats["nontrivial"].add(h)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(case)

    # 1. enumerated / boundary cases
    if sub.examples is not None:
        cases = sub.examples() if callable(sub.examples) else sub.examples
        for i, case in enumerate(cases):
            if i % n_shards != shard:
                continue
            if time.monotonic() > deadline:
                stats["truncated"] = True
                break
            try:
                execute(case)
            except HarnessError:
                stats["error"] = traceback.format_exc()
                return stats
            except Exception as e:
                stats["failure"] = (case, f"{type(e).__name__}: {e}", traceback.format_exc())
                return stats

    # 2. generated cases
    n = sub.quick * QUICK_SCALE.get(check.pid, 3) if tier == "quick" else sub.thorough
    n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1")))) if n else 0
    if sub.strategy is None or n <= 0:
        return stats
    n = max(1, math.ceil(n / n_shards))
    state = {"fail": None, "shrink_until": None}

    def test(case):
        now = time.monotonic()
        if state["fail"] is None:
            if now > deadline:
                stats["truncated"] = True
                return
        elif now > state["shrink_until"]:
            # stop shrinking: only the smallest failing case seen so far still counts as failing
            if jhash(case) != jhash(state["fail"][0]):
                return
        try:
            execute(case, counting=state["fail"] is None)
        except HarnessError:
            stats["error"] = traceback.format_exc()
            raise _OutOfBudget()
        except Exception as e:
            if state["shrink_until"] is None:
                state["shrink_until"] = time.monotonic() + (0 if isinstance(e, (CaseTimeout, MemoryError)) else 45)
            state["fail"] = (case, f"{type(e).__name__}: {e}", traceback.format_exc())
            raise AssertionError("property violated") from None

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    test = given(strategy)(test)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hypothesis.seed(seed * 1000003 + idx * 1009 + shard)(test)
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(err):
            test()
    except _OutOfBudget:
        return stats
    except Exception as e:
        if state["fail"] is not None:
            stats["failure"] = state["fail"]
        else:
            stats["error"] = "".join(traceback.format_exception(e)) + err.getvalue()
    return stats


_CHECK = None


def _child(args, conn, trace):
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    conn.send(_pool_entry(args, trace))
    conn.close()


def _run_tasks(tasks, n_proc, limit):
    """every task in a process of its own, n_proc at a time; a process that dies is run again to find the case it dies on"""
    ctx = multiprocessing.get_context("fork")
    results = [None] * len(tasks)
    todo = [(i, None) for i in range(len(tasks))]
    running = {}
    stop = time.monotonic() + limit
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        while todo or running:
            while todo and len(running) < n_proc:
                i, trace = todo.pop(0)
                rx, tx = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(tasks[i], tx, trace), daemon=True)
                p.start()
                tx.close()
                running[rx] = (i, trace, p)
            ready = multiprocessing.connection.wait(list(running), timeout=max(0.0, stop - time.monotonic()))
            if not ready:
                for i, trace, p in running.values():
                    p.kill()
                return None
            for rx in ready:
                i, trace, p = running.pop(rx)
                try:
                    results[i] = rx.recv()
                except EOFError:
                    p.join()
                    name = _CHECK.subs[tasks[i][0]].name
                    empty = {"sub": name, "evaluations": 0, "nontrivial": set(), "samples": [], "failure": None, "truncated": False, "error": None}
                    if trace is None:
                        todo.append((i, os.path.join(scratch, f"{i}.json")))
                        continue
                    what = f"the process running this case ended with status {p.exitcode}"
                    try:
                        empty["failure"] = (json.load(open(trace)), what, what)
                    except Exception:
                        empty["error"] = what
                    results[i] = empty
                finally:
                    rx.close()
                p.join()
        return results
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _pool_entry(args, trace=None):
    idx, shard, n_shards, tier, seed, deadline = args
    try:
        s = _run_shard((_CHECK, idx, shard, n_shards, tier, seed, deadline), trace)
    except BaseException:
        s = {
            "sub": _CHECK.subs[idx].name,
            "evaluations": 0,
            "nontrivial": set(),
            "samples": [],
            "failure": None,
            "truncated": False,
            "error": traceback.format_exc(),
        }
    # everything crossing the pipe must be plain data
    if s["failure"] is not None:
        s["failure"] = tuple([json.loads(json.dumps(s["failure"][0]))] + [str(x) for x in s["failure"][1:]])
    return s


def read_known(pid):
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                words = line.split()
                kv = dict(w.split("=", 1) for w in words if "=" in w)
                if kv.get("property") == pid:
                    out[kv.get("key")] = line
    return out


def run_check(check, tier, seed):
    global _CHECK
    _CHECK = check
    t0 = time.monotonic()
    budget = float(os.environ.get("VERIF_BUDGET_S", "240" if tier == "quick" else "3000"))
    deadline = t0 + budget
    known = read_known(check.pid)
    known_lines = []
    tasks = []
    for idx, sub in enumerate(check.subs):
        if tier == "quick":
            n_shards = min(8, max(2, 2 * sub.shards))
        else:
            n_shards = sub.thorough_shards or max(8, sub.shards)
        for s in range(n_shards):
            tasks.append((idx, s, n_shards, tier, seed, deadline))
    n_proc = min(int(os.environ.get("VERIF_PROCS", "8")), len(tasks)) or 1
    if n_proc == 1:
        results = [_pool_entry(t) for t in tasks]
    else:
        results = _run_tasks(tasks, n_proc, budget + 500)
        if results is None:
            print("ERROR: worker lost or hung", file=sys.stderr)
            return 3

    for key, what, fn in check.findings:
        if key not in known:
            print(f"ERROR: finding {key} has a reproducer but is not listed in KNOWN_FINDINGS.txt", file=sys.stderr)
            return 3
        try:
            with _quiet():
                still = fn()
        except Exception:
            still = False  # fails in another way than listed; the sub-checks judge the property itself
        if still:
            known_lines.append(f"KNOWN-FINDING: property={check.pid} {what}")

    nontrivial = set()
    evaluations = 0
    per_sub = {}
    samples = []
    failures = []
    errors = []
    for r in results:
        evaluations += r["evaluations"]
        nontrivial |= r["nontrivial"]
        d = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "truncated": False})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] += len(r["nontrivial"])
        d["truncated"] = d["truncated"] or r["truncated"]
        if d.setdefault("_s", 0) < 2:
            for c in r["samples"][: 2 - d["_s"]]:
                samples.append({"sub": r["sub"], "case": _trim(c)})
                d["_s"] += 1
        if r["failure"]:
            failures.append((r["sub"], r["failure"]))
        if r["error"]:
            errors.append((r["sub"], r["error"]))
    for d in per_sub.values():
        d.pop("_s", None)

    rule = "; ".join(f"{s.name}: {s.rule}" for s in check.subs)
    wall = time.monotonic() - t0
    evidence = {
        "property": check.pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": "Hypothesis-generated cases plus enumerated boundary cases; a case is counted as non-trivial when: "
            + rule,
            "samples": samples[:24],
            "per_subcheck": per_sub,
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 3),
        "violations": len({f[0] for f in failures}),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{check.pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for line in known_lines:
        print(line)
    if failures:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        seen = set()
        for name, (case, msg, tb) in failures:
            if name in seen:
                continue
            seen.add(name)
            path = os.path.join(ROOT, "replays", f"{check.pid}-{name}.json")
            with open(path, "w") as f:
                json.dump({"property": check.pid, "sub": name, "case": case, "message": msg, "traceback": tb}, f, indent=1)
            print(f"  {check.pid}/{name}: {msg[:600]}")
            print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    if errors:
        for name, e in errors:
            print(f"ERROR in {check.pid}/{name}:\n{e}", file=sys.stderr)
        return 3
    print(
        f"{check.pid} ok: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {wall:.1f} s"
        + (" (truncated by time budget)" if any(d["truncated"] for d in per_sub.values()) else "")
    )
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in per_sub.items():
            print("   ", n, d)
    return 0


def _trim(c):
    s = json.dumps(c, default=str)
    if len(s) <= 1500:
        return c
    return s[:1500] + "..."


def replay(check, path):
    d = json.load(open(path))
    sub = next(s for s in check.subs if s.name == d["sub"])
    try:
        run_body(sub, d["case"])
    except Exception:
        traceback.print_exc()
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    print("replay: property held on this case")
    return 0
