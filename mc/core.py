"""Exhaustive exploration of bounded families of executions.

A check is a module with `PID`, `families(tier)` and some documentation.
A family enumerates a finite set of cases completely; every case is
executed on the implementation and judged by an oracle.  The cases of a
family are distributed by index among forked workers.
"""

import hashlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .ref import Undefined

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_CPU_SECONDS = 20
MAX_PER_FAMILY = 2


class Violation(Exception):
    """The property does not hold for a case."""


class CaseTimeout(BaseException):
    """The case used too much CPU time."""


class Family:
    """name, cases() -> iterable of JSON values, check(case) -> outcome.

    `check` raises Violation when the property does not hold; any other
    exception is raised by the implementation and is a violation too. The
    outcome is what distinguishes executions; None means trivial."""

    def __init__(self, name, cases, check, rule=""):
        self.name = name
        self.cases = cases
        self.check = check
        self.rule = rule


def canon(value):
    return json.dumps(value, sort_keys=True, default=repr)


def digest(value):
    if not isinstance(value, str):
        value = canon(value)
    return hashlib.blake2b(value.encode("utf-8", "surrogatepass"), digest_size=8).digest()


def diff(a, b, path=""):
    """The first difference between two JSON values."""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: expected {a!r}, found {b!r}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}: missing {k!r}"
        for k in b:
            if k not in a:
                return f"{path}: unexpected {k!r} = {b[k]!r}"
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}/{k}")
        if list(a) != list(b):
            return f"{path}: order of keys, expected {list(a)}, found {list(b)}"
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}/{i}")
        if len(a) != len(b):
            return f"{path}: expected {len(a)} elements {a!r}, found {len(b)} {b!r}"
        return None
    return None if a == b else f"{path}: expected {a!r}, found {b!r}"


def expect(expected, found, what=""):
    if expected != found:
        raise Violation(f"{what}: {diff(expected, found)}")


def _timeout(signum, frame):
    raise CaseTimeout()


SCRATCH = None
OUTSIDE = object()


def scratch():
    """A private directory (removed at the end), which is
    also the working directory of the worker."""
    return SCRATCH


def run_case(family, case):
    """(outcome, None) or (None, message)"""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        return family.check(case), None
    except Undefined:
        # The reference says nothing about this input.
        return OUTSIDE, None
    except Violation as exc:
        return None, str(exc)
    except CaseTimeout:
        return None, f"no answer after {CASE_CPU_SECONDS} seconds of CPU time"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as exc:  # raised by the implementation
        where = traceback.extract_tb(exc.__traceback__)
        tail = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(where[-4:]))
        return None, f"unexpected {type(exc).__name__}: {str(exc)[:300]} ({tail})"
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def worker(index, workers, families, out, base):
    global SCRATCH
    SCRATCH = os.path.join(base, f"w{index}")
    os.makedirs(SCRATCH)
    os.chdir(SCRATCH)
    signal.signal(signal.SIGVTALRM, _timeout)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    result = []
    for family in families:
        evaluations = 0
        nontrivial = set()
        samples = []
        violations = []
        total = 0
        outside = 0
        for number, case in enumerate(family.cases()):
            total += 1
            if number % workers != index:
                continue
            evaluations += 1
            outcome, problem = run_case(family, case)
            if problem is not None:
                violations.append({"family": family.name, "case": case, "problem": problem})
                if len(violations) >= MAX_PER_FAMILY:
                    break
                continue
            if outcome is OUTSIDE:
                outside += 1
            elif outcome is not None:
                key = digest(outcome)
                if key not in nontrivial:
                    nontrivial.add(key)
                    if len(samples) < 2 or (len(samples) < 4 and number % 7 == 0):
                        samples.append(case)
        result.append(
            {
                "family": family.name,
                "total": total,
                "evaluations": evaluations,
                "outside": outside,
                "outcomes": [k.hex() for k in nontrivial],
                "samples": samples,
                "violations": violations,
            }
        )
    with open(out, "w") as f:
        json.dump(result, f)


def known_findings(pid):
    """[(family, case, what)] listed for a property."""
    found = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding: "):
                    entry = json.loads(line.removeprefix("finding: "))
                    if entry["property"] == pid:
                        found.append(entry)
    return found


def main(module, argv):
    pid = module.PID
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    families = module.families(tier)
    by_name = {f.name: f for f in families}

    base = tempfile.mkdtemp(prefix=f"mc-{pid}-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        if "--replay" in argv:
            return replay(pid, module, argv[argv.index("--replay") + 1], base)
        return explore(pid, module, tier, seed, families, by_name, base)
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def setup_here(base, name):
    global SCRATCH
    SCRATCH = os.path.join(base, name)
    os.makedirs(SCRATCH)
    os.chdir(SCRATCH)
    signal.signal(signal.SIGVTALRM, _timeout)


def replay(pid, module, path, base):
    with open(path, encoding="utf-8") as f:
        item = json.load(f)
    families = {f.name: f for f in module.families("thorough")}
    families.update({f.name: f for f in module.families("quick") if f.name not in families})
    setup_here(base, "replay")
    models = {m.name: m for m in module.models("quick")} if hasattr(module, "models") else {}
    if item["family"] in models:
        families[item["family"]] = Family(item["family"], list, models[item["family"]].replay)
    outcome, problem = run_case(families[item["family"]], item["case"])
    print(json.dumps(item["case"], indent=1))
    if problem is None:
        print(f"property {pid} holds for this case")
        return 0
    print(problem)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def explore(pid, module, tier, seed, families, by_name, base):
    start = time.time()
    workers = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    only = os.environ.get("MC_FAMILY")
    if only:
        families = [f for f in families if f.name in only.split(",")]

    pids = []
    sys.stdout.flush()
    for index in range(workers):
        child = os.fork()
        if child == 0:
            code = 3
            try:
                worker(index, workers, families, os.path.join(base, f"out{index}.json"), base)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(child)
    failed = 0
    for child in pids:
        _, status = os.waitpid(child, 0)
        failed += status != 0

    violations = []
    totals = {}
    for index in range(workers):
        path = os.path.join(base, f"out{index}.json")
        if not os.path.exists(path):
            continue
        with open(path) as f:
            for part in json.load(f):
                t = totals.setdefault(
                    part["family"], {"cases": 0, "evaluations": 0, "outcomes": set(), "samples": [], "violations": 0,
                     "outside": 0},
                )
                t["cases"] = max(t["cases"], part["total"])
                t["evaluations"] += part["evaluations"]
                t["outside"] += part["outside"]
                t["outcomes"].update(part["outcomes"])
                t["samples"].extend(part["samples"])
                t["violations"] += len(part["violations"])
                violations.extend(part["violations"])

    # Known findings are replayed: those that still fail are printed.
    listed = set()
    setup_here(base, "known")
    for entry in known_findings(pid):
        listed.add(canon([entry["family"], entry["case"]]))
        family = by_name.get(entry["family"])
        if family is None or only:
            continue
        _, problem = run_case(family, entry["case"])
        if problem is not None:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    violations = [v for v in violations if canon([v["family"], v["case"]]) not in listed]

    extra_states = {}
    if not violations and hasattr(module, "models") and not only:
        for model in module.models(tier):
            try:
                extra_states[model.name] = model.run()
            except Violation as exc:
                violations.append({"family": model.name, "case": getattr(model, "history", None), "problem": str(exc)})
            except Exception as exc:
                problem = f"unexpected {type(exc).__name__}: {exc}"
                violations.append({"family": model.name, "case": getattr(model, "history", None), "problem": problem})

    evaluations = sum(t["evaluations"] for t in totals.values())
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": sum(len(t["outcomes"]) for t in totals.values()),
        "rule": module.RULE,
        "exhaustive": not violations and not failed and all(t["cases"] == t["evaluations"] for t in totals.values()),
        "samples": [
            {"family": name, "case": case} for name, t in totals.items() for case in sorted(t["samples"], key=canon)[:2]
        ][:40],
        "families": {
            name: {
                "cases": t["cases"],
                "evaluated": t["evaluations"],
                "distinct_outcomes": len(t["outcomes"]),
                "outside_of_the_domain": t["outside"],
                "rule": by_name[name].rule,
            }
            for name, t in totals.items()
        },
    }
    level = getattr(module, "LEVEL", "exploration")
    if level == "model_checking":
        coverage["states"] = sum(m["states"] for m in extra_states.values())
        coverage["transitions"] = sum(m["transitions"] for m in extra_states.values())
        coverage["traces_validated_against_impl"] = sum(m["traces"] for m in extra_states.values())
    if extra_states:
        coverage["models"] = extra_states
    wall = time.time() - start

    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)

    for name, t in totals.items():
        print(f"{pid} {name}: {t['evaluations']} of {t['cases']} cases, {len(t['outcomes'])} distinct outcomes")
    print(f"{pid}: {evaluations} evaluations in {wall:.1f}s ({tier})")

    if violations:
        seen = set()
        shown = 0
        for v in sorted(violations, key=lambda v: len(canon(v["case"]))):
            if v["family"] in seen:
                continue
            seen.add(v["family"])
            path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, **v}, f, indent=1, default=repr)
            print(f"-- family {v['family']}: {v['problem'][:1200]}")
            print(f"   case {json.dumps(v['case'], default=repr)[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
            shown += 1
            if shown >= 5:
                break
        return 1
    if failed:
        print(f"{pid}: {failed} workers did not finish")
        return 2
    return 0
