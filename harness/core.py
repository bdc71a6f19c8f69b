"""
Components, sharded runs, shrinking, replay and evidence.
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import hypothesis
import hypothesis.errors
import hypothesis.internal.conjecture.engine as _engine
from hypothesis import HealthCheck, Phase, Verbosity

from .client import Died, HarnessError, Hang, Worker

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = max(1, min(8, os.cpu_count() or 1))
_engine.MAX_SHRINKING_SECONDS = 40


class Violation(Exception):
    pass


class _Stop(BaseException):
    """Ends a component at once (a failure that is too expensive to shrink)."""


def fail(text, /, **values):
    if values:
        text += " " + json.dumps(values, default=repr)[:3000]
    raise Violation(text)


class Component:
    """
    strategy: callable(ctx) -> Hypothesis strategy of JSON-serialisable cases
    cases:    callable(ctx) -> list of cases (enumerated completely) instead
    check:    callable(ctx, case) -> True (non-trivial) / False / tag string;
              raises Violation
    """

    def __init__(self, name, check, rule, strategy=None, cases=None, quick=0, thorough=0):
        self.name = name
        self.check = check
        self.rule = rule
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough or quick * 12


class Context:
    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.worker = Worker(scratch)
        self._consts = None

    @property
    def consts(self):
        if self._consts is None:
            from .consts import harvest

            self._consts = harvest()
        return self._consts

    def run(self, steps):
        return self.worker.run(steps)

    def run_isolated(self, programs):
        return self.worker.run_isolated(programs)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def fresh(self):
        self.worker.stop()


def digest(value):
    text = json.dumps(value, sort_keys=True)
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def shorten(case, limit=1500):
    text = json.dumps(case)
    if len(text) <= limit:
        return case
    return text[:limit] + " ... (%d characters)" % len(text)


class Shard:
    def __init__(self, prop, components, tier, seed, index, count, scratch, soft_limit):
        self.prop = prop
        self.components = components
        self.tier = tier
        self.seed = seed
        self.index = index
        self.count = count
        self.ctx = Context(tier, scratch)
        self.deadline = time.monotonic() + soft_limit
        self.history = []
        self.stats = {}
        self.truncated = []

    def derived_seed(self, name):
        text = "%s/%s/%d/%d" % (self.prop, name, self.seed, self.index)
        return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], "big")

    def evaluate(self, component, case):
        """
        Judges one case; converts hangs and crashes of the code under test.
        """
        self.history.append((component.name, case))
        try:
            verdict = component.check(self.ctx, case)
        except Hang:
            raise Violation("a call does not return")
        except Died:
            raise Violation("the interpreter running the package died")
        stats = self.stats[component.name]
        stats["evaluations"] += 1
        if verdict:
            key = digest(case)
            if key not in stats["seen"]:
                stats["seen"].add(key)
                if len(stats["samples"]) < 2:
                    stats["samples"].append(shorten(case))
            tag = verdict if isinstance(verdict, str) else "non-trivial"
        else:
            tag = "trivial"
        stats["tags"][tag] = stats["tags"].get(tag, 0) + 1

    def run_component(self, component):
        self.stats[component.name] = {
            "evaluations": 0,
            "seen": set(),
            "samples": [],
            "tags": {},
        }
        if component.cases is not None:
            for case in component.cases(self.ctx)[self.index :: self.count]:
                if time.monotonic() > self.deadline:
                    self.truncated.append(component.name)
                    return None
                try:
                    self.evaluate(component, case)
                except Violation as violation:
                    return case, str(violation)
            return None

        total = component.quick if self.tier == "quick" else component.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        examples = max(1, int(total * scale) // self.count)
        state = {"failed": None, "first": None, "late": False}

        @hypothesis.seed(self.derived_seed(component.name))
        @hypothesis.settings(
            max_examples=examples,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            verbosity=Verbosity.quiet,
        )
        @hypothesis.given(component.strategy(self.ctx))
        def test(case):
            if state["failed"] is None and time.monotonic() > self.deadline:
                state["late"] = True
                return
            try:
                self.evaluate(component, case)
            except Violation as violation:
                if state["failed"] is None:
                    state["first"] = len(self.history)
                state["failed"] = (case, str(violation))
                if "does not return" in str(violation) or "died" in str(violation):
                    raise _Stop()
                raise

        try:
            test()
        except (Violation, _Stop):
            pass
        except (hypothesis.errors.Flaky, hypothesis.errors.FlakyReplay):
            if state["failed"] is None:
                raise
        except BaseException as error:
            # Hypothesis groups exceptions when it finds the failure unstable
            if state["failed"] is None or isinstance(error, (HarnessError, KeyboardInterrupt)):
                raise
            if not _contains_violation(error):
                raise
        if state["late"]:
            self.truncated.append(component.name)
        if state["failed"] is not None:
            self.history = self.history[: state["first"]]
            return state["failed"]
        return None

    def reproduces(self, component, case, history=()):
        """
        Judges the case in a fresh interpreter after the given earlier cases.
        """
        self.ctx.fresh()
        for name, earlier in history:
            other = next(c for c in self.components if c.name == name)
            try:
                other.check(self.ctx, earlier)
            except (Violation, Hang, Died):
                pass
        try:
            component.check(self.ctx, case)
        except Violation as violation:
            return str(violation)
        except (Hang, Died) as error:
            return type(error).__name__
        return None

    def confirm(self, component, case, message):
        found = self.reproduces(component, case)
        if found is not None:
            return {"case": case, "message": found, "history": []}
        # it needs what was run before: keep as little of that as possible
        first_case = self.history[-1][1]
        history = self.history[:-1]
        limit = time.monotonic() + 90
        for candidate in ([first_case, case] if first_case != case else [case]):
            if self.reproduces(component, candidate, history) is not None:
                chunk = max(1, len(history) // 2)
                while chunk >= 1 and time.monotonic() < limit:
                    position = 0
                    while position < len(history) and time.monotonic() < limit:
                        shorter = history[:position] + history[position + chunk :]
                        if self.reproduces(component, candidate, shorter) is not None:
                            history = shorter
                        else:
                            position += chunk
                    chunk //= 2
                final = self.reproduces(component, candidate, history) or message
                return {"case": candidate, "message": final, "history": history}
        return {
            "case": first_case,
            "message": message + " (seen once; not reproduced in a fresh process)",
            "history": history[-200:],
        }

    def run(self):
        result = {"violation": None}
        try:
            for component in self.components:
                failure = self.run_component(component)
                if failure is not None:
                    case, message = failure
                    found = self.confirm(component, case, message)
                    found["component"] = component.name
                    result["violation"] = found
                    break
        finally:
            self.ctx.worker.stop()
        result["truncated"] = self.truncated
        result["stats"] = {
            name: dict(stats, seen=sorted(stats["seen"]))
            for name, stats in self.stats.items()
        }
        return result


def _contains_violation(error):
    if isinstance(error, Violation):
        return True
    return any(_contains_violation(e) for e in getattr(error, "exceptions", ())) or isinstance(
        error, (hypothesis.errors.Flaky, hypothesis.errors.FlakyReplay)
    )


def shard_main(prop, components, tier, seed, index, count, out, soft_limit):
    scratch = tempfile.mkdtemp(prefix="verif-%s-%d-" % (prop, index))
    try:
        shard = Shard(prop, components, tier, seed, index, count, scratch, soft_limit)
        result = shard.run()
    except BaseException:
        result = {"error": traceback.format_exc()}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out + ".part", "w") as handle:
        json.dump(result, handle)
    os.rename(out + ".part", out)


def replay_main(prop, components, path):
    with open(path) as handle:
        data = json.load(handle)
    scratch = tempfile.mkdtemp(prefix="verif-%s-replay-" % prop)
    try:
        shard = Shard(prop, components, "quick", 0, 0, 1, scratch, 1e9)
        component = next(c for c in components if c.name == data["component"])
        found = shard.reproduces(component, data["case"], data.get("history", []))
        shard.ctx.worker.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if found is None:
        print("the replayed case holds")
        return 0
    print("failure: " + found)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def run_main(prop, components, tier, seed, assumptions):
    started = time.monotonic()
    soft_limit = 420 if tier == "quick" else 3 * 3600
    hard_limit = 800 if tier == "quick" else 4 * 3600
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    processes = []
    results = {}
    try:
        for index in range(SHARDS):
            out = os.path.join(work, "shard-%d.json" % index)
            env = dict(os.environ, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(work, "hyp"))
            env["TMPDIR"] = work
            log = open(os.path.join(work, "log-%d" % index), "wb")
            processes.append(
                (
                    subprocess.Popen(
                        [
                            sys.executable,
                            "-m",
                            "harness.main",
                            prop,
                            "--tier",
                            tier,
                            "--shard",
                            "%d/%d" % (index, SHARDS),
                            "--out",
                            out,
                            "--soft-limit",
                            str(soft_limit),
                        ],
                        cwd=ROOT,
                        stdin=subprocess.DEVNULL,
                        stdout=log,
                        stderr=log,
                        env=env,
                        start_new_session=True,
                    ),
                    out,
                    log,
                )
            )
        waiting = set(range(SHARDS))
        violation_seen = None
        while waiting:
            for index in sorted(waiting):
                process, out, log = processes[index]
                if process.poll() is not None:
                    waiting.discard(index)
                    if os.path.exists(out):
                        with open(out) as handle:
                            results[index] = json.load(handle)
                    else:
                        log.flush()
                        with open(log.name, "rb") as handle:
                            text = handle.read()[-3000:].decode("utf-8", "replace")
                        results[index] = {"error": "shard %d ended early\n%s" % (index, text)}
                    if results[index].get("violation") and violation_seen is None:
                        violation_seen = time.monotonic()
            if not waiting:
                break
            if violation_seen and time.monotonic() > violation_seen + 2:
                break
            if any("error" in r for r in results.values()) and not violation_seen:
                # let the others finish only if one of them may report a violation soon
                if time.monotonic() > started + hard_limit / 2:
                    break
            if time.monotonic() > started + hard_limit:
                for index in waiting:
                    results[index] = {"error": "shard %d exceeded the time limit" % index}
                break
            time.sleep(0.05)
    finally:
        for process, _, log in processes:
            if process.poll() is None:
                try:
                    os.killpg(process.pid, 9)
                except ProcessLookupError:
                    pass
            process.wait()
            log.close()
        shutil.rmtree(work, ignore_errors=True)

    violations = [r["violation"] for i, r in sorted(results.items()) if r.get("violation")]
    errors = [r["error"] for i, r in sorted(results.items()) if "error" in r]
    write_evidence(prop, components, tier, seed, results, violations, started, assumptions)

    if violations:
        violation = min(violations, key=lambda v: len(json.dumps(v["case"])))
        directory = os.path.join(ROOT, "replays")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(
            directory, "%s-%s-%s.json"
            % (prop, violation["component"].replace(" ", "-"), digest(violation["case"])),
        )
        with open(path, "w") as handle:
            json.dump(dict(violation, property=prop, tier=tier, seed=seed), handle, indent=1)
        print("component: " + violation["component"])
        print("failure: " + violation["message"])
        print("case: " + str(shorten(violation["case"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print("ERROR: the check of %s could not be completed" % prop, file=sys.stderr)
        return 2
    return 0


def write_evidence(prop, components, tier, seed, results, violations, started, assumptions):
    per_component = {}
    samples = []
    evaluations = 0
    distinct = 0
    truncated = sorted({n for r in results.values() for n in r.get("truncated", [])})
    for component in components:
        entry = {"evaluations": 0, "tags": {}, "rule": component.rule}
        seen = set()
        taken = 0
        for _, result in sorted(results.items()):
            stats = result.get("stats", {}).get(component.name)
            if not stats:
                continue
            entry["evaluations"] += stats["evaluations"]
            seen.update(stats["seen"])
            for tag, number in stats["tags"].items():
                entry["tags"][tag] = entry["tags"].get(tag, 0) + number
            for sample in stats["samples"]:
                if taken < 2:
                    samples.append({"component": component.name, "case": sample})
                    taken += 1
        entry["distinct_nontrivial"] = len(seen)
        entry["enumerated"] = component.cases is not None
        evaluations += entry["evaluations"]
        distinct += len(seen)
        per_component[component.name] = entry
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": "; ".join("%s: %s" % (c.name, c.rule) for c in components),
            "samples": samples,
            "components": per_component,
            "stopped_by_time": truncated,
        },
        "assumptions": assumptions,
        "wall_s": round(time.monotonic() - started, 3),
        "violations": len(violations),
    }
    directory = os.path.join(ROOT, "evidence")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, prop + ".json")
    with open(path + ".part", "w") as handle:
        json.dump(evidence, handle, indent=1)
    os.rename(path + ".part", path)
