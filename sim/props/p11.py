"""P11: tracing changes nothing but the trace, and a failing output is reported."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import world as world_module
from sim.props import common


class Property(common.Property):
    id = "P11"
    chunk = 60
    fault_kinds = ("write", "EIO", "shrink", "short", "cut")
    nontrivial_rule = "the run ended in an error or reported records"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            silent = registry.golden(name, False)
            traced = registry.golden(name, True)
            result.append({"subject": name, "kind": "tracing", "plan": {}})
            if silent.error or traced.error:
                continue
            rng = random.Random(f"{seed}:P11:{name}")
            limit = max(12, min(int((60000 if thorough else 2500) / traced.cost_ms),
                                8000 if thorough else 250))
            for _ in range(limit):
                result.append({
                    "subject": name, "kind": "tracing",
                    "plan": faults.random_plan(rng, subject, silent, ("cut", "change", "change"))})
            for debug, golden in ((False, silent), (True, traced)):
                if not golden.writes:
                    continue
                for number in range(min(limit, golden.writes)):
                    write = number if golden.writes <= limit else rng.randrange(
                        golden.writes)
                    result.append({"subject": name, "kind": "output", "debug": debug,
                                   "plan": {"write": write}})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        plan = case["plan"]
        where = f"{case['subject']}: {faults.describe(plan)}"
        violation = None
        if case["kind"] == "tracing":
            budget = registry.golden(case["subject"], True).steps * 8 + 20000
            silent, world = faults.run(subject, plan, False, budget)
            traced, traced_world = faults.run(subject, plan, True, budget)
            steps = world.steps + traced_world.steps
            outcome = traced
            if "traced" in subject.tags or plan.get("change", ["cut"])[0] != "cut":
                # More is read, read before it is asked for, or checked, when tracing:
                # damage may be noticed earlier.
                if silent.records[: len(traced.records)] != traced.records or (
                        traced.error is None and (
                            silent.error or silent.records != traced.records)):
                    violation = f"tracing: {where}: {self._both(silent, traced)}"
                elif traced.error is not None and silent.error is None and not (
                        common.ok_error(traced.error) or "thirdparty" in subject.tags
                        or isinstance(traced.error, world_module.StepBudgetExceeded)):
                    violation = f"tracing: {where}: {self._both(silent, traced)}"
            elif silent.records != traced.records or silent.error_name != traced.error_name:
                violation = f"tracing: {where}: {self._both(silent, traced)}"
            counters = {"pairs": 1}
        else:
            golden = registry.golden(case["subject"], case["debug"])
            outcome, world = faults.run(
                subject, plan, case["debug"], golden.steps * 8 + 20000)
            steps = world.steps
            counters = {"fault:write": 1}
            if not isinstance(outcome.error, faults.WriterFailure):
                violation = (f"output: {where}: the output failed and the reader did not "
                             f"report that: {outcome.summary()}")
            elif (outcome.records != golden.records[: len(outcome.records)]
                  or not golden.text.startswith(outcome.text)):
                violation = (f"output: {where}: "
                             f"{common.show_difference(outcome, golden)}")
            elif outcome.writer_failed > 1:
                violation = f"output: {where}: written on after a failure"
        return engine.Verdict(
            violation=violation, key=(case["subject"], (violation or "")[:7]),
            counters=counters, steps=steps,
            nontrivial=outcome.error is not None or bool(outcome.records),
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def _both(self, silent, traced):
        return f"without tracing {silent.summary()}; with tracing {traced.summary()}"

    def shrink(self, case):
        for simpler in faults.shrink_plan(case["plan"]):
            if case["kind"] == "tracing":
                yield dict(case, plan=simpler)
        if case["kind"] == "output" and case["plan"]["write"]:
            yield dict(case, plan={"write": 0})
            yield dict(case, plan={"write": case["plan"]["write"] // 2})


PROP = Property()
