"""P06: every file is released and the evidence is never opened for writing."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import world as world_module
from sim.props import common


class Property(common.Property):
    id = "P06"
    chunk = 60
    fault_kinds = ("EIO", "EMFILE", "shrink", "short", "cancel", "nomem", "cut", "change",
                   "write")

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                result.append({"subject": name, "debug": debug, "plan": {}})
                if golden.error:
                    continue
                rng = random.Random(f"{seed}:P06:{name}:{debug}")
                limit = max(16, min(int((60000 if thorough else 3000) / golden.cost_ms),
                                    12000 if thorough else 450))
                count = 0
                for rounds in range(200 if thorough else 8):
                    for (kind, _), numbers in sorted(golden.sites.items()):
                        number = rng.choice(numbers)
                        fault = rng.choice(["cancel", "cancel", "EIO", "nomem"])
                        if kind == "open":
                            fault = rng.choice(["EMFILE", "EIO", "cancel"])
                        if kind in ("list", "stat"):
                            fault = rng.choice(["cancel", "nomem"])
                        result.append({"subject": name, "debug": debug, "plan": {
                            "fault": fault, "nth": number, "arg": 0}})
                        count += 1
                        if count >= limit:
                            break
                    if count >= limit:
                        break
                for _ in range(max(4, limit // 3)):
                    result.append({"subject": name, "debug": debug, "plan":
                                   faults.random_plan(rng, subject, golden, (
                                       "cut", "change", "write", "write"))})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        golden = registry.golden(case["subject"], case["debug"])
        plan = case["plan"]
        outcome, world = faults.run(
            subject, plan, case["debug"], golden.steps * 8 + 20000)
        counters = {"ops": world.steps}
        for kind in plan.get("fault"), plan.get("change", [None])[0], (
                "write" if plan.get("write") is not None else None):
            if kind:
                counters[f"fault:{kind}"] = 1
        violation = None
        where = f"{case['subject']}: {faults.describe(plan)}"
        # A full step budget or a wrong result is not the matter of this property.
        if world.violations:
            violation = f"modified: {where}: {world.violations[0]}"
        elif world.leaked() and not isinstance(
                outcome.error, world_module.StepBudgetExceeded):
            violation = f"leaked: {where}: {world.leaked()} not closed; {outcome.summary()}"
        elif (plan.get("fault") == "cancel" and world.effective
              and not isinstance(outcome.error, world_module.SimCancelled)
              # The libyal bindings turn it into their own error, or retry.
              and "thirdparty" not in subject.tags):
            violation = f"swallowed: {where}: the interrupt was lost; {outcome.summary()}"
        return engine.Verdict(
            violation=violation, key=(case["subject"], (violation or "")[:7]),
            counters=counters, steps=world.steps,
            nontrivial=outcome.error is not None,
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def shrink(self, case):
        if case["debug"]:
            yield dict(case, debug=False)
        for simpler in faults.shrink_plan(case["plan"]):
            yield dict(case, plan=simpler)


PROP = Property()
