"""P07: whatever is stored, reading ends after bounded work."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import world as world_module
from sim.props import common


class Property(common.Property):
    id = "P07"
    chunk = 40
    fault_kinds = ("flip", "word", "zero", "copy", "cut")
    nontrivial_rule = "the stored-data fault changed the outcome of the run"

    @staticmethod
    def cpu_seconds(case):
        # The most expensive disturbed run takes one second, 8 times its undisturbed run.
        return 15 + registry.golden(case["subject"], case["debug"]).cost_ms / 10

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    continue
                rng = random.Random(f"{seed}:P07:{name}:{debug}")
                budget = 60000 if thorough else (1800 if not debug else 900)
                limit = max(16, min(int(budget / golden.cost_ms),
                                    12000 if thorough else 260))
                for _ in range(limit):
                    plan = faults.random_plan(rng, subject, golden, ("change",) * 9 + (
                        "cut",))
                    if plan.get("file") and rng.random() < 0.3:
                        # Point somewhere the reader has been: cycles.
                        reads = [op for op in golden.ops
                                 if op[0] == "read" and op[1].endswith(plan["file"])]
                        if reads:
                            source = rng.choice(reads)
                            target = rng.choice(reads)
                            offset = source[3] + 4 * rng.randrange(
                                max(1, min(source[2], 64) // 4))
                            plan["change"] = [
                                "word", offset, rng.choice([4, 4, 8]), target[3],
                                rng.choice(["little", "little", "big"])]
                    result.append({"subject": name, "debug": debug, "plan": plan})
                for _ in range(limit // 3 if golden.contents else 0):
                    number = rng.randrange(len(golden.contents))
                    result.append({"subject": name, "debug": debug, "plan": {
                        "content": number, "change": faults.random_change(
                            rng, bytes(golden.contents[number]))}})
        result.extend(self._fields(seed, 6 if thorough else 1))
        random.Random(f"{seed}:order").shuffle(result)
        return result

    @staticmethod
    def _fields(seed, rounds):
        """Extreme values in every field of every structure, in the cheapest subject."""
        cheapest = {}
        for name in registry.all_subjects():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    continue
                for site in golden.sites:
                    # Tracing calls from the same places, at more expense.
                    key = (debug, site)
                    if site[0] == "read" and (
                            key not in cheapest or golden.cost_ms < cheapest[key][0]):
                        cheapest[key] = (golden.cost_ms, name)
        chosen = {}
        for (debug, site), (_, name) in sorted(cheapest.items()):
            chosen.setdefault((debug, name), []).append(site)
        result = []
        for (debug, name), sites in sorted(chosen.items()):
            rng = random.Random(f"{seed}:P07:fields:{name}:{debug}")
            golden = registry.golden(name, debug)
            plans = []
            for _ in range(rounds):
                plans.extend(faults.field_plans(
                    rng, registry.all_subjects()[name], golden, sites))
            rng.shuffle(plans)
            for plan in plans[: int(rounds * 8000 / golden.cost_ms)]:
                result.append({"subject": name, "debug": debug, "plan": plan})
        return result

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        golden = registry.golden(case["subject"], case["debug"])
        total = sum(len(data) for data in subject.files.values())
        steps = golden.steps * 40 + total * 4 + 20000
        text = len(golden.text) * 60 + total * 400 + (1 << 22)
        outcome, world = faults.run(
            subject, case["plan"], case["debug"], steps, text_budget=text)
        violation = None
        where = f"{case['subject']}: {faults.describe(case['plan'])}"
        if isinstance(outcome.error, world_module.StepBudgetExceeded):
            violation = (f"unbounded: {where}: {outcome.error_text} "
                         f"(undisturbed {golden.steps} operations)")
        elif isinstance(outcome.error, MemoryError):
            violation = f"memory: {where}: {outcome.summary()}"
        elif world.largest_read > (64 << 20) + 64 * total:
            violation = (f"memory: {where}: asks for {world.largest_read} bytes at once "
                         f"of {total} bytes of files")
        change = case["plan"].get("change", ["none"])[0]
        return engine.Verdict(
            violation=violation, key=(case["subject"], (violation or "")[:9]),
            counters={"ops": world.steps, f"fault:{change}": 1}, steps=world.steps,
            nontrivial=(outcome.records, outcome.text, outcome.error_name) != (
                golden.records, golden.text, None),
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def shrink(self, case):
        if case["debug"]:
            yield dict(case, debug=False)
        for simpler in faults.shrink_plan(case["plan"]):
            yield dict(case, plan=simpler)


PROP = Property()
