"""P05: a reader that is used again reports what a new reader would report."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common


def groups():
    """Subjects per reader class."""
    result = {}
    for name, subject in registry.all_subjects().items():
        golden = registry.golden(name, False)
        if golden.error or golden.steps > 20000:
            continue
        for class_name in set(golden.classes):
            result.setdefault(class_name, []).append(name)
    return result


class Property(common.Property):
    id = "P05"
    chunk = 30
    fault_kinds = ("EIO", "shrink", "short", "cancel", "nomem", "cut", "change", "write")
    nontrivial_rule = "an earlier session of the history was disturbed or read other data"
    measure = "distinct digests of the outcomes of all sessions of a history"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for class_name, names in sorted(groups().items()):
            rng = random.Random(f"{seed}:P05:{class_name}")
            for debug in (False, True):
                cost = sum(registry.golden(name, debug).cost_ms for name in names)
                cost = cost / len(names) * 5
                limit = max(12, min(int((60000 if thorough else 6000) / cost),
                                    4000 if thorough else 250))
                for _ in range(limit):
                    plan = []
                    for _ in range(rng.choice([2, 2, 2, 3, 4])):
                        name = rng.choice(names)
                        subject = registry.all_subjects()[name]
                        plan.append([name, faults.random_plan(
                            rng, subject, registry.golden(name, debug))])
                    # The last session is mostly undisturbed: the golden decides.
                    if rng.random() < 0.7:
                        plan[-1][1] = {}
                    result.append({"subject": class_name, "debug": debug,
                                   "history": plan})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        pool = session.Pool(case["debug"])
        steps = 0
        counters = {"sessions": len(case["history"])}
        parts = []
        violation = None
        disturbed = False
        nontrivial = False
        previous = None
        for number, (name, plan) in enumerate(case["history"]):
            subject = registry.all_subjects()[name]
            golden = registry.golden(name, case["debug"])
            budget = golden.steps * 8 + 20000
            outcome, world = faults.run(subject, plan, case["debug"], budget, pool=pool)
            steps += world.steps
            for kind in plan.get("fault"), plan.get("change", [None])[0], (
                    "write" if plan.get("write") is not None else None):
                if kind:
                    counters[f"fault:{kind}"] = counters.get(f"fault:{kind}", 0) + 1
            if disturbed or (previous and previous != name):
                nontrivial = True
            previous = name
            disturbed = disturbed or bool(plan)
            if plan:
                reference, _ = faults.run(subject, plan, case["debug"], budget)
                same = outcome.same(reference)
            else:
                reference = golden
                same = (outcome.records == golden.records and outcome.text == golden.text
                        and outcome.error_name == golden.error)
            parts.append((outcome.records, outcome.text, outcome.error_name))
            if not same:
                wanted = golden.error if not plan else reference.error_name
                violation = (
                    f"stale: {case['subject']}: session {number} on {name} "
                    f"({faults.describe(plan)}) of a reused reader: "
                    f"error {outcome.error_name} ({outcome.error_text[:200]}) instead of "
                    f"{wanted}; {common.show_difference(outcome, reference)}")
                break
            if isinstance(outcome.error, world_module.StepBudgetExceeded):
                break
        return engine.Verdict(
            violation=violation, key=(case["subject"], (violation or "")[:100]),
            counters=counters, steps=steps, nontrivial=nontrivial,
            digest=engine.digest_of(case["subject"], parts))

    def shrink(self, case):
        history = case["history"]
        for index in range(len(history)):
            if len(history) > 1:
                yield dict(case, history=history[:index] + history[index + 1 :])
        for index, (name, plan) in enumerate(history):
            for simpler in faults.shrink_plan(plan):
                yield dict(case, history=history[:index] + [[name, simpler]]
                           + history[index + 1 :])
        if case["debug"]:
            yield dict(case, debug=False)


PROP = Property()
