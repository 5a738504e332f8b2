"""P04: readers that work at the same time do not influence each other."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common


class Property(common.Property):
    id = "P04"
    chunk = 20
    fault_kinds = ("EIO", "shrink", "short", "cancel", "nomem", "cut", "change", "write")
    measure = "distinct schedules (sequences of run lengths) together with the outcomes"
    nontrivial_rule = "at least two switches between readers happened"
    stub = common.Property.stub + ", the thread scheduler"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        names = [
            name for name in registry.all_subjects()
            if not registry.golden(name, False).error
            and registry.golden(name, True).steps < 3000
            and len(registry.golden(name, True).text) < 400000
        ]
        by_class = {}
        for name in names:
            for class_name in registry.golden(name, False).classes:
                by_class.setdefault(class_name, []).append(name)
        result = []
        rng = random.Random(f"{seed}:P04")
        for _ in range((30 if thorough else 1) * 70 * len(names)):
            first = names[_ % len(names)]
            tasks = [first]
            while len(tasks) < rng.choice([2, 2, 2, 3, 4]):
                if rng.random() < 0.75:
                    tasks.append(rng.choice(
                        by_class[rng.choice(registry.golden(first, False).classes)]))
                else:
                    tasks.append(rng.choice(names))
            entries = []
            for name in tasks:
                debug = rng.random() < 0.6
                plan = {}
                if rng.random() < 0.3:
                    plan = faults.random_plan(
                        rng, registry.all_subjects()[name], registry.golden(name, debug),
                        ("io", "cut", "change", "write"))
                entries.append({"name": name, "debug": debug, "plan": plan})
            cost = sum(registry.golden(entry["name"], entry["debug"]).cost_ms
                       for entry in entries)
            fine = rng.choice([None, None, "call", "line"])
            if cost > 8 and fine == "line":
                fine = "call"
            if cost > 30:
                fine = None
            result.append({
                "subject": first, "tasks": entries, "fine": fine,
                "schedule": {"mode": rng.choice(["uniform", "uniform", "lazy",
                                                 "priorities"]),
                             "seed": rng.getrandbits(32)},
            })
        return result

    def _run(self, case):
        subjects = registry.all_subjects()
        files = {}
        task_faults = []
        contents = {}
        for index, task in enumerate(case["tasks"]):
            subject = subjects[task["name"]]
            plan = task["plan"]
            content, _, _ = faults.apply(subject, plan)
            for name, data in content.items():
                files[f"/simfs/task{index}/{subject.name}/{name}"] = data
            if plan.get("content") is not None:
                contents[f"t{index}"] = faults.content_of(plan)
            if plan.get("fault"):
                task_faults.append({
                    "op": "any", "nth": plan["nth"], "kind": plan["fault"],
                    "arg": plan.get("arg", 0), "task": f"t{index}"})
        world_module.install()
        world = world_module.World(files, faults=task_faults, budget=400000)
        world.trace_on = False
        world.content_faults = contents
        schedule = case["schedule"]
        if "list" in schedule:
            choose = world_module.explicit_chooser(schedule["list"])
        else:
            choose = world_module.random_chooser(
                random.Random(schedule["seed"]), schedule["mode"])
        scheduler = world_module.Scheduler(choose, fine=case["fine"])
        world.scheduler = scheduler
        outcomes = [None] * len(case["tasks"])

        def body(index):
            task = case["tasks"][index]
            subject = subjects[task["name"]]
            context = session.Context(
                world, f"/simfs/task{index}/{subject.name}", debug=task["debug"],
                text_budget=1 << 26)
            _, _, fail_write = faults.apply(subject, task["plan"])
            if fail_write:
                context.writer.fail_at, context.writer.fail_with = fail_write
            outcomes[index] = session.run_session(subject, context)

        for index in range(len(case["tasks"])):
            scheduler.add(f"t{index}", lambda index=index: body(index))
        world_module.set_world(world)
        try:
            scheduler.run()
        finally:
            world_module.set_world(None)
        return outcomes, world, scheduler

    def _alone(self, task, index, budget=400000):
        """The same session alone: same paths, same disturbance."""
        subject = registry.all_subjects()[task["name"]]
        lone = registry.subjects.Subject(
            subject.name, subject.files, subject.session,
            root=f"/simfs/task{index}/{subject.name}", tags=subject.tags)
        outcome, _ = faults.run(lone, task["plan"], task["debug"], budget,
                                text_budget=1 << 26)
        return outcome

    def _too_long(self, case):
        """Damage that makes a report much longer is left to P07."""
        for index, task in enumerate(case["tasks"]):
            if "change" not in task["plan"]:
                continue
            golden = registry.golden(task["name"], task["debug"])
            outcome = self._alone(task, index, golden.steps * 3 + 1000)
            if isinstance(outcome.error, world_module.StepBudgetExceeded):
                return True
        return False

    def run(self, case):
        if self._too_long(case):
            return engine.Verdict(counters={"skipped:long": 1},
                                  digest=engine.digest_of("long"))
        outcomes, world, scheduler = self._run(case)
        violation = None
        counters = {"tasks": len(outcomes), "switches": scheduler.switches,
                    "ops": world.steps, f"granularity:{case['fine'] or 'io'}": 1}
        for index, task in enumerate(case["tasks"]):
            plan = task["plan"]
            for kind in plan.get("fault"), plan.get("change", [None])[0], (
                    "write" if plan.get("write") is not None else None):
                if kind:
                    counters[f"fault:{kind}"] = counters.get(f"fault:{kind}", 0) + 1
            outcome = outcomes[index]
            if not plan:
                golden = registry.golden(task["name"], task["debug"])
                if (outcome.records == golden.records and outcome.text == golden.text
                        and outcome.error_name == golden.error):
                    continue
            reference = self._alone(task, index)
            if outcome.same(reference):
                continue
            violation = (
                f"interference: reader {index} on {task['name']} among "
                f"{[entry['name'] for entry in case['tasks']]} ({faults.describe(plan)}): "
                f"error {outcome.error_name} ({outcome.error_text[:200]}) instead of "
                f"{reference.error_name}; {common.show_difference(outcome, reference)}")
            break
        return engine.Verdict(
            violation=violation, key=(case["subject"], (violation or "")[:60]),
            counters=counters, steps=world.steps, nontrivial=scheduler.switches >= 2,
            digest=engine.digest_of(
                [(outcome.records, outcome.text, outcome.error_name)
                 for outcome in outcomes], scheduler.schedule))

    def shrink(self, case):
        tasks = case["tasks"]
        for index in range(len(tasks)):
            if len(tasks) > 2:
                yield dict(case, tasks=tasks[:index] + tasks[index + 1 :])
        for index, task in enumerate(tasks):
            if task["plan"]:
                yield dict(case, tasks=tasks[:index] + [dict(task, plan={})]
                           + tasks[index + 1 :])
            if task["debug"]:
                yield dict(case, tasks=tasks[:index] + [dict(task, debug=False)]
                           + tasks[index + 1 :])
        if case["fine"]:
            yield dict(case, fine=None)
            if case["fine"] == "line":
                yield dict(case, fine="call")
        schedule = case["schedule"].get("list")
        if schedule is None:
            _, _, scheduler = self._run(case)
            yield dict(case, schedule={"list": scheduler.schedule})
            return
        size = len(schedule) // 2
        while size:
            for index in range(0, len(schedule), size):
                trial = schedule[:index] + schedule[index + size :]
                merged = []
                for number, count in trial:
                    if merged and merged[-1][0] == number:
                        merged[-1][1] += count
                    else:
                        merged.append([number, count])
                yield dict(case, schedule={"list": merged})
            size //= 2


PROP = Property()
