"""P01: a failed or short read is never turned into data or silent loss."""

import random

from sim import engine
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common

KINDS = [
    ("EIO", 0), ("shrink", 0), ("shrink", 500), ("shrink", 999), ("short", 0),
    ("short", 500), ("short", 999), ("EIO-persist", 0), ("nomem", 0),
]


class Property(common.Property):
    id = "P01"
    fault_kinds = ("EIO", "shrink", "short", "nomem", "EACCES", "EMFILE")
    skip = frozenset()

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name in registry.all_subjects():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    result.append({"subject": name, "debug": debug, "fault": None})
                    continue
                result.extend(self._cases(name, debug, golden, seed, thorough))
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def _cases(self, name, debug, golden, seed, thorough):
        rng = random.Random(f"{seed}:P01:{name}:{debug}")
        budget_ms = 60000 if thorough else 5500
        limit = max(24, min(int(budget_ms / golden.cost_ms), 20000 if thorough else 900))
        sites = sorted(golden.sites.items())
        result = []
        kinds_at = {}
        rounds = 0
        seen = set()
        while len(result) < limit and rounds < (400 if thorough else 24):
            rounds += 1
            for (kind, site), numbers in sites:
                if len(result) >= limit:
                    break
                number = rng.choice(numbers) if rounds > 2 else numbers[
                    0 if rounds == 1 else -1]
                if kind == "read":
                    order = kinds_at.setdefault(site, rng.sample(KINDS, len(KINDS)))
                    fault, arg = order[(rounds - 1) % len(order)]
                    if rounds > len(order) and fault in ("short", "shrink"):
                        arg = rng.randrange(1000)
                else:
                    fault, arg = {
                        "open": rng.choice([("EIO", 0), ("EACCES", 0), ("EMFILE", 0)]),
                        "seek": ("EIO", 0),
                    }.get(kind, ("EIO", 0))
                if kind in ("stat", "list"):
                    continue
                case = {"subject": name, "debug": debug, "nth": number,
                        "fault": fault, "arg": arg}
                key = (number, fault, arg)
                if key not in seen:
                    seen.add(key)
                    result.append(case)
        return result

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        golden = registry.golden(case["subject"], case["debug"])
        faults = []
        if case["fault"]:
            kind = case["fault"].split("-")[0]
            faults.append({"op": "any", "nth": case["nth"], "kind": kind,
                           "arg": case["arg"], "persist": "persist" in case["fault"]})
        outcome, world = session.run_single(
            subject, subject.files, faults=faults, debug=case["debug"], trace=False,
            budget=golden.steps * 4 + 10000)
        counters = {"ops": world.steps}
        for kind, _, _ in world.fired[:1]:
            counters[f"fault:{kind}"] = 1
        violation = self._judge(case, subject, golden, outcome, world)
        return engine.Verdict(
            violation=violation, key=(case["subject"], violation),
            counters=counters, steps=world.steps, nontrivial=bool(world.effective),
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def _judge(self, case, subject, golden, outcome, world):
        if golden.error or not case["fault"]:
            if outcome.error is not None:
                return f"undisturbed: {case['subject']}: {outcome.summary()}"
            return None
        if outcome.error is None:
            if outcome.records == golden.records and outcome.text == golden.text:
                return None
            if not world.effective:
                return (f"nondeterminism: {case['subject']}: "
                        f"{common.show_difference(outcome, golden)}")
            return (f"silent: {case['subject']}: {case['fault']} at operation "
                    f"{case['nth']} {golden.ops[case['nth']]} and no error: "
                    f"{common.show_difference(outcome, golden)}")
        if isinstance(outcome.error, world_module.StepBudgetExceeded):
            return f"unbounded: {case['subject']}: {outcome.error_text}"
        if not world.effective:
            return f"nondeterminism: {case['subject']}: {outcome.summary()}"
        if not common.ok_error(outcome.error) and not (
                case["fault"] == "nomem" and isinstance(outcome.error, MemoryError)):
            return (f"undocumented: {case['subject']}: {case['fault']} at operation "
                    f"{case['nth']} {golden.ops[case['nth']]}: {outcome.summary()}")
        if outcome.records != golden.records[: len(outcome.records)] or (
                "thirdparty" not in subject.tags
                and not golden.text.startswith(outcome.text)):
            return (f"fabricated: {case['subject']}: {case['fault']} at operation "
                    f"{case['nth']} {golden.ops[case['nth']]}: "
                    f"{common.show_difference(outcome, golden)}")
        return None

    def shrink(self, case):
        if not case["fault"]:
            return
        if case["debug"]:
            yield dict(case, debug=False)
        if case["fault"] != "EIO":
            yield dict(case, fault="EIO", arg=0)
        if case["arg"]:
            yield dict(case, arg=0)


PROP = Property()
