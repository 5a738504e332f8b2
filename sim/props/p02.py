"""P02: evidence that lost its tail yields a prefix and a documented error."""

import random

from sim import engine
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common


def cut_points(golden, rng, limit):
    """(name of file, length) cuts next to the reads of every call site."""
    sites = [
        (site, numbers) for site, numbers in sorted(golden.sites.items())
        if site[0] == "read"
    ]
    result = []
    seen = set()
    for rounds in range(60):
        for _, numbers in sites:
            number = rng.choice(numbers) if rounds > 1 else numbers[
                0 if rounds == 0 else -1]
            _, path, size, position = golden.ops[number]
            where = rng.choice([0, 1, 2, 3, 4]) if rounds else 3
            cut = {0: position, 1: position + 1, 2: position + max(0, size - 1),
                   3: position + size // 2,
                   4: position + rng.randrange(max(1, size))}[where]
            if (path, cut) in seen:
                continue
            seen.add((path, cut))
            result.append((path, cut))
            if len(result) >= limit:
                return result
        if not sites:
            break
    return result


def shorter_companion(subject, filename, cut):
    """Whether this cut leaves a complete, shorter stream next to the evidence.

    Another file then reports, rightly, what follows from the shorter stream.
    """
    if len(subject.files) < 2 or not filename.lower().endswith(".timesync"):
        return False
    data = subject.files[filename]
    offset = 0
    while offset < cut:
        size = int.from_bytes(data[offset + 2 : offset + 4], "little")
        if not size:
            return False
        offset += size
    return offset == cut


class Property(common.Property):
    id = "P02"
    fault_kinds = ("truncate",)
    nontrivial_rule = "the cut removed bytes that the undisturbed run read"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    result.append({"subject": name, "debug": debug, "cut": None})
                    continue
                rng = random.Random(f"{seed}:P02:{name}:{debug}")
                budget = 60000 if thorough else 3500
                limit = max(16, min(int(budget / golden.cost_ms),
                                    12000 if thorough else 500))
                prefix = len(subject.root) + 1
                for path, cut in cut_points(golden, rng, limit * 2 // 3):
                    result.append({"subject": name, "debug": debug, "file": path[prefix:],
                                   "cut": cut})
                names = [path[prefix:] for path in golden.opened]
                for _ in range(limit // 3):
                    filename = rng.choice(names)
                    size = len(subject.files[filename])
                    cut = rng.choice([
                        rng.randrange(size + 1), rng.randrange(min(size, 600) + 1),
                        max(0, size - 1 - rng.randrange(80))])
                    result.append({"subject": name, "debug": debug, "file": filename,
                                   "cut": cut})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        golden = registry.golden(case["subject"], case["debug"])
        files = dict(subject.files)
        if case["cut"] is not None:
            files[case["file"]] = files[case["file"]][: case["cut"]]
        outcome, world = session.run_single(
            subject, files, debug=case["debug"], trace=False,
            budget=golden.steps * 4 + 10000)
        violation = self._judge(case, subject, golden, outcome, world)
        return engine.Verdict(
            violation=violation, key=(case["subject"], outcome.error_name),
            counters={"ops": world.steps, "fault:truncate": 1}, steps=world.steps,
            nontrivial=outcome.error is not None
            or (outcome.records, outcome.text) != (golden.records, golden.text),
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def _judge(self, case, subject, golden, outcome, world):
        if case["cut"] is None:
            return f"undisturbed: {case['subject']}: {outcome.summary()}" if (
                outcome.error) else None
        where = f"{case['subject']}: {case['file']} cut at {case['cut']}"
        if isinstance(outcome.error, world_module.StepBudgetExceeded):
            return f"unbounded: {where}: {outcome.error_text}"
        if outcome.error is not None and not common.ok_error(outcome.error):
            return f"undocumented: {where}: {outcome.summary()}"
        if "lookup" in subject.tags:
            return None
        if shorter_companion(subject, case["file"], case["cut"]):
            return None
        if outcome.records != golden.records[: len(outcome.records)]:
            return (f"fabricated: {where}: {common.show_difference(outcome, golden)}")
        if outcome.error is None and "stream" not in subject.tags:
            if (outcome.records, outcome.text) != (golden.records, golden.text):
                return (f"silent: {where} and no error: "
                        f"{common.show_difference(outcome, golden)}")
        if (outcome.error is None and not subject.tags & {"thirdparty", "notext"}
                and not golden.text.startswith(outcome.text)):
            return (f"fabricated: {where} and no error: "
                    f"{common.show_difference(outcome, golden)}")
        return None

    def shrink(self, case):
        if case["cut"] is None:
            return
        if case["debug"]:
            yield dict(case, debug=False)
        if case["cut"]:
            yield dict(case, cut=0)
            yield dict(case, cut=case["cut"] // 2)
            yield dict(case, cut=case["cut"] - 1)


PROP = Property()
