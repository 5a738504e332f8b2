"""P15: damaged evidence ends in a report or a documented error."""

import random

from sim import engine
from sim import faults
from sim import registry
from sim import world as world_module
from sim.props import common


class Property(common.Property):
    id = "P15"
    chunk = 40
    fault_kinds = ("flip", "word", "zero", "copy", "cut", "fill")
    nontrivial_rule = "the stored-data fault changed the outcome of the run"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            if "thirdparty" in subject.tags and name in ("amcache",):
                continue
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    continue
                rng = random.Random(f"{seed}:P15:{name}:{debug}")
                sites = [site for site in sorted(golden.sites) if site[0] == "read"]
                if not sites:
                    continue
                budget = 90000 if thorough else (1600 if not debug else 600)
                if golden.contents:
                    budget *= 3
                limit = max(16, min(int(budget / golden.cost_ms),
                                    15000 if thorough else 500))
                for number in range(limit):
                    if golden.contents and number % 2:
                        # Damage inside of what is stored compressed.
                        nth = rng.randrange(len(golden.contents))
                        size = golden.contents[nth]
                        change = self._change(rng, bytes(size), 0, size)
                        result.append({
                            "subject": name, "debug": debug,
                            "plan": {"content": nth, "change": change}})
                        continue
                    site = sites[number % len(sites)]
                    _, path, size, position = golden.ops[rng.choice(golden.sites[site])]
                    filename = path[len(subject.root) + 1 :]
                    result.append({
                        "subject": name, "debug": debug,
                        "plan": {"file": filename, "change": self._change(
                            rng, subject.files[filename], position, min(size, 4096))}})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    @staticmethod
    def _change(rng, data, position, size):
        size = max(1, min(size, 65536))
        offset = position + rng.randrange(size)
        kind = rng.choice(["flip", "word", "word", "word", "fill", "fill", "zero", "copy",
                           "cut"])
        if kind == "flip":
            return ["flip", offset, rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])]
        if kind == "word":
            width = rng.choice([1, 2, 2, 4, 4, 8])
            if rng.random() < 0.7:
                offset -= (offset - position) % min(width, 4)
            value = rng.choice(list(faults.WORDS) + [
                3, 4, 5, 7, 8, 15, 16, 31, 100, 255, len(data), len(data) - 1, offset,
                rng.getrandbits(8), rng.getrandbits(16), rng.getrandbits(32)])
            if width == 8:
                value = rng.choice(faults.LONG_WORDS + (value,))
            return ["word", offset, width, value, rng.choice(["little", "little", "big"])]
        if kind == "fill":
            # Bytes that are no text in any encoding, or other text.
            pattern = rng.choice(["ff", "80", "c3", "00d8", "d8", "dcff", "25", "41", "f09f"])
            return ["fill", offset, pattern, rng.choice([1, 2, 4, 8, 16])]
        if kind == "zero":
            return ["zero", offset, rng.choice([1, 2, 4, 8, 16, 64, 512])]
        if kind == "copy":
            return ["copy", offset, rng.randrange(max(1, len(data))),
                    rng.choice([4, 8, 16, 64])]
        return ["cut", offset]

    def run(self, case):
        subject = registry.all_subjects()[case["subject"]]
        golden = registry.golden(case["subject"], case["debug"])
        total = sum(len(data) for data in subject.files.values())
        steps = golden.steps * 40 + total * 4 + 20000
        text = len(golden.text) * 60 + total * 400 + (1 << 22)
        outcome, world = faults.run(
            subject, case["plan"], case["debug"], steps, text_budget=text)
        violation = None
        if outcome.error is not None and not common.ok_error(outcome.error) and not isinstance(
                outcome.error, (world_module.StepBudgetExceeded, MemoryError)):
            violation = (f"undocumented: {case['subject']}: {faults.describe(case['plan'])}"
                         f"{' (tracing)' if case['debug'] else ''}: {outcome.summary()}")
        change = case["plan"].get("change", ["none"])[0]
        return engine.Verdict(
            violation=violation, key=(outcome.where, outcome.error_name),
            counters={"ops": world.steps, f"fault:{change}": 1,
                      "ended:" + (outcome.error_name or "report"): 1}, steps=world.steps,
            nontrivial=(outcome.records, outcome.text, outcome.error_name) != (
                golden.records, golden.text, None),
            digest=common.digest(case, outcome, world), note=outcome.summary())

    def shrink(self, case):
        if case["debug"]:
            yield dict(case, debug=False)
        for simpler in faults.shrink_plan(case["plan"]):
            yield dict(case, plan=simpler)


PROP = Property()
