"""P03: complete records of a log that is being written are reported exactly."""

import random

from sim import engine
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common


def _producers():
    return {producer.name: producer for producer in registry.producers()}


def judge(producer, product, outcome, size, where):
    """Compares what was reported with the ledger of the producer."""
    got = producer.observe(outcome)
    expected = product.expected
    complete = sum(1 for end in product.ends if end <= size)
    if outcome.error is not None and not common.ok_error(outcome.error):
        return f"undocumented: {where}: {outcome.summary()}"
    for index, line in enumerate(got):
        want = expected[index] if index < len(expected) else "<nothing>"
        if line == want:
            continue
        if index == len(got) - 1 and outcome.error is not None and index >= complete and (
                want.startswith(line)):
            continue
        return (f"altered: {where}: record {index}: got {line[:300]} "
                f"expected {want[:300]}")
    if len(got) < complete:
        return (f"lost: {where}: {len(got)} of {complete} complete records, first missing "
                f"{expected[len(got)][:300]}; {outcome.summary()}")
    if size >= len(product.files[product.main]) and outcome.error is not None:
        return f"refused: {where}: {outcome.summary()}"
    return None


class Property(common.Property):
    id = "P03"
    chunk = 40
    fault_kinds = ("crash", "append")
    nontrivial_rule = "the file held at least one complete record"
    measure = "distinct digests of (producer, steps, records, text, error) of a run"

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for producer in registry.producers():
            rng = random.Random(f"{seed}:P03:{producer.name}")
            count = producer.runs * (12 if thorough else 1)
            for number in range(count):
                debug = True if producer.debug_only else rng.random() < 0.25
                mode = rng.choice(["whole", "crash", "crash", "live", "live"])
                if producer.whole and mode != "whole":
                    mode = rng.choice(["whole", "whole", "rewrite"])
                result.append({
                    "producer": producer.name, "seed": f"{seed}-{number}", "debug": debug,
                    "mode": mode, "spot": rng.random(), "near": rng.random(),
                })
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        producer = _producers()[case["producer"]]
        rng = random.Random(f"{case['producer']}:{case['seed']}")
        product = producer.make(rng)
        main = product.files[product.main]
        size = len(main)
        events = []
        counters = {f"mode:{case['mode']}": 1}
        if case["mode"] in ("crash", "live"):
            if case["near"] < 0.7 and product.ends:
                end = product.ends[int(case["spot"] * len(product.ends))]
                size = max(0, min(size, end + int(case["near"] * 10) - 3))
            else:
                size = int(case["spot"] * (size + 1))
            counters["fault:crash"] = 1
            if case["mode"] == "live":
                step, length = 0, size
                while length < len(main) and len(events) < 20:
                    step += rng.randrange(1, 12)
                    length = min(len(main), length + rng.choice([1, 3, 40, 400, 5000]))
                    events.append([step, "set", product.main, main[:length]])
                counters["fault:append"] = len(events)
                counters.pop("fault:crash")
        elif case["mode"] == "rewrite":
            # The same content is written again, in place, while it is read.
            events.append([rng.randrange(1, 8), "set", product.main, main])
        subject = registry.subjects.Subject(
            producer.name, product.files, producer.session, root="/simfs/evidence")
        files = dict(product.files)
        files[product.main] = main[:size]
        outcome, world = session.run_single(
            subject, files, debug=case["debug"], events=events, trace=False,
            budget=200000 + 20 * len(main))
        where = (f"{case['producer']}: product {case['seed']} of {len(main)} bytes, "
                 f"{case['mode']} at {size}")
        if isinstance(outcome.error, world_module.StepBudgetExceeded):
            violation = f"unbounded: {where}: {outcome.error_text}"
        else:
            violation = judge(producer, product, outcome, size, where)
        complete = sum(1 for end in product.ends if end <= size)
        counters["records"] = complete
        counters["ops"] = world.steps
        return engine.Verdict(
            violation=violation, key=(case["producer"], (violation or "")[:9]),
            counters=counters, steps=world.steps, nontrivial=complete > 0,
            digest=engine.digest_of(
                case["producer"], world.steps, outcome.records, outcome.text,
                outcome.error_name),
            note=outcome.summary())

    def shrink(self, case):
        if case["mode"] != "whole":
            yield dict(case, mode="whole")
        if case["mode"] == "live":
            yield dict(case, mode="crash")
        if case["debug"] and not _producers()[case["producer"]].debug_only:
            yield dict(case, debug=False)


PROP = Property()
