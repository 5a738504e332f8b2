"""What the properties share."""

from sim import engine


class Property:
    """A property decided by seeded simulation.

    id, title: as in properties.jsonl. technique/components: for the evidence.
    cases(tier, seed) yields JSON cases; run(case) -> engine.Verdict;
    shrink(case) yields simpler cases.
    """

    id = ""
    chunk = 60
    quick_wall = 240
    thorough_wall = 3000
    real = "all of dtformats, dtfabric and the libyal bindings"
    stub = ("the disk (builtins.open, os.stat, os.listdir, os.scandir at /simfs), "
            "the output writer")
    measure = "distinct digests of (case kind, steps, records, text, error) of a run"
    fault_kinds = ()

    @staticmethod
    def cpu_seconds(case):
        """How much processor time a case may use before it counts as a hang."""
        return 60

    def prepare(self):
        """Runs in the parent before any case."""

    def cases(self, tier, seed):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def shrink(self, case):
        return ()

    def describe(self, case):
        return case


def ok_error(error):
    """The errors a client of dtformats is told to handle."""
    from dtformats import errors
    return isinstance(error, (errors.ParseError, OSError))


def first_difference(left, right):
    for index, (one, two) in enumerate(zip(left, right)):
        if one != two:
            return index
    return min(len(left), len(right))


def show_difference(outcome, reference):
    """Where an outcome leaves the reference, as short text."""
    index = first_difference(outcome.records, reference.records)
    if outcome.records[index:] or reference.records[index:]:
        got = outcome.records[index] if index < len(outcome.records) else "<end>"
        want = reference.records[index] if index < len(reference.records) else "<end>"
        if got != want:
            return f"record {index}: got {got[:200]} expected {want[:200]}"
    index = first_difference(outcome.text, reference.text)
    start = max(0, index - 60)
    return (f"text at {index}: got {outcome.text[start:index + 60]!r} "
            f"expected {reference.text[start:index + 60]!r}")


def digest(case, outcome, world):
    return engine.digest_of(
        case.get("subject"), world.steps, outcome.records, outcome.text,
        outcome.error_name, world.fired)
