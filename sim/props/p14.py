"""P14: the command line tools print what their readers found, or fail visibly."""

import errno
import random

from sim import cli
from sim import engine
from sim import faults
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common

READ_FAULTS = (("EIO", 0), ("shrink", 0), ("shrink", 500), ("short", 500), ("short", 999),
               ("nomem", 0))


def _tool(number):
    return cli.TOOLS[number]


def _subject_names(tool):
    names = []
    for name in registry.all_subjects():
        if name.partition("~")[0] in tool.subjects:
            names.append(name)
    return names


class Property(common.Property):
    id = "P14"
    chunk = 40
    fault_kinds = ("EIO", "shrink", "short", "nomem", "EACCES", "absent", "ENOSPC")
    stub = common.Property.stub + "; standard output of the tools"
    measure = "distinct digests of (tool, arguments, subject, steps, output) of a run"
    nontrivial_rule = "the tool read the evidence"

    def prepare(self):
        registry.all_subjects()
        cli.preload()
        self._golden = {}
        items = [(number, name, debug) for number, tool in enumerate(cli.TOOLS)
                 for name in _subject_names(tool) for debug in (False, True)]
        for item, value in zip(items, registry.parallel(self._undisturbed, items)):
            self._golden[item] = value

    def _undisturbed(self, item):
        number, name, debug = item
        subject = registry.all_subjects()[name]
        tool = _tool(number)
        extra = ("--item", "1") if tool.name == "spotlight item" else ()
        outcome, world = session.run_single(
            tool.session(subject, extra), subject.files, debug=debug, sites=True,
            trace=False)
        return registry.Golden(outcome, world)

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        producers = {producer.name: producer for producer in registry.producers()}
        result = []
        for number, tool in enumerate(cli.TOOLS):
            rng = random.Random(f"{seed}:P14:{tool.name}:{number}")
            for name in _subject_names(tool):
                for debug in (False, True):
                    golden = self._golden[(number, name, debug)]
                    case = {"tool": number, "subject": name, "debug": debug}
                    result.append(dict(case, kind="report", extra=self._extra(tool, rng)))
                    if golden.error or tool.name == "jump_list":
                        continue
                    count = (1500 if thorough else 60) / golden.cost_ms
                    for _ in range(max(4, min(int(count), 400 if thorough else 12))):
                        result.append(dict(case, kind="fault", **self._fault(rng, golden)))
                    result.append(dict(case, kind="absent"))
                    for _ in range(6 if thorough else 2):
                        if golden.writes:
                            result.append(dict(
                                case, kind="write", nth=rng.randrange(golden.writes)))
            for base in tool.subjects:
                producer = producers.get(base)
                if producer is None:
                    continue
                plain = tool.compare is cli.starts
                count = (10 if plain else 150) * (12 if thorough else 1)
                if base in ("aul_many", "aul_diagnostics", "aul_archive", "aul_live"):
                    count //= 2
                for index in range(count):
                    result.append({
                        "tool": number, "producer": base, "seed": f"{seed}-cli-{index}",
                        "debug": plain or rng.random() < 0.15, "kind": "report",
                        "extra": self._extra(tool, rng)})
                    if tool.name == "cpio hash":
                        result.append(dict(result[-1], join=rng.randrange(1, 4)))
        random.Random(f"{seed}:order").shuffle(result)
        return result

    @staticmethod
    def _extra(tool, rng):
        if tool.name == "spotlight item":
            return ["--item", str(rng.choice([0, 1, 2, 3, 1 << 40, rng.randrange(20)]))]
        return []

    @staticmethod
    def _fault(rng, golden):
        number = rng.randrange(max(1, len(golden.ops)))
        kind = golden.ops[number][0] if golden.ops else "read"
        if kind == "read":
            fault, arg = rng.choice(READ_FAULTS)
        elif kind == "open":
            fault, arg = rng.choice([("EIO", 0), ("EACCES", 0)])
        elif kind in ("stat", "list"):
            fault, arg = None, 0
        else:
            fault, arg = "EIO", 0
        return {"nth": number, "fault": fault, "arg": arg}

    def run(self, case):
        tool = _tool(case["tool"])
        if "producer" in case:
            producer = {item.name: item for item in registry.producers()}[case["producer"]]
            subject = producer.subject(random.Random(case["seed"]))
            subject.root = "/simfs/evidence"
            if case.get("join"):
                self._join(case, producer, subject)
        else:
            subject = registry.all_subjects()[case["subject"]]
        if not tool.fits(subject):
            return engine.Verdict()
        where = (f"{tool.script} {' '.join(tool.arguments)} "
                 f"{' '.join(case.get('extra', ()))} of {subject.name}")
        if case["kind"] == "report":
            return self._report(case, tool, subject, where)
        return self._disturbed(case, tool, subject, where)

    @staticmethod
    def _join(case, producer, subject):
        rng = random.Random(f"{case['seed']}:join")
        subjects = [subject]
        while len(subjects) < case["join"]:
            subjects.append(producer.subject(rng))

        def archive_size(data):
            single = registry.subjects.Subject(
                "archive", {"a": data}, registry.subjects.simple(
                    "cpio", "CPIOArchiveFile", "a",
                    lambda context, reader: context.emit("size", reader.size)))
            outcome, _ = session.run_single(single, single.files, trace=False)
            return int(outcome.records[0].split()[1])

        subject.files = cli.join_archives(rng, subjects, archive_size)

    def _report(self, case, tool, subject, where):
        extra = list(case["extra"])
        if extra and "producer" in case:
            # Ask for an item that the store has, most of the time.
            numbers = [line.split()[1] for line in subject.product.expected
                       if line.startswith("item ")]
            if numbers and int(extra[1]) % 4:
                extra[1] = numbers[int(extra[1]) % len(numbers)]
        expected, _ = session.run_single(
            tool.expected(subject, extra), subject.files, debug=case["debug"], trace=False)
        outcome, world = session.run_single(
            tool.session(subject, extra), subject.files, debug=case["debug"], trace=False)
        violation = None
        if expected.error is not None:
            if outcome.error is None:
                violation = (f"success: {where}: exit status 0 although the reader "
                             f"reports {expected.summary()}")
        elif outcome.error is not None:
            violation = f"refused: {where}: {outcome.summary()}"
        elif tool.compare in (None, cli.starts):
            if tool.compare is None:
                problem = None if outcome.text == expected.text else "output"
            else:
                problem = tool.compare(outcome.text, expected.text)
            if problem:
                violation = (f"output: {where}: {problem}: "
                             f"{common.show_difference(outcome, expected)}")
        else:
            problem = tool.compare(outcome.text, expected.text, expected)
            if problem:
                violation = f"output: {where}: {problem}"
        return engine.Verdict(
            violation=violation, key=(case["tool"], "report"),
            counters={"reports": 1, "ops": world.steps}, steps=world.steps,
            nontrivial=world.steps > 0,
            digest=engine.digest_of(case["tool"], subject.name, world.steps, outcome.text,
                                    outcome.error_name), note=outcome.summary())

    def _disturbed(self, case, tool, subject, where):
        golden = self._golden[(case["tool"], case["subject"], case["debug"])]
        extra = ("--item", "1") if tool.name == "spotlight item" else ()
        files = dict(subject.files)
        plan, fail_write, kind = [], None, case["kind"]
        if kind == "absent":
            path = tool.path(subject)
            names = [name for name in files
                     if f"{subject.root}/{name}" == path
                     or f"{subject.root}/{name}".startswith(path + "/")]
            for name in names:
                del files[name]
            kind = "absent"
        elif kind == "write":
            fail_write = (case["nth"], faults.WriterFailure(
                errno.ENOSPC, "No space left on device"))
            kind = "ENOSPC"
        elif case["fault"]:
            kind = case["fault"]
            plan.append({"op": "any", "nth": case["nth"], "kind": case["fault"],
                         "arg": case["arg"], "persist": False})
        outcome, world = session.run_single(
            tool.session(subject, extra), files, faults=plan, debug=case["debug"],
            trace=False, fail_write=fail_write, budget=golden.steps * 4 + 10000)
        effective = bool(world.effective or case["kind"] == "absent" or outcome.writer_failed)
        violation = None
        if isinstance(outcome.error, world_module.StepBudgetExceeded):
            violation = f"unbounded: {where}: {outcome.error_text}"
        elif outcome.error is None:
            if case["kind"] == "absent":
                violation = f"success: {where}: exit status 0 without evidence"
            elif outcome.text != golden.text:
                violation = (f"silent: {where}: {kind} and exit status 0: "
                             f"{common.show_difference(outcome, golden)}")
            elif outcome.writer_failed:
                violation = f"silent: {where}: output failed and exit status 0"
        elif not effective:
            violation = f"nondeterminism: {where}: {outcome.summary()}"
        elif not common.ok_error(outcome.error) and not isinstance(
                outcome.error, MemoryError):
            violation = f"undocumented: {where}: {kind}: {outcome.summary()}"
        elif "thirdparty" not in subject.tags and not (
                case["debug"] and tool.script in cli.LOOKING):
            text = outcome.text
            # A tool may say why it fails.
            head, mark, _ = text.rpartition("Unable to open ")
            if mark and isinstance(outcome.error, cli.ToolFailed):
                text = head
            if not golden.text.startswith(text):
                violation = (f"fabricated: {where}: {kind}: "
                             f"{common.show_difference(outcome, golden)}")
        counters = {"ops": world.steps}
        if effective:
            counters[f"fault:{kind}"] = 1
        return engine.Verdict(
            violation=violation, key=(case["tool"], case["subject"], (violation or "")[:9]),
            counters=counters, steps=world.steps, nontrivial=effective,
            digest=engine.digest_of(case["tool"], case["subject"], case["kind"], world.steps,
                                    outcome.text, outcome.error_name),
            note=outcome.summary())

    def shrink(self, case):
        if case["debug"]:
            yield dict(case, debug=False)
        if case["kind"] == "fault" and case["fault"] not in (None, "EIO"):
            yield dict(case, fault="EIO", arg=0)


PROP = Property()
