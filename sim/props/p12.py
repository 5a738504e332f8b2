"""P12: what lies beside the evidence, or is missing there, changes nothing else."""

import random
import uuid

from sim import engine
from sim import registry
from sim import session
from sim import subjects
from sim.producers import aul
from sim.props import common

# What the strings of images and of shared caches determine.
STRINGS = frozenset([
    "event_message", "format_string", "signpost_name", "sender_image_identifier",
    "sender_image_path", "sender_program_counter", "process_image_identifier",
    "process_image_path"])
# The image of a frame in a shared cache is one of its images, and what is beyond
# the strings of an image has another offset.
CACHED = frozenset(["frames"])
PROCESS = frozenset(["process_image_identifier", "process_image_path"])
TIMES = frozenset(["timestamp", "loss_start_timestamp", "loss_end_timestamp"])
NAMES = aul.ATTRIBUTES + ("frames",)
EMPTY = ("None", "''")


def trace_session(main):
    """The session of a tracev3 file that keeps the values of every entry apart."""

    def run(context):
        from dtformats import unified_logging
        context.entries = []
        reader = context.make(unified_logging.TraceV3File)
        reader.Open(context.path(*main.split("/")))
        try:
            for entry in reader.ReadLogEntries():
                values = [session.canon(getattr(entry, name)) for name in aul.ATTRIBUTES]
                frames = None if entry.backtrace_frames is None else [
                    (frame.image_identifier, frame.image_offset)
                    for frame in entry.backtrace_frames]
                values.append(session.canon(frames))
                context.entries.append(dict(zip(NAMES, values)))
                context.emit("entry", values)
        finally:
            reader.Close()
    return run


class Library:
    """A tracev3 file with the files that it refers to."""

    def __init__(self, subject):
        self.files = subject.files
        self.main = [name for name in subject.files if name.endswith(".tracev3")][0]
        self.subject = subjects.Subject(
            subject.name, subject.files, trace_session(self.main), root=subject.root)
        self.images = {}
        self.caches = []
        self.times = []
        for name in sorted(subject.files):
            parts = name.split("/")
            if name.endswith(".timesync"):
                self.times.append(name)
            elif len(parts) > 1 and parts[-2] == "dsc":
                self.caches.append(name)
            elif len(parts) > 1 and len(parts[-2]) == 2:
                identifier = (parts[-2] + parts[-1]).lower()
                self.images[name] = identifier

    def run(self, debug, removed=(), added=None, events=(), budget=2000000):
        files = {name: data for name, data in self.files.items() if name not in removed}
        files.update(added or {})
        return session.run_single(
            self.subject, files, debug=debug, trace=False, budget=budget, events=events)


def plain(value):
    """The hexadecimal digits of a canonical uuid."""
    return value[5:].replace("-", "").lower() if value.startswith("uuid:") else ""


class Property(common.Property):
    id = "P12"
    chunk = 30
    fault_kinds = ("absent", "vanish", "appear", "unrelated")
    nontrivial_rule = "a file was absent or changed its presence, or an unrelated file lay near"

    def prepare(self):
        registry.goldens()

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        rng = random.Random(f"{seed}:P12")
        traces = [producer for producer in registry.producers()
                  if isinstance(producer, aul.TraceProducer)]
        for producer in traces:
            number_of = (3000 if thorough else 260) if not producer.many else (
                60 if thorough else 8)
            for _ in range(number_of):
                result.append({"kind": "trace", "producer": producer.name,
                               "product": rng.getrandbits(32), "seed": rng.getrandbits(32),
                               "debug": rng.random() < 0.15})
        for _ in range(200 if thorough else 40):
            result.append({"kind": "trace", "subject": "aul_trace",
                           "seed": rng.getrandbits(32), "debug": False})
        for name, subject in registry.all_subjects().items():
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error or golden.cost_ms > 2000:
                    continue
                for _ in range((8 if thorough else 2) * (3 if len(subject.files) > 1 else 1)):
                    result.append({"kind": "near", "subject": name, "debug": debug,
                                   "seed": rng.getrandbits(32)})
                if len(subject.files) > 1 and not name.startswith("aul_"):
                    for filename in sorted(subject.files):
                        result.append({"kind": "lost", "subject": name, "debug": debug,
                                       "file": filename})
        for producer in registry.producers():
            if producer.name in ("wmi_21", "wmi_22", "chrome_dir"):
                for _ in range(400 if thorough else 40):
                    result.append({"kind": "lost", "producer": producer.name,
                                   "product": rng.getrandbits(32), "debug": False,
                                   "seed": rng.getrandbits(32)})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    # -- the subject of a case -----------------------------------------------
    def _subject(self, case):
        if case.get("producer"):
            producer = [item for item in registry.producers()
                        if item.name == case["producer"]][0]
            subject = producer.subject(random.Random(case["product"]))
            subject.root = f"/simfs/{case['producer']}"
            return subject
        return registry.all_subjects()[case["subject"]]

    def run(self, case):
        return getattr(self, "_" + case["kind"])(case)

    def _verdict(self, case, violation, counters, steps, nontrivial, outcome, world):
        digest = engine.digest_of(case["kind"], world.steps, outcome.records, outcome.text,
                                  outcome.error_name)
        return engine.Verdict(
            violation=violation, key=(case["kind"], (violation or "").split(":")[0],
                                      case.get("subject") or case.get("producer")),
            counters=dict(counters, ops=steps), steps=steps, nontrivial=nontrivial,
            digest=digest, note=outcome.summary())

    # -- the unified log -------------------------------------------------------
    def _trace(self, case):
        subject = self._subject(case)
        library = Library(subject)
        debug = case["debug"]
        rng = random.Random(case["seed"])
        golden, world = library.run(debug)
        steps = world.steps
        strings = list(library.images) + library.caches
        bare, bare_world = library.run(debug, strings, budget=steps * 4 + 1000)
        steps += bare_world.steps
        where = f"{case.get('subject') or case['producer']}"
        if golden.error is not None:
            # Not an undisturbed history to compare with: P03 judges that.
            return self._verdict(case, None, {}, steps, False, golden, world)
        violation = self._bare(golden, bare, where)
        counters = {}
        outcome = bare
        removed = sorted(name for name in strings if rng.random() < rng.choice([0.15, 0.5]))
        times = [name for name in library.times if rng.random() < 0.2]
        mode = case.get("mode") or rng.choice(["absent", "absent", "vanish", "appear"])
        if violation is None:
            if mode == "absent":
                outcome, world = library.run(debug, removed + times, budget=steps * 4 + 1000)
                soft = False
            else:
                when = rng.randrange(max(1, world.steps))
                if mode == "vanish":
                    events = [[when, "delete", name, b""] for name in removed + times]
                    outcome, world = library.run(
                        debug, events=events, budget=steps * 4 + 1000)
                else:
                    events = [[when, "set", name, library.files[name]]
                              for name in removed + times]
                    outcome, world = library.run(
                        debug, removed + times, events=events, budget=steps * 4 + 1000)
                soft = True
            steps += world.steps
            counters = {f"fault:{mode}": len(removed) + len(times)}
            violation = self._judge(library, golden, bare, outcome, set(removed), times,
                                    soft, f"{where}: {mode} {removed + times}")
        return self._verdict(case, violation, counters, steps, bool(removed or times),
                             outcome, world)

    @staticmethod
    def _bare(golden, bare, where):
        """Nothing to look strings up in: the entries are there all the same."""
        if bare.error is not None:
            return f"unreadable: {where} without any strings: {bare.summary()}"
        if len(bare.entries) != len(golden.entries):
            return (f"entries: {where} without any strings: {len(bare.entries)} entries "
                    f"instead of {len(golden.entries)}")
        for number, (want, got) in enumerate(zip(golden.entries, bare.entries)):
            for name in NAMES:
                if name not in STRINGS | CACHED and got[name] != want[name]:
                    return (f"disturbed: {where} without any strings: entry {number} "
                            f"{name}: {got[name]} instead of {want[name]}")
            for name in ("process_image_path", "sender_image_path"):
                if got[name] not in EMPTY:
                    return (f"invented: {where} without any strings: entry {number} "
                            f"{name}: {got[name]}")
        return None

    @staticmethod
    def _judge(library, golden, bare, outcome, removed, times, soft, where):
        torn = soft and isinstance(outcome.error, FileNotFoundError)
        if outcome.error is not None and not torn:
            return f"unreadable: {where}: {outcome.summary()}"
        boots = [library.files[name] for name in times]
        identifiers = {bytes.fromhex(plain(entry["boot_identifier"]))
                       for entry in golden.entries if entry["boot_identifier"] != "None"}
        untimed = any(identifier in data for data in boots for identifier in identifiers)

        def kept(entries):
            # The clock adjustments are the ones of the file with the boot.
            return [entry for entry in entries if not untimed
                    or entry["event_type"] != "'timesyncEvent'"]
        entries, wanted, least = kept(outcome.entries), kept(golden.entries), kept(bare.entries)
        if len(entries) != len(wanted) and not torn:
            return f"entries: {where}: {len(entries)} entries instead of {len(wanted)}"
        gone = {library.images[name] for name in removed if name in library.images}
        uncached = any(name in library.caches for name in removed)
        present = set(library.images.values())
        for number, (want, low, got) in enumerate(zip(wanted, least, entries)):
            process = plain(want["process_image_identifier"])
            sender = plain(want["sender_image_identifier"])
            for name in NAMES:
                allowed = (want[name],)
                if name in TIMES and untimed:
                    continue
                if name in PROCESS:
                    if process in gone:
                        allowed = (want[name], low[name]) if soft else (low[name],)
                elif name in STRINGS:
                    if sender in gone:
                        allowed = (want[name], low[name]) if soft else (low[name],)
                    if uncached and sender not in present:
                        allowed = (want[name], low[name])
                elif name in CACHED and (uncached or any(
                        str(uuid.UUID(identifier)) in want[name] for identifier in gone)):
                    allowed = (want[name], low[name])
                if got[name] not in allowed:
                    return (f"disturbed: {where}: entry {number} {name}: {got[name]} "
                            f"instead of {' or '.join(allowed)}")
        return None

    # -- unrelated files -------------------------------------------------------
    def _near(self, case):
        subject = self._subject(case)
        golden = registry.golden(case["subject"], case["debug"])
        rng = random.Random(case["seed"])
        names = self._unrelated(rng, subject)
        if case.get("only"):
            names = [name for name in names if name in case["only"]]
        files = dict(subject.files)
        for name in names:
            files[name] = rng.choice([
                b"", b"\0" * 64, rng.randbytes(rng.randrange(300)),
                files[rng.choice(sorted(subject.files))]])
        outcome, world = session.run_single(
            subject, files, debug=case["debug"], trace=False,
            budget=golden.steps * 8 + 2000)
        violation = None
        where = f"{case['subject']} with {names}"
        opened = [path for path in world.opened_paths
                  if path[len(subject.root) + 1 :] in names]
        if opened:
            violation = f"opened: {where}: {opened}"
        elif (outcome.error is not None or outcome.records != golden.records
              or outcome.text != golden.text):
            violation = f"changed: {where}: {common.show_difference(outcome, golden)}"
        return self._verdict(case, violation, {"fault:unrelated": len(names)}, world.steps,
                             bool(names), outcome, world)

    @staticmethod
    def _unrelated(rng, subject):
        """Names near those of the evidence that no reader has a reason to look at."""
        result = set()
        for _ in range(rng.randrange(1, 6)):
            near = rng.choice(sorted(subject.files))
            head, _, tail = near.rpartition("/")
            kind = rng.randrange(4)
            if kind == 0:
                tail += rng.choice([".bak", "~", ".tmp", ".old", "-journal", ".1"])
            elif kind == 1:
                tail = rng.choice(["readme.txt", "desktop.ini", ".DS_Store", "index2",
                                   "data_99", "f_000001", "mapping4.map", "mapping.map",
                                   "objects.dat", "zzz"])
            elif kind == 2:
                tail = rng.choice(["x", "_", "0"]) + tail.rpartition(".")[0] + ".x"
            else:
                # The name of a file is the name of a directory elsewhere.
                tail = "other/" + tail
            name = f"{head}/{tail}" if head else tail
            if name not in subject.files:
                result.add(name)
        return sorted(result)

    # -- a needed file is missing ------------------------------------------------
    def _lost(self, case):
        subject = self._subject(case)
        debug = case["debug"]
        rng = random.Random(case.get("seed", 0))
        golden, golden_world = session.run_single(
            subject, subject.files, debug=debug, trace=False)
        filename = case.get("file") or rng.choice(sorted(subject.files))
        used = f"{subject.root}/{filename}" in golden_world.opened_paths
        files = {name: data for name, data in subject.files.items() if name != filename}
        outcome, world = session.run_single(
            subject, files, debug=debug, trace=False, budget=golden_world.steps * 4 + 2000)
        violation = None
        where = f"{subject.name} without {filename}"
        # A repository has up to three mapping files, of which the latest one counts.
        spare = filename.lower().rpartition("/")[2].startswith("mapping") and any(
            name.lower().rpartition("/")[2].startswith("mapping") for name in files)
        if golden.error is None:
            if outcome.error is not None and not common.ok_error(outcome.error):
                violation = f"undocumented: {where}: {outcome.summary()}"
            elif spare:
                pass
            elif used and outcome.error is None:
                violation = f"unnoticed: {where}: {outcome.summary()}"
            elif not used and not outcome.same(golden):
                violation = f"changed: {where}: {common.show_difference(outcome, golden)}"
            elif outcome.records != golden.records[: len(outcome.records)]:
                violation = f"different: {where}: {common.show_difference(outcome, golden)}"
        return self._verdict(case, violation, {"fault:absent": 1},
                             world.steps + golden_world.steps, used, outcome, world)

    def shrink(self, case):
        if case["debug"]:
            yield dict(case, debug=False)
        if case["kind"] == "near":
            names = self._unrelated(random.Random(case["seed"]), self._subject(case))
            current = case.get("only") or names
            if len(current) > 1:
                for name in current:
                    yield dict(case, only=[name])


PROP = Property()
