"""P09: the lookups and iterators of one reader do not disturb each other."""

import random

from sim import engine
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common

LIMIT = 60


# -- what can be asked of an open reader ------------------------------------

def _file(module, name, filename, uses, **kwargs):
    def open_reader(context):
        reader = context.make(
            getattr(__import__(f"dtformats.{module}", fromlist=["x"]), name), **kwargs)
        reader.Open(context.path(*filename.split("/")))
        return reader
    return open_reader, uses


def _iterator(*methods):
    def uses(reader):
        return [["iter", method, []] for method in methods]
    return uses


def _cpio(reader):
    paths = [entry.path for entry in reader.GetFileEntries()]
    prefixes = sorted({path[:size] for path in paths[:6] for size in (1, 3, len(path))})
    return (
        [["iter", "GetFileEntries", []]]
        + [["iter", "GetFileEntries", [prefix]] for prefix in prefixes[:8]]
        + [["call", "GetFileEntryByPath", [path]] for path in paths[:12] + ["absent"]]
        + [["call", "FileEntryExistsByPath", [path]] for path in paths[:4] + ["absent"]])


def _tracev3(reader):
    return [["iter", "ReadLogEntries", []]]


def _dsc(reader):
    result = []
    for item in reader.ranges:
        size = max(1, item.range_size)
        for offset in sorted({0, size // 2, size - 1, size}):
            result.append(["call", "GetImageValues", [item.range_offset + offset, False]])
            result.append(["call", "GetImageValues", [item.text_offset + offset, True]])
    return result[:LIMIT]


def _uuidtext(reader):
    result = [["call", "GetImagePath", []]]
    spots = set()
    for _, descriptor in reader._entry_descriptors:
        spots |= {descriptor.offset + delta for delta in (
            0, 1, descriptor.data_size // 2, descriptor.data_size - 1, descriptor.data_size)}
    result += [["call", "GetString", [spot]] for spot in sorted(spots)[:LIMIT]]
    return result


def _spotlight(reader):
    from sim.producers import spotlight
    found = [number for number in range(spotlight.CANDIDATES)
             if reader.GetMetadataItemByIdentifier(number) is not None]
    return [["call", "GetMetadataItemByIdentifier", [number]]
            for number in found[:LIMIT] + [spotlight.CANDIDATES + 5]]


def _btree(reader):
    return [["call", "GetPage", [number]] for number in (0, 1, 2, 3, 5, 9, 21, 1 << 20)]


def _mapping(reader):
    return [["call", "GetIndexMappingTable", []], ["call", "GetObjectsMappingTable", []]]


def _keychain(reader):
    return [["iter", "tables", []]] + [
        ["iter", "tables", [number, "records"]] for number in range(len(reader.tables))]


def _blocks(offsets):
    def uses(reader):
        return [["call", "ReadCacheEntry", [offset]] for offset in offsets]
    return uses


def _repository(reader):
    keys = list(reader.GetIndexKeys())
    return (
        [["iter", method, []] for method in ("GetInstances", "GetNamespaces", "GetIndexKeys")]
        + [["call", "GetObjectRecordByKey", [key]] for key in keys if "." in key][:LIMIT])


def readers():
    """{label: (subject, (open, uses))}"""
    result = {}

    def add(subject, label, entry):
        result[f"{subject.name}:{label}"] = (subject, entry)

    for name, subject in registry.all_subjects().items():
        base = name.split("~")[0]
        main = next(iter(subject.files))
        if subject.producer is not None:
            main = subject.product.main
        if base.startswith("cpio_"):
            add(subject, "archive", _file("cpio", "CPIOArchiveFile", main, _cpio))
        elif base == "leveldb_table":
            add(subject, "table", _file(
                "leveldb", "LevelDBDatabaseTableFile", main, _iterator("ReadTableEntries")))
        elif base == "indexeddb":
            add(subject, "table", _file(
                "indexeddb", "IndexedDBDatabaseTableFile", main,
                _iterator("ReadEntries", "ReadTableEntries")))
        elif base in ("auto_dest", "auto_dest_2"):
            add(subject, "list", _file(
                "jump_list", "AutomaticDestinationsFile", main,
                _iterator("GetJumpListEntries")))
        elif base == "custom_dest":
            add(subject, "list", _file(
                "jump_list", "CustomDestinationsFile", main,
                _iterator("GetJumpListEntries")))
        elif base == "aul_timesync":
            add(subject, "timesync", _file(
                "unified_logging", "TimesyncDatabaseFile", main, _iterator("ReadRecords")))
        elif base == "usn":
            add(subject, "journal", _file(
                "usn_journal", "USNRecords", main, _iterator("ReadRecords")))
        elif base == "cim_btree":
            add(subject, "tree", _file("wmi_repository", "IndexBinaryTreeFile", main, _btree))
        elif base in ("keychain", "keychain_db"):
            add(subject, "tables", _file("keychain", "KeychainDatabaseFile", main, _keychain))
        elif base == "spotlight":
            add(subject, "store", _file(
                "spotlight_storedb", "SpotlightStoreDatabaseFile", main, _spotlight))
        elif base == "wmi_20":
            add(subject, "file", _file(
                "wmi_repository", "RepositoryFile", main,
                _iterator("ReadClassDefinitions", "ReadInstances", "ReadNamespaces")))
            add(subject, "repository", _file(
                "wmi_repository", "CIMRepository", main, _repository))
        elif base.startswith("wmi_"):
            add(subject, "repository", _file(
                "wmi_repository", "CIMRepository", "Repository", _repository))
            for filename in subject.files:
                if filename.lower().endswith(".map"):
                    add(subject, filename, _file(
                        "wmi_repository", "MappingFile", filename, _mapping))
        elif base == "chrome_dir":
            offsets = {}
            for entry in registry.golden(name, False).ops:
                if entry[0] == "read" and "/data_" in entry[1] and entry[2] >= 256:
                    offsets.setdefault(entry[1].rsplit("/", 1)[-1], []).append(entry[3])
            for filename in sorted(offsets):
                if filename in subject.files:
                    add(subject, filename, _file(
                        "chrome_cache", "DataBlockFile", filename,
                        _blocks(sorted(set(offsets[filename]))[:LIMIT])))
        if base.startswith("aul_"):
            if "tracev3" in main or base == "aul_trace":
                trace = [key for key in subject.files if key.endswith(".tracev3")][0]
                add(subject, "trace", _file(
                    "unified_logging", "TraceV3File", trace, _tracev3))
            for filename in subject.files:
                if "/dsc/" in filename:
                    add(subject, filename, _file(
                        "unified_logging", "DSCFile", filename, _dsc))
            texts = [filename for filename in subject.files
                     if len(filename.rsplit("/", 1)[-1]) == 30]
            for filename in texts[:3]:
                add(subject, filename, _file(
                    "unified_logging", "UUIDTextFile", filename, _uuidtext))
    return result


# -- running them -------------------------------------------------------------

def observed(value):
    """What a client sees of one result."""
    text = session.canon(value)
    kind = type(value).__name__
    if kind == "CPIOArchiveFileEntry":
        # The data of a member, without moving a position somebody else relies on.
        text += session.canon(value.get_size())
    elif kind == "JumpListEntry":
        lnk = value.lnk_file
        text = session.canon([
            value.identifier, lnk.get_file_size(), lnk.get_local_path(),
            lnk.get_command_line_arguments(), lnk.get_description(),
            lnk.get_file_creation_time_as_integer()])
    return text


def start(reader, use):
    """Begins a use: an iterator over its results."""
    kind, name, args = use
    if name == "tables":
        return iter(reader.tables[args[0]].records if args else reader.tables)
    result = getattr(reader, name)(*args)
    return iter(result) if kind == "iter" else iter([result])


class Uses:
    """What can be asked of a reader, and what it answers when asked only that."""

    def __init__(self, uses, results, steps, error, opening=0):
        self.uses = uses
        self.results = results
        self.steps = steps
        self.opening = opening
        self.error = error


def _alone(label, debug):
    subject, (open_reader, uses_of) = readers()[label]
    world_module.install()

    def run(body):
        world = world_module.World({
            f"{subject.root}/{name}": data for name, data in subject.files.items()})
        world.trace_on = False
        context = session.Context(world, subject.root, debug=debug)
        world_module.set_world(world)
        try:
            reader = open_reader(context)
            try:
                return body(reader, world), world.steps
            finally:
                reader.Close()
        finally:
            world_module.set_world(None)

    try:
        uses, _ = run(lambda reader, world: uses_of(reader))
    except Exception as exception:  # pylint: disable=broad-except
        return Uses([], [], 0, repr(exception))
    _, opening = run(lambda reader, world: None)
    kept, results, total = [], [], 0
    for use in uses:
        try:
            answer, steps = run(lambda reader, world, use=use: [
                observed(value) for value in start(reader, use)])
        except Exception as exception:  # pylint: disable=broad-except
            return Uses([], [], 0, repr(exception))
        kept.append(use)
        results.append(answer)
        total = max(total, steps)
    return Uses(kept, results, total, None, opening)


_USES = {}


class Property(common.Property):
    id = "P09"
    chunk = 60
    fault_kinds = ("EIO", "short", "cancel", "nomem")
    measure = "distinct digests of (reader, schedule of uses, results, faults) of a run"
    nontrivial_rule = "two uses were in progress at the same time, or a use was repeated"

    def prepare(self):
        registry.goldens()
        wanted = [(label, debug) for label in readers() for debug in (False, True)]
        answers = registry.parallel(lambda item: _alone(*item), wanted)
        for item, answer in zip(wanted, answers):
            if answer.uses:
                _USES[item] = answer

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for (label, debug), alone in sorted(_USES.items()):
            subject, _ = readers()[label]
            rng = random.Random(f"{seed}:P09:{label}:{debug}")
            cost = 2 + alone.steps * 0.02 * 4
            count = int(max(12, min(300, 1000 / cost)))
            for _ in range(count * (20 if thorough else 1)):
                moves = []
                live = []
                sizes = []
                for _ in range(rng.randrange(3, 40)):
                    verb = rng.choice(["start", "next", "next", "next", "next", "drop",
                                       "drain"])
                    if verb == "start" or not live:
                        use = rng.randrange(len(alone.uses))
                        moves.append(["start", use])
                        live.append(len(sizes))
                        sizes.append(len(alone.results[use]))
                    elif verb == "next":
                        slot = rng.choice(live)
                        far = rng.randrange(1, max(2, sizes[slot]))
                        moves.append(["next", slot, rng.choice([1, 1, 1, 2, 7, far])])
                    else:
                        slot = rng.choice(live)
                        live.remove(slot)
                        moves.append([verb, slot])
                case = {"subject": label, "debug": debug, "moves": moves}
                if rng.random() < 0.4 and "thirdparty" not in subject.tags:
                    number = rng.randrange(alone.opening + 1)
                    if rng.random() < 0.9:
                        number = alone.opening + rng.randrange(
                            max(2, (alone.steps - alone.opening) * rng.choice([1, 1, 3])))
                    case["fault"] = [rng.choice(self.fault_kinds), number,
                                     rng.choice([0, 0, 500])]
                result.append(case)
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        label, debug = case["subject"], case["debug"]
        subject, (open_reader, _) = readers()[label]
        alone = _USES[(label, debug)]
        world_module.install()
        faults = []
        if case.get("fault"):
            kind, number, arg = case["fault"]
            # A directory that cannot be looked at counts as absent: not of this property.
            faults.append({"op": "any", "files": True, "nth": number, "kind": kind,
                           "arg": arg})
        world = world_module.World(
            {f"{subject.root}/{name}": data for name, data in subject.files.items()},
            faults=faults, budget=alone.steps * 60 + 100000)
        world.trace_on = False
        context = session.Context(world, subject.root, debug=debug)
        slots = []
        handed_out = []
        history = []
        violation = None
        overlap = repeated = False
        world_module.set_world(world)
        try:
            try:
                reader = open_reader(context)
            except (OSError, KeyboardInterrupt, MemoryError):
                reader = None
            except Exception as exception:  # pylint: disable=broad-except
                if not common.ok_error(exception) or not world.fired:
                    raise
                reader = None
            if reader is not None:
                try:
                    for move in case["moves"]:
                        violation = self._move(
                            reader, alone, move, slots, handed_out, history, world)
                        if violation:
                            break
                        live = [slot for slot in slots if slot["state"] == "live"
                                and slot["given"]]
                        overlap = overlap or len(live) > 1
                    uses = [slot["use"] for slot in slots]
                    repeated = len(set(uses)) < len(uses)
                    if not violation:
                        for slot, position, value, text in handed_out:
                            if observed(value) != text:
                                violation = (
                                    f"changed afterwards: {alone.uses[slot['use']]} result "
                                    f"{position}: was {text[:200]} is "
                                    f"{observed(value)[:200]}")
                                break
                finally:
                    slots_left = [slot.pop("iterator", None) for slot in slots]
                    del slots_left
                    reader.Close()
        finally:
            world_module.set_world(None)
        if violation:
            violation = f"{label}{' (tracing)' if debug else ''}: {violation}"
        counters = {"ops": world.steps, "uses": len(slots), "moves": len(history)}
        for fired in world.fired:
            counters[f"fault:{fired[0]}"] = counters.get(f"fault:{fired[0]}", 0) + 1
        return engine.Verdict(
            violation=violation, key=(label, (violation or "")[:80]), counters=counters,
            steps=world.steps, nontrivial=overlap or repeated,
            digest=engine.digest_of(label, debug, history, world.fired, world.steps))

    def _move(self, reader, alone, move, slots, handed_out, history, world):
        verb = move[0]
        if verb == "start":
            slot = {"use": move[1] % len(alone.uses), "given": 0, "state": "live"}
            slots.append(slot)
            return self._advance(reader, alone, slot, 0, handed_out, history, world, True)
        if move[1] >= len(slots):
            return None
        slot = slots[move[1]]
        if slot["state"] != "live":
            return None
        if verb == "drop":
            slot["state"] = "dropped"
            slot.pop("iterator", None)
            history.append(("drop", move[1]))
            return None
        count = move[2] if verb == "next" else 1 << 30
        return self._advance(reader, alone, slot, count, handed_out, history, world, False)

    def _advance(self, reader, alone, slot, count, handed_out, history, world, first):
        wanted = alone.results[slot["use"]]
        use = alone.uses[slot["use"]]
        fired = len(world.fired)
        try:
            if first:
                slot["iterator"] = start(reader, use)
            while count:
                count -= 1
                value = next(slot["iterator"])
                if slot["given"] >= len(wanted):
                    return (f"invented: {use} gives more than {len(wanted)} results: "
                            f"{observed(value)[:300]}")
                text = observed(value)
                history.append((slot["use"], slot["given"], text))
                if text != wanted[slot["given"]]:
                    return (f"different: {use} result {slot['given']}: got {text[:300]} "
                            f"expected {wanted[slot['given']][:300]}")
                if len(handed_out) < 200:
                    handed_out.append((slot, slot["given"], value, text))
                slot["given"] += 1
        except StopIteration:
            slot["state"] = "done"
            history.append((slot["use"], "end"))
            if slot["given"] != len(wanted):
                return (f"lost: {use} ends after {slot['given']} of {len(wanted)} results: "
                        f"expected {wanted[slot['given']][:300]}")
        except (world_module.HarnessError, world_module.HangError):
            raise
        except BaseException as exception:  # pylint: disable=broad-except
            slot["state"] = "failed"
            history.append((slot["use"], type(exception).__name__))
            allowed = len(world.fired) > fired and (
                common.ok_error(exception)
                or isinstance(exception, (KeyboardInterrupt, MemoryError)))
            if not allowed:
                return (f"failed: {use} after {slot['given']} of {len(wanted)} results: "
                        f"{type(exception).__name__}: {str(exception)[:300]}")
        return None

    def shrink(self, case):
        if case.get("fault"):
            yield {key: value for key, value in case.items() if key != "fault"}
        moves = case["moves"]
        starts = [index for index, move in enumerate(moves) if move[0] == "start"]
        # Without one use, or one move.
        for number, index in enumerate(starts):
            trial = []
            for position, move in enumerate(moves):
                if position == index:
                    continue
                if move[0] != "start":
                    if move[1] == number:
                        continue
                    if move[1] > number:
                        move = [move[0], move[1] - 1] + move[2:]
                trial.append(move)
            yield dict(case, moves=trial)
        for index, move in enumerate(moves):
            if move[0] != "start":
                yield dict(case, moves=moves[:index] + moves[index + 1 :])
            if move[0] == "next" and move[2] > 1:
                yield dict(case, moves=moves[:index] + [[move[0], move[1], 1]]
                           + moves[index + 1 :])
        if case["debug"]:
            yield dict(case, debug=False)


PROP = Property()
