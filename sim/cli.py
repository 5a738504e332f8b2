"""The command line tools as simulation subjects.

A tool runs as shipped: its script is executed with its arguments, on the
simulated disk, with what it prints captured. Next to every tool stands a
reference that uses the reader the way a client does, and states on its own
what the tool has to print.
"""

import bz2
import copy
import gzip
import hashlib
import json
import logging
import lzma
import os
import sys

from sim import session as session_module
from sim.producers import base

SCRIPTS = "/repo/scripts"

# Tools that first look at the file to determine its format.
LOOKING = frozenset(["unified_logging", "utmp", "wemf", "leveldb", "jump_list"])

_CODE = {}


class ToolFailed(OSError):
    """The tool ended with an exit code other than 0."""


def preload():
    for name in sorted({tool.script for tool in TOOLS}):
        code(name)


def code(script):
    if script not in _CODE:
        path = os.path.join(SCRIPTS, script + ".py")
        with open(path, "rb") as file_object:
            _CODE[script] = compile(file_object.read(), path, "exec")
    return _CODE[script]


def run_tool(context, script, arguments):
    """Runs a tool as a process would, in this one."""
    argv = sys.argv
    sys.argv = [os.path.join(SCRIPTS, script + ".py")] + list(arguments)
    context.capture = True
    try:
        exec(code(script), {"__name__": "__main__", "__file__": sys.argv[0]})
        status = 0
    except SystemExit as exception:
        status = exception.code or 0
    finally:
        context.capture = False
        sys.argv = argv
        for handler in list(logging.root.handlers):
            logging.root.removeHandler(handler)
    if status:
        raise ToolFailed(f"exit status {status!s}")


class Tool:
    """A use of a command line tool.

    subjects: the subjects (names without instance) it is used on; reference:
    function(context, path) that writes what has to be printed, or None.
    """

    def __init__(self, name, script, subjects, arguments=(), reference=None, main=None,
                 directory=False, compare=None, signatures=()):
        self.name = name
        self.script = script
        self.subjects = subjects
        self.arguments = arguments
        self.reference = reference
        self.main = main
        self.directory = directory
        self.compare = compare
        self.signatures = signatures

    def fits(self, subject):
        """Whether there is such a file and the tool can tell what it is."""
        if self.main and not any(self.main in name for name in subject.files):
            return False
        if not self.signatures:
            return True
        name = self.path(subject)[len(subject.root) + 1:]
        return subject.files[name][:4] in self.signatures

    def path(self, subject):
        name = subject.product.main if subject.product else None
        if self.main:
            name = [item for item in sorted(subject.files) if self.main in item][0]
        if name is None:
            names = sorted(subject.files)
            name = ([item for item in names if item.endswith(".tracev3")] or names)[0]
        if self.directory:
            name = name.rpartition("/")[0]
        return f"{subject.root}/{name}" if name else subject.root

    def session(self, subject, extra=()):
        """The session of a client that starts the tool."""
        def run(context):
            arguments = list(self.arguments) + list(extra)
            if context.debug:
                arguments.append("-d")
            run_tool(context, self.script, arguments + [self.path(subject)])
        result = copy.copy(subject)
        result.session = run
        return result

    def expected(self, subject, extra=()):
        """The session of the reference."""
        def run(context):
            self.reference(context, self.path(subject), *extra)
        result = copy.copy(subject)
        result.session = run
        return result


def reader(context, module_name, class_name, path, *arguments, **kwargs):
    module = __import__(f"dtformats.{module_name}", fromlist=["x"])
    result = getattr(module, class_name)(
        *arguments, debug=context.debug, output_writer=context.writer, **kwargs)
    result.Open(path)
    return result


def opened(module_name, class_name):
    """The reference of a tool that only shows the trace of its reader."""
    def reference(context, path):
        reader(context, module_name, class_name, path).Close()
    return reference


def starts(text, expected):
    """The trace is printed in full, the rest is a heading."""
    if not text.startswith(expected):
        return "trace"
    if len(text) > len(expected) + 200 or "\n" in text[len(expected):].strip():
        return "more than the trace and a heading"
    return None


def usn(context, path):
    journal = reader(context, "usn_journal", "USNRecords", path)
    write = context.writer.WriteText
    write("USN journal records information:\n"
          "Date and time,Name,File reference,Parent file reference\n")
    for record in journal.ReadRecords():
        references = [
            f"{value & 0xFFFFFFFFFFFF}-{value >> 48}"
            for value in (record.file_reference, record.parent_file_reference)]
        write(",".join(
            [base.filetime(record.timestamp), record.name] + references) + "\n")
    journal.Close()


def recycle_bin(context, path):
    metadata = reader(context, "recycle_bin", "RecycleBinMetadataFile", path)
    time = {0: "Not set", 0x7FFFFFFFFFFFFFFF: "Never"}.get(
        metadata.deletion_time, base.filetime(metadata.deletion_time))
    context.writer.WriteText(
        "Recycle.Bin metadata ($I) file information:\n"
        f"\tFormat version\t\t: {metadata.format_version}\n"
        f"\tDeletion time\t\t: {time}\n"
        f"\tOriginal filename\t: {metadata.original_filename}\n"
        f"\tOriginal file size\t: {metadata.original_file_size}\n\n")
    metadata.Close()


def change_log(context, path):
    log = reader(context, "rp_change_log", "RestorePointChangeLogFile", path)
    write = context.writer.WriteText
    write("Windows Restore Point change.log information:\n"
          f"Volume path:\t{log.volume_path}\n\n")
    for entry in log.entries:
        types = [text for flag, text in log.LOG_ENTRY_TYPES.items()
                 if entry.entry_type & flag]
        flags = [text for flag, text in log.LOG_ENTRY_FLAGS.items()
                 if entry.entry_flags & flag]
        write(f"Entry type:\t\t{', '.join(types)}\nEntry flags:\t\t{', '.join(flags)}\n"
              f"Sequence number:\t{entry.sequence_number}\n"
              f"Process name:\t\t{entry.process_name}\n\n")
    log.Close()


def job(context, path):
    task_file = reader(context, "job", "WindowsTaskSchedulerJobFile", path)
    task = task_file.GetWindowsTaskConfiguration()
    context.writer.WriteText(
        "Windows Task Scheduler job information:\n"
        f"\tIdentifier\t\t: {task.identifier}\n"
        f"\tApplication name\t: {task.application_name}\n"
        f"\tParameters\t\t: {task.parameters}\n\tAuthor\t\t\t: {task.author}\n"
        f"\tComment\t\t\t: {task.comment}\n\n")
    task_file.Close()


_KEYCHAIN_TYPES = (
    "String with size", "Integer 32-bit signed", "Integer 32-bit unsigned",
    "CSSM_DB_ATTRIBUTE_FORMAT_BIG_NUM", "Floating-point 64-bit", "Date and time",
    "Binary data", "CSSM_DB_ATTRIBUTE_FORMAT_MULTI_UINT32",
    "CSSM_DB_ATTRIBUTE_FORMAT_COMPLEX",
)


def keychain_schema(context, path):
    keychain = reader(context, "keychain", "KeychainDatabaseFile", path)
    lines = ["Keychain database file schema:"]
    for table in keychain.tables:
        count = len(table.columns)
        lines += [f"Table: {table.relation_name} (0x{table.relation_identifier:08x})",
                  f"\tNumber of columns:\t{count}",
                  "\tColumn\tIdentifier\tName\tType"]
        for index, column in enumerate(table.columns):
            number = column.attribute_identifier
            kind = column.attribute_data_type
            lines.append("\t" + "\t".join([
                str(index), "" if number >= count else str(number),
                column.attribute_name or "NULL",
                _KEYCHAIN_TYPES[kind] if kind < len(_KEYCHAIN_TYPES) else f"0x{kind:08x}",
            ]))
        lines.append("")
    context.writer.WriteText("\n".join(lines) + "\n\n")
    keychain.Close()


def keychain_content(context, path):
    keychain = reader(context, "keychain", "KeychainDatabaseFile", path)
    for table in keychain.tables:
        rows = [[column.attribute_name or "NULL" for column in table.columns]]
        rows += [["NULL" if value is None else str(value) for value in record.values()]
                 for record in table.records]
        context.writer.WriteText(
            f"Table: {table.relation_name} (0x{table.relation_identifier:08x})\n"
            + "".join("\t".join(row) + "\n" for row in rows) + "\n")
    keychain.Close()


def cpio_information(context, path):
    archive = reader(context, "cpio", "CPIOArchiveFile", path)
    context.writer.WriteText(
        f"CPIO archive information:\n\tFormat\t\t: {archive.file_format}\n"
        f"\tSize\t\t: {archive.size} bytes\n\n")
    archive.Close()


def cpio_hash(context, path):
    # Every archive in the file; the next one is at a multiple of 16 bytes.
    write = context.writer.WriteText
    parts = sorted(name for name in os.listdir(context.root) if name.startswith("part"))
    rest = ""
    for part in parts or [path]:
        archive = reader(context, "cpio", "CPIOArchiveFile", os.path.join(
            context.root, part))
        context.writer.parts = [
            text for text in context.writer.parts if text.startswith("\x00")]
        lines = []
        for entry in archive.GetFileEntries():
            if entry.data_size:
                data = entry.read()
                if len(data) != entry.data_size:
                    raise OSError("incomplete")
                lines.append((entry.path, hashlib.sha256(data).hexdigest()))
        lines.sort(key=lambda line: line[0])
        write("\x00" + "".join(f"{digest}\t{name}\n" for name, digest in lines))
        if not parts:
            with open(path, "rb") as file_object:
                size = len(file_object.read())
            end = -(-archive.size // 16) * 16
            if end < size:
                rest = f"Unsupported file type at offset: 0x{end:08x}.\n"
        archive.Close()
    context.writer.parts = [text[1:] for text in context.writer.parts]
    write(rest + "\n")


def join_archives(rng, subjects, archive_size):
    """One file of a number of archives, the last of which can be compressed."""
    files = {}
    data = b""
    for index, subject in enumerate(subjects):
        part = subject.files[subject.product.main]
        files[f"part{index}"] = part
        last = index == len(subjects) - 1
        compress = rng.choice([None, gzip.compress, bz2.compress, lzma.compress])
        data += bytes(-len(data) % 16)
        if last and (compress or len(subjects) == 1):
            data += (compress or gzip.compress)(part)
        else:
            data += part[:archive_size(part)]
    files[subjects[0].product.main] = data
    return files


_VALUE_TYPES = {0: "del", 1: "val"}


def leveldb_table(context, path):
    table = reader(context, "leveldb", "LevelDBDatabaseTableFile", path)
    write = context.writer.WriteText
    write("LevelDB database file information:\n")
    for entry in table.ReadTableEntries():
        kind = _VALUE_TYPES.get(entry.value_type, "UNKNOWN")
        write(f"{entry.key!r}"[1:]
              + f" @ {entry.sequence_number} : {kind} => " + f"{entry.value!r}"[1:] + "\n")
    write("\n")
    table.Close()


def indexeddb_table(context, path):
    table = reader(context, "indexeddb", "IndexedDBDatabaseTableFile", path)
    write = context.writer.WriteText
    write("IndexedDB database file information:\n")
    for entry in table.ReadEntries():
        kind = _VALUE_TYPES.get(entry.value_type, "UNKNOWN")
        write(f"<<{', '.join(entry.key_segments)}>> @ {entry.sequence_number} : {kind} => "
              + f"{entry.value!r}"[1:] + "\n")
    write("\n")
    table.Close()


def wmi_index(context, path):
    repository = reader(context, "wmi_repository", "CIMRepository", path)
    for key in repository.GetIndexKeys():
        context.writer.WriteText(key + "\n")
    repository.Close()


def wmi_instances(context, path):
    repository = reader(context, "wmi_repository", "CIMRepository", path)
    for instance in repository.GetInstances():
        name = instance.properties.get("Name")
        relative = (f'{instance.class_name}.Name="{name}"' if name
                    else f"{instance.class_name}=@")
        namespace = instance.namespace or "ROOT"
        pairs = [
            ("__GENUS", "2"), ("__CLASS", instance.class_name),
            ("__SUPERCLASS", instance.super_class_name or ""),
            ("__DYNASTY", instance.dynasty or ""), ("__RELPATH", relative),
            ("__PROPERTY_COUNT", str(len(instance.properties))),
            ("__DERIVATION", "{" + ", ".join(instance.derivation) + "}"),
            ("__SERVER", "."), ("__NAMESPACE", namespace),
            ("__PATH", f"\\\\.\\{namespace}:{relative}"),
        ] + [(key, "" if value is None else str(value))
             for key, value in sorted(instance.properties.items())]
        width = max(len(key) for key, _ in pairs)
        context.writer.WriteText(
            "".join(f"{key.ljust(width)} : {value}\n" for key, value in pairs) + "\n")
    repository.Close()


def wmi_namespaces(context, path):
    repository = reader(context, "wmi_repository", "CIMRepository", path)
    for name in sorted(instance.namespace for instance in repository.GetNamespaces()):
        context.writer.WriteText((name or "") + "\n")
    repository.Close()


def _table(rows):
    """Columns that start at a multiple of 8 characters."""
    widths = [-(-max(len(row[index]) for row in rows) // 8) * 8
              for index in range(len(rows[0]))]
    lines = []
    for row in rows:
        line = ""
        for index, value in enumerate(row):
            line += value
            if index < len(row) - 1:
                line += "\t" * -(-(widths[index] - len(value)) // 8)
        lines.append(line + "\n")
    return "".join(lines) + "\n"


def spotlight(context, path):
    store = reader(context, "spotlight_storedb", "SpotlightStoreDatabaseFile", path)
    version = properties = ""
    item = store.GetMetadataItemByIdentifier(1)
    if item:
        attribute = item.attributes.get("kMDStoreProperties")
        if attribute:
            properties = attribute.value.decode("utf-8")
        attribute = item.attributes.get("_kStoreMetadataVersion")
        if attribute:
            version = f"{attribute.value >> 16}.{attribute.value & 0xFFFF}"
    write = context.writer.WriteText
    write("Apple Spotlight database information:\n" + _table([
        ["Metadata version:", version],
        ["Number of metadata items:", str(store.number_of_metadata_items)]]))
    if properties:
        write(f"Properties:\n{properties}\n")
    store.Close()


_SPOTLIGHT_NAMES = (
    ("_kMDItemDisplayNameWithExtensions", ""), ("kMDItemContentCreationDate", ""),
    ("kMDItemContentCreationDate_Ranking", ""), ("kMDItemContentModificationDate", ""),
    ("kMDItemContentModificationDate_Ranking", ""), ("kMDItemContentType", ""),
    ("kMDItemContentTypeTree", ""), ("kMDItemDateAdded", ""),
    ("kMDItemDateAdded_Ranking", ""), ("kMDItemDisplayName", ""),
    ("kMDItemDocumentIdentifier", ""),
    ("kMDItemFSContentChangeDate", "_kMDItemContentChangeDate"),
    ("kMDItemFSCreationDate", "_kMDItemCreationDate"),
    ("kMDItemFSCreatorCode", "_kMDItemCreatorCode"),
    ("kMDItemFSFinderFlags", "_kMDItemFinderFlags"), ("kMDItemFSHasCustomIcon", ""),
    ("kMDItemFSInvisible", ""),
    ("kMDItemFSIsExtensionHidden", "_kMDItemIsExtensionHidden"),
    ("kMDItemFSIsStationery", ""), ("kMDItemFSLabel", "_kMDItemFinderLabel"),
    ("kMDItemFSName", "_kMDItemFileName"), ("kMDItemFSNodeCount", "_kMDItemNodeCount"),
    ("kMDItemFSOwnerGroupID", "_kMDItemOwnerGroupID"),
    ("kMDItemFSOwnerUserID", "_kMDItemOwnerUserID"), ("kMDItemFSSize", ""),
    ("kMDItemFSTypeCode", ""), ("kMDItemInterestingDate_Ranking", ""),
    ("kMDItemKind", ""), ("kMDItemLogicalSize", ""), ("kMDItemPhysicalSize", ""),
)


def spotlight_item(context, path, option, identifier):
    store = reader(context, "spotlight_storedb", "SpotlightStoreDatabaseFile", path)
    item = store.GetMetadataItemByIdentifier(int(identifier))
    if not item:
        context.writer.WriteText(f"No such metadata item: {identifier}\n")
    else:
        rows = []
        for name, stored in _SPOTLIGHT_NAMES:
            attribute = item.attributes.get(stored or name)
            if not attribute:
                value = "(null)"
            elif attribute.value_type == 0x0B:
                value = f'"{attribute.value}"'
            elif attribute.value_type == 0x0C:
                value = base.date(
                    int(attribute.value // 1) + 978307200,
                    int((attribute.value % 1) * 1000000), 6)[:-3]
            else:
                value = str(attribute.value)
            rows.append([name, "= " + value])
        context.writer.WriteText(_table(rows))
    store.Close()


HEADING = "Apple Unified Logging and Activity Tracing information:\n"


def _time(timestamp):
    return base.date(
        timestamp // 1000000000, timestamp % 1000000000 // 1000, 6)[:-4] + "+0000"


def log_text(entry):
    parts = []
    for path, form in ((entry.process_image_path, "{}:"), (entry.sender_image_path, "({})")):
        if path:
            parts.append(form.format(path[path.rfind("/") + 1:]))
    if entry.sub_system and entry.category:
        parts.append(f"[{entry.sub_system}:{entry.category}]")
    parts.append(entry.event_message)
    return "\t".join([
        _time(entry.timestamp), "0x" + f"{entry.thread_identifier or 0:x}".ljust(8),
        (entry.event_type or "").ljust(11),
        "0x" + f"{entry.activity_identifier or 0:x}".ljust(18),
        str(entry.process_identifier or 0).ljust(6), str(entry.ttl or 0).ljust(4),
        " ".join(parts)]) + "\n"


def _upper(identifier):
    return str(identifier).upper() if identifier else ""


def log_json(entry, parents):
    """What the tool has to say of an entry, and the parents known afterwards."""
    kind = entry.event_type or ""
    message = (entry.event_message or "").rstrip()
    if len(message) >= 1085:
        message = message[:1087] + "<…>"
    result = {
        "bootUUID": str(entry.boot_identifier).upper(), "category": entry.category or "",
        "eventType": kind, "threadID": entry.thread_identifier or 0,
        "timestamp": _time(entry.timestamp),
        "activityIdentifier": entry.activity_identifier or 0,
        "senderProgramCounter": entry.sender_program_counter or 0,
        "machTimestamp": entry.mach_timestamp, "processID": entry.process_identifier or 0,
        "subsystem": entry.sub_system or "", "timezoneName": "",
        "traceID": entry.trace_identifier, "eventMessage": message,
        "formatString": ("" if kind in ("activityCreateEvent", "userActionEvent")
                         else entry.format_string or ""),
        "processImagePath": entry.process_image_path or "",
        "processImageUUID": _upper(entry.process_image_identifier),
        "senderImagePath": entry.sender_image_path or "",
        "senderImageUUID": _upper(entry.sender_image_identifier),
    }
    if kind == "timesyncEvent":
        result["parentActivityIdentifier"] = 0
        return result
    creator = entry.creator_activity_identifier
    number = entry.activity_identifier or 0
    if creator is not None:
        parents[number] = creator & 0x7FFFFFFFFFFFFFFF
        result["creatorActivityID"] = creator
    elif entry.loss_count is not None:
        result["lossStartMachContinuousTimestamp"] = entry.loss_start_mach_timestamp
        result["lossEndTimestamp"] = _time(entry.loss_end_timestamp)
        result["lossStartTimestamp"] = _time(entry.loss_start_timestamp)
    elif entry.signpost_identifier is not None:
        result["signpostName"] = entry.signpost_name or ""
    if entry.loss_count is not None:
        result.update(
            lossCount=entry.loss_count, lossCountSaturated=True,
            lossEndMachContinuousTimestamp=entry.loss_end_mach_timestamp)
    if entry.signpost_identifier is not None:
        result.update(
            signpostID=entry.signpost_identifier, signpostScope=entry.signpost_scope or "",
            signpostType=entry.signpost_type or "")
    if kind not in ("activityCreateEvent", "lossEvent", "userActionEvent"):
        result["source"] = None
    if kind not in ("activityCreateEvent", "lossEvent", "signpostEvent",
                    "userActionEvent"):
        result["messageType"] = entry.message_type or ""
    if entry.backtrace_frames:
        result["backtrace"] = {"frames": [
            {"imageOffset": frame.image_offset,
             "imageUUID": str(frame.image_identifier).upper()}
            for frame in entry.backtrace_frames]}
    parent = entry.parent_activity_identifier or parents.get(number) or 0
    result["parentActivityIdentifier"] = 0 if parent == creator else parent
    return result


def trace_entries(context, path):
    log = reader(context, "unified_logging", "TraceV3File", path)
    context.writer.WriteText(HEADING)
    context.entries = sorted(log.ReadLogEntries(), key=lambda entry: entry.timestamp)
    log.Close()


def _groups(entries):
    """Entries of the same time can be printed in any order."""
    groups = []
    for entry in entries:
        if not groups or groups[-1][0].timestamp != entry.timestamp:
            groups.append([])
        groups[-1].append(entry)
    return groups


def compare_trace_text(text, expected, context):
    """The entries are printed in order of time, each in full."""
    head = expected + ("Timestamp                       Thread     Type        "
                       "Activity             PID    TTL\n")
    if not text.startswith(head):
        return "heading"
    rest = text[len(head):]
    for group in _groups(context.entries):
        waiting = sorted((log_text(entry) for entry in group), key=len, reverse=True)
        while waiting:
            for line in waiting:
                if rest.startswith(line):
                    waiting.remove(line)
                    rest = rest[len(line):]
                    break
            else:
                return f"got {rest[:300]!r} expected {waiting[0][:300]!r}"
    return f"more than the log entries: {rest[:200]!r}" if rest else None


def compare_trace_json(text, expected, context):
    if not text.startswith(expected):
        return "heading"
    try:
        listed = json.loads(text[len(expected):])
    except ValueError as exception:
        return f"not JSON: {exception!s}"
    parents = {}
    index = 0
    for group in _groups(context.entries):
        waiting = list(group)
        while waiting:
            if index >= len(listed):
                return f"{len(listed)} of {len(context.entries)} entries"
            for entry in waiting:
                after = dict(parents)
                wanted = log_json(entry, after)
                if wanted == listed[index]:
                    parents = after
                    waiting.remove(entry)
                    index += 1
                    break
            else:
                wanted = log_json(waiting[0], dict(parents))
                got = listed[index]
                different = {
                    key: (got.get(key, "<none>"), wanted.get(key, "<none>"))
                    for key in sorted(set(got) | set(wanted))
                    if got.get(key, "<none>") != wanted.get(key, "<none>")}
                return f"entry {index}: (got, expected) {str(different)[:400]}"
    return None if index == len(listed) else "more than the log entries"


def dsc_listing(context, path):
    shared = reader(context, "unified_logging", "DSCFile", path)
    write = context.writer.WriteText
    write(HEADING)
    for index, item in enumerate(shared.uuids):
        write(f"uuid {index}:\n    uuid {index}:\t{str(item.image_identifier).upper()}\n"
              f"    dsc text:\t0x{item.text_offset:08x} .. "
              f"0x{item.text_offset + item.text_size:08x} ({item.text_size})\n"
              f"    path:\t{item.image_path}\n\n")
    for index, item in enumerate(shared.ranges):
        write(f"Range {index}:\n"
              f"    uuid {item.uuid_index}:\t{str(item.image_identifier).upper()}\n"
              f"    dsc range:\t0x{item.range_offset:08x} .. "
              f"0x{item.range_offset + item.range_size:08x} ({item.range_size})\n"
              f"    path:\t{item.image_path}\n\n")
    shared.Close()


def uuidtext(context, path):
    strings = reader(context, "unified_logging", "UUIDTextFile", path)
    context.writer.WriteText(HEADING)
    strings.Close()


def timesync(context, path):
    database = reader(context, "unified_logging", "TimesyncDatabaseFile", path)
    context.writer.WriteText(HEADING)
    for _ in database.ReadRecords():
        pass
    database.Close()


_TRACES = ("aul_trace", "aul_diagnostics", "aul_archive", "aul_live", "aul_many")
_GENERATED = ("aul_diagnostics", "aul_archive", "aul_live")
_WMI = ("wmi_20", "wmi_21", "wmi_22")


def streams(context, path):
    header = reader(context, "spotlight_storedb", "SpotlightStreamsMapHeaderFile", path)
    size, count = header.data_size, header.number_of_offsets
    header.Close()
    offsets = reader(context, "spotlight_storedb", "SpotlightStreamsMapOffsetsFile",
                     path[:-6] + "offsets", size, count)
    ranges = offsets.ranges
    offsets.Close()
    reader(context, "spotlight_storedb", "SpotlightStreamsMapDataFile", path[:-6] + "data",
           size, ranges).Close()


def chrome(context, path):
    from dtformats import chrome_cache
    context.capture = True
    try:
        chrome_cache.ChromeCacheParser(
            debug=context.debug, output_writer=context.writer).ParseDirectory(path)
    finally:
        context.capture = False


def jump_list(context, path):
    name = ("AutomaticDestinationsFile" if path.endswith("automaticDestinations-ms")
            else "CustomDestinationsFile")
    destinations = reader(context, "jump_list", name, path)
    context.entries = [
        (entry.lnk_file.data_flags, entry.lnk_file.number_of_data_blocks,
         entry.lnk_file.get_file_creation_time_as_integer(),
         entry.lnk_file.get_file_modification_time_as_integer(),
         entry.lnk_file.get_file_access_time_as_integer(),
         entry.lnk_file.file_size, entry.lnk_file.description or "",
         entry.lnk_file.working_directory or "")
        for entry in destinations.GetJumpListEntries()]
    destinations.Close()


def compare_jump_list(text, expected, context):
    """Every entry is printed, in order, with its times and strings."""
    if not text.startswith(expected):
        return "trace"
    head, *parts = text[len(expected):].split("Entry: ")
    if f": {len(context.entries)}\n" not in head or len(parts) != len(context.entries):
        return f"{len(parts)} of {len(context.entries)} entries"
    for index, (part, values) in enumerate(zip(parts, context.entries)):
        lines = {}
        for line in part.split("\n"):
            key, mark, value = line.partition(": ")
            if mark:
                lines.setdefault(key.strip(), value)
        wanted = dict(zip(
            ("Number of data blocks", "Creation time", "Modification time", "Accesss time",
             "File size", "Description", "Working directory"),
            (str(values[1]), base.filetime(values[2]), base.filetime(values[3]),
             base.filetime(values[4]), str(values[5]), values[6], values[7])))
        for key, value in wanted.items():
            if lines.get(key) != value:
                return f"entry {index}: {key}: got {lines.get(key)!r} expected {value!r}"
        if not part.startswith(f"{index + 1}\n"):
            return f"entry {index} has number {part[:10]!r}"
    return None


def _plain(script, module_name, class_name, *subjects):
    return Tool(script, script, subjects,
                reference=opened(module_name, class_name), compare=starts)


TOOLS = [
    Tool("usn_journal", "usn_journal", ("usn",), reference=usn),
    Tool("recycle_bin", "recycle_bin", ("recycle_v1", "recycle_v2", "recycle_bin_gen"),
         reference=recycle_bin),
    Tool("rp_change_log", "rp_change_log", ("rp_change", "change_log_gen"),
         reference=change_log),
    Tool("job", "job", ("job", "task_job"), reference=job),
    Tool("keychain schema", "keychain", ("keychain", "keychain_db"),
         reference=keychain_schema),
    Tool("keychain content", "keychain", ("keychain", "keychain_db"), ("--content",),
         reference=keychain_content),
    Tool("cpio", "cpio", ("cpio_bin", "cpio_crc", "cpio_newc", "cpio_odc", "cpio_archive"),
         reference=cpio_information),
    Tool("cpio hash", "cpio", ("cpio_bin", "cpio_crc", "cpio_newc", "cpio_odc",
                               "cpio_archive"), ("--hash",), reference=cpio_hash),
    Tool("leveldb", "leveldb", ("leveldb_table",), reference=leveldb_table),
    Tool("indexeddb", "indexeddb", ("indexeddb",), reference=indexeddb_table),
    Tool("wmi index", "wmi_repository", _WMI, ("--output-mode", "index"),
         reference=wmi_index, directory=True),
    Tool("wmi instances", "wmi_repository", _WMI, reference=wmi_instances,
         directory=True),
    Tool("wmi namespaces", "wmi_repository", _WMI, ("--output_mode=namespaces",),
         reference=wmi_namespaces, directory=True),
    Tool("spotlight", "spotlight_storedb", ("spotlight",), reference=spotlight),
    Tool("spotlight item", "spotlight_storedb", ("spotlight",),
         reference=spotlight_item),
    Tool("tracev3 text", "unified_logging", _TRACES, reference=trace_entries,
         compare=compare_trace_text),
    Tool("tracev3 json", "unified_logging", _TRACES, ("--format", "json"),
         reference=trace_entries, compare=compare_trace_json),
    Tool("dsc", "unified_logging", _GENERATED, reference=dsc_listing, main="/dsc/"),
    Tool("uuidtext", "unified_logging", _GENERATED, reference=uuidtext, main="/AA/"),
    Tool("timesync", "unified_logging", ("aul_diagnostics",), reference=timesync,
         main="timesync/", signatures=(b"\xb0\xbb\x30\x00", b"Ts\x20\x00")),
    Tool("streams", "spotlight_storedb", ("spotlight_streams",), reference=streams,
         main=".map.header"),
    Tool("chrome_cache", "chrome_cache", ("chrome_dir",), reference=chrome,
         directory=True),
    Tool("jump_list", "jump_list", ("auto_dest", "auto_dest_2", "custom_dest"),
         reference=jump_list, compare=compare_jump_list),
    Tool("timesync", "unified_logging", ("aul_timesync",), reference=timesync),
    Tool("uuidtext", "unified_logging", ("aul_uuidtext",), reference=uuidtext),
    _plain("alias_data", "alias_data", "MacOSLoginItemAliasData", "alias"),
    _plain("asl", "asl", "AppleSystemLogFile", "asl", "asl_log"),
    _plain("bookmark_data", "bookmark_data", "MacOSBackgroundItemBookmarkData",
           "bookmark"),
    _plain("bsm", "bsm", "BSMEventAuditingFile", "bsm_apple", "bsm_open", "bsm_gen"),
    _plain("cups_ipp", "cups_ipp", "CupsIppFile", "cups", "cups_gen"),
    _plain("detection_history", "detection_history",
           "WindowsDefenderScanDetectionHistoryFile", "detection_history"),
    _plain("firefox_cache1", "firefox_cache1", "CacheMapFile", "firefox_map",
           "firefox_map_gen"),
    _plain("firefox_cache1", "firefox_cache1", "CacheBlockFile", "firefox_block",
           "firefox_block_gen_1", "firefox_block_gen_2", "firefox_block_gen_3"),
    _plain("fseventsd", "fseventsd", "FseventsFile", "fsevents_1", "fsevents_2",
           "fsevents_gen"),
    _plain("gzipfile", "gzipfile", "GZipFile", "gzip", "gzip_members"),
    _plain("leveldb", "leveldb", "LevelDBDatabaseLogFile", "leveldb_log"),
    _plain("leveldb", "leveldb", "LevelDBDatabaseDescriptorFile", "leveldb_descriptor"),
    _plain("recycler", "recycler", "RecyclerInfo2File", "recycler", "recycler_gen"),
    _plain("rp_log", "rp_log", "RestorePointLogFile", "rp_log", "restore_point_log_gen"),
    _plain("safari_cookies", "safari_cookies", "BinaryCookiesFile", "cookies",
           "cookies_gen"),
    _plain("systemd", "systemd", "SystemdJournalFile", "systemd"),
    _plain("tzif", "tzif", "TimeZoneInformationFile", "tzif", "tzif_zone"),
    _plain("utmp", "utmp", "LinuxLibc6UtmpFile", "utmp", "utmp_gen"),
    _plain("utmp", "utmp", "MacOSXUtmpxFile", "utmpx", "utmpx_gen"),
    _plain("wemf", "wemf", "EMFFile", "emf"),
    _plain("wemf", "wemf", "WMFFile", "wmf"),
    _plain("amcache", "amcache", "WindowsAMCacheFile", "amcache"),
]
