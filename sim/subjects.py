"""The readers of dtformats as simulation subjects.

A subject is a set of files on the virtual disk plus a session: the sequence
of public calls a client makes. Sessions only use the public interface.
"""

import os
import struct

SAMPLES = "/repo/test_data"


def sample(*names):
    with open(os.path.join(SAMPLES, *names), "rb") as file_object:
        return file_object.read()


class Subject:
    """One reader with one input."""

    def __init__(self, name, files, session, root=None, weight=1, tags=()):
        self.name = name
        self.files = files
        self.session = session
        self.root = root or "/simfs/evidence"
        self.weight = weight
        self.tags = frozenset(tags)
        self.product = None
        self.producer = None


def simple(module_name, class_name, filename, after=None, **kwargs):
    """Open, report public state, Close."""

    def session(context):
        module = __import__(f"dtformats.{module_name}", fromlist=["x"])
        reader = context.make(getattr(module, class_name), **kwargs)
        reader.Open(context.path(filename))
        try:
            if after:
                after(context, reader)
        finally:
            reader.Close()

    return session


def _entries_cpio(context, reader):
    for entry in reader.GetFileEntries():
        context.emit("entry", entry)
        data = []
        while True:
            part = entry.read(200)
            context.step()
            if not part:
                break
            data.append(part)
        data = b"".join(data)
        if len(data) != entry.data_size:
            raise OSError("member data incomplete")
        context.emit("data", data)


def _jump_list(context, reader):
    for entry in reader.GetJumpListEntries():
        lnk = entry.lnk_file
        context.emit(
            "entry", entry.identifier, lnk.get_file_size(),
            lnk.get_local_path(), lnk.get_command_line_arguments(),
            lnk.get_description(), lnk.get_file_creation_time_as_integer(),
        )


def _records(method):
    def after(context, reader):
        for record in getattr(reader, method)():
            context.emit("record", record)
    return after


def _attributes(*names):
    def after(context, reader):
        for name in names:
            context.emit(name, getattr(reader, name))
    return after


def _keychain(context, reader):
    for table in reader.tables:
        context.emit("table", table)


def _index_file(context, reader):
    context.emit("head", reader.creation_time)
    for key, value in reader.index_table.items():
        context.emit("slot", key, value)


def _chrome_blocks(context, reader):
    context.emit("block", reader.block_size, reader.number_of_blocks
                 if hasattr(reader, "number_of_blocks") else None)


def _job(context, reader):
    context.emit("task", reader.GetWindowsTaskConfiguration())


def _mapping(context, reader):
    from dtformats import errors
    context.emit("head", reader.format_version, reader.sequence_number)
    for table in (reader.GetIndexMappingTable(), reader.GetObjectsMappingTable()):
        numbers = []
        index = 0
        while index < 100000:
            try:
                numbers.append(table.ResolveMappedPageNumber(index))
            except (IndexError, errors.ParseError):
                # Past the last one.
                break
            index += 1
        context.emit("table", numbers)


def _btree(pages):
    def after(context, reader):
        for page_number in pages:
            context.emit("page", page_number, reader.GetPage(page_number))
    return after


def _dsc(context, reader):
    context.emit("uuids", reader.uuids)
    context.emit("ranges", reader.ranges)
    for dsc_range in list(reader.ranges)[:3]:
        for is_dynamic in (False, True):
            offset = dsc_range.text_offset if is_dynamic else dsc_range.range_offset
            context.emit("image", reader.GetImageValues(offset, is_dynamic))


def _uuidtext(context, reader):
    context.emit("path", reader.GetImagePath())
    for reference in (0, 1, 5, 100, 1000, 5000, 1 << 30):
        context.emit("string", reference, reader.GetString(reference))


def _trim_emf(data):
    """Keeps at most two records of each type (the header and end of file too)."""
    result = []
    seen = {}
    offset = 0
    while offset + 8 <= len(data):
        kind, size = struct.unpack_from("<II", data, offset)
        seen[kind] = seen.get(kind, 0) + 1
        if seen[kind] <= 2:
            result.append(data[offset : offset + size])
        offset += size
    return b"".join(result)


def _trim_timesync(data, limit=24):
    """Keeps the first records."""
    offset = 0
    while offset + 4 <= len(data) and limit:
        offset += 48 if data[offset : offset + 2] == b"\xb0\xbb" else 32
        limit -= 1
    return data[:offset]


STREAMS = frozenset([
    "asl", "bsm_apple", "bsm_open", "cpio_bin", "cpio_crc", "cpio_newc", "cpio_odc",
    "fsevents_1", "fsevents_2", "firefox_block", "firefox_block_1", "emf", "wmf",
    "recycler", "tzif", "rp_log", "gzip", "utmp", "utmpx", "aul_timesync", "aul_trace",
    "cim_mapping1", "cim_btree",
])

# Readers that are asked for parts by number: a part that does not exist is None.
LOOKUPS = frozenset(["cim_mapping1", "cim_btree"])


# Readers that read data only to show it when tracing.
TRACED = frozenset([
    "cpio_bin", "cpio_crc", "cpio_newc", "cpio_odc", "emf", "wmf", "cim_btree",
])


def sample_subjects():
    """Subjects made from the sample files of the repository."""
    result = []

    def add(name, module_name, class_name, path, after=None, tags=(), trim=None,
            **kwargs):
        filename = os.path.basename(path)
        data = sample(path)
        if trim:
            data = trim(data)
        result.append(
            Subject(name, {filename: data},
                    simple(module_name, class_name, filename, after, **kwargs),
                    tags=tags)
        )

    add("alias", "alias_data", "MacOSLoginItemAliasData",
        "com.apple.loginitems.plist.alias_data")
    add("asl", "asl", "AppleSystemLogFile", "applesystemlog.asl")
    add("bookmark", "bookmark_data", "MacOSBackgroundItemBookmarkData",
        "backgrounditems.btm.bookmark_data")
    add("bsm_apple", "bsm", "BSMEventAuditingFile", "apple.bsm")
    add("bsm_open", "bsm", "BSMEventAuditingFile", "openbsm.bsm")
    for kind in ("bin", "crc", "newc", "odc"):
        add("cpio_" + kind, "cpio", "CPIOArchiveFile", f"cpio/syslog.{kind}.cpio",
            _entries_cpio)
    add("cups", "cups_ipp", "CupsIppFile", "cups_ipp_2.0")
    add("firefox_map", "firefox_cache1", "CacheMapFile", "firefox_cache1/_CACHE_MAP_")
    add("firefox_block", "firefox_cache1", "CacheBlockFile",
        "firefox_cache1/_CACHE_002_")
    add("firefox_block_1", "firefox_cache1", "CacheBlockFile",
        "firefox_cache1/_CACHE_001_")
    add("fsevents_1", "fseventsd", "FseventsFile", "fsevents-00000000001a0b79",
        tags=("thirdparty",))
    add("fsevents_2", "fseventsd", "FseventsFile", "fsevents-0000000002d89b58",
        tags=("thirdparty",))
    add("emf", "wemf", "EMFFile", "Memo.emf", trim=_trim_emf)
    add("wmf", "wemf", "WMFFile", "grid.wmf")
    add("recycler", "recycler", "RecyclerInfo2File", "INFO2")
    add("recycle_v1", "recycle_bin", "RecycleBinMetadataFile", "$II3DF3L.zip",
        _attributes("deletion_time", "format_version", "original_filename",
                    "original_file_size"))
    add("recycle_v2", "recycle_bin", "RecycleBinMetadataFile", "$I103S5F.jpg",
        _attributes("deletion_time", "format_version", "original_filename",
                    "original_file_size"))
    add("auto_dest", "jump_list", "AutomaticDestinationsFile",
        "9d1f905ce5044aee.automaticDestinations-ms", _jump_list, tags=("thirdparty",))
    add("auto_dest_2", "jump_list", "AutomaticDestinationsFile",
        "1b4dd67f29cb1962.automaticDestinations-ms", _jump_list, tags=("thirdparty",))
    add("custom_dest", "jump_list", "CustomDestinationsFile",
        "5afe4de1b92fc382.customDestinations-ms", _jump_list, tags=("thirdparty",))
    add("tzif", "tzif", "TimeZoneInformationFile", "localtime.tzif")
    add("keychain", "keychain", "KeychainDatabaseFile", "login.keychain", _keychain)
    add("rp_log", "rp_log", "RestorePointLogFile", "rp.log")
    add("rp_change", "rp_change_log", "RestorePointChangeLogFile", "change.log.1")
    add("cookies", "safari_cookies", "BinaryCookiesFile", "Cookies.binarycookies")
    add("gzip", "gzipfile", "GZipFile", "syslog.gz")
    add("utmp", "utmp", "LinuxLibc6UtmpFile", "utmp-linux_libc6")
    add("utmpx", "utmp", "MacOSXUtmpxFile", "utmpx-macosx10.5")
    add("job", "job", "WindowsTaskSchedulerJobFile", "wintask.job", _job)
    add("chrome_index", "chrome_cache", "IndexFile", "chrome_cache/index", _index_file)
    add("chrome_data_0", "chrome_cache", "DataBlockFile", "chrome_cache/data_0",
        _chrome_blocks)
    add("cim_map_index", "wmi_repository", "MappingFile", "cim/INDEX.MAP", _mapping)
    add("cim_map_objects", "wmi_repository", "MappingFile", "cim/OBJECTS.MAP", _mapping)
    add("cim_mapping1", "wmi_repository", "MappingFile", "cim/MAPPING1.MAP", _mapping)
    add("cim_btree", "wmi_repository", "IndexBinaryTreeFile", "cim/INDEX.BTR",
        _btree((0, 3, 9, 21)), trim=lambda data: data[:8192 * 24])
    add("aul_timesync", "unified_logging", "TimesyncDatabaseFile",
        "unified_logging/timesync/0000000000000002.timesync", _records("ReadRecords"),
        trim=_trim_timesync)
    add("aul_uuidtext", "unified_logging", "UUIDTextFile",
        "unified_logging/uuidtext/00/7EF56328D53A78B59CCCE3E3189F57", _uuidtext)
    add("amcache", "amcache", "WindowsAMCacheFile", "Amcache.hve", tags=("thirdparty",))

    tree = {}
    base = os.path.join(SAMPLES, "unified_logging")
    for directory, _, names in os.walk(base):
        for name in names:
            full = os.path.join(directory, name)
            if os.path.getsize(full) > 200000:
                continue
            data = sample(full)
            if name.endswith(".timesync"):
                data = _trim_timesync(data)
            tree["diagnostics/" + os.path.relpath(full, base)] = data
    trace = {}
    for name, data in tree.items():
        if name.endswith(".tracev3"):
            name = name.replace("diagnostics/", "diagnostics/Persist/")
        trace[name] = data

    def trace_session(context):
        from dtformats import unified_logging
        reader = context.make(unified_logging.TraceV3File)
        reader.Open(context.path("diagnostics", "Persist", "0000000000000030.tracev3"))
        try:
            for entry in reader.ReadLogEntries():
                context.emit("entry", entry)
        finally:
            reader.Close()

    result.append(Subject("aul_trace", trace, trace_session))

    # Streams of records: what is left of a file that lost its tail is a
    # shorter, valid file when the cut is between two records.
    for subject in result:
        if subject.name in STREAMS:
            subject.tags |= {"stream"}
        if subject.name == "rp_log":
            subject.tags |= {"notext"}
        if subject.name in TRACED:
            subject.tags |= {"traced"}
        if subject.name in LOOKUPS:
            subject.tags |= {"lookup"}
    return result
