"""Producers of record logs: USN journal, systemd journal, LevelDB."""

import struct
import uuid

import snappy
import zstd

from sim.producers.base import Producer, Product, dumps, fields, record, size_near, token


class UsnProducer(Producer):
    """USN change journal records."""

    name = "usn"
    tags = ("stream",)
    main = "usn"

    def make(self, rng):
        data = bytearray()
        expected, ends = [], []
        for number in range(rng.randrange(1, 150)):
            name = token(rng, rng.choice([1, 4, 9, 30, 100])) + rng.choice(
                ["", ".txt", "\u00e9\u4e16"])
            encoded = name.encode("utf-16-le")
            size = (60 + len(encoded) + 7) // 8 * 8
            left = 4096 - len(data) % 4096
            if size > left or (rng.random() < 0.02 and data):
                data += bytes(left)
            values = (
                size, rng.getrandbits(64), rng.getrandbits(64), number * 96 + 1,
                rng.randrange(1 << 57), rng.getrandbits(32), rng.getrandbits(32),
                rng.getrandbits(32), rng.getrandbits(32),
            )
            data += struct.pack(
                "<IHHQQQQIIIIHH", values[0], 2, 0, *values[1:], len(encoded), 60)
            data += encoded
            data += bytes(size - 60 - len(encoded))
            expected.append(record("usn", *values, name))
            ends.append(len(data))
        if rng.random() < 0.5:
            data += bytes(-len(data) % 4096)
        return Product({self.main: bytes(data)}, self.main, expected, ends)

    def session(self, context):
        from dtformats import usn_journal
        reader = context.make(usn_journal.USNRecords)
        reader.Open(context.path(self.main))
        try:
            for usn in reader.ReadRecords():
                context.emit(
                    "usn", usn.size, usn.file_reference, usn.parent_file_reference,
                    usn.sequence_number, usn.timestamp, usn.update_reason_flags,
                    usn.update_source_flags, usn.security_descriptor_entry,
                    usn.file_attribute_flags, usn.name)
        finally:
            reader.Close()


class SystemdProducer(Producer):
    """Systemd journal: objects first, entry arrays and header as written last."""

    name = "systemd"
    main = "system.journal"
    debug_only = True
    whole = True

    def make(self, rng):
        header_size = rng.choice([208, 224, 240])
        body = bytearray()
        expected = []

        def put(kind, payload, flags=0):
            body.extend(bytes(-len(body) % 8))
            offset = header_size + len(body)
            body.extend(struct.pack("<BB6xQ", kind, flags, 16 + len(payload)) + payload)
            return offset

        entries = []
        entry_lines = {}
        for number in range(rng.randrange(1, 12)):
            items = []
            lines = []
            for _ in range(rng.randrange(0, 4)):
                payload = f"MESSAGE={token(rng)}".encode()
                number_of_entries = rng.randrange(1, 1000)
                data_hash = rng.getrandbits(64)
                offset = put(1, struct.pack(
                    "<QQQQQQ", data_hash, 0, 0, 0, 0, number_of_entries) + payload,
                    flags=rng.choice([0, 0, 1, 2]))
                items.append((offset, data_hash))
                lines.append(f"Hash=0x{data_hash:08x}")
                lines.append(f"Number of entries={number_of_entries}")
            sequence = number * 7 + rng.randrange(7) + 1
            monotonic = rng.getrandbits(40)
            offset = put(3, struct.pack(
                "<QQQ16sQ", sequence, 1600000000000000 + number, monotonic,
                rng.randbytes(16), rng.getrandbits(64)) + b"".join(
                    struct.pack("<QQ", *item) for item in items))
            entries.append(offset)
            entry_lines[offset] = [
                f"Sequence number={sequence}", f"Monotonic=0x{monotonic:08x}"]
            for index, item in enumerate(items):
                entry_lines[offset].append(
                    f"    Entry item: {index} object offset=0x{item[0]:08x}")
                entry_lines[offset].append(
                    f"    Entry item: {index} hash=0x{item[1]:08x}")
            entry_lines[offset].extend(lines)
        groups = []
        position = 0
        while position < len(entries) or not groups:
            count = rng.randrange(1, 6)
            groups.append(entries[position : position + count])
            position += count
        order = list(range(len(groups)))
        rng.shuffle(order)
        offsets = {}
        for index in order:
            offsets[index] = put(6, struct.pack("<Q", 0) + b"".join(
                struct.pack("<Q", entry) for entry in groups[index]) + bytes(
                    8 * rng.randrange(0, 3)))
        for index in range(len(groups) - 1):
            struct.pack_into(
                "<Q", body, offsets[index] - header_size + 16, offsets[index + 1])
        header = struct.pack(
            "<8sIIB7x16s16s16s16sQQQQQQQQQQQQQQQ", b"LPKSHHRH", 0, 0, 1,
            rng.randbytes(16), rng.randbytes(16), rng.randbytes(16), rng.randbytes(16),
            header_size, len(body), 0, 0, 0, 0, 0, len(entries) * 2, len(entries),
            len(entries), 1, offsets[0], 1600000000000000, 1600000000000000, 5)
        header += bytes(header_size - len(header))
        expected = []
        for group in groups:
            for entry in group:
                expected.extend(entry_lines[entry])
        data = header + bytes(body)
        return Product({self.main: data}, self.main, expected,
                       [len(data)] * len(expected))

    def session(self, context):
        from dtformats import systemd
        reader = context.make(systemd.SystemdJournalFile)
        reader.Open(context.path(self.main))
        reader.Close()

    def observe(self, outcome):
        names = ["Sequence number", "Monotonic", "Hash", "Number of entries"]
        for index in range(4):
            names.append(f"    Entry item: {index} object offset")
            names.append(f"    Entry item: {index} hash")
        return [f"{name}={value}" for name, value in fields(outcome.text, *names)]


def varint(value):
    result = bytearray()
    while value >= 0x80:
        result.append(value & 0x7F | 0x80)
        value >>= 7
    result.append(value)
    return bytes(result)


class _LogWriter:
    """LevelDB log format: 32 KiB pages of FULL, FIRST, MIDDLE and LAST blocks."""

    def __init__(self):
        self.data = bytearray()

    def add(self, payload):
        first = True
        while True:
            left = 32768 - len(self.data) % 32768
            if left <= 6:
                self.data += bytes(left)
                left = 32768
            part = payload[: left - 7]
            payload = payload[len(part) :]
            kind = {(True, True): 1, (True, False): 2, (False, False): 3,
                    (False, True): 4}[(first, not payload)]
            self.data += struct.pack("<IHB", 0x1234, len(part), kind) + part
            first = False
            if not payload:
                return len(self.data)

    def room(self):
        return 32768 - len(self.data) % 32768


class LevelDbLogProducer(Producer):
    """LevelDB write ahead log."""

    name = "leveldb_log"
    tags = ("stream",)
    main = "000003.log"
    debug_only = True

    def make(self, rng):
        writer = _LogWriter()
        expected, ends = [], []
        big = rng.random() < 0.6
        for number in range(rng.randrange(1, 10)):
            sequence = number * 100 + rng.randrange(100)
            values = []
            lines = []
            for _ in range(rng.randrange(0, 4)):
                key = token(rng, size_near(rng, 1, 127, 128, low=1)).encode()
                if rng.random() < 0.25:
                    values.append(b"\x00" + varint(len(key)) + key)
                    lines += ["Value type=0 (kTypeDeletion)", f"Key={key.hex()}"]
                else:
                    room = writer.room() - 7 - 12 - len(key) - 8
                    size = size_near(rng, 0, 1, 15, 16, 127, 128)
                    if big and rng.random() < 0.4:
                        size = rng.choice([
                            max(1, room + rng.randrange(-12, 12)),
                            rng.randrange(20000, 70000)])
                    value = bytes(rng.getrandbits(8) for _ in range(min(size, 64)))
                    value += b"Z" * max(0, size - 64)
                    values.append(b"\x01" + varint(len(key)) + key + varint(len(value))
                                  + value)
                    lines += ["Value type=1 (kTypeValue)", f"Key={key.hex()}",
                              f"Value={value.hex()}"]
            if rng.random() < 0.3:
                # So that there is just about no room for another block in the page.
                key = token(rng, rng.randrange(1, 20)).encode()
                room = writer.room()
                if room <= 6:
                    room = 32768
                used = 7 + 12 + sum(len(value) for value in values) + 2 + len(key) + 3
                size = room - used - rng.choice([0, 4, 5, 6, 6, 7, 7, 8, 9, 14])
                if size >= 16384:
                    value = b"Z" * size
                    values.append(b"\x01" + varint(len(key)) + key + varint(len(value))
                                  + value)
                    lines += ["Value type=1 (kTypeValue)", f"Key={key.hex()}",
                              f"Value={value.hex()}"]
            end = writer.add(
                struct.pack("<QI", sequence, len(values)) + b"".join(values))
            lines.insert(0, f"Sequence number={sequence}")
            expected.append("\n".join(lines))
            ends.append(end)
        return Product({self.main: bytes(writer.data)}, self.main, expected, ends)

    def session(self, context):
        from dtformats import leveldb
        reader = context.make(leveldb.LevelDBDatabaseLogFile)
        reader.Open(context.path(self.main))
        reader.Close()

    def observe(self, outcome):
        return observe_leveldb(
            outcome.text, ("Sequence number",), ("Sequence number", "Value type"),
            ("Key", "Value"))


def observe_leveldb(text, starts, names, dump_names):
    """Groups the field lines and dumps of a report into records."""
    result = []
    lines = text.split("\n")
    # Dumps are multi line: mark where each starts and decode in order.
    decoded = iter(dumps(text, *dump_names))
    current = None
    for line in lines:
        if "\t: " in line:
            name, _, value = line.partition("\t: ")
            name = name.rstrip("\t")
            if name in names or name in starts:
                if name in starts:
                    current = []
                    result.append(current)
                if current is not None:
                    current.append(f"{name}={value}")
        elif line.endswith(":") and line[:-1] in dump_names:
            name, data = next(decoded)
            if current is not None:
                current.append(f"{name}={data.hex()}")
    return ["\n".join(entry) for entry in result]


class LevelDbDescriptorProducer(Producer):
    """LevelDB descriptor (MANIFEST)."""

    name = "leveldb_descriptor"
    tags = ("stream",)
    main = "MANIFEST-000001"
    debug_only = True

    def make(self, rng):
        writer = _LogWriter()
        expected, ends = [], []
        for number in range(rng.randrange(1, 10)):
            payload = b""
            start = len(writer.data)
            if 32768 - start % 32768 <= 6:
                start += 32768 - start % 32768
            lines = [f"Offset={start}"]
            for _ in range(rng.randrange(0, 6)):
                tag = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
                payload += varint(tag)
                names = {1: "kComparator", 2: "kLogNumber", 3: "kNextFileNumber",
                         4: "kLastSequence", 5: "kCompactPointer", 6: "kDeletedFile",
                         7: "kNewFile", 9: "kPrevLogNumber"}
                lines.append(f"Value tag={tag} ({names[tag]})")

                def integer(name):
                    nonlocal payload
                    value = rng.choice([0, 1, 127, 128, 16383, 16384,
                                        rng.getrandbits(40)])
                    payload += varint(value)
                    lines.append(f"{name}={value}")

                def piece(name):
                    nonlocal payload
                    value = token(rng, size_near(rng, 1, 127, 128, low=1)).encode()
                    payload += varint(len(value)) + value
                    lines.append(f"{name}={value.hex()}")

                if tag == 1:
                    value = token(rng)
                    payload += varint(len(value)) + value.encode()
                    lines.append(f"Name string={value}")
                elif tag in (2, 3, 4, 9):
                    integer({2: "Log number", 3: "Next file number",
                             4: "Last sequence number", 9: "Previous log number"}[tag])
                elif tag == 5:
                    integer("Level")
                    piece("Key")
                elif tag == 6:
                    integer("Level")
                    integer("File number")
                else:
                    integer("Level")
                    integer("File number")
                    integer("File size")
                    piece("Smallest record key")
                    piece("Largest record key")
            if rng.random() < 0.2:
                # A large comparator name fills pages.
                value = token(rng) + "x" * rng.randrange(20000, 40000)
                payload += varint(1) + varint(len(value)) + value.encode()
                lines += ["Value tag=1 (kComparator)", f"Name string={value}"]
            ends.append(writer.add(payload))
            expected.append("\n".join(lines))
        return Product({self.main: bytes(writer.data)}, self.main, expected, ends)

    def session(self, context):
        from dtformats import leveldb
        reader = context.make(leveldb.LevelDBDatabaseDescriptorFile)
        reader.Open(context.path(self.main))
        reader.Close()

    def observe(self, outcome):
        return observe_leveldb(
            outcome.text, ("Offset",),
            ("Value tag", "Name string", "Log number", "Next file number",
             "Last sequence number", "Previous log number", "Level", "File number",
             "File size"),
            ("Key", "Smallest record key", "Largest record key"))


def table(rng, entries, index_per_block=None):
    """Writes a LevelDB table (.ldb) of (key, sequence, type, value)."""
    data = bytearray()
    handles = []

    def block(pairs, restart_interval=None, compress=None):
        result = bytearray()
        restarts = []
        previous = b""
        interval = restart_interval or rng.choice([1, 2, 16])
        for number, (key, value) in enumerate(pairs):
            shared = 0
            if number % interval:
                while (shared < min(len(previous), len(key))
                       and previous[shared] == key[shared]):
                    shared += 1
            else:
                restarts.append(len(result))
            result += varint(shared) + varint(len(key) - shared) + varint(len(value))
            result += key[shared:] + value
            previous = key
        for restart in restarts:
            result += struct.pack("<I", restart)
        result += struct.pack("<I", len(restarts))
        raw = bytes(result)
        kind = rng.choice([0, 0, 1, 2]) if compress is None else compress
        if kind == 1:
            raw = snappy.compress(raw)
        elif kind == 2:
            raw = zstd.compress(raw)
        offset = len(data)
        data.extend(raw + struct.pack("<BI", kind, 0xABCD))
        return offset, len(raw)

    position = 0
    while position < len(entries):
        count = rng.randrange(1, 7)
        group = entries[position : position + count]
        position += count
        pairs = [
            (key + struct.pack("<Q", sequence << 8 | kind), value)
            for key, sequence, kind, value in group
        ]
        handles.append((pairs[-1][0], block(pairs)))
    metaindex = block([], compress=0)
    index = block(
        [(key, varint(offset) + varint(size)) for key, (offset, size) in handles])
    footer = varint(metaindex[0]) + varint(metaindex[1] + rng.choice([0, 5])) + varint(
        index[0]) + varint(index[1])
    data += footer + bytes(40 - len(footer)) + bytes.fromhex("57fb808b247547db")
    return bytes(data)


class LevelDbTableProducer(Producer):
    """LevelDB sorted table."""

    name = "leveldb_table"
    main = "000005.ldb"
    whole = True

    def make(self, rng):
        keys = sorted({
            (rng.choice(["user:", "user:al", "x"]) + token(rng, rng.randrange(1, 9)))
            .encode() for _ in range(rng.randrange(1, 30))
        })
        entries = []
        for key in keys:
            kind = rng.choice([0, 1, 1, 1])
            value = b"" if kind == 0 else rng.randbytes(
                size_near(rng, 0, 127, 128, high=300))
            entries.append((key, rng.getrandbits(48), kind, value))
        data = table(rng, entries)
        expected = [record("entry", *entry) for entry in entries]
        return Product({self.main: data}, self.main, expected,
                       [len(data)] * len(expected))

    def session(self, context):
        from dtformats import leveldb
        reader = context.make(leveldb.LevelDBDatabaseTableFile)
        reader.Open(context.path(self.main))
        try:
            for entry in reader.ReadTableEntries():
                context.emit("entry", entry.key, entry.sequence_number, entry.value_type,
                             entry.value)
        finally:
            reader.Close()


class IndexedDbProducer(Producer):
    """IndexedDB table."""

    name = "indexeddb"
    main = "000007.ldb"
    whole = True

    def make(self, rng):
        entries = {}

        def integer(size):
            value = rng.getrandbits(size * 8)
            return value, value.to_bytes(size, "little")

        for _ in range(rng.randrange(1, 20)):
            if rng.random() < 0.3:
                key = b"\x00\x00\x00\x00"
                segments = ["0", "0", "0"]
                kind = rng.randrange(0, 200)
                key += bytes([kind])
                segments.append(str(kind))
                if rng.random() < 0.6:
                    rest = token(rng).encode()
                    key += rest
                    segments.append(repr(rest)[1:])
            else:
                sizes = (rng.randrange(1, 5), rng.randrange(1, 8), rng.randrange(1, 5))
                key = bytes([(sizes[0] - 1) << 5 | (sizes[1] - 1) << 2 | (sizes[2] - 1)])
                segments = []
                for size in sizes:
                    value, encoded = integer(size)
                    if not segments and value == 0:
                        value, encoded = 1, (1).to_bytes(size, "little")
                    key += encoded
                    segments.append(str(value))
                rest = rng.randbytes(rng.randrange(0, 12))
                if rest:
                    key += rest
                    segments.append(repr(rest)[1:])
            entries[key] = (segments, rng.getrandbits(40), 1,
                            rng.randbytes(rng.randrange(0, 40)))
        ordered = sorted(entries.items())
        data = table(rng, [
            (key, sequence, kind, value)
            for key, (_, sequence, kind, value) in ordered
        ])
        expected = [record("entry", *values) for _, values in ordered]
        return Product({self.main: data}, self.main, expected,
                       [len(data)] * len(expected))

    def session(self, context):
        from dtformats import indexeddb
        reader = context.make(indexeddb.IndexedDBDatabaseTableFile)
        reader.Open(context.path(self.main))
        try:
            for entry in reader.ReadEntries():
                context.emit("entry", entry.key_segments, entry.sequence_number,
                             entry.value_type, entry.value)
        finally:
            reader.Close()


class DetectionHistoryProducer(Producer):
    """Windows Defender DetectionHistory."""

    name = "detection_history"
    tags = ("stream", "notext", "traced")
    main = "DetectionHistory"
    debug_only = True
    whole = True

    def make(self, rng):
        data = bytearray()
        raw = []
        expected = []

        def put(kind, payload, raw_line=None):
            if raw_line:
                raw.append(raw_line)
            data.extend(struct.pack("<II", len(payload), kind) + payload)
            data.extend(bytes(-len(data) % 8))

        def string(value):
            return value.encode("utf-16-le") + b"\x00\x00"

        def value(number_of_set, index):
            names = [
                {0: "Threat identifier", 1: "Identifier"},
                {1: "Threat name", 4: "Category"},
                {1: "Resource type", 2: "Resource location",
                 4: "Threat tracking data size",
                 6: "Last threat status change time", 12: "Domain user1",
                 14: "Process name", 18: "Initial detection time",
                 20: "Remediation time", 24: "Domain user2"},
            ][number_of_set]
            name = names.get(index)
            kind = rng.choice([0, 5, 6, 8, 0x0A, 0x15, 0x1E, 0x28])
            if (number_of_set, index) == (2, 5):
                tracking, lines = self._tracking(rng)
                put(0x28, tracking)
                expected.extend(lines)
                return
            if (number_of_set, index) == (1, 4):
                category = rng.choice([0, 4, 8, 42, 51, 34])
                category_name = {0: "INVALID", 4: "TROJANDOWNLOADER", 8: "TROJAN",
                                 42: "VIRUS", 51: "ASR", 34: "TOOL"}[category]
                put(6, struct.pack("<I", category), f"Value integer={category}")
                expected.append(f"Category={category} ({category_name})")
                return
            if kind in (0, 5, 6, 8):
                size = 8 if kind == 8 else 4
                number = rng.getrandbits(size * 8)
                put(kind, number.to_bytes(size, "little"), f"Value integer={number}")
                text = str(number)
            elif kind == 0x0A:
                number = rng.getrandbits(56)
                put(kind, struct.pack("<Q", number))
                text = str(number)
            elif kind == 0x15:
                text = token(rng, rng.randrange(1, 20))
                put(kind, string(text), f"Value string={text}")
            elif kind == 0x1E:
                guid = rng.randbytes(16)
                text = str(uuid.UUID(bytes_le=guid))
                put(kind, guid, f"Value GUID={text}")
            else:
                blob = rng.randbytes(rng.randrange(1, 20))
                put(kind, blob)
                text = str(blob)
            if name:
                expected.append(f"{name}={text}")

        for number_of_set in range(rng.choice([1, 2, 3, 3, 3])):
            first = 0
            if number_of_set:
                put(0x15, string("Magic.Version:1.2"), "Value string=Magic.Version:1.2")
                first = 1
            for index in range(first, rng.choice([2, 5, 6, 26]) if number_of_set else 2):
                value(number_of_set, index)
        expected = raw + expected
        return Product({self.main: bytes(data)}, self.main, expected,
                       [len(data)] * len(expected))

    def _tracking(self, rng):
        values = b""
        lines = []
        for _ in range(rng.randrange(1, 5)):
            key = token(rng)
            encoded = key.encode("utf-16-le") + b"\x00\x00"
            values += struct.pack("<I", len(encoded)) + encoded
            lines.append(f"Key string={key}")
            kind = rng.choice([3, 4, 5, 6, 7])
            values += struct.pack("<I", kind)
            if kind in (3, 4, 5):
                size = {3: 4, 4: 8, 5: 1}[kind]
                number = rng.getrandbits(size * 8)
                values += number.to_bytes(size, "little")
                lines.append(f"Value integer={number}")
            elif kind == 6:
                text = token(rng)
                encoded = text.encode("utf-16-le") + b"\x00\x00"
                values += struct.pack("<I", len(encoded)) + encoded
                lines.append(f"Value string={text}")
            else:
                values += rng.randbytes(5)
        if rng.random() < 0.5:
            return struct.pack("<I", 4 + len(values)) + values, lines
        header = struct.pack("<IIIII", 1, 20, len(values), 24 + len(values), 0)
        return header + bytes(4) + values, lines

    def session(self, context):
        from dtformats import detection_history
        reader = context.make(detection_history.WindowsDefenderScanDetectionHistoryFile)
        reader.Open(context.path(self.main))
        reader.Close()

    def observe(self, outcome):
        # Raw values are printed while reading, the described ones afterwards.
        return [
            f"{name}={value}" for name, value in fields(
                outcome.text, "Threat identifier", "Identifier", "Threat name", "Category",
                "Resource type", "Resource location", "Threat tracking data size",
                "Last threat status change time", "Domain user1", "Process name",
                "Initial detection time", "Remediation time", "Domain user2",
                "Key string", "Value integer", "Value string", "Value GUID")
        ]


PRODUCERS = [
    UsnProducer(), SystemdProducer(), LevelDbLogProducer(), LevelDbDescriptorProducer(),
    LevelDbTableProducer(), IndexedDbProducer(), DetectionHistoryProducer(),
]
