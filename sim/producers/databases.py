"""Producers of keychain databases."""

import datetime
import struct

from sim.producers import base
from sim.producers.base import Product, record, token
from sim.producers.small import reads


class KeychainProducer(base.Producer):
    """MacOS keychain databases."""

    name = "keychain_db"
    main = "login.keychain"
    tags = ("traced",)
    whole = True
    instances = 4
    runs = 250

    def _value(self, rng, kind, short=False):
        """(stored data or None, value reported)."""
        if rng.random() < 0.15:
            return None, None
        if kind == 0:
            text = token(rng, rng.randrange(1, 10 if short else 60))
            return struct.pack(">I", len(text)) + text.encode(), text
        if kind in (1, 2):
            number = rng.choice([0, 1, rng.getrandbits(31), rng.getrandbits(32 if kind == 2 else 31)])
            return struct.pack(">I", number), number
        if kind == 5:
            text = "%04d%02d%02d%02d%02d%02dZ" % (
                rng.randrange(1970, 2040), rng.randrange(1, 13), rng.randrange(1, 29),
                rng.randrange(24), rng.randrange(60), rng.randrange(60))
            return text.encode() + b"\0", text
        data = rng.randbytes(rng.choice([0, 1, 3, 4, 20, 300]))
        return struct.pack(">I", len(data)) + data, repr(data) if kind == 6 else None

    def _record(self, rng, values, key=b"", index=0):
        """One record of (stored data or None) values."""
        offset = 24 + 4 * len(values) + len(key)
        offsets, data = [], bytearray()
        for value in values:
            if value is None:
                offsets.append(0)
                continue
            offsets.append(offset + len(data) + 1)
            data += value
            data += bytes(-len(data) % 4)
        body = struct.pack(f">{len(offsets)}I", *offsets) + key + data
        body += bytes(-len(body) % 4)
        return struct.pack(
            ">6I", 24 + len(body), index, 1, 0, len(key), 0) + body

    def _table(self, rng, identifier, records):
        """One table; record offsets of deleted records are zero."""
        records = [item if item is None else item for item in records]
        if identifier > 2:
            for _ in range(rng.choice([0, 0, 1, 3])):
                records.insert(rng.randrange(len(records) + 1), None)
        data = bytearray()
        offsets = []
        base_offset = 28 + 4 * len(records)
        for item in records:
            if item is None:
                offsets.append(0)
            else:
                offsets.append(base_offset + len(data))
                data += item
        trailing = bytes(rng.choice([0, 4, 16]))
        header = struct.pack(
            ">7I", base_offset + len(data) + len(trailing), identifier,
            sum(item is not None for item in records), base_offset, 0, 0, len(records))
        return header + struct.pack(f">{len(offsets)}I", *offsets) + bytes(data) + trailing

    def make(self, rng):
        relations = [(0, "CSSM_DL_DB_SCHEMA_INFO"), (2, "CSSM_DL_DB_SCHEMA_ATTRIBUTES"),
                     (1, "CSSM_DL_DB_SCHEMA_INDEXES")]
        others = rng.sample([3, 0xA, 0xF, 0x80000000, 0x80000001, 0x80001000, 0x80008000,
                             rng.getrandbits(31) | 0x40000000], rng.randrange(0, 5))
        relations += [(identifier, token(rng, rng.randrange(1, 40))) for identifier in others]
        tables = {identifier: {"name": name, "columns": [], "records": []}
                  for identifier, name in relations}
        stored = {identifier: [] for identifier in tables}

        for identifier, name in relations:
            encoded = name.encode()
            body = struct.pack(">3I", 0x21, 0x25, identifier)
            body = struct.pack(">2I", 0x21, 0x25) + struct.pack(
                ">2I", identifier, len(encoded)) + encoded
            body += bytes(-len(body) % 4)
            stored[0].append(
                struct.pack(">6I", 24 + len(body), len(stored[0]), 1, 0, 0, 0) + body)
            tables[0]["records"].append(
                [("RelationID", identifier), ("RelationName", name)])

        for identifier in others:
            for number in range(rng.randrange(0, 9)):
                kind = rng.choice([0, 1, 2, 3, 5, 6, 6, 8])
                if rng.random() < 0.5:
                    name, code = token(rng, rng.randrange(1, 20)), number
                else:
                    name, code = None, struct.unpack(">I", token(rng, 4).encode())[0]
                values = [identifier, code, 0, name, None, kind]
                stored[2].append(self._record(rng, [
                    None if value is None
                    else struct.pack(">I", len(value)) + value.encode()
                    if isinstance(value, str) else struct.pack(">I", value)
                    for value in values], index=len(stored[2])))
                shown = name or struct.pack(">I", code).decode()
                tables[identifier]["columns"].append((kind, code, shown))
                tables[2]["records"].append([
                    ("RelationID", identifier), ("AttributeID", code),
                    ("AttributeNameFormat", 0), ("AttributeName", shown),
                    ("AttributeFormat", kind)])
            if rng.random() < 0.7:
                values = [identifier] + [rng.getrandbits(32) for _ in range(4)]
                body = struct.pack(">5I", 0x2D, 0x31, 0x35, 0x39, 0x3D) + struct.pack(
                    ">5I", *values) + bytes(rng.choice([0, 8]))
                stored[1].append(struct.pack(
                    ">6I", 24 + len(body), len(stored[1]), 1, 0, 0, 0) + body)
                tables[1]["records"].append(list(zip(
                    ("RelationID", "IndexID", "AttributeID", "IndexType",
                     "IndexedDataLocation"), values)))

        for identifier in others:
            columns = tables[identifier]["columns"]
            for number in range(rng.randrange(0, 9)):
                values = [self._value(rng, column[0]) for column in columns]
                key = rng.randbytes(rng.choice([0, 0, 4, 40])) if columns else b""
                stored[identifier].append(
                    self._record(rng, [value[0] for value in values], key, number))
                merged = {}
                for column, value in zip(columns, values):
                    merged[column[2]] = value[1]
                tables[identifier]["records"].append(list(merged.items()))

        blobs = [self._table(rng, identifier, stored[identifier])
                 for identifier, _ in relations]
        array = 8 + 4 * len(blobs)
        offsets, body = [], b""
        for blob in blobs:
            offsets.append(array + len(body))
            body += blob
        gap = bytes(rng.choice([0, 12])) if self.full else b""
        data = b"kych" + struct.pack(
            ">HHIII", 1, 0, 16, 20 + len(gap), 0) + gap + struct.pack(
                ">2I", array + len(body), len(blobs)) + struct.pack(
                    f">{len(offsets)}I", *offsets) + body
        if self.full:
            data += bytes(rng.choice([0, 4]))
        expected = []
        for identifier, table in tables.items():
            expected.append(record(
                "table", identifier, table["name"], table["columns"]))
            for item in table["records"]:
                expected.append(record("row", item))
        return Product({self.main: data}, self.main, expected, [len(data)] * len(expected))

    def session(self, context):
        from dtformats import keychain

        def after(reader):
            for table in reader.tables:
                context.emit("table", table.relation_identifier, table.relation_name, [
                    (column.attribute_data_type, column.attribute_identifier,
                     column.attribute_name) for column in table.columns])
                for item in table.records:
                    context.emit("row", list(item.items()))
        reads(context, keychain.KeychainDatabaseFile, self.main, after)


PRODUCERS = [KeychainProducer()]


class ChromeProducer(base.Producer):
    """Chrome cache directories: the entries found from the index."""

    name = "chrome_dir"
    main = "index"
    live = False
    whole = True
    instances = 3
    runs = 150

    def make(self, rng):
        version = rng.choice([(0, 2), (1, 2)])
        slots = rng.choice([16, 32, 32, 64])
        numbers = rng.sample(range(0, 8), rng.randrange(1, 4))
        blocks = {number: rng.sample(range(0, 60), 60) for number in numbers}
        sizes = {number: 256 for number in numbers}
        for number in numbers:
            if rng.random() < 0.3:
                sizes[number] = rng.choice([1024, 4096])
                del blocks[number][16:]
        data = {number: {} for number in numbers}
        table = [0] * slots
        self.entries = []
        slots_used = sorted(rng.sample(range(slots), rng.randrange(0, min(slots, 14))))
        expected = {}
        named = set()
        for slot in slots_used:
            length = rng.choice([1, 1, 1, 2, 3, 5])
            if slot == slots_used[0] and rng.random() < 0.15:
                length = rng.choice([30, 63, 64])
            addresses = []
            for _ in range(length):
                left = [number for number in numbers if blocks[number]]
                if addresses:
                    left = [number for number in left if number in named]
                if not left:
                    break
                number = rng.choice(left)
                if not addresses:
                    named.add(number)
                block = blocks[number].pop()
                kind = {256: 2, 1024: 3, 4096: 4}[sizes[number]]
                addresses.append((
                    rng.choice([0x80000000, 0x80000000, 0]) | kind << 28 | rng.randrange(4) << 24
                    | number << 16 | block, number, block))
            chain = []
            for index, (address, number, block) in enumerate(addresses):
                key = rng.choice([
                    "http://" + token(rng, rng.randrange(1, 100)), token(rng, 159),
                    token(rng, 160), "k"])
                after = addresses[index + 1][0] if index + 1 < len(addresses) else 0
                time = rng.randrange(1, 15000000000000000)
                number_hash, node = rng.getrandbits(32), 0x90000000 | rng.randrange(100)
                streams = [rng.choice([0, 0x80000000 | rng.randrange(1 << 20)]) for _ in range(4)]
                data[number][block] = struct.pack(
                    "<6IQ2I4I4II16sI", number_hash, after, node, 0, 0, 0, time, len(key), 0,
                    1, 2, 3, rng.getrandbits(31), *streams, rng.getrandbits(2),
                    rng.randbytes(16), rng.getrandbits(32)) + key.encode().ljust(160, b"\0")
                chain.append((time, number_hash, key, address, after, node))
            if addresses:
                table[slot] = addresses[0][0]
                expected[slot] = chain
        created = rng.randrange(15000000000000000)
        index = struct.pack(
            "<IHHIIIIIIIIQ208s", 0xC103CAC3, version[0], version[1], 5, 6, 7, 8, 9, slots, 0, 0,
            created, bytes(208))
        index += bytes(8) + struct.pack("<I5I5I5III I28s".replace(" ", ""), 1, *range(5),
                                        *(0x90000000 + item for item in range(5)),
                                        *(0 for _ in range(5)), 0, 0, 0, bytes(28))
        index += struct.pack(f"<{slots}I", *table)
        files = {"index": index}
        for number in numbers:
            head = struct.pack(
                "<IHHHHIII4I4II5I", 0xC104CAC3, version[0], version[1], number, 0, sizes[number],
                len(data[number]), 64, *range(4), *range(4), 0, *range(5))
            bitmap = bytearray(8192 - len(head))
            for block in data[number]:
                bitmap[block // 8] |= 1 << block % 8
            body = bytearray(sizes[number] * (max(data[number], default=-1) + 1))
            for block, item in data[number].items():
                offset = block * sizes[number]
                body[offset:offset + 256] = item
            files[f"data_{number}"] = head + bytes(bitmap) + bytes(body)
        result = [record("index", f"{version[1]}.{version[0]}", created,
                         [(slot, table[slot]) for slot in expected])]
        for chain in expected.values():
            for time, number_hash, key, address, after, node in chain:
                result.append(record("entry", time, number_hash, key, after, node))
        for chain in expected.values():
            for time, _, key, *_ in chain:
                date = datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=time)
                fraction = f"{date:%S.%f}" if date.microsecond else f"{date:%S}"
                shown = f"{date.year:04d}-{date:%m-%d %H:%M:}{fraction}"
                result.append(record("print", f"{shown}\t{key}"))
        return Product(files, self.main, result, [len(index)] * len(result))

    def session(self, context):
        from dtformats import chrome_cache
        index = context.make(chrome_cache.IndexFile)
        index.Open(context.path("index"))
        try:
            context.emit("index", index.format_version, index.creation_time, [
                (slot, address.value) for slot, address in index.index_table.items()])
            addresses = list(index.index_table.values())
        finally:
            index.Close()
        for address in addresses:
            while address.value and address.filename:
                blocks = context.make(chrome_cache.DataBlockFile)
                blocks.Open(context.path(address.filename))
                try:
                    entry = blocks.ReadCacheEntry(address.block_offset)
                finally:
                    blocks.Close()
                context.emit("entry", entry.creation_time, entry.hash, entry.key,
                             entry.next.value, entry.rankings_node.value)
                address = entry.next
        parser = context.make(chrome_cache.ChromeCacheParser)
        parser.ParseDirectory(context.root)


PRODUCERS.append(ChromeProducer())
