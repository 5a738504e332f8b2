"""Producer of Apple Spotlight store databases, with and without streams maps."""

import struct
import zlib

import lz4.block

from sim.producers.base import Producer, Product, record, token

CANDIDATES = 60


def varint(value):
    """A variable size integer."""
    for extra in range(5):
        if value < 1 << (7 - extra + 8 * extra):
            marker = (0xFF00 >> extra) & 0xFF
            data = bytearray(value.to_bytes(extra + 1, "big"))
            data[0] |= marker
            return bytes(data)
    for extra in range(5, 9):
        if value < 1 << (8 * extra):
            return bytes([(0xFF00 >> extra) & 0xFF]) + value.to_bytes(extra, "big")
    raise AssertionError(value)


def number(rng):
    return rng.getrandbits(rng.choice([1, 6, 7, 8, 13, 14, 15, 20, 21, 22, 28, 33, 40, 50, 63, 64]))


def text(rng):
    return token(rng, rng.choice([1, 5, 12])) + rng.choice(["", "", "\u00e9", "\u65e5\u672c"])


def cstring(value):
    return value.encode("utf-8") + b"\0"


def dangling(rng, table):
    """An index that the table does not have (but the one of another store may)."""
    return rng.choice([index for index in range(1, 60) if index not in table] + [777])


class SpotlightProducer(Producer):
    """store.db"""

    name = "spotlight"
    main = "store.db"
    whole = True
    instances = 3
    runs = 250

    def _table(self, rng, size):
        """Distinct table indexes."""
        return rng.sample(range(1, size * 3 + 4), size)

    def make(self, rng):
        types = {}
        kinds = [
            (0x00, 0), (0x02, 0), (0x06, 0), (0x07, 0), (0x07, 2), (0x08, 0), (0x08, 2),
            (0x09, 0), (0x09, 2), (0x0A, 0), (0x0A, 2), (0x0B, 0), (0x0B, 2), (0x0B, 3),
            (0x0C, 0), (0x0C, 2), (0x0E, 0), (0x0F, 0), (0x0F, 2), (0x0F, 3), (0x0F, 1),
        ]
        streams = [rng.random() < 0.3 for _ in range(5)]

        def indexes(size, stream):
            if stream:
                return list(range(1, size + 1))
            return self._table(rng, size)

        for index in indexes(rng.randrange(1, 30), streams[0]):
            kind, prop = rng.choice(kinds)
            prop |= rng.choice([0, 0, 4, 8, 0x88])
            types[index] = (kind, prop, f"k{index}{text(rng)}")
        last_type = max(types)
        if rng.random() < 0.3:
            types[last_type] = (0x0E, 0, "kMDStoreAccumulatedSizes")
        values = {
            index: text(rng) + rng.choice(["", "", "\x16\x02" + text(rng)])
            for index in indexes(rng.randrange(1, 40), streams[1])}
        lists = {
            index: [rng.choice(list(values) + [dangling(rng, values)])
                    for _ in range(rng.randrange(0, 6))]
            for index in indexes(rng.randrange(1, 12), streams[3])}
        localized = {
            index: [rng.choice(list(values)) for _ in range(rng.randrange(0, 3))]
            for index in indexes(rng.randrange(1, 12), streams[4])}
        unknown = {index: [] for index in indexes(2, streams[2])}

        records = []
        expected = []
        descriptors = {}
        for identifier in rng.sample(range(1, CANDIDATES), rng.randrange(1, 30)):
            item, parent, update = number(rng), number(rng), number(rng)
            body = varint(identifier) + bytes([rng.getrandbits(8)])
            body += varint(item) + varint(parent) + varint(update)
            last = 0
            attributes = {}
            for index in sorted(rng.sample(list(types), rng.randrange(0, min(len(types), 9) + 1))):
                kind, prop, key = types[index]
                body += varint(index - last)
                last = index
                if key == "kMDStoreAccumulatedSizes":
                    data = value = rng.randbytes(rng.choice([0, 1, 40]))
                else:
                    data, value = self._value(rng, kind, prop, values, lists, localized)
                body += data
                attributes[key] = (prop, kind, value)
            records.append(struct.pack("<I", len(body)) + body)
            descriptors[identifier] = record(
                "item", identifier, item, parent, update, list(attributes.items()))
        expected = [record("count", len(descriptors))]
        expected += [descriptors[identifier] for identifier in sorted(descriptors)]

        out = bytearray(4096)
        map_offset = len(out)
        pages = []
        while records:
            size = rng.choice([1, 2, 5, 20])
            pages.append(b"".join(records[:size]))
            del records[:size]
        per_map = rng.choice([1, 2, 8, 30])
        page_size = rng.choice([1024, 4096])
        number_of_maps = (len(pages) + per_map - 1) // per_map
        map_size = number_of_maps * page_size
        out += bytes(map_size)
        out += bytes(-len(out) % 4096)

        blocks = []
        tables = [
            [(index, struct.pack("<BB", kind, prop) + cstring(key))
             for index, (kind, prop, key) in types.items()],
            [(index, cstring(value)) for index, value in values.items()],
            [(index, self._index(rng, value)) for index, value in unknown.items()],
            [(index, self._index(rng, value)) for index, value in lists.items()],
            [(index, self._index(rng, value)) for index, value in localized.items()],
        ]
        files = {}
        for number_, (stream, table, kind) in enumerate(
                zip(streams, tables, (0x11, 0x21, 0x41, 0x81, 0x81)), 1):
            if stream:
                blocks.append(0)
                self._streams(rng, files, number_, kind, table)
            else:
                blocks.append(self._property_pages(rng, out, kind, table))

        page_blocks = []
        for page in pages:
            page_blocks.append(self._record_page(rng, out, page))
        position = map_offset
        for first in range(0, len(pages), per_map):
            chunk = page_blocks[first:first + per_map]
            data = rng.choice([b"1mbd", b"2mbd"]) + struct.pack(
                "<IIII", page_size, len(chunk), rng.getrandbits(32), rng.getrandbits(32))
            for block in chunk:
                data += struct.pack("<QII", rng.getrandbits(64), block, rng.getrandbits(32))
            assert len(data) <= page_size
            out[position:position + len(data)] = data
            position += page_size

        header = b"8tsd" + struct.pack("<8I", *(rng.getrandbits(32) for _ in range(8)))
        header += struct.pack("<3I", map_offset, map_size, page_size)
        header += struct.pack("<5I", *blocks)
        header += bytes(rng.getrandbits(8) for _ in range(256))
        header += b"/Users/example".ljust(256, b"\0")
        out[:len(header)] = header
        files[self.main] = bytes(out)
        return Product(files, self.main, expected, [len(out)] * len(expected))

    def _value(self, rng, kind, prop, values, lists, localized):
        """The stored data and the value of an attribute."""
        if kind in (0x00, 0x02, 0x06) or kind == 0x07 and not prop & 2:
            value = number(rng)
            return varint(value), value
        if kind == 0x07:
            value = [number(rng) for _ in range(rng.randrange(0, 5))]
            data = b"".join(varint(element) for element in value)
            return varint(len(data)) + data, value
        if kind in (0x08, 0x09, 0x0A, 0x0C):
            code = {0x08: "B", 0x09: "f"}.get(kind, "d")

            def element():
                if kind == 0x08:
                    return rng.getrandbits(8)
                if kind == 0x09:
                    return rng.randrange(-1000, 1000) / 8
                return rng.choice([0, rng.randrange(0, 1 << 36), rng.randrange(1 << 38)]) / 16
            if not prop & 2:
                value = element()
                return struct.pack("<" + code, value), value
            value = tuple(element() for _ in range(rng.randrange(1, 5)))
            data = struct.pack(f"<{len(value)}{code}", *value)
            return varint(len(data)) + data, value
        if kind == 0x0B:
            if prop & 3 == 2:
                value = tuple(text(rng) for _ in range(rng.randrange(1, 4)))
                data = b"".join(cstring(element) for element in value)
                return varint(len(data)) + data, value
            value = text(rng)
            stored = value
            if prop & 3 == 3 and rng.random() < 0.5:
                stored += "\x16\x02" + text(rng)
            return varint(len(cstring(stored))) + cstring(stored), value
        if kind == 0x0E:
            value = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 16, 130])))
            return varint(len(value)) + value, value
        assert kind == 0x0F
        if prop & 3 == 3:
            index = self._pick(rng, localized)
            value = "(null)"
            if localized.get(index):
                value = values[localized[index][0]].split("\x16\x02")[0]
        elif prop & 3 == 2:
            index = self._pick(rng, lists)
            value = [values.get(entry, "") for entry in lists.get(index, [])]
        else:
            index = self._pick(rng, values)
            value = values.get(index, "(null)")
        return varint(index), value

    def _pick(self, rng, table):
        if rng.random() < 0.15:
            return dangling(rng, table)
        return rng.choice(list(table))

    def _index(self, rng, entries):
        padding = rng.choice([0, 0, 1, 2, 3])
        return varint(4 * len(entries) + padding) + bytes(padding) + struct.pack(
            f"<{len(entries)}I", *entries)

    def _property_pages(self, rng, out, kind, table):
        page_size = rng.choice([4096, 8192])
        chunks = []
        table = list(table)
        while table or not chunks:
            size = rng.choice([1, 3, 10, 15])
            chunks.append(b"".join(struct.pack("<I", index) + data for index, data in table[:size]))
            del table[:size]
        first = len(out) // 4096
        for position, chunk in enumerate(chunks):
            used = 20 + 12 + len(chunk)
            assert used <= page_size
            following = 0
            if position + 1 < len(chunks):
                following = (len(out) + page_size) // 4096
            page = b"2pbd" + struct.pack("<IIII", page_size, used, kind, 0)
            page += struct.pack("<IQ", following, rng.getrandbits(64)) + chunk
            out += page.ljust(page_size, rng.choice([b"\0", b"\xff"]))
        return first

    def _record_page(self, rng, out, data):
        method = rng.choice(["zlib", "lz4", "lz4", "none"])
        kind = rng.choice([0x09, 0x4009])
        size = 20 + len(data)
        if method == "zlib":
            payload = zlib.compress(data, rng.choice([1, 6, 9]))
        elif method == "lz4":
            kind |= 0x1000
            payload = b""
            block = rng.choice([64, 1000, 65536])
            previous = None
            for start in range(0, len(data), block):
                part = data[start:start + block]
                if rng.random() < 0.3:
                    payload += b"bv4-" + struct.pack("<I", len(part)) + part
                else:
                    options = {"dict": previous} if previous else {}
                    packed = lz4.block.compress(part, store_size=False, **options)
                    payload += b"bv41" + struct.pack("<II", len(part), len(packed)) + packed
                previous = part
            payload += b"bv4$"
        else:
            payload = data
            size = 0
        used = 20 + len(payload)
        page_size = (used + rng.choice([0, 1, 5000]) + 4095) // 4096 * 4096
        out += bytes(-len(out) % 4096)
        block = len(out) // 4096
        page = b"2pbd" + struct.pack("<IIII", page_size, used, kind, size) + payload
        out += page.ljust(page_size, b"\0")
        return block

    def _streams(self, rng, files, number_, kind, table):
        """The companion files of a streams map."""
        table = dict(table)
        data = bytearray(b"\1" * rng.choice([1, 16]))
        offsets = [len(data)]
        data += b"\0"
        for index in range(1, len(table) + 1):
            value = table[index]
            offsets.append(len(data))
            if kind in (0x11, 0x21):
                data += varint(len(value)) + value
            else:
                data += varint(rng.choice([1, 200])) + value
        if rng.random() < 0.5 and kind in (0x11, 0x21):
            # Remnant data: the size does not match.
            offsets.append(len(data))
            data += varint(5) + b"zz"
        header = b"\0PataD\0\0" + struct.pack(
            "<12I", rng.getrandbits(32), 1, 2, len(data), 8, len(offsets),
            *(rng.getrandbits(32) for _ in range(6)))
        prefix = f"dbStr-{number_}.map."
        files[prefix + "header"] = header + bytes(self.full and rng.choice([0, 8]))
        files[prefix + "offsets"] = struct.pack(f"<{len(offsets)}I", *offsets) + bytes(
            self.full and rng.choice([0, 64]))
        files[prefix + "data"] = bytes(data) + bytes(self.full and rng.choice([0, 32]))
        files[prefix + "buckets"] = bytes(64)

    def session(self, context):
        from dtformats import spotlight_storedb
        reader = context.make(spotlight_storedb.SpotlightStoreDatabaseFile)
        reader.Open(context.path(self.main))
        try:
            context.emit("count", reader.number_of_metadata_items)
            for identifier in range(CANDIDATES):
                item = reader.GetMetadataItemByIdentifier(identifier)
                if item is not None:
                    attributes = [
                        (key, (value.property_type, value.value_type, value.value))
                        for key, value in item.attributes.items()]
                    context.emit(
                        "item", item.identifier, item.item_identifier,
                        item.parent_identifier, item.last_update_time, attributes)
        finally:
            reader.Close()


class StreamsMapProducer(SpotlightProducer):
    """The files of a streams map, read on their own."""

    name = "spotlight_streams"
    main = "dbStr-2.map.data"
    instances = 1
    runs = 100

    def make(self, rng):
        files = {}
        table = [(index, rng.randbytes(rng.choice([1, 10, 200])))
                 for index in range(1, rng.randrange(2, 30))]
        self._streams(rng, files, 2, 0x21, table)
        header = files["dbStr-2.map.header"]
        size, buckets, count = struct.unpack("<3I", header[20:32])
        offsets = struct.unpack(f"<{count}I", files["dbStr-2.map.offsets"][:count * 4])
        data = files[self.main]
        expected = [record("header", size, buckets, count)]
        for start, end in zip(offsets, offsets[1:] + (size,)):
            expected.append(record("range", start, end - start))
        for start, end in zip(offsets, offsets[1:] + (size,)):
            expected.append(record("value", data[start:end]))
        return Product(files, self.main, expected, [len(data)] * len(expected))

    def session(self, context):
        from dtformats import spotlight_storedb
        header = context.make(spotlight_storedb.SpotlightStreamsMapHeaderFile)
        header.Open(context.path("dbStr-2.map.header"))
        header.Close()
        context.emit(
            "header", header.data_size, header.number_of_buckets, header.number_of_offsets)
        offsets = context.make(
            spotlight_storedb.SpotlightStreamsMapOffsetsFile,
            data_size=header.data_size, number_of_entries=header.number_of_offsets)
        offsets.Open(context.path("dbStr-2.map.offsets"))
        offsets.Close()
        for start, size in offsets.ranges:
            context.emit("range", start, size)
        data = context.make(
            spotlight_storedb.SpotlightStreamsMapDataFile,
            data_size=header.data_size, ranges=offsets.ranges)
        data.Open(context.path(self.main))
        data.Close()
        for value in data.stream_values:
            context.emit("value", value)


PRODUCERS = [SpotlightProducer(), StreamsMapProducer()]
