"""Producers of cookie, browser cache and other report formats."""

import datetime
import struct

from sim.producers import base
from sim.producers.base import Product, record, token
from sim.producers.small import Report, reads


class CookiesProducer(Report):
    """Safari binary cookies."""

    name = "cookies_gen"
    main = "Cookies.binarycookies"
    whole = True
    instances = 3
    module, reader = "safari_cookies", "BinaryCookiesFile"
    descriptions = (
        "Size", "Unknown1", "Flags", "Unknown2", "Unknown3", "Expiration time",
        "Creation time", "URL", "Name", "Path", "Value")

    def make(self, rng):
        pages, expected = [], []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            count = rng.choice([0, 1, 2, rng.randrange(12)])
            records, rows = [], []
            for _ in range(count):
                texts = [token(rng, rng.choice([0, 1, 5, 30, 255, 300])) for _ in range(4)]
                flags, one, two, three = rng.choice([0, 1, 4, 5]), rng.getrandbits(
                    32), rng.getrandbits(32), rng.getrandbits(64)
                times = [rng.choice([0.0, 1.0, rng.randrange(10 ** 9) + rng.random(),
                                     float(rng.randrange(7 * 10 ** 9)), -0.5, -3600.25])
                         for _ in range(2)]
                offsets, body = [0] * 4, bytearray()
                order = list(range(4))
                rng.shuffle(order)
                for index in order:
                    if texts[index] == "" and rng.random() < 0.3:
                        continue
                    offsets[index] = 56 + len(body)
                    body += texts[index].encode() + b"\0"
                size = 56 + len(body)
                records.append(struct.pack(
                    "<8IQdd", size, one, flags, two, *offsets, three, *times) + bytes(body))

                def shown(value):
                    date = datetime.datetime(2001, 1, 1) + datetime.timedelta(seconds=int(value))
                    return f"{date!s} ({value:f})"
                rows.append(self.row(
                    str(size), f"0x{one:08x}", f"0x{flags:08x}", f"0x{two:08x}",
                    f"0x{three:08x}", shown(times[0]), shown(times[1]), *texts))
            header = 8 + 4 * count + 4
            offsets = []
            body = bytearray()
            # The order of the offsets does not have to be that of the records.
            placed = list(range(count))
            rng.shuffle(placed)
            where = {}
            for index in placed:
                body += bytes(rng.choice([0, 0, 3]))
                where[index] = header + len(body)
                body += records[index]
            offsets = [where[index] for index in range(count)]
            pages.append(struct.pack(f"<II{count}II", 0x00010000, count, *offsets, 0)
                         + bytes(body))
            expected += rows
        data = b"cook" + struct.pack(f">I{len(pages)}I", len(pages), *map(len, pages))
        data += b"".join(pages) + rng.randbytes(8)
        return Product({self.main: data}, self.main, expected, [len(data)] * len(expected))


def location(value):
    return (f"block number: {value & 0xffffff}, extra blocks: {value >> 24 & 3}, "
            f"location selector: {value >> 28 & 3}, reserved: {(value & 0x4c000000) >> 26:02x}, "
            f"location flag: {value >> 31}")


class FirefoxMapProducer(Report):
    """Firefox cache map files."""

    name = "firefox_map_gen"
    main = "_CACHE_MAP_"
    whole = True
    module, reader = "firefox_cache1", "CacheMapFile"
    descriptions = ("Hash number", "Eviction rank", "Data location", "Metadata location")

    def make(self, rng):
        rows, body = [], b""
        count = rng.randrange(0, 40)
        for _ in range(count):
            values = [rng.choice([0, rng.getrandbits(32)]) for _ in range(4)]
            body += struct.pack(">4I", *values)
            rows.append(self.row(str(values[0]), str(values[1]), location(values[2]),
                                 location(values[3])))
        data = struct.pack(">HHIiIi32I32I", 1, rng.randrange(20), len(body), count, 0, count,
                           *(rng.getrandbits(8) for _ in range(64))) + body
        return Product({self.main: data}, self.main, rows, [len(data)] * len(rows))


class FirefoxBlockProducer(Report):
    """Firefox cache block files."""

    name = "firefox_block_gen"
    tags = ("stream",)
    instances = 3
    module, reader = "firefox_cache1", "CacheBlockFile"
    descriptions = (
        "Major format version", "Minor format version", "Location", "Fetch count",
        "Last fetched time", "Last modified time", "Expiration time", "Cached data size",
        "Request size", "Information size", "Request")

    def __init__(self, number, block):
        self.name = f"firefox_block_gen_{number}"
        self.main = f"_CACHE_00{number}_"
        self.block = block

    def make(self, rng):
        rows, ends, data = [], [], bytearray()
        for _ in range(rng.randrange(0, 25)):
            if rng.random() < 0.2:
                # A block that is not in use.
                data += rng.choice([bytes(self.block), b"\xff" * self.block])
                continue
            room = self.block * rng.choice([1, 1, 1, 2, 3])
            request = "HTTP:http://" + token(rng, base.size_near(rng, 1, high=80))
            information = b"request-method\0GET\0" + token(rng, rng.randrange(
                0, 150)).encode() + b"\0"
            if rng.random() < 0.4:
                information += b"x" * max(0, room - 36 - len(request) - len(information)
                                          - rng.choice([0, 1, 2, 9]))
            location_ = rng.getrandbits(32)
            fetched, modified, expires = (
                rng.choice([0, rng.getrandbits(32)]) for _ in range(3))
            count, cached = rng.choice([0, 1, 2 ** 31 - 1, -1]), rng.getrandbits(32)
            minor = rng.randrange(30)
            item = struct.pack(
                ">HHIiIIIIII", 1, minor, location_, count, fetched, modified, expires, cached,
                len(request), len(information)) + request.encode() + information
            ends.append(len(data) + len(item))
            data += item + rng.choice([b"\0", b"\x01\0"]) * self.block
            data = data[:ends[-1] + (-len(item) % self.block)]
            rows.append(self.row(
                "1", str(minor), location(location_), str(count), base.posix(fetched),
                base.posix(modified), None, str(cached), str(len(request)),
                str(len(information)), request))
        return Product({self.main: bytes(data)}, self.main, rows, ends)


class CupsProducer(Report):
    """CUPS internet printing protocol files."""

    name = "cups_gen"
    main = "c00001"
    whole = True
    instances = 3
    module, reader = "cups_ipp", "CupsIppFile"
    descriptions = ("Tag value", "Name size", "Name", "Value data size", "Value")
    tags_ = {
        0x13: "no-value", 0x21: "integer", 0x22: "boolean", 0x23: "enum", 0x30: "octetString",
        0x31: "dateTime", 0x32: "resolution", 0x33: "rangeOfInteger", 0x35: "textWithLanguage",
        0x36: "nameWithLanguage", 0x41: "textWithoutLanguage", 0x42: "nameWithoutLanguage",
        0x44: "keyword", 0x45: "uri", 0x46: "uriScheme", 0x47: "charset",
        0x48: "naturalLanguage", 0x49: "mimeMediaType", 0x7E: "UNKNOWN"}

    def make(self, rng):
        data = bytearray(struct.pack(
            ">bbhi", rng.choice([1, 2]), rng.choice([0, 1]), rng.randrange(1, 60),
            rng.getrandbits(31)))
        data += b"\1"
        rows, ends = [], []
        charset = "ascii"

        def attribute(tag, value, shown, title=None):
            name = title or rng.choice([token(rng, rng.randrange(1, 30)), "", token(rng, 300),
                                        "n\u00e4me" + token(rng, 3)])
            encoded = name.encode()
            nonlocal data
            data += struct.pack(">bh", tag, len(encoded)) + encoded + struct.pack(
                ">h", len(value)) + value
            rows.append(self.row(
                f"0x{tag:02x} ({self.tags_[tag]})", str(len(encoded)), name, str(len(value)),
                shown))
            ends.append(len(data))

        for _ in range(rng.randrange(0, 20)):
            tag = rng.choice(sorted(self.tags_))
            if rng.random() < 0.15:
                data.append(rng.choice([1, 2, 4, 5]))
            if tag in (0x21, 0x23):
                number = rng.choice([0, -1, 2 ** 31 - 1, rng.getrandbits(32) - 2 ** 31])
                attribute(tag, struct.pack(">i", number), str(number))
            elif tag == 0x22:
                truth = rng.random() < 0.5
                attribute(tag, bytes([truth]), str(truth))
            elif tag == 0x31:
                year, month, day = rng.randrange(1970, 2100), rng.randrange(1, 13), rng.randrange(
                    1, 29)
                hours, minutes, seconds, tenth = (
                    rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10))
                attribute(tag, struct.pack(
                    ">HBBBBBBcBB", year, month, day, hours, minutes, seconds, tenth,
                    b"+", 0, 0),
                    f"{year:04d}-{month:02d}-{day:02d} {hours:02d}:{minutes:02d}:{seconds:02d}"
                    f".{tenth}")
            elif tag == 0x47:
                charset = rng.choice(["utf-8", "us-ascii", "utf-8", "iso-8859-1"])
                attribute(tag, charset.encode(), charset, "attributes-charset")
            elif tag in (0x41, 0x42):
                text = token(rng, rng.choice([1, 1, 9, 200]))
                if charset in ("utf-8", "iso-8859-1"):
                    text += "\u00e9"
                attribute(tag, text.encode(charset), text)
            elif 0x44 <= tag < 0x50:
                text = token(rng, rng.choice([0, 1, 9, 1000]))
                attribute(tag, text.encode(), text)
            else:
                attribute(tag, rng.randbytes(rng.choice([0, 1, 8, 9])), None)
        data += b"\3"
        if self.full:
            data += rng.randbytes(rng.choice([0, 100]))
        return Product({self.main: bytes(data)}, self.main, rows, ends)


class ChangeLogProducer(base.Producer):
    """Restore point change logs."""

    name = "change_log_gen"
    main = "change.log.1"
    tags = ("stream",)
    whole = True
    instances = 3
    runs = 250

    def make(self, rng):
        def text(value):
            return value.encode("utf-16-le") + b"\0\0"

        def sub(kind, body):
            return struct.pack("<II", 8 + len(body), kind) + body
        path = "\\Device\\" + token(rng, rng.randrange(1, 90))
        volume = sub(2, text(path))
        size = 16 + len(volume) + 4
        data = struct.pack("<4I", size, 0, 0xABCDEF12, 2) + volume + struct.pack("<I", size)
        expected, ends = [record("volume", path)], [len(data)]
        for _ in range(rng.randrange(0, 14)):
            name = rng.choice(["", "\\"]) + token(rng, rng.choice([1, 2, 20, 250])) + rng.choice(
                ["", "", "\u00e9", "\u65e5", "\U0001f4a9"])
            kind, flags, attributes = rng.getrandbits(22), rng.getrandbits(5), rng.getrandbits(32)
            number = rng.choice([0, 1, rng.getrandbits(64), rng.getrandbits(32)])
            subs = [
                sub(which, text(token(rng, rng.choice([0, 1, 12, 200]))) if which in (4, 5, 9)
                    else rng.randbytes(rng.choice([0, 4, 8, 60])))
                for which in rng.sample([3, 4, 5, 6, 7, 8, 9], rng.randrange(0, 5))]
            body = text(name) + b"".join(subs)
            size = 72 + len(body) + 4
            data += struct.pack(
                "<6IQ32sII", size, 1, 0xABCDEF12, kind, flags, attributes, number,
                rng.randbytes(32), len(text(name)), rng.getrandbits(32)) + body + struct.pack(
                    "<I", size)
            expected.append(record("entry", kind, flags, attributes, number, name))
            ends.append(len(data))
        return Product({self.main: data}, self.main, expected, ends)

    def session(self, context):
        from dtformats import rp_change_log

        def after(reader):
            context.emit("volume", reader.volume_path)
            for entry in reader.entries:
                context.emit("entry", entry.entry_type, entry.entry_flags,
                             entry.file_attribute_flags, entry.sequence_number,
                             entry.process_name)
        reads(context, rp_change_log.RestorePointChangeLogFile, self.main, after)


PRODUCERS = [
    CookiesProducer(), FirefoxMapProducer(), FirefoxBlockProducer(1, 256),
    FirefoxBlockProducer(2, 1024), FirefoxBlockProducer(3, 4096), CupsProducer(),
    ChangeLogProducer()]
