"""Producers of more small record formats."""

import gzip
import struct
import uuid
import zlib

from sim.producers import base
from sim.producers.base import Producer, Product, record, token
from sim.producers.small import Report, reads


class AslProducer(Report):
    """Apple system log."""

    name = "asl_log"
    main = "system.asl"
    tags = ("stream",)
    module, reader = "asl", "AppleSystemLogFile"
    keys = ("CFLog Local Time", "Thread", "ReadUID", "Session", "Mach UUID")
    descriptions = (
        "Message identifier", "Written time", "Written time nanoseconds", "Alert level",
        "Process identifier (PID)", "User identifier (UID)", "Group identifier (GID)",
        "Read user identifier (UID)", "Read group identifier (GID)",
        "Reference process identifier (PID)", "Hostname", "Sender", "Facility", "Message",
    ) + keys

    def observe(self, outcome):
        return [line for line in base.rows(outcome.text, *self.descriptions)
                if "['Message'," in line]

    def make(self, rng):
        data = bytearray(80)
        known = {}
        expected, ends = [], []
        previous = first = 0
        for _ in range(rng.randrange(0, 20)):

            def put(text):
                if text is None:
                    return 0
                encoded = text.encode()
                if len(encoded) < 8 and rng.random() < 0.8:
                    return (0x80 + len(encoded) << 56) + int.from_bytes(
                        encoded.ljust(7, b"\0"), "big")
                if text not in known:
                    known[text] = len(data)
                    data.extend(struct.pack(">HI", 1, len(encoded) + 1) + encoded + b"\0")
                return known[text]

            def text(*sizes):
                return base.clean(rng, rng.choice(sizes)) or "x"
            strings = [rng.choice(["host", "localhost.example"]), text(6, 7, 8, 30),
                       text(8, 20), text(7, 8, 200, 900)]
            if rng.random() < 0.1:
                strings[rng.randrange(3)] = None
            extra = [(key, text(4, 7, 8, 40))
                     for key in rng.sample(self.keys, rng.randrange(0, 5))]
            offsets = [put(value) for value in strings]
            pairs = [(put(key), put(value)) for key, value in extra]
            identifier, time = rng.getrandbits(64), rng.choice([0, rng.getrandbits(33)])
            nano, level, flags = rng.randrange(10 ** 9), rng.randrange(8), rng.getrandbits(2)
            pid, uid, gid = rng.getrandbits(32), rng.randrange(-2, 1 << 31), rng.randrange(-2, 500)
            ruid, rgid, rpid = rng.randrange(-1, 500), rng.randrange(-1, 500), rng.getrandbits(64)
            start = len(data)
            size = 98 - 6 + 16 * len(pairs) + 8
            data += struct.pack(
                ">HIQQQIHHIiiiiQ4Q", 0, size, 0, identifier, time, nano, level, flags, pid,
                uid, gid, ruid, rgid, rpid, *offsets)
            for pair in pairs:
                data += struct.pack(">QQ", *pair)
            data += struct.pack(">Q", previous)
            if previous:
                struct.pack_into(">Q", data, previous + 6, start)
            else:
                first = start
            previous = start
            values = {
                "Message identifier": f"0x{identifier:08x}", "Written time": base.posix(time),
                "Written time nanoseconds": str(nano), "Alert level": str(level),
                "Process identifier (PID)": str(pid), "User identifier (UID)": str(uid),
                "Group identifier (GID)": str(gid), "Read user identifier (UID)": str(ruid),
                "Read group identifier (GID)": str(rgid),
                "Reference process identifier (PID)": str(rpid),
            }
            values.update(zip(("Hostname", "Sender", "Facility", "Message"),
                              [str(value) for value in strings]))
            values.update(extra)
            expected.append(base.row(values))
            ends.append(len(data))
        data[:80] = b"ASL DB".ljust(12, b"\0") + struct.pack(
            ">IQQIQ", 2, first, rng.getrandbits(31), 256, previous) + bytes(36)
        return Product({self.main: bytes(data)}, self.main, expected, ends)


class GzipProducer(Report):
    """GZIP members."""

    name = "gzip_members"
    main = "evidence.gz"
    tags = ("stream",)
    module, reader = "gzipfile", "GZipFile"
    descriptions = (
        "Compression method", "Flags", "Modification time", "Operating system",
        "Compression flags", "Original filename", "Comment", "Checksum",
        "Uncompressed data size")

    def observe(self, outcome):
        return [line for line in base.rows(outcome.text, *self.descriptions)
                if "['Uncompressed data size'," in line]

    def make(self, rng):
        data, expected, ends = bytearray(), [], []
        for _ in range(rng.randrange(1, 8)):
            flags = rng.randrange(32)
            time = rng.choice([0, rng.getrandbits(31)])
            system, level = rng.choice([0, 3, 255]), rng.choice([0, 2, 4])
            data += struct.pack("<HBBiBB", 0x8B1F, 8, flags, time, level, system)
            if flags & 4:
                extra = rng.randbytes(rng.choice([0, 1, 30, 300]))
                data += struct.pack("<H", len(extra)) + extra
            name = comment = None
            if flags & 8:
                name = token(rng, rng.randrange(0, 30)) + rng.choice(["", "\u00e9"])
                data += name.encode("latin1") + b"\0"
            if flags & 16:
                comment = token(rng, rng.randrange(0, 30))
                data += comment.encode("latin1") + b"\0"
            if flags & 2:
                data += rng.randbytes(2)
            content = rng.choice([b"", b"abc" * 1000, rng.randbytes(rng.randrange(2000))])
            packer = zlib.compressobj(rng.choice([0, 1, 9]), zlib.DEFLATED, -15)
            data += packer.compress(content) + packer.flush()
            checksum = zlib.crc32(content)
            data += struct.pack("<II", checksum, len(content))
            expected.append(self.row(
                "8", f"0x{flags:02x}", base.posix(time), str(system), f"0x{level:02x}", name,
                comment, f"0x{checksum:08x}", str(len(content))))
            ends.append(len(data))
        return Product({self.main: bytes(data)}, self.main, expected, ends)


class FseventsProducer(Report):
    """Mac OS file system events disk log stream."""

    name = "fsevents_gen"
    main = "0000000000001234"
    tags = ("thirdparty", "stream")
    whole = True
    module, reader = "fseventsd", "FseventsFile"
    descriptions = ("Path", "Event identifier", "Flags", "Node identifier")

    def make(self, rng):
        content, expected = bytearray(), []
        for _ in range(rng.randrange(1, 4)):
            version = rng.choice([1, 2, 2])
            page = bytearray()
            for _ in range(rng.randrange(0, 30)):
                path = base.clean(rng, rng.choice([1, 20, 200]))
                event, flags, node = rng.getrandbits(64), rng.getrandbits(32), rng.getrandbits(64)
                page += path.encode() + b"\0" + struct.pack("<QI", event, flags)
                shown = None
                if version == 2:
                    page += struct.pack("<Q", node)
                    shown = str(node)
                expected.append(self.row(path, str(event), f"0x{flags:04x}", shown))
            content += b"%dSLD" % version + rng.randbytes(4) + struct.pack("<I", 12 + len(page))
            content += page
        data = gzip.compress(bytes(content), mtime=0)
        return Product({self.main: data}, self.main, expected, [len(data)] * len(expected))


class TzifProducer(Report):
    """Time zone information."""

    name = "tzif_zone"
    main = "zone"
    whole = True
    tags = ("stream",)
    module, reader = "tzif", "TimeZoneInformationFile"
    instances = 3

    def observe(self, outcome):
        result = []
        for line in outcome.text.split("\n"):
            if line.startswith(("Number of ", "Time zone abb", "Transition time: ",
                                "Type of local time: ", "Format version")):
                description, _, value = line.partition("\t")
                result.append(record("row", description, value.strip("\t: ")))
        for description, data in base.dumps(
                outcome.text, "Local time types table data", "Leap second records data",
                "Timezeone abbreviation strings data", "Standard time indicators data",
                "UTC time indicators data", "Time zone string"):
            result.append(record("data", description, data))
        return result

    def make(self, rng):
        version = rng.choice([0, 0x32, 0x33])
        data, rows, datas = bytearray(), [], []
        for wide in ((False, True) if version else (False,)):
            utc = rng.choice([0, 0, 1, 5])
            std, leap = rng.choice([0, 1, 5]), rng.choice([0, 0, 1, 27])
            count, types = rng.choice([0, 1, 20, 200]), rng.randrange(1, 20)
            names = "".join(token(rng, 3).upper() + "\0" for _ in range(rng.randrange(1, 9)))
            times = sorted(rng.randrange(-1 << 31, 1 << 31) for _ in range(count))
            if wide and count:
                times[0] = -1 << 59
            kinds = [rng.randrange(types) for _ in range(count)]
            table = rng.randbytes(6 * types)
            leaps = rng.randbytes(leap * (12 if wide else 8))
            standard = bytes(rng.getrandbits(1) for _ in range(std))
            universal = bytes(rng.getrandbits(1) for _ in range(utc))
            data += b"TZif" + bytes([version]) + bytes(15) + struct.pack(
                ">6I", utc, std, leap, count, types, len(names))
            data += struct.pack(f">{count}{'q' if wide else 'i'}", *times) + bytes(kinds)
            data += table + names.encode() + leaps + standard + universal
            rows += [
                ("Format version", f"0x{version:02x}"),
                ("Number of UTC time indicators", utc),
                ("Number of standard time indicators", std),
                ("Number of leap seconds", leap), ("Number of transition times", count),
                ("Number of local time types", types),
                ("Time zone abbreviation strings size", len(names))]
            rows += [(f"Transition time: {at}", time) for at, time in enumerate(times)]
            rows += [(f"Type of local time: {at}", kind) for at, kind in enumerate(kinds)]
            datas += [
                ("Local time types table data", table),
                ("Timezeone abbreviation strings data", names.encode()),
                ("Leap second records data", leaps),
                ("Standard time indicators data", standard),
                ("UTC time indicators data", universal)]
        if version:
            zone = b"\n" + token(rng, rng.randrange(0, 30)).encode() + b"\n"
            data += zone
            datas.append(("Time zone string", zone))
        expected = [record("row", name, str(value)) for name, value in rows]
        expected += [record("data", name, value) for name, value in datas]
        return Product({self.main: bytes(data)}, self.main, expected, [len(data)] * len(expected))


class CpioProducer(Producer):
    """CPIO archives."""

    name = "cpio_archive"
    main = "archive.cpio"
    whole = True
    tags = ("stream", "traced")
    instances = 4

    def make(self, rng):
        kind = rng.choice(["bin-big-endian", "bin-little-endian", "odc", "newc", "crc"])
        data, expected, seen = bytearray(), [], set()
        names = [token(rng, rng.randrange(1, 40)) for _ in range(rng.randrange(0, 12))]
        if names and rng.random() < 0.3:
            names.append(rng.choice(names))
        names = [rng.choice(["", "d/", "d/e/"]) + name for name in names]
        for name in names + ["TRAILER!!!"]:
            trailer = name == "TRAILER!!!"
            content = b"" if trailer else rng.randbytes(
                rng.choice([0, 1, 2, 3, 4, 5, 511, 512, rng.randrange(1500)]))
            size = len(name) + 1
            inode, mode, user, group, links = (
                rng.getrandbits(16) for _ in range(5))
            device, special = rng.getrandbits(16), rng.getrandbits(16)
            time = rng.getrandbits(32)
            path = name.encode() + b"\0"
            if kind.startswith("bin"):
                order = ">" if "big" in kind else "<"
                data += struct.pack(
                    order + "8HHHHHH", 0o070707, device, inode, mode, user, group, links, special,
                    time >> 16, time & 0xFFFF, size, len(content) >> 16, len(content) & 0xFFFF)
                unit = 2
            elif kind == "odc":
                data += b"070707" + b"".join(
                    b"%06o" % value
                    for value in (device, inode, mode, user, group, links, special))
                data += b"%011o%06o%011o" % (time, size, len(content))
                unit = 1
            else:
                inode, user, group = (rng.getrandbits(32) for _ in range(3))
                data += b"070702" if kind == "crc" else b"070701"
                values = (inode, mode, user, group, links, time, len(content), 8, 1, 0, 3, size,
                          sum(content) & 0xFFFFFFFF if kind == "crc" else 0)
                form = rng.choice([b"%08X", b"%08x"])
                data += b"".join(form % value for value in values)
                unit = 4
            data += path
            data += bytes(-len(data) % unit)
            data += content
            data += bytes(-len(data) % unit)
            if not trailer and name not in seen:
                expected.append(record(
                    "entry", name, inode, mode, user, group, time, len(content), content))
                seen.add(name)
        end = len(data)
        data += bytes(-len(data) % 512)
        prefix = "d/"
        expected = [record("archive", kind, end)] + expected
        expected.append(record(
            "prefix", prefix, [name for name in dict.fromkeys(names) if name.startswith(prefix)]))
        return Product({self.main: bytes(data)}, self.main, expected, [end] * len(expected))

    def session(self, context):
        from dtformats import cpio

        def after(reader):
            context.emit("archive", reader.file_format, reader.size if self.full else 0)
            names = []
            for entry in reader.GetFileEntries():
                names.append(entry.path)
                data = b""
                while True:
                    part = entry.read(200)
                    if not part:
                        break
                    data += part
                if len(data) != entry.data_size:
                    raise OSError("member data incomplete")
                context.emit(
                    "entry", entry.path, entry.inode_number, entry.mode, entry.user_identifier,
                    entry.group_identifier, entry.modification_time, entry.get_size(), data)
            if not self.full:
                return
            context.emit(
                "prefix", "d/", [entry.path for entry in reader.GetFileEntries("d/")])
            for name in names:
                assert reader.FileEntryExistsByPath(name)
                assert reader.GetFileEntryByPath(name).path == name
            assert not reader.FileEntryExistsByPath("no such/entry")
        reads(context, cpio.CPIOArchiveFile, self.main, after)


class JobProducer(Report):
    """Windows task scheduler jobs."""

    name = "task_job"
    main = "task.job"
    whole = True
    debug_only = False
    instances = 3

    def make(self, rng):
        identifier = uuid.UUID(int=rng.getrandbits(128))
        retries, interval = rng.getrandbits(16), rng.getrandbits(16)
        priority = rng.choice([0x20, 0x40, 0x80, 0x1000000, rng.getrandbits(32)])
        version = rng.choice([0x0400, 0x0500, 0x0501, 0x0601, 0x0A02])
        texts = [base.clean(rng, rng.choice([0, 1, 30, 200])) for _ in range(5)]
        if rng.random() < 0.3:
            texts[rng.randrange(5)] += "\u0100\u65e5"
        body = b""
        for text in texts:
            encoded = (text + "\0").encode("utf-16-le") if text or rng.random() < 0.5 else b""
            body += struct.pack("<H", len(encoded) // 2) + encoded
        for size in (rng.choice([0, 1, 40]), rng.choice([0, 8])):
            body += struct.pack("<H", size) + rng.randbytes(size)
        triggers = rng.randrange(0, 5)
        offset = 70 + len(body)
        body += struct.pack("<H", triggers)
        trigger_rows = []
        for _ in range(triggers):
            start = (rng.randrange(1990, 2100), rng.randrange(1, 13), rng.randrange(1, 29))
            end = (0, 0, 0)
            hour, minute = rng.randrange(24), rng.randrange(60)
            duration, every = rng.getrandbits(32), rng.getrandbits(32)
            flags, kind = rng.getrandbits(3), rng.randrange(8)
            args = [rng.getrandbits(16) for _ in range(3)]
            body += struct.pack(
                "<HH3H3H2H4I3HHHH", 48, 0, *start, *end, hour, minute, duration, every, flags,
                kind, *args, 0, 0, 0)
            trigger_rows.append(record(
                "trigger", "%04d-%02d-%02d" % start, "%04d-%02d-%02d" % end,
                f"{hour:02d}:{minute:02d}", f"{duration} minutes", f"{every} minutes",
                f"0x{flags:08x}", f"0x{kind:08x}", *[f"0x{arg:04x}" for arg in args]))
        run = (rng.randrange(1990, 2100), rng.randrange(1, 13), rng.randrange(7),
               rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60),
               rng.randrange(1000))
        numbers = [rng.getrandbits(16), rng.getrandbits(16)] + [
            rng.getrandbits(32) for _ in range(4)]
        data = struct.pack(
            "<HH16sHHHHHHIIIII8H", version, 1, identifier.bytes_le, 70, offset, retries, interval,
            numbers[0], numbers[1], priority, *numbers[2:], *run)
        data += struct.pack("<H", rng.getrandbits(8)) + body
        expected = [record(
            "task", str(identifier), retries, interval, priority,
            *[text or None for text in texts])]
        product = Product(
            {self.main: data, "version": b"", "triggers": b""}, self.main, expected, [len(data)])
        del product.files["version"], product.files["triggers"]
        product.shown = [record(
            "fixed", f"0x{version:04x} ({version >> 8}.{version & 255})",
            f"{numbers[0]} minutes", f"{numbers[1]} minutes", f"{numbers[2]} milliseconds",
            *[f"0x{number:08x}" for number in numbers[3:]],
            "%04d-%02d-%02d %02d:%02d:%02d.%03d" % (run[:2] + run[3:]))] + trigger_rows
        return product

    def session(self, context):
        from dtformats import job

        def after(reader):
            task = reader.GetWindowsTaskConfiguration()
            texts = [task.application_name, task.parameters, task.working_directory,
                     task.author, task.comment]
            context.emit(
                "task", task.identifier, task.error_retry_count, task.error_retry_interval,
                task.priority, *[(text or "").rstrip("\0") or None for text in texts])
        reads(context, job.WindowsTaskSchedulerJobFile, self.main, after)

    def observe(self, outcome):
        return outcome.records


class JobReportProducer(JobProducer):
    """What is shown of Windows task scheduler jobs."""

    name = "task_job_report"
    debug_only = True
    instances = 1

    def make(self, rng):
        product = super().make(rng)
        product.expected = product.shown
        product.ends = [product.ends[0]] * len(product.shown)
        return product

    def observe(self, outcome):
        result = []
        values = [value for _, value in base.fields(
            outcome.text, "Product version", "Idle deadline", "Idle wait", "Maximum run time",
            "Exit code", "Status", "Flags", "Last run time")]
        if values:
            result.append(record("fixed", *values))
        values = [value for _, value in base.fields(
            outcome.text, "Start date", "End date", "Start time", "Duration", "Interval",
            "Trigger flags", "Trigger type", "Trigger arg0", "Trigger arg1", "Trigger arg2")]
        for at in range(0, len(values), 10):
            result.append(record("trigger", *values[at:at + 10]))
        return result


PRODUCERS = [
    AslProducer(), GzipProducer(), FseventsProducer(), TzifProducer(), CpioProducer(),
    JobProducer(), JobReportProducer(),
]
