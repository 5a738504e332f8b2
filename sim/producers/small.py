"""Producers of small record formats."""

import struct

from sim.producers import base
from sim.producers.base import Producer, Product, record, token


def reads(context, reader_class, name, after=None):
    reader = context.make(reader_class)
    reader.Open(context.path(name))
    try:
        if after:
            after(reader)
    finally:
        reader.Close()


class Report(Producer):
    """A producer of a format that is only reported when tracing."""

    debug_only = True
    live = False
    module = ""
    reader = ""
    descriptions = ()

    def session(self, context):
        import importlib
        module = importlib.import_module("dtformats." + self.module)
        reads(context, getattr(module, self.reader), self.main)

    def observe(self, outcome):
        return base.rows(outcome.text, *self.descriptions)

    def row(self, *values):
        assert len(values) == len(self.descriptions)
        return base.row({
            description: value for description, value in zip(self.descriptions, values)
            if value is not None})


class UtmpProducer(Report):
    """Linux utmp records."""

    name = "utmp_gen"
    main = "wtmp"
    tags = ("stream",)
    module, reader = "utmp", "LinuxLibc6UtmpFile"
    types = ("EMPTY", "RUN_LVL", "BOOT_TIME", "NEW_TIME", "OLD_TIME", "INIT_PROCESS",
             "LOGIN_PROCESS", "USER_PROCESS", "DEAD_PROCESS", "ACCOUNTING")
    descriptions = (
        "Type of login", "PID", "Terminal", "Terminal ID", "Username", "Hostname",
        "Termination status", "Exit status", "Session", "Timestamp", "Microseconds",
        "IP address")

    def make(self, rng):
        data, expected, ends = bytearray(), [], []
        for _ in range(rng.randrange(0, 25)):
            kind = rng.choice([0, 1, 5, 7, 8, 9, 10, 2000, rng.randrange(11)])
            pid, terminal_id = rng.getrandbits(32), rng.getrandbits(32)
            terminal, user, host = (base.clean(rng, size) for size in (32, 32, 256))
            term, exit_ = rng.getrandbits(15), rng.getrandbits(15)
            session = rng.randrange(-1 << 31, 1 << 31)
            time = rng.choice([0, -1, 1, rng.randrange(-1 << 31, 1 << 31), rng.getrandbits(31)])
            micro = rng.randrange(1000000)
            address = rng.randbytes(4) + bytes(12)
            if rng.random() < 0.4:
                address = rng.randbytes(rng.choice([15, 16])).rjust(16, b"\0")
            data += struct.pack(
                "<iI32sI32s256shhiii16s20s", kind, pid, terminal.encode(), terminal_id,
                user.encode(), host.encode(), term, exit_, session, time, micro, address,
                rng.randbytes(20))
            name = self.types[kind] if kind < len(self.types) else "UNKNOWN"
            shown = ".".join(str(byte) for byte in address[:4])
            if any(address[4:]):
                shown = ":".join(address[at:at + 2].hex() for at in range(0, 16, 2))
            expected.append(self.row(
                f"0x{kind:08x} ({name})", str(pid), terminal, str(terminal_id), user, host,
                f"0x{term:04x}", f"0x{exit_:04x}", str(session), base.posix(time), str(micro),
                shown))
            ends.append(len(data))
        return Product({self.main: bytes(data)}, self.main, expected, ends)


class UtmpxProducer(Report):
    """Mac OS X utmpx records."""

    name = "utmpx_gen"
    main = "utmpx"
    tags = ("stream",)
    module, reader = "utmp", "MacOSXUtmpxFile"
    types = ("EMPTY", "RUN_LVL", "BOOT_TIME", "OLD_TIME", "NEW_TIME", "INIT_PROCESS",
             "LOGIN_PROCESS", "USER_PROCESS", "DEAD_PROCESS", "ACCOUNTING", "SIGNATURE",
             "SHUTDOWN_TIME")
    descriptions = (
        "Username", "Terminal ID", "Terminal", "PID", "Type of login", "Unknown1",
        "Timestamp", "Microseconds", "Hostname")

    def make(self, rng):
        data, expected, ends = bytearray(), [], []
        for number in range(rng.randrange(1, 25)):
            terminal_id, pid = rng.getrandbits(32), rng.getrandbits(32)
            user, terminal, host = (base.clean(rng, size) for size in (256, 32, 256))
            kind = rng.choice([0, 2, 3, 4, 7, 8, 11, 12, 900])
            if not number:
                user, kind = "utmpx-1.00", 10
            unknown = rng.getrandbits(15)
            time = rng.choice([0, -1, 1, rng.randrange(-1 << 31, 1 << 31), rng.getrandbits(31)])
            micro = rng.randrange(1000000)
            data += struct.pack(
                "<256sI32sIhhii256s64s", user.encode(), terminal_id, terminal.encode(), pid,
                kind, unknown, time, micro, host.encode(), rng.randbytes(64))
            name = self.types[kind] if kind < len(self.types) else "UNKNOWN"
            expected.append(self.row(
                user, str(terminal_id), terminal, str(pid), f"0x{kind:04x} ({name})",
                f"0x{unknown:04x}", base.posix(time), str(micro), host))
            ends.append(len(data))
        return Product({self.main: bytes(data)}, self.main, expected, ends)


class RecycleBinProducer(Producer):
    """Windows Recycle.Bin metadata."""

    name = "recycle_bin_gen"
    main = "$IAAAAAA.txt"
    whole = True
    instances = 3

    def make(self, rng):
        version = rng.choice([1, 2])
        size = rng.choice([0, rng.getrandbits(20), rng.getrandbits(63)])
        time = base.random_filetime(rng)
        name = "C:\\" + base.clean(rng, 120) + rng.choice(["", "\u65e5", "\U0001f4a9", "\u0100"])
        encoded = name.encode("utf-16-le") + b"\0\0"
        data = struct.pack("<QQQ", version, size, time)
        if version == 2:
            data += struct.pack("<I", len(encoded) // 2)
        else:
            encoded = encoded.ljust(520, b"\0")
        data += encoded
        expected = [record("item", version, size, time, name)]
        return Product({self.main: data}, self.main, expected, [len(data)])

    def session(self, context):
        from dtformats import recycle_bin

        def after(reader):
            context.emit(
                "item", reader.format_version, reader.original_file_size,
                reader.deletion_time, reader.original_filename)
        reads(context, recycle_bin.RecycleBinMetadataFile, self.main, after)


class RecyclerProducer(Report):
    """Windows Recycler INFO2 entries."""

    name = "recycler_gen"
    main = "INFO2"
    tags = ("stream",)
    module, reader = "recycler", "RecyclerInfo2File"
    descriptions = (
        "Original filename (ANSI)", "Index", "Drive number", "Deletion time",
        "Original file size", "Original filename (Unicode)")

    def make(self, rng):
        size = rng.choice([280, 800, 800])
        count = rng.randrange(0, 25)
        data = bytearray(struct.pack("<5I", 5, count, rng.getrandbits(8), size, 0))
        expected, ends = [], []
        for number in range(count):
            name = "C:\\" + token(rng, rng.randrange(0, 200)) + rng.choice(["", "\u00e9"])
            drive, time = rng.randrange(26), base.random_filetime(rng)
            length = rng.getrandbits(32)
            ansi = name.encode("cp1252")
            data += ansi + b"\0"
            data += rng.choice([bytes(259 - len(ansi)), rng.randbytes(259 - len(ansi))])
            data += struct.pack("<IIQI", number, drive, time, length)
            wide = None
            if size == 800:
                wide = "D:\\" + token(rng, rng.randrange(0, 200)) + rng.choice(["", "\u65e5"])
                wide_data = wide.encode("utf-16-le") + b"\0\0"
                size_left = 520 - len(wide_data)
                data += wide_data + rng.choice([bytes(size_left), rng.randbytes(size_left)])
            expected.append(self.row(
                name, str(number), str(drive), base.filetime(time), str(length), wide))
            ends.append(len(data))
        return Product({self.main: bytes(data)}, self.main, expected, ends)


class RestorePointLogProducer(Report):
    """Windows restore point rp.log."""

    name = "restore_point_log_gen"
    main = "rp.log"
    whole = True
    module, reader = "rp_log", "RestorePointLogFile"
    tags = ("notext", "stream")
    events = {100: "BEGIN_SYSTEM_CHANGE", 101: "END_SYSTEM_CHANGE",
              102: "BEGIN_NESTED_SYSTEM_CHANGE", 103: "END_NESTED_SYSTEM_CHANGE"}
    points = {0: "APPLICATION_INSTALL", 1: "APPLICATION_UNINSTALL",
              10: "DEVICE_DRIVER_INSTALL", 12: "MODIFY_SETTINGS", 13: "CANCELLED_OPERATION"}
    descriptions = ("Event type", "Restore point type", "Sequence number", "Description",
                    "Creation time")

    def make(self, rng):
        event = rng.choice([100, 101, 102, 103, 99, 1 << 31])
        point = rng.choice([0, 1, 10, 12, 13, 14])
        sequence, time = rng.getrandbits(rng.choice([8, 64])), base.random_filetime(rng)
        text = base.clean(rng, 100) + rng.choice(["", "\u65e5", "\u0100"])
        encoded = text.encode("utf-16-le") + b"\0\0"
        data = struct.pack("<IIQ", event, point, sequence) + encoded
        data += bytes(rng.choice([528 - len(encoded), 1, 2])) + struct.pack("<Q", time)
        expected = [self.row(
            f"0x{event:08x} ({self.events.get(event, 'UNKNOWN')})",
            f"0x{point:08x} ({self.points.get(point, 'UNKNOWN')})", f"0x{sequence:08x}", text,
            base.filetime(time))]
        return Product({self.main: data}, self.main, expected, [len(data)])


PRODUCERS = [
    UtmpProducer(), UtmpxProducer(), RecycleBinProducer(), RecyclerProducer(),
    RestorePointLogProducer(),
]
