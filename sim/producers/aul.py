"""Producers of Apple unified logging: tracev3 with uuidtext, dsc and timesync files."""

import base64
import struct
import uuid

import lz4.block

from sim.producers.base import Producer, Product, record, token

ERRNO = {1: "Operation not permitted", 2: "No such file or directory", 13: "Permission denied"}

EVENTS = {2: None, 3: "traceEvent", 4: "logEvent", 6: "signpostEvent", 7: "lossEvent"}
TYPES = {0: "Default", 1: "Info", 2: "Debug", 3: "Useraction", 16: "Error", 17: "Fault"}

ATTRIBUTES = (
    "event_type", "event_message", "format_string", "message_type", "category", "sub_system",
    "boot_identifier", "mach_timestamp", "timestamp", "thread_identifier",
    "trace_identifier", "process_identifier", "process_image_identifier",
    "process_image_path", "sender_image_identifier", "sender_image_path",
    "sender_program_counter", "activity_identifier", "creator_activity_identifier",
    "parent_activity_identifier", "signpost_identifier", "signpost_name",
    "signpost_scope", "signpost_type", "ttl", "loss_count", "loss_start_mach_timestamp",
    "loss_end_mach_timestamp", "loss_start_timestamp", "loss_end_timestamp",
)


def word(rng):
    return token(rng, rng.choice([1, 3, 6, 12])) + rng.choice(["", "", "", "é", "日本", "{}", "%%"])


def plain(text):
    return text.replace("%%", "%")


class Strings:
    """Strings at consecutive offsets."""

    def __init__(self):
        self.data = bytearray()
        self.offsets = []

    def add(self, text):
        offset = len(self.data)
        self.data += text.encode("utf-8") + b"\0"
        self.offsets.append((offset, text))
        return offset


def format_string(rng):
    """A format string and for every operator how to make an item for it."""
    parts = []
    makers = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
        parts.append(word(rng) + " ")
        spec, maker = rng.choice(SPECS)
        parts.append(spec)
        makers.append(maker)
    parts.append(word(rng))
    return "".join(parts), makers


def _number(size, signed, text, limit=None):
    def make(rng):
        bits = limit or size * 8
        value = rng.choice([0, 1, 2, rng.getrandbits(bits), rng.getrandbits(bits), (1 << bits) - 1])
        data = value.to_bytes(size, "little")
        if signed:
            value = int.from_bytes(data, "little", signed=True)
        return ("inline", 0, data, text(value))
    return make


def _choice(size, values):
    def make(rng):
        value = rng.choice(sorted(values))
        return ("inline", 0, value.to_bytes(size, "little"), values[value])
    return make


def _float(text):
    def make(rng):
        value = rng.choice([0.0, 1.5, -2.25, 1024.125, rng.randrange(1 << 30) / 8])
        return ("inline", 0, struct.pack("<d", value), text(value))
    return make


def _string(kinds, text=lambda value: value):
    def make(rng):
        kind = rng.choice(kinds)
        value = word(rng) if rng.random() < 0.9 else ""
        data = value.encode("utf-8")
        if data and rng.random() < 0.5:
            data += b"\0"
        if kind in (0x21, 0x41):
            return ("private", kind, data, text(value) if data else "<private>")
        return ("public", kind, data, text(value) if data else "(null)")
    return make


def _hidden(kind):
    def make(rng):
        return ("hidden", kind, b"", "<private>")
    return make


def _uuid(rng):
    value = uuid.UUID(bytes=rng.randbytes(16))
    return ("precise", 0xF2, value.bytes, str(value).upper())


def _ipv6(rng):
    data = rng.randbytes(16)
    return ("precise", rng.choice([0x30, 0x32]), data,
            ":".join(data[i : i + 2].hex() for i in range(0, 16, 2)))


def _ipv4(rng):
    data = rng.randbytes(4)
    return ("inline", 0, data, ".".join(str(octet) for octet in data))


def _mode(rng):
    mode = rng.choice([0x4000, 0x8000, 0xA000, 0x1000, 0x2000, 0x6000]) | rng.randrange(512)
    kinds = {0x4000: "d", 0x8000: "-", 0xA000: "l", 0x1000: "p", 0x2000: "c", 0x6000: "b"}
    text = kinds[mode & 0xF000] + "".join(
        "rwxrwxrwx"[bit] if mode & (256 >> bit) else "-" for bit in range(9))
    return ("inline", 0, struct.pack("<I", mode), text)


def _bytes(text):
    """Binary data of a decoder, in the public values of the entry."""
    def make(rng):
        data, result = text(rng)
        return ("precise", rng.choice([0x30, 0x32]), data, result)
    return make


def _sockaddr(rng):
    how = rng.randrange(4)
    if how == 0:
        return b"", "<NULL>"
    if how == 1:
        address = rng.randbytes(4)
        return (bytes([16, 2]) + rng.randbytes(2) + address + bytes(8),
                ".".join(str(octet) for octet in address))
    address = bytes(16) if how == 2 else bytes(
        rng.choice([0, 0, rng.randrange(256)]) for _ in range(16))
    groups = [address[i : i + 2].hex() for i in range(0, 16, 2)]
    text = "::" if not any(address) else ":".join(
        "" if group == "0000" else group for group in groups)
    return (bytes([28, 30]) + rng.randbytes(2) + rng.randbytes(4) + address + rng.randbytes(4),
            text)


def _sid(rng):
    authority = rng.choice([5, 5, 16, rng.getrandbits(48)])
    subs = [rng.getrandbits(32) for _ in range(rng.randrange(0, 6))]
    data = struct.pack("<BB", 1, len(subs)) + authority.to_bytes(6, "big") + b"".join(
        struct.pack("<I", sub) for sub in subs)
    return data, f"S-1-{authority}-" + "-".join(str(sub) for sub in subs)


def _member(rng):
    kind = rng.choice([0x23, 0x24, 0x44, 0xA0, 0xA3, 0xA4, 0xC3])
    who = "group" if kind in (0x44, 0xC3) else "user"
    domain = token(rng, rng.randrange(1, 9))
    if kind & 0x0F == 3:
        number = rng.choice([-2, 0, 501, rng.getrandbits(31)])
        data = struct.pack("<i", number)
        name = str(number)
    else:
        name = token(rng, rng.randrange(1, 9)) + rng.choice(["", "é"])
        data = name.encode("utf-8") + b"\0"
    return bytes([kind]) + data + domain.encode() + b"\0", f"{who}: {name}@{domain}"


DNS_CODES = ["NoError", "FormErr", "ServFail", "NXDomain", "NotImp", "Refused", "YXDomain",
             "YXRRSet", "NXRRSet", "NotAuth", "NotZone", "DSOTypeNI"]
DNS_OPERATIONS = ["Query", "IQuery", "Status", "Unassigned", "Notify", "Update", "DSO"]


def _dns_flags(rng):
    response, operation, code = rng.randrange(2), rng.randrange(7), rng.randrange(12)
    bits = [(0x400, "AA"), (0x200, "TC"), (0x100, "RD"), (0x80, "RA"), (0x20, "AD"),
            (0x10, "CD")]
    chosen = [bit for bit in bits if rng.random() < 0.5]
    flags = response << 15 | operation << 11 | code
    for bit, _ in chosen:
        flags |= bit
    names = ", ".join(name for _, name in chosen)
    return flags, (f"0x{flags:04X} ({'QR'[response]}/{DNS_OPERATIONS[operation]}, {names}, "
                   f"{DNS_CODES[code]})")


def _dns_header(rng):
    flags, text = _dns_flags(rng)
    number = rng.getrandbits(16)
    counts = [rng.getrandbits(rng.choice([2, 16])) for _ in range(4)]
    return (struct.pack(">HH4H", number, flags, *counts),
            f"id: 0x{number:04X} ({number}), flags: {text}, counts: " + "/".join(
                str(count) for count in counts))


def _dns_counts(rng):
    counts = [rng.getrandbits(rng.choice([2, 16])) for _ in range(4)]
    return ("inline", 0, struct.pack("<4H", *reversed(counts)),
            "/".join(str(count) for count in counts))


def _dns_idflags(rng):
    flags, text = _dns_flags(rng)
    number = rng.getrandbits(16)
    return ("inline", 0, struct.pack("<HHI", flags, number, 0),
            f"id: 0x{number:04X} ({number}), flags: {text}")


def _mask_hash(rng):
    data = rng.randbytes(rng.choice([0, 1, 16, 20]))
    text = f"'{base64.b64encode(data).decode()}'" if data else "(null)"
    return ("public", 0xF2, data, f"<mask.hash: {text}>")


def _client_state(rng):
    status, restricted = rng.getrandbits(rng.choice([1, 32])), rng.choice([0, 1, 256])
    return (struct.pack("<II", status, restricted),
            f'{{"locationRestricted":{"true" if restricted else "false"},'
            f'"locationServicesEnabledStatus":{status}}}')


LOCATION_1 = [
    ("distanceFilter", "d"), ("desiredAccuracy", "d"), ("updatingLocation", "?"),
    ("requestingLocation", "?"), ("requestingRanging", "?"), ("updatingRanging", "?"),
    ("updatingHeading", "?"), (None, "3x"), ("headingFilter", "d"),
    ("allowsLocationPrompts", "?"), ("allowsAlteredAccessoryLoctions", "?"),
    ("dynamicAccuracyReductionEnabled", "?"), ("previousAuthorizationStatusValid", "?"),
    ("previousAuthorizationStatus", "I"), ("limitsPrecision", "?"), (None, "7x"),
    ("activityType", "q"), ("pausesLocationUpdatesAutomatially", "i"), ("paused", "?"),
    ("allowsBackgroundLocationUpdates", "?"), ("showsBackgroundLocationIndicator", "?"),
    ("allowsMapCorrection", "?"),
]
LOCATION_2 = LOCATION_1 + [(name, "?") for name in (
    "batchingLocation", "updatingVehicleSpeed", "updatingVehicleHeading", "matchInfoEnabled",
    "groundAltitudeEnabled", "fusionInfoEnabled", "courtesyPromptNeeded",
    "isAuthorizedForWidgetUpdates")]
LOCATION_ORDER = (
    "previousAuthorizationStatusValid paused requestingLocation updatingVehicleSpeed "
    "desiredAccuracy allowsBackgroundLocationUpdates dynamicAccuracyReductionEnabled "
    "distanceFilter allowsLocationPrompts activityType groundAltitudeEnabled "
    "pausesLocationUpdatesAutomatially fusionInfoEnabled isAuthorizedForWidgetUpdates "
    "updatingVehicleHeading batchingLocation showsBackgroundLocationIndicator "
    "updatingLocation requestingRanging updatingHeading previousAuthorizationStatus "
    "allowsMapCorrection matchInfoEnabled allowsAlteredAccessoryLoctions updatingRanging "
    "limitsPrecision courtesyPromptNeeded headingFilter").split()


def _location_state(rng):
    values = {}
    data = b""
    for name, code in rng.choice([LOCATION_1, LOCATION_2]):
        if name is None:
            data += struct.pack("<" + code)
            continue
        if code == "?":
            value = rng.random() < 0.5
            values[name] = "true" if value else "false"
        elif code == "d":
            value = float(rng.choice([-1, 0, 5, 100, rng.randrange(1 << 40)]))
            values[name] = str(int(value))
        else:
            value = rng.choice([0, 1, rng.getrandbits(31)])
            values[name] = str(value)
        data += struct.pack("<" + code, value)
    return data, "{" + ",".join(
        f'"{name}":{values[name]}' for name in LOCATION_ORDER if name in values) + "}"


def _quoted(values):
    return {number: f'"{text}"' for number, text in values.items()}


def _marked(label, maker):
    def make(rng):
        how, kind, data, text = maker(rng)
        return (how, kind, data, f"__##__signpost.{label}#_##_#{text}##__##")
    return make


def _marked_string(label):
    def make(rng):
        value = token(rng, rng.choice([0, 1, 9])) + rng.choice(["", "é"])
        data = value.encode("utf-8")
        if data and rng.random() < 0.5:
            data += b"\0"
        return ("public", rng.choice([0x22, 0x42]), data,
                f"__##__signpost.{label}#_##_#{value}##__##")
    return make


def _single(text):
    def make(rng):
        value = rng.choice([0.0, 1.5, -2.25, 1024.125])
        return ("inline", 0, struct.pack("<f", value), text(value))
    return make


def _escaped(rng):
    value = word(rng) + rng.choice(["", "/", "a/b/c"])
    data = value.encode("utf-8")
    return ("public", 0x22, data, '"' + value.replace("/", "\\/") + '"')


def _unsupported(rng):
    return ("public", 0x22, b"\xff\xfe" + rng.randbytes(2), "<decode: unsupported value>")


RR_TYPES = {1: "A", 2: "NS", 5: "CNAME", 6: "SOA", 12: "PTR", 13: "HINFO", 15: "MX", 16: "TXT",
            28: "AAAA", 33: "SRV", 43: "DS", 47: "NSEC", 64: "SVCB", 65: "HTTPS", 257: "CAA",
            32769: "DLV", 999: "<decode: unknown value: 999>"}
OD_ERRORS = {0: "ODNoError", 2: "Not Found", 1000: "ODErrorSessionLocalOnlyDaemonInUse",
             2100: "ODErrorNodeConnectionFailed", 4001: "ODErrorRecordPermissionError",
             5000: "ODErrorCredentialsInvalid", 5305: "ODErrorCredentialsAccountLocked",
             10003: "ODErrorPluginOperationTimeout", 77: "<decode: unknown value: 77>"}
SQLITE = {0: "SQLITE_OK", 5: "SQLITE_BUSY", 11: "SQLITE_CORRUPT", 13: "SQLITE_FULL",
          26: "SQLITE_NOTADB", 100: "SQLITE_ROW", 101: "SQLITE_DONE",
          266: "SQLITE IO ERR READ", 50: "<decode: unknown value: 50>"}
AUTHORIZATION = {0: "Not Determined", 1: "Restricted", 2: "Denied", 3: "Authorized Always",
                 4: "Authorized When In Use", 9: "<decode: unknown value: 9>"}
MEMBERS = {0: "UID", 1: "GID", 3: "SID", 4: "Username", 5: "Groupname", 6: "UUID",
           7: "GROUP NFS", 8: "USER NFS", 10: "GSS EXPORT NAME", 11: "X509 DN", 12: "KERBEROS",
           2: "<decode: unknown value: 2>"}


def _telemetry(label):
    return [
        ("%{signpost." + label.replace("#____#", ":") + "}d",
         _marked(label, _number(4, True, str))),
        ("%{signpost." + label.replace("#____#", ":") + "}llu",
         _marked(label, _number(8, False, str))),
        ("%{public,signpost." + label.replace("#____#", ":") + "}x",
         _marked(label, _number(2, False, lambda value: f"{value:x}"))),
        ("%{signpost." + label.replace("#____#", ":") + "}f",
         _marked(label, _float(lambda value: f"{value:.16g}"))),
        ("%{signpost." + label.replace("#____#", ":") + "}g",
         _marked(label, _single(lambda value: f"{value:.16g}"))),
        ("%{signpost." + label.replace("#____#", ":") + "}@", _marked_string(label)),
    ]


SPECS = [
    ("%d", _number(4, True, str)),
    ("%lld", _number(8, True, str)),
    ("%{public}d", _number(4, True, str)),
    ("%i", _number(4, True, str)),
    ("%hhd", _number(1, True, str)),
    ("%hd", _number(2, True, str)),
    ("%u", _number(4, False, str)),
    ("%llu", _number(8, False, str)),
    ("%zu", _number(8, False, str)),
    ("%x", _number(4, False, lambda value: f"{value:x}")),
    ("%llX", _number(8, False, lambda value: f"{value:X}")),
    ("%#x", _number(4, False, lambda value: f"{value:#x}" if value else "0")),
    ("%08x", _number(4, False, lambda value: f"{value:08x}")),
    ("%o", _number(4, False, lambda value: f"{value:o}")),
    ("%5d", _number(2, True, lambda value: str(value).rjust(5))),
    ("%-7d", _number(2, True, lambda value: str(value).ljust(7))),
    ("%p", _number(8, False, lambda value: f"0x{value:x}")),
    ("%f", _float(lambda value: f"{value:.6f}")),
    ("%.2f", _float(lambda value: f"{value:.2f}")),
    ("%s", _string([0x20, 0x22])),
    ("%{public}s", _string([0x22])),
    ("%@", _string([0x40, 0x42])),
    ("%{private}@", _string([0x41])),
    ("%{private}s", _string([0x21])),
    ("%-12s", _string([0x20], lambda value: value.ljust(12))),
    ("%12s", _string([0x22], lambda value: value.rjust(12))),
    ("%{sensitive}@", _hidden(0x45)),
    ("%{sensitive}s", _hidden(0x25)),
    ("%{private}d", _hidden(0x01)),
    ("%{public,bool}d", _choice(4, {0: "false", 1: "true", 7: "true"})),
    ("%{BOOL}d", _choice(4, {0: "NO", 1: "YES"})),
    ("%{darwin.errno}d", _choice(4, {
        number: f"[{number}: {text}]" for number, text in ERRNO.items()})),
    ("%m", _choice(4, ERRNO)),
    ("%{time_t}d", _choice(4, {
        0: "1970-01-01 00:00:00", 1452627697: "2016-01-12 19:41:37"})),
    ("%{public,uuid_t}.16P", _uuid),
    ("%{network:in6_addr}.16P", _ipv6),
    ("%{network:in_addr}d", _ipv4),
    ("%{darwin.mode}d", _mode),
    ("%{errno}d", _choice(4, {
        number: f"[{number}: {text}]" for number, text in ERRNO.items()})),
    ("%{in_addr}u", _ipv4),
    ("%{in6_addr}.16P", _ipv6),
    ("%{sockaddr}.*P", _bytes(_sockaddr)),
    ("%{public,network:sockaddr}.*P", _bytes(_sockaddr)),
    ("%{odtypes:nt_sid_t}.*P", _bytes(_sid)),
    ("%{odtypes:mbr_details}.*P", _bytes(_member)),
    ("%{odtypes:mbridtype}d", _choice(4, MEMBERS)),
    ("%{odtypes:ODError}d", _choice(4, OD_ERRORS)),
    ("%{mdns:dnshdr}.12P", _bytes(_dns_header)),
    ("%{mdns:dns.counts}llu", _dns_counts),
    ("%{mdns:dns.idflags}llu", _dns_idflags),
    ("%{mdns:rrtype}d", _choice(4, RR_TYPES)),
    ("%{mdns:nreason}d", _choice(4, {
        1: "no-data", 2: "nxdomain", 3: "query-suppressed", 4: "no-dns-service",
        5: "server error", 6: "<decode: unknown value: 6>"})),
    ("%{mdns:protocol}d", _choice(4, {
        1: "UDP", 2: "TCP", 4: "HTTPS", 3: "<decode: unknown value: 3>"})),
    ("%{mdns:yesno}d", _choice(4, {0: "no", 1: "yes"})),
    ("%{mdns:addrmv}d", _choice(4, {0: "rmv", 1: "add"})),
    ("%{mdns:acceptable}d", _choice(4, {0: "unacceptable", 1: "acceptable"})),
    ("%{location:_CLClientManagerStateTrackerState}.*P", _bytes(_client_state)),
    ("%{location:_CLLocationManagerStateTrackerState}.*P", _bytes(_location_state)),
    ("%{location:CLClientAuthorizationStatus}d", _choice(4, _quoted(AUTHORIZATION))),
    ("%{location:SqliteResult}d", _choice(4, _quoted(SQLITE))),
    ("%{public,location:escape_only}s", _escaped),
    ("%{mask.hash}s", _mask_hash),
    ("%{mask.hash, mask.hash}@", _mask_hash),
    ("%{signpost.description:begin_time}llu",
     _marked("description#____#begin_time", _number(8, False, str))),
    ("%{signpost.description:end_time}llu",
     _marked("description#____#end_time", _number(8, False, str))),
    ("%{signpost.telemetry:string1}s", _marked_string("telemetry#____#string1")),
    ("%{signpost.telemetry:string2}@", _marked_string("telemetry#____#string2")),
    ("%{public}.0s", _string([0x22])),
    ("%hu", _number(2, False, str)),
    ("%hhu", _number(1, False, str)),
    ("%+d", _number(4, True, lambda value: f"{value:+d}")),
    ("%8.2f", _float(lambda value: f"{value:.2f}".rjust(8))),
    ("%-14.3f", _float(lambda value: f"{value:.3f}".ljust(14))),
    ("%.0f", _single(lambda value: f"{value:.0f}")),
    ("%.f", _single(lambda value: f"{value:.0f}")),
    ("%.*f", _float(lambda value: f"{value:.6f}")),
    ("%e", _float(lambda value: f"{value:e}")),
    ("%g", _single(lambda value: f"{value:g}")),
    ("%3.3d", _number(1, False, lambda value: str(value).rjust(3, "0"), 7)),
    ("%c", _choice(4, {0x41: "A", 0x7A: "z", 0xFFFFFF61: "a"})),
    ("%X", _number(4, False, lambda value: f"{value:X}")),
    ("%D", _number(4, True, str)),
    ("%U", _number(4, False, str)),
    ("%O", _number(4, False, lambda value: f"{value:o}")),
    ("%-10.4s", _string([0x22], lambda value: value[:4].ljust(10))),
    ("%{xcode:size-in-bytes}llu", _number(8, False, str)),
    ("%{public,name=x}d", _number(4, True, str)),
    ("%{no:such}d", lambda rng: ("inline", 0, rng.randbytes(4),
                                "<decode: unsupported decoder: no:such>")),
    ("%{uuid_t}.8P", _bytes(lambda rng: (rng.randbytes(8), "<decode: unsupported value>"))),
    ("%{public}S", lambda rng: ("public", 0x22, b"abc", "<decode: missing decoder>")),
    ("%{sensitive,public}s", _unsupported),
] + _telemetry("description#____#attribute") + _telemetry(
    "telemetry#____#number1") + _telemetry("telemetry#____#number2") + _telemetry(
        "telemetry#____#number3")


class World:
    """The strings, processes and clocks of one logged system."""

    def __init__(self, rng, files, images, archive, many):
        self.rng = rng
        self.files = files
        self.archive = archive
        self.texts = {}
        self.caches = {}
        for number in range(images):
            self._uuidtext()
        for number in range(many or rng.randrange(1, 3)):
            self._dsc()

    def _path(self, *names):
        if self.archive:
            return "/".join(("a.logarchive",) + names)
        return "/".join(("uuidtext",) + names)

    def _block(self, rng, count):
        strings = Strings()
        formats = {}
        for _ in range(count):
            text, makers = format_string(rng)
            if rng.random() < 0.05:
                text, makers = "", []
            formats[strings.add(text)] = (text, makers)
        return bytes(strings.data), formats

    def _uuidtext(self):
        rng = self.rng
        identifier = uuid.UUID(bytes=rng.randbytes(16))
        path = f"/usr/lib/{word(rng)}"
        blocks = []
        formats = {}
        offset = rng.choice([0, 16, 4096])
        for _ in range(rng.choice([1, 1, 2, 4])):
            data, block = self._block(rng, rng.randrange(1, 6))
            blocks.append((offset, data))
            for position, item in block.items():
                formats[offset + position] = item
            # The next range often starts where this one ends.
            offset += len(data) + rng.choice([0, 0, 0, 1, 50])
        end = offset
        rng.shuffle(blocks)
        data = struct.pack("<4sIII", b"\x99\x88\x77\x66", 2, 1, len(blocks))
        for offset, block in blocks:
            data += struct.pack("<II", offset, len(block))
        data += b"".join(block for _, block in blocks)
        data += path.encode("utf-8") + b"\0"
        text = identifier.hex.upper()
        present = rng.random() < 0.92
        if present:
            self.files[self._path(text[:2], text[2:])] = data
        self.texts[identifier] = (path if present else None, formats if present else {}, end)
        return identifier

    def _dsc(self):
        rng = self.rng
        identifier = uuid.UUID(bytes=rng.randbytes(16))
        version = rng.choice([1, 2])
        count = rng.randrange(1, 6)
        images = []
        address = rng.randrange(1, 64) * 4096
        for _ in range(count):
            size = rng.randrange(1, 9) * 512
            images.append((address, size, uuid.UUID(bytes=rng.randbytes(16)),
                           f"/System/Library/{word(rng)}"))
            address += size + rng.choice([0, 0, 4096])
        ranges = []
        formats = {}
        offset = rng.choice([0, 64, 8192])
        if version == 2 and rng.random() < 0.3:
            offset += rng.choice([1, 3]) << 31
        for _ in range(rng.randrange(1, 8)):
            image = rng.randrange(count)
            data, block = self._block(rng, rng.randrange(1, 4))
            ranges.append((offset, data, image))
            for position, item in block.items():
                formats[offset + position] = item + (image,)
            offset += len(data) + rng.choice([0, 0, 0, 100])
        end = offset
        head = 16 + len(ranges) * (16 if version == 1 else 24) + count * (
            28 if version == 1 else 32)
        position = head
        places = []
        body = b""
        for _, data, _ in ranges:
            places.append(position + len(body))
            body += data
        paths = []
        for _, _, _, path in images:
            paths.append(position + len(body))
            body += path.encode("utf-8") + b"\0"
        data = struct.pack("<4sHHII", b"hcsd", version, 0, len(ranges), count)
        for (offset, block, image), place in zip(ranges, places):
            if version == 1:
                data += struct.pack("<IIII", image, offset, place, len(block))
            else:
                data += struct.pack("<QIIQ", offset, place, len(block), image)
        for (address, size, image, _), place in zip(images, paths):
            if version == 1:
                data += struct.pack("<II16sI", address, size, image.bytes, place)
            else:
                data += struct.pack("<QI16sI", address, size, image.bytes, place)
        assert len(data) == head
        present = rng.random() < 0.92
        if present or self.archive:
            present = True
            self.files[self._path("dsc", identifier.hex.upper())] = data + body
        self.caches[identifier] = (images, formats if present else {}, end, present)
        return identifier


class TraceProducer(Producer):
    """Log entries of every type, with the files that they refer to."""

    tags = ("stream",)
    runs = 220
    many = 0
    images = 6
    chunks = (1, 6)

    def __init__(self, name, main):
        self.name = name
        self.main = main
        self.archive = main.startswith("a.logarchive")

    def make(self, rng):
        files = {}
        self_world = World(rng, files, rng.randrange(1, 1 + self.images)
                           if not self.many else self.many, self.archive, self.many)
        writer = Writer(rng, self, self_world, files)
        writer.write()
        files[self.main] = bytes(writer.data)
        return Product(files, self.main, writer.expected, writer.ends)

    def session(self, context):
        from dtformats import unified_logging
        reader = context.make(unified_logging.TraceV3File)
        reader.Open(context.path(self.main))
        try:
            for entry in reader.ReadLogEntries():
                frames = None if entry.backtrace_frames is None else [
                    (frame.image_identifier, frame.image_offset)
                    for frame in entry.backtrace_frames]
                context.emit(
                    "entry", *[getattr(entry, name) for name in ATTRIBUTES], frames)
        finally:
            reader.Close()


class Writer:
    """Writes one tracev3 file."""

    def __init__(self, rng, producer, world, files):
        self.rng = rng
        self.producer = producer
        self.world = world
        self.files = files
        self.data = bytearray()
        self.expected = []
        self.ends = []
        self.pending = []
        self.boot = uuid.UUID(bytes=rng.randbytes(16))
        self.base = None
        self.sync = []
        self.timebase = rng.choice([(1, 1), (1, 1), (2, 1), (125, 1), (1, 4)])
        self.header_base = rng.choice([(1, 1), (3, 1), (1, 2)])
        self.header_time = rng.randrange(1, 1 << 30)
        self.oversize = {}
        self.hoisted = []

    def moment(self, bits):
        """A continuous time: often about that of an adjustment of the clock."""
        rng = self.rng
        if self.sync and rng.random() < 0.3:
            return max(0, rng.choice(self.sync)[0] + rng.choice([-4, 0, 0, 4]))
        return rng.getrandbits(bits) * 4

    def timestamp(self, time):
        scale = lambda value, base: int(value * base[0] / base[1])
        best = None
        for kernel_time, timestamp in self.sync:
            if kernel_time <= time and (best is None or kernel_time > best[0]):
                best = (kernel_time, timestamp)
        if best:
            return best[1] + scale(time - best[0], self.timebase)
        if self.base is not None:
            return self.base + scale(time, self.timebase)
        return self.header_time * 1000000000 + scale(time, self.header_base)

    def entry(self, frames, **values):
        values.setdefault("boot_identifier", self.boot)
        assert not set(values) - set(ATTRIBUTES), values
        self.pending.append(record(
            "entry", *[values.get(name) for name in ATTRIBUTES], frames))

    def flush(self):
        self.expected.extend(self.pending)
        self.ends.extend([len(self.data)] * len(self.pending))
        self.pending = []

    def chunk(self, tag, payload, sub_tag=0x11):
        self.data += bytes(-len(self.data) % 8)
        self.data += struct.pack("<IIQ", tag, sub_tag, len(payload)) + payload

    def timesync(self):
        rng = self.rng
        known = rng.random() < 0.85
        directory = "a.logarchive/timesync" if self.producer.archive else "diagnostics/timesync"
        if rng.random() < 0.05:
            return

        def boot(identifier):
            base = rng.randrange(1, 1 << 60)
            timebase = self.timebase if identifier == self.boot else (7, 1)
            extra = rng.choice([0, 0, 0, 8])
            return struct.pack(
                "<2sHI16sIIqiI", b"\xb0\xbb", 48 + extra, 0, identifier.bytes, *timebase,
                base, 60, 1) + bytes(extra), base

        def sync():
            kernel_time = rng.getrandbits(rng.choice([8, 20, 40, 44])) * 4
            timestamp = rng.randrange(1, 1 << 60)
            extra = rng.choice([0, 0, 0, 8])
            return struct.pack(
                "<2sHIQqiI", b"Ts", 32 + extra, 0, kernel_time, timestamp, 60, 1) + bytes(
                    extra), kernel_time, timestamp

        names = sorted(
            f"{rng.getrandbits(24):016x}" + rng.choice([".timesync", ".timesync", ".TIMESYNC"])
            for _ in range(rng.randrange(1, 4)))
        names = list(dict.fromkeys(names))
        home = rng.randrange(len(names))
        for number, name in enumerate(names):
            data = b""
            boots = [uuid.UUID(bytes=rng.randbytes(16)) for _ in range(rng.randrange(0, 3))]
            if known and number == home:
                boots.insert(rng.randrange(len(boots) + 1), self.boot)
            if rng.random() < 0.1:
                data += sync()[0]
            for identifier in boots:
                part, base = boot(identifier)
                data += part
                mine = identifier == self.boot
                if mine:
                    self.base = base
                seen = set()
                for _ in range(rng.choice([0, 1, 2, 5])):
                    part, kernel_time, timestamp = sync()
                    if kernel_time in seen:
                        continue
                    seen.add(kernel_time)
                    data += part
                    if mine:
                        self.sync.append((kernel_time, timestamp))
            self.files[f"{directory}/{name}"] = data
        if rng.random() < 0.3:
            self.files[f"{directory}/0000.other"] = b"not a timesync database"

    def header(self):
        rng = self.rng
        payload = struct.pack(
            "<IIQiIIiII", *self.header_base, rng.getrandbits(40), self.header_time, 0, 0,
            -60, 0, 1 | rng.choice([0, 2]))
        payload += struct.pack("<IIQ", 0x6100, 8, rng.getrandbits(40))
        payload += struct.pack("<IIII16s32s", 0x6101, 56, 0, 0, b"20A1", b"Mac1,1")
        payload += struct.pack("<II16sII", 0x6102, 24, self.boot.bytes, 100, 0)
        payload += struct.pack("<II48s", 0x6103, 48, b"/usr/share/zoneinfo/UTC")
        self.chunk(0x1000, payload)

    def write(self):
        rng = self.rng
        self.timesync()
        self.header()
        if self.base is not None:
            self.entry(
                None, event_type="timesyncEvent", mach_timestamp=0, thread_identifier=0,
                event_message=f"=== system boot: {str(self.boot).upper()}",
                timestamp=self.base, trace_identifier=0)
        for kernel_time, timestamp in self.sync:
            self.entry(
                None, event_type="timesyncEvent", mach_timestamp=kernel_time,
                event_message="=== system wallclock time adjusted", thread_identifier=0,
                parent_activity_identifier=0, timestamp=timestamp, trace_identifier=0)
        self.flush()
        for _ in range(rng.randrange(1, 4)):
            self.catalog()
            for _ in range(rng.randrange(*self.producer.chunks)):
                self.chunk_set()
        if rng.random() < 0.3:
            self.data += bytes(-len(self.data) % 8)

    def catalog(self):
        rng = self.rng
        identifiers = []

        def index(identifier):
            if identifier not in identifiers:
                identifiers.append(identifier)
            return identifiers.index(identifier)

        strings = Strings()
        self.processes = []
        texts = list(self.world.texts)
        caches = list(self.world.caches)
        entries = b""
        used = set()
        for number in range(rng.randrange(1, 4)):
            upper, lower = rng.choice([1, 2, 1 << 40]), rng.randrange(1, 4)
            if (upper, lower) in used:
                continue
            used.add((upper, lower))
            process = {
                "upper": upper, "lower": lower, "pid": rng.getrandbits(31),
                "main": rng.choice(texts) if rng.random() < 0.9 else None,
                "dsc": rng.choice(caches) if rng.random() < 0.9 else None,
                "loads": [], "subs": {},
            }
            loads = b""
            address = rng.randrange(1, 1 << 16) << 12
            high = rng.choice([0, 1, 0x7FFF])
            for _ in range(rng.choice([0, 1, 2, 5])):
                size = rng.randrange(1, 16) << 8
                text = rng.choice(texts)
                process["loads"].append((high, address, size, text))
                loads += struct.pack("<IIHIH", size, 0, index(text), address, high)
                address += size + rng.choice([0, 0, 4096])
            subs = b""
            numbers = rng.sample(range(1, 100), rng.choice([0, 1, 3]))
            for identifier in numbers:
                names = (f"com.{word(rng)}", word(rng))
                places = [strings.add(name) for name in names]
                process["subs"][identifier] = names
                subs += struct.pack("<HHH", identifier, *places)
            entry = struct.pack(
                "<HHhhQIIIIII", number, 0,
                index(process["main"]) if process["main"] else -1,
                index(process["dsc"]) if process["dsc"] else -1,
                upper, lower, process["pid"], 501, 0, len(process["loads"]), 0)
            entry += loads + struct.pack("<II", len(numbers), 0) + subs
            entries += entry + bytes(-len(entry) % 8)
            self.processes.append(process)
        sub_chunks = b""
        number_of_sub_chunks = rng.randrange(0, 3)
        for _ in range(number_of_sub_chunks):
            indexes = [rng.randrange(9) for _ in range(rng.randrange(0, 4))]
            sub = struct.pack("<QQIII", 1, 2, 3, 0x100, len(indexes))
            sub += b"".join(struct.pack("<H", item) for item in indexes)
            sub += struct.pack("<I", len(indexes))
            sub += b"".join(struct.pack("<H", item) for item in indexes)
            sub_chunks += sub + bytes(-len(sub) % 8)
        uuids = b"".join(identifier.bytes for identifier in identifiers)
        texts_data = bytes(strings.data)
        # The entries start aligned: the strings end with empty strings.
        texts_data += bytes(-len(texts_data) % 8)
        payload = struct.pack(
            "<HHHHH6sQ", len(uuids), len(uuids) + len(texts_data), len(self.processes),
            len(uuids) + len(texts_data) + len(entries), number_of_sub_chunks, bytes(6), 5)
        self.chunk(0x600B, payload + uuids + texts_data + entries + sub_chunks)

    def chunk_set(self):
        rng = self.rng
        body = bytearray()

        def put(tag, payload):
            body.extend(bytes(-len(body) % 8))
            body.extend(struct.pack("<IIQ", tag, 0, len(payload)) + payload)

        for _ in range(rng.randrange(1, 4)):
            kind = rng.random()
            if kind < 0.7:
                self.firehose(put)
            elif kind < 0.82:
                self.simple_dump(put)
            elif kind < 0.95:
                self.state_dump(put)
            else:
                put(0x6005, rng.randbytes(20))
        if self.hoisted:
            # What is too large for an entry was written some time before the entry.
            early = bytearray()
            for payload in self.hoisted:
                early.extend(bytes(-len(early) % 8))
                early.extend(struct.pack("<IIQ", 0x6002, 0, len(payload)) + payload)
            self.hoisted = []
            self.packed_set(bytes(early))
        self.packed_set(bytes(body))
        self.flush()

    def packed_set(self, data):
        if self.rng.random() < 0.7:
            packed = lz4.block.compress(data, store_size=False)
            payload = struct.pack("<4sII", b"bv41", len(data), len(packed)) + packed
        else:
            payload = struct.pack("<4sI", b"bv4-", len(data)) + data
        self.chunk(0x600D, payload + b"bv4$")

    def main_image(self, process):
        """What is known about the image of the process."""
        if process["main"] is None:
            return {}
        path = self.world.texts[process["main"]][0]
        if path is None:
            return {}
        return {"process_image_identifier": process["main"], "process_image_path": path}

    def simple_dump(self, put):
        rng = self.rng
        process = rng.choice(self.processes)
        time = self.moment(40)
        thread, address = rng.getrandbits(64), rng.getrandbits(64)
        sender = uuid.UUID(bytes=rng.randbytes(16))
        sub, message = word(rng), word(rng)
        log_type = rng.choice([0, 1, 16])
        texts = [text.encode("utf-8") + b"\0" for text in (sub, message)]
        put(0x6004, struct.pack(
            "<QIBBHQQQ16s16sIII", process["upper"], process["lower"], 0, log_type, 0, time,
            thread, address, sender.bytes, rng.randbytes(16), 0, len(texts[0]),
            len(texts[1])) + texts[0] + texts[1])
        self.entry(
            [(sender, address)], event_type="logEvent", event_message=message,
            message_type=TYPES[log_type], sub_system=sub, mach_timestamp=time,
            timestamp=self.timestamp(time), thread_identifier=thread, trace_identifier=0,
            process_identifier=process["pid"], sender_image_identifier=sender,
            sender_program_counter=address, **self.main_image(process))

    def state_dump(self, put):
        rng = self.rng
        process = rng.choice(self.processes)
        time = self.moment(40)
        activity = rng.choice([0, rng.getrandbits(64), rng.getrandbits(64)])
        sender = uuid.UUID(bytes=rng.randbytes(16))
        title = word(rng)
        kind = rng.choice([1, 2, 3])
        state = rng.randbytes(rng.randrange(0, 40))
        message = ""
        library, decoder = b"", b""
        if kind == 3:
            library, decoder = b"none", token(rng).encode()
            message = f"{title}\n<decode: unsupported decoder: none:{decoder.decode()}>"
        put(0x6003, struct.pack(
            "<QIBBHQQ16sII64s64s64s", process["upper"], process["lower"], 0, 0, 0, time,
            activity, sender.bytes, kind, len(state), library, decoder,
            title.encode("utf-8")) + state)
        self.entry(
            [(sender, 0)], event_type="stateEvent", event_message=message,
            mach_timestamp=time, timestamp=self.timestamp(time), trace_identifier=0,
            activity_identifier=activity & ~(1 << 63), process_identifier=process["pid"],
            sender_image_identifier=sender, **self.main_image(process))

    def image(self, process, kinds):
        """Chooses a string: (flags, reference, fields, format, image, pc, offset)."""
        rng = self.rng
        kind = rng.choice(kinds)
        low = rng.getrandbits(31)
        if kind == 4 and process["dsc"] is None or kind == 12 and process["dsc"] is None:
            kind = 10
        if kind == 2 and process["main"] is None:
            kind = 10
        if kind == 8 and not (process["loads"]):
            kind = 10
        text, makers, path, identifier, origin = None, [], None, None, 0
        fields = {"low": low}
        flags = kind
        if kind in (2, 8, 10):
            if kind == 2:
                identifier = process["main"]
            elif kind == 10:
                identifier = rng.choice(list(self.world.texts))
                fields["uuid"] = identifier
            else:
                high, address, size, identifier = rng.choice(process["loads"])
                where = rng.choice([0, 1, size - 1, rng.randrange(size)])
                fields["low"], fields["high"] = address + where, high
                origin = high << 32 | address
            path, formats, end = self.world.texts[identifier]
            if formats and rng.random() < 0.93:
                reference = rng.choice(sorted(formats))
                text, makers = formats[reference]
            elif rng.random() < 0.5 and path is not None:
                reference = 0x80000000 | rng.getrandbits(20)
                text, makers = "%s", [_string([0x20, 0x22])]
            else:
                reference = end + rng.choice([0, 1, 100])
                if path is not None:
                    # An offset that is out of bounds.
                    origin = 0
            if kind == 2 and rng.random() < 0.1 and text is None:
                pass
            address = fields["low"] | fields.get("high", 0) << 32
            return {"flags": flags, "reference": reference, "fields": fields, "text": text,
                    "makers": makers, "path": path, "identifier": identifier,
                    "pc": address - origin}
        images, formats, end, present = self.world.caches[process["dsc"]]
        identifier = process["dsc"]
        choice = rng.random()
        address = low
        if formats and choice < 0.85:
            reference = rng.choice(sorted(formats))
            text, makers, image = formats[reference]
            origin, _, identifier, path = images[image]
        elif formats and choice < 0.93:
            # A dynamic string: the reference is an address in an image.
            used = sorted({item[2] for item in formats.values()})
            image = rng.choice(used)
            origin, size, identifier, path = images[image]
            reference = 0x80000000 | origin + rng.choice([0, size - 1, rng.randrange(size)])
            text, makers = "%s", [_string([0x20, 0x22])]
        else:
            reference = end + rng.choice([0, 1, 100])
        large = reference >> 31
        if reference & 0x80000000 and reference < 1 << 32 and text == "%s" and len(
                makers) == 1 and choice >= 0.85:
            large = 0
            lower = reference
        else:
            lower = reference & 0x7FFFFFFF
        if kind == 12:
            fields["shared"] = large
            if large and rng.random() < 0.3:
                flags |= 0x20
                if rng.random() < 0.5 or not large >> 1:
                    fields["large"] = large >> 1
                    address = low | large << 31
                else:
                    fields["large"] = (large >> 1) + 1
                    address = low | fields["large"] << 32
                    identifier, origin, path = process["dsc"], 0, ""
                if not large >> 1:
                    address = low | large << 31
            else:
                address = low | large << 31
        elif large:
            flags |= 0x20
            fields["large"] = large
            address = low | large << 31
        return {"flags": flags, "reference": lower, "fields": fields, "text": text,
                "makers": makers, "path": path, "identifier": identifier,
                "pc": address - origin}

    @staticmethod
    def packed(fields):
        data = struct.pack("<I", fields["low"])
        if "large" in fields:
            data += struct.pack("<H", fields["large"])
        if "high" in fields:
            data += struct.pack("<H", fields["high"])
        if "uuid" in fields:
            data += fields["uuid"].bytes
        if "shared" in fields:
            data += struct.pack("<H", fields["shared"])
        return data

    def items(self, makers, private, private_base):
        """Data items, public data, private data and the expected texts."""
        rng = self.rng
        items = b""
        count = 0
        public = bytearray()
        texts = []
        for maker in makers:
            how, kind, data, text = maker(rng)
            if how == "private" and private is None:
                how, kind, data, text = _hidden(0x01)(rng)
            if how == "inline":
                items += struct.pack("<BB", rng.choice([0, 2]), len(data)) + data
            elif how == "hidden":
                if kind == 0x01:
                    items += struct.pack("<BBI", kind, 4, 0)
                else:
                    items += struct.pack("<BBHH", kind, 4, 0, 0x8000)
            elif how in ("public", "precise"):
                if how == "precise":
                    items += struct.pack("<BBI", rng.choice([0x10, 0x12]), 4, len(data))
                    count += 1
                items += struct.pack("<BBHH", kind, 4, len(public), len(data))
                public += data
            else:
                items += struct.pack(
                    "<BBHH", kind, 4, len(private) - private_base, len(data))
                private += data
            count += 1
            texts.append(text)
        return items, count, bytes(public), texts

    def message(self, image, texts):
        """The composed message."""
        if image["text"] is None:
            return ""
        if not image["makers"]:
            return plain(image["text"])
        texts = texts + ["<decode: missing data>"] * (len(image["makers"]) - len(texts))
        result = []
        rest = image["text"]
        for number, spec in enumerate(image["specs"]):
            before, rest = rest.split(spec, 1)
            result.append(plain(before) + texts[number])
        return "".join(result) + plain(rest)

    def firehose(self, put):
        rng = self.rng
        process = rng.choice(self.processes)
        base = rng.getrandbits(rng.choice([4, 20, 40])) * 4
        public = bytearray()
        # The size of the private data is only known at the end.
        private = bytearray()
        records = []
        oversized = []
        for _ in range(rng.randrange(1, 7)):
            if len(public) > 2000:
                break
            if rng.random() < 0.06:
                public += struct.pack("<BBHIQIHH", 0, 0, 0, 0, 0, 0, 0, 8) + bytes(8)
            self.tracepoint(process, base, public, private, oversized, records)
        if private:
            virtual = 4096 - len(private)
            for position, start in records:
                struct.pack_into("<H", public, position, virtual + start)
        else:
            virtual = 0
            for position, start in records:
                struct.pack_into("<H", public, position, 0)
        for payload in oversized:
            if rng.random() < 0.4:
                self.hoisted.append(payload)
            else:
                put(0x6002, payload)
        header = struct.pack(
            "<QIBBHHHHBBQ", process["upper"], process["lower"], 0, 0, 0, 32 + len(public),
            virtual | rng.choice([0, 0x1000]), 0, rng.choice([0, 2]), 0, base)
        gap = b"" if not private else bytes(rng.choice([0, 0, 8, 100]))
        put(0x6001, header + bytes(public) + gap + bytes(private))

    def tracepoint(self, process, base, public, private, oversized, records):
        rng = self.rng
        kind = rng.choice([2, 3, 4, 4, 4, 6, 6, 7])
        delta = rng.getrandbits(rng.choice([10, 30, 44])) * 4
        if rng.random() < 0.4:
            # At the time of an adjustment of the clock, not sooner than the base.
            delta = max(0, min(self.moment(44) - base, (1 << 46) - 4))
        time = base + delta
        thread = rng.getrandbits(64)
        values = {
            "mach_timestamp": time, "timestamp": self.timestamp(time),
            "thread_identifier": thread, "event_type": EVENTS[kind],
        }
        process_values = self.main_image(process)
        log_type, flags, reference = 0, 0, 0
        frames = None
        fixups = []
        if kind == 7:
            start, end, count = (
                rng.getrandbits(40) * 4, rng.getrandbits(41) * 4, rng.getrandbits(20))
            data = struct.pack("<QQQ", start, end, count)
            reference = rng.getrandbits(32)
            values.update(
                loss_count=count, loss_start_mach_timestamp=start,
                loss_end_mach_timestamp=end, loss_start_timestamp=self.timestamp(start),
                loss_end_timestamp=self.timestamp(end),
                event_message=(
                    f"lost >={count} unreliable messages from {start}-{end} "
                    "(Mach continuous exact start-approx. end)"))
            process_values.pop("process_image_path", None)
        else:
            if kind == 3 and process["main"] is None:
                kind = 4
                values["event_type"] = EVENTS[4]
            image = self.image(process, {3: [2]}.get(kind, [2, 2, 4, 4, 8, 10, 12]))
            image["specs"] = specs_of(image["text"] or "")
            flags, reference = image["flags"], image["reference"]
            located = self.packed(image["fields"])
            values.update(
                format_string=image["text"], sender_image_identifier=image["identifier"],
                sender_image_path=image["path"], sender_program_counter=image["pc"],
                process_identifier=process["pid"], ttl=0, activity_identifier=0)
            frames = [(image["identifier"], image["pc"])]
            activity = rng.getrandbits(64) if rng.random() < 0.5 else None
            head = b""
            if activity is not None and kind in (2, 4, 6):
                flags |= 1
                head += struct.pack("<Q", activity)
                values["activity_identifier"] = activity & ~(1 << 63)
            if kind == 2:
                log_type = rng.choice([1, 3])
                values["event_type"] = {
                    1: "activityCreateEvent", 3: "userActionEvent"}[log_type]
                values["activity_identifier"] = 0
                if rng.random() < 0.3:
                    flags |= 0x10
                    head += struct.pack("<Q", rng.getrandbits(32))
                other = 0
                if rng.random() < 0.5:
                    other = rng.getrandbits(64)
                    flags |= 0x200
                    head += struct.pack("<Q", other)
                values["parent_activity_identifier"] = other & ~(1 << 63)
                if log_type == 1:
                    new = rng.getrandbits(64)
                    head += struct.pack("<Q", new)
                    values["activity_identifier"] = new & ~(1 << 63)
                    values["creator_activity_identifier"] = activity or 0
                data = head + located
                values["event_message"] = self.message(image, [])
            elif kind == 3:
                sizes, blob, texts = b"", b"", []
                for _ in range(rng.randrange(0, 1 + len(image["makers"]))):
                    maker = image["makers"][len(texts)]
                    how, _, item, text = maker(rng)
                    if how != "inline" or len(item) not in (4, 8):
                        break
                    blob += item
                    sizes += bytes([len(item)])
                    texts.append(text)
                data = located + blob + sizes + bytes([len(sizes)])
                values["event_message"] = self.message(image, texts)
            else:
                makers = list(image["makers"])
                if makers and rng.random() < 0.1:
                    makers.pop()
                reference_number = 0
                range_at = None
                if rng.random() < 0.2:
                    reference_number = rng.randrange(1, 256)
                    hidden = bytearray()
                    items, count, public_values, texts = self.items(makers, hidden, 0)
                    oversized.append(struct.pack(
                        "<QIBBHQIHHBB", process["upper"], process["lower"], 0, 0, 0, time,
                        reference_number, len(public_values), len(hidden), 0, count) +
                        items + public_values + bytes(hidden))
                    # Another entry of this process may not reuse the number.
                    key = (process["upper"], process["lower"], reference_number)
                    if key in self.oversize:
                        oversized.pop()
                        items, count, public_values, texts, makers = self.oversize_like(
                            makers)
                        reference_number = 0
                    else:
                        self.oversize[key] = True
                    flags |= 0x800 if reference_number else 0
                    if reference_number:
                        items, count, public_values = b"", 0, b""
                else:
                    range_at = len(private)
                    items, count, public_values, texts = self.items(
                        makers, private, range_at)
                    if len(private) > range_at or rng.random() < 0.1:
                        flags |= 0x100
                        fixups.append((len(head), range_at))
                        head += struct.pack("<HH", 0, len(private) - range_at)
                if kind == 4:
                    log_type = rng.choice([0, 1, 2, 16, 17])
                    values["message_type"] = TYPES[log_type]
                else:
                    scope, state = rng.choice([4, 8, 12]), rng.choice([0, 1, 2])
                    log_type = scope << 4 | state
                    values["signpost_scope"] = {4: "thread", 8: "process", 12: "system"}[scope]
                    values["signpost_type"] = {0: "event", 1: "begin", 2: "end"}[state]
                head += located
                if rng.random() < 0.6:
                    flags |= 0x200
                    number = rng.choice(sorted(process["subs"]) + [0, 200])
                    head += struct.pack("<H", number)
                    if number in process["subs"]:
                        values["sub_system"], values["category"] = process["subs"][number]
                if kind == 6:
                    identifier = rng.getrandbits(64)
                    head += struct.pack("<Q", identifier)
                    values["signpost_identifier"] = identifier
                if rng.random() < 0.3:
                    flags |= 0x400
                    values["ttl"] = rng.randrange(256)
                    head += bytes([values["ttl"]])
                if reference_number:
                    head += bytes([reference_number])
                if kind == 6 and rng.random() < 0.5 and not flags & 0x20 and (
                        image["flags"] & 0xE in (2, 8, 10)):
                    flags |= 0x8000
                    _, formats, _ = self.world.texts[image["identifier"]]
                    name = rng.choice([0] + sorted(formats))
                    head += struct.pack("<I", name)
                    if name:
                        values["signpost_name"] = formats[name][0]
                head += struct.pack("<BB", 0, count) + items
                if kind == 4 and not public_values and not reference_number and (
                        rng.random() < 0.15):
                    flags |= 0x1000
                    known = [uuid.UUID(bytes=rng.randbytes(16)) for _ in range(
                        rng.randrange(1, 4))]
                    frames = []
                    indexes, offsets = b"", b""
                    for _ in range(rng.randrange(1, 5)):
                        place = rng.choice(list(range(len(known))) + [0xFF])
                        offset = rng.getrandbits(32)
                        indexes += bytes([place])
                        offsets += struct.pack("<I", offset)
                        frames.append((
                            uuid.UUID(int=0) if place == 0xFF else known[place], offset))
                    public_values = struct.pack(
                        "<HBBBB", 1, 0, len(known), len(frames), 0) + b"".join(
                            item.bytes for item in known) + offsets + indexes
                data = head + public_values
                values["event_message"] = self.message(image, texts)
                if kind == 6:
                    pass
        if kind == 3:
            values["message_type"] = "Default"
        elif kind == 2:
            values["message_type"] = TYPES[log_type]
        values["trace_identifier"] = reference << 32 | flags << 16 | log_type << 8 | kind
        public += bytes(-len(public) % 8)
        start = len(public)
        public += struct.pack(
            "<BBHIQIHH", kind, log_type, flags, reference, thread, delta & 0xFFFFFFFF,
            delta >> 32, len(data))
        for position, offset in fixups:
            records.append((start + 24 + position, offset))
        public += data
        public += bytes(-len(public) % 8)
        self.entry(frames, **process_values, **values)

    def oversize_like(self, makers):
        items, count, public_values, texts = self.items(makers, None, 0)
        return items, count, public_values, texts, makers


_SPEC_TEXTS = sorted((spec for spec, _ in SPECS), key=len, reverse=True)


def specs_of(text):
    """The operators of a format string, in order."""
    result = []
    position = 0
    while position < len(text):
        if text.startswith("%%", position):
            position += 2
        elif text[position] == "%":
            spec = next(item for item in _SPEC_TEXTS if text.startswith(item, position))
            result.append(spec)
            position += len(spec)
        else:
            position += 1
    return result


class ManyImages(TraceProducer):
    """More string files than the reader keeps open."""

    runs = 8
    many = 70
    chunks = (20, 30)


class RichTrace(TraceProducer):
    """Something of everything."""

    runs = 16
    images = 14
    chunks = (14, 18)


PRODUCERS = [
    RichTrace("aul_rich", "diagnostics/Special/0000000000000004.tracev3"),
    TraceProducer("aul_diagnostics", "diagnostics/Persist/0000000000000001.tracev3"),
    TraceProducer("aul_archive", "a.logarchive/Special/0000000000000002.tracev3"),
    TraceProducer("aul_live", "a.logarchive/logdata.LiveData.tracev3"),
    ManyImages("aul_many", "diagnostics/Persist/0000000000000003.tracev3"),
]
