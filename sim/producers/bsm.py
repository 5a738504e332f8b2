"""Producer of Basic Security Module audit trails."""

import struct

from sim.producers import base
from sim.producers.base import Product, record, token
from sim.producers.small import Report


def _ip(data):
    if len(data) == 4:
        return ".".join(str(octet) for octet in data)
    return ":".join(f"{data[index] << 8 | data[index + 1]:04x}" for index in range(0, 16, 2))


class BsmProducer(Report):
    """Audit records: a header, tokens and a trailer."""

    name = "bsm_gen"
    main = "audit.bsm"
    tags = ("stream",)
    instances = 3
    runs = 300
    module, reader = "bsm", "BSMEventAuditingFile"
    known = {1: "exit(2)", 2: "fork(2)", 23: "execve(2)", 32: "connect(2)", 112: "close(2)",
             200: "setuid(2)", 0xFFFE: "UNKNOWN"}

    # Tokens of which only the type is printed, by the hexadecimal dump.
    silent = (0x32, 0x34, 0x3B, 0x3C, 0x3D)

    def token(self, rng, kind):
        """Returns the body of a token and its fields."""
        pack = struct.pack

        def text(limit=300):
            return token(rng, rng.choice([0, 1, 5, 40, limit]))

        def number(bits=32):
            return rng.choice([0, 1, (1 << bits) - 1, rng.getrandbits(bits)])

        def signed():
            return rng.choice([0, 501, -1, -2, -1 << 31, rng.getrandbits(31)])

        if kind in (0x2D, 0x71):
            wide = kind == 0x71
            index, name, value = number(8), number(64 if wide else 32), text()
            return pack(">BQH" if wide else ">BIH", index, name, len(value) + 1) + (
                value.encode() + b"\0"), {
                    "Argument index": str(index), "Argument name": f"0x{name:08x}",
                    "Argument value size": str(len(value) + 1), "Argument value": value}
        if kind in (0x3E, 0x73):
            wide = kind == 0x73
            one, mode, uid, gid = number(16), number(16), signed(), signed()
            system, identifier, device = number(), number(64), number(64 if wide else 32)
            return pack(">HHiiIQ" + ("Q" if wide else "I"), one, mode, uid, gid, system,
                        identifier, device), {
                "Unknown1": f"0x{one:04x}", "File mode": f"0x{mode:04x}",
                "User identifier (UID)": str(uid), "Group identifier (GID)": str(gid),
                "File system identifier": f"0x{system:08x}",
                "File identifier": f"0x{identifier:08x}", "Device": f"0x{device:08x}"}
        if kind == 0x21:
            how, unit, count = rng.randrange(5), rng.randrange(4), rng.choice([1, 2, 9, 255])
            return pack("BBB", how, unit, count) + rng.randbytes(count << unit), {
                "Data format": f"0x{how:02x}", "Element data type": f"0x{unit:02x}",
                "Number of elements": str(count)}
        if kind in (0x52, 0x27, 0x72):
            status = number(32 if kind == 0x52 else 8)
            value = number(64 if kind == 0x72 else 32)
            return pack(">I" if kind == 0x52 else ">B", status) + pack(
                ">Q" if kind == 0x72 else ">I", value), {
                    "Status": f"0x{status:08x}", "Return value": f"0x{value:08x}"}
        if kind == 0x2A:
            address = rng.randbytes(4)
            return address, {"IP address": _ip(address)}
        if kind == 0x7E:
            address = rng.randbytes(16)
            return pack(">I", 16) + address, {"Net type": "16", "IP address": _ip(address)}
        if kind == 0x2B:
            source, target = rng.randbytes(4), rng.randbytes(4)
            return rng.randbytes(12) + source + target, {
                "Source IP address": _ip(source), "Destination IP address": _ip(target)}
        if kind == 0x22:
            what, identifier = number(8), number()
            return pack(">BI", what, identifier), {
                "Object type": f"0x{what:02x}", "Object identifier": f"0x{identifier:08x}"}
        if kind == 0x2C:
            port = number(16)
            return pack(">H", port), {"Port number": str(port)}
        if kind == 0x29:
            size = rng.choice([1, 16, 17, 300])
            return pack(">H", size) + rng.randbytes(size), {"Data size": str(size)}
        if kind == 0x11:
            when, micro, value = number(31), rng.randrange(1000000), text()
            return pack(">IIH", when, micro, len(value) + 1) + value.encode() + b"\0", {
                "Timestamp": base.posix(when), "Microseconds": str(micro),
                "Name size": str(len(value) + 1), "Name": value}
        if kind in (0x23, 0x28, 0x60):
            value = text(1500)
            name = {0x23: "Path", 0x28: "Text", 0x60: "Name"}[kind]
            return pack(">H", len(value) + 1) + value.encode() + b"\0", {
                f"{name} size": str(len(value) + 1), name: value}
        if kind == 0x2F:
            value = number()
            return pack(">I", value), {"Sequence number": str(value)}
        if kind == 0x7F:
            size = rng.choice([4, 16])
            domain, what, near, far = (number(16) for _ in range(4))
            local, remote = rng.randbytes(size), rng.randbytes(size)
            return pack(">HHHH", domain, what, size, near) + local + pack(
                ">H", far) + remote, {
                    "Socket domain": f"0x{domain:04x}", "Socket type": f"0x{what:04x}",
                    "Net type": str(size), "Local port": str(near), "Remote port": str(far),
                    "Local IP address": _ip(local), "Remote IP address": _ip(remote)}
        if kind in (0x80, 0x81):
            family, port = number(16), number(16)
            address = rng.randbytes(4 if kind == 0x80 else 16)
            return pack(">HH", family, port) + address, {
                "Socket family": f"0x{family:04x}", "Local port": str(port),
                "Local IP address": _ip(address)}
        if kind == 0x82:
            family, value = number(16), text(100)
            return pack(">H", family) + value.encode() + b"\0", {
                "Socket family": f"0x{family:04x}", "Socket path": value}
        if kind in (0x24, 0x26, 0x75, 0x77, 0x7A, 0x7B, 0x7C, 0x7D):
            wide = kind in (0x75, 0x77, 0x7C, 0x7D)
            users = [signed() for _ in range(5)]
            pid, session, port = number(), number(), number(64 if wide else 32)
            data = pack(">5iII" + ("Q" if wide else "I"), *users, pid, session, port)
            values = {
                "Audit user identifier": users[0], "Effective user identifier": users[1],
                "Effective group identifier": users[2], "Real user identifier": users[3],
                "Real group identifier": users[4], "Process identifier (PID)": pid,
                "Session identifier": session, "Terminal port": port}
            size = 4
            if kind >= 0x7A:
                size = rng.choice([4, 16])
                data += pack(">I", size)
                values["Net type"] = size
            address = rng.randbytes(size)
            values["IP address"] = _ip(address)
            return data + address, {name: str(value) for name, value in values.items()}
        if kind == 0x32:
            return rng.randbytes(28), {}
        if kind in (0x34, 0x3B):
            count = rng.choice([1, 2, 16])
            return pack(">I", count) + rng.randbytes(4 * count), {}
        count = rng.choice([1, 2, 16])
        return pack(">I", count) + b"".join(
            text(50).encode() + b"\0" for _ in range(count)), {}

    kinds = (
        0x2D, 0x71, 0x3E, 0x73, 0x21, 0x52, 0x27, 0x72, 0x2A, 0x7E, 0x2B, 0x22, 0x2C, 0x29,
        0x11, 0x23, 0x28, 0x60, 0x2F, 0x7F, 0x80, 0x81, 0x82, 0x24, 0x26, 0x75, 0x77, 0x7A,
        0x7B, 0x7C, 0x7D, 0x32, 0x34, 0x3B, 0x3C, 0x3D)

    def make(self, rng):
        trail, expected, ends = bytearray(), [], []
        for _ in range(rng.randrange(0, 10)):
            body, rows = bytearray(), []
            for _ in range(rng.choice([0, 1, 3, 8])):
                kind = rng.choice(self.kinds)
                data, values = self.token(rng, kind)
                body += bytes([kind]) + data
                if kind not in self.silent:
                    rows.append((kind, values, len(body)))
            kind = rng.choice([0x14, 0x14, 0x15, 0x74, 0x79])
            event = rng.choice(list(self.known))
            modifier = rng.getrandbits(16)
            when, micro = rng.getrandbits(31), rng.randrange(1000)
            extra, values = b"", {}
            if kind in (0x15, 0x79):
                address = rng.randbytes(rng.choice([4, 16]))
                extra = struct.pack(">I", len(address)) + address
                values = {"Net type": str(len(address)), "IP address": _ip(address)}
            times = struct.pack(">QQ" if kind in (0x74, 0x79) else ">II", when, micro)
            size = 10 + len(extra) + len(times) + len(body) + 7
            values.update({
                "Record size": str(size), "Format version": "11",
                "Event type": f"0x{event:04x} ({self.known[event]})",
                "Modifier": f"0x{modifier:04x}", "Timestamp": base.posix(when),
                "Microseconds": str(micro)})
            trail += struct.pack(">BIBHH", kind, size, 11, event, modifier) + extra + times
            rows.insert(0, (kind, values, 0))
            start = len(trail)
            trail += body + struct.pack(">BHI", 0x13, 0xB105, size)
            rows.append((0x13, {"Signature": "0xb105", "Record size": str(size)},
                         len(body) + 7))
            for kind, values, end in rows:
                expected.append(record("token", f"0x{kind:02x}", sorted(values.items())))
                ends.append(start + end)
        return Product({self.main: bytes(trail)}, self.main, expected, ends)

    descriptions = (
        "Token type", "Argument index", "Argument name", "Argument value size",
        "Argument value", "Unknown1", "File mode", "User identifier (UID)",
        "Group identifier (GID)", "File system identifier", "File identifier", "Device",
        "Data format", "Element data type", "Number of elements", "Status", "Return value",
        "Record size", "Format version", "Event type", "Modifier", "Timestamp",
        "Microseconds", "Net type", "IP address", "Source IP address",
        "Destination IP address", "Object type", "Object identifier", "Port number",
        "Data size", "Name size", "Name", "Path size", "Path", "Sequence number",
        "Socket domain", "Socket type", "Local port", "Local IP address", "Remote port",
        "Remote IP address", "Socket family", "Socket path", "Audit user identifier",
        "Effective user identifier", "Effective group identifier", "Real user identifier",
        "Real group identifier", "Process identifier (PID)", "Session identifier",
        "Terminal port", "Text size", "Text", "Signature")

    def observe(self, outcome):
        result = []
        for name, value in base.fields(outcome.text, *self.descriptions):
            if name == "Token type":
                result.append((value, []))
            else:
                result[-1][1].append((name, value))
        return [record("token", kind, sorted(values)) for kind, values in result]


PRODUCERS = [BsmProducer()]
