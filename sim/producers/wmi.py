"""Reference producer of WMI (CIM) repositories, format 2.1, 2.2 and 2.0."""

import hashlib
import struct

from sim.producers import base
from sim.producers.base import Product, record, token

PAGE = 8192
NONE = 0xFFFFFFFF

# name of the type qualifier: (data type, struct format)
FIXED = {
    "boolean": (0x0B, "<H"), "uint8": (0x11, "<B"), "uint16": (0x12, "<H"),
    "sint32": (0x03, "<i"), "uint32": (0x13, "<I"), "uint64": (0x15, "<Q"),
    "sint8": (0x10, "<b"), "sint16": (0x02, "<h"), "sint64": (0x14, "<q"),
    "real32": (0x04, "<f"), "real64": (0x05, "<d"),
}
STRINGS = {"string": 0x08, "datetime": 0x65, "ref:target": 0x66}
ARRAYS = {"uint8": 0x2011, "boolean": 0x200B, "sint32": 0x2003}
PREDEFINED = {"key": 1, "read": 3, "write": 4, "provider": 6, "dynamic": 7, "type": 10}


def pack(layout, *values):
    return struct.pack("<" + layout, *values)


class Values:
    """The values data of a class definition or an instance."""

    def __init__(self):
        self.data = bytearray()

    def add(self, data):
        offset = len(self.data)
        self.data += data
        return offset

    def string(self, text):
        return self.add(b"\0" + text.encode("cp1252") + b"\0")


class Class:
    """A class definition: own properties are (name, type, kind, offset, overrides)."""

    def __init__(self, name, parent):
        self.name = name
        self.parent = parent
        self.own = []

    def chain(self):
        result = []
        here = self
        while here:
            result.insert(0, here)
            here = here.parent
        return result

    def properties(self):
        result = {}
        for part in self.chain():
            for name, what, kind, offset, repeated in part.own:
                if not repeated:
                    result[name.lower()] = (name, what, kind, offset)
        return list(result.values())

    def size(self):
        top = [(offset, struct.calcsize(FIXED[what][1]) if kind == "fixed" else 4)
               for _, what, kind, offset in self.properties()]
        return sum(max(top)) if top else 0


def names(rng, size=12):
    text = token(rng, rng.randrange(1, size))
    return rng.choice([text, text.title(), "W_" + text, text + "\u00e9"])


def value_of(rng, what, kind):
    if kind == "fixed":
        layout = FIXED[what][1]
        if what == "boolean":
            return rng.choice([True, False])
        if what == "real32":
            return struct.unpack(layout, pack("f", rng.uniform(-9, 9)))[0]
        if what == "real64":
            return rng.uniform(-1e9, 1e9)
        raw = rng.choice([
            rng.randbytes(struct.calcsize(layout)), b"\xff" * struct.calcsize(layout),
            bytes(struct.calcsize(layout))])
        return struct.unpack(layout, raw)[0]
    if kind == "string":
        return rng.choice([None, "", token(rng, rng.choice([1, 9, 300])), "na\u00efve \u20ac"])
    if kind == "strings":
        if rng.random() < 0.2:
            return None
        return [token(rng, rng.randrange(0, 12)) for _ in range(rng.randrange(1, 5))]
    return None


class Builder:
    """What both repository layouts share."""

    def __init__(self, rng, full):
        self.rng = rng
        self.full = full

    def classes(self, single=False):
        """Class definitions, base classes first. single: without inheritance."""
        rng = self.rng
        result = []
        used = set()
        namespace = Class("__NAMESPACE", None)
        namespace.own.append(("Name", "string", "string", 0, False))
        for _ in range(rng.randrange(1, 6)):
            name = names(rng)
            if name.lower() in used:
                continue
            used.add(name.lower())
            parent = None
            if not single:
                parent = rng.choice([None, *result, *result[-1:], *result[-1:]])
            result.append(self.fill(Class(name, parent), parent.size() if parent else 0))
        return [namespace] + result

    def fill(self, definition, offset):
        rng = self.rng
        parent = definition.parent
        used = {row[0].lower() for row in parent.properties()} if parent else set()
        if parent and parent.properties() and rng.random() < 0.3:
            name, what, kind, where = rng.choice(parent.properties())
            if kind != "array":
                definition.own.append((name, what, kind, where, True))
        for _ in range(rng.choice([0 if parent else 1, 1, 3, 4, 5, 9])):
            name = names(rng)
            if name.lower() in used:
                continue
            used.add(name.lower())
            kind = rng.choice(["fixed", "fixed", "string", "string", "strings", "array"])
            what = {"fixed": lambda: rng.choice(list(FIXED)),
                    "string": lambda: rng.choice(list(STRINGS)),
                    "strings": lambda: "string",
                    "array": lambda: rng.choice(list(ARRAYS))}[kind]()
            definition.own.append((name, what, kind, offset, False))
            offset += struct.calcsize(FIXED[what][1]) if kind == "fixed" else 4
        # Properties are reported in this order, which is not the order of the values.
        rng.shuffle(definition.own)
        return definition

    def data_type(self, what, kind):
        return {"fixed": lambda: FIXED[what][0], "string": lambda: STRINGS[what],
                "strings": lambda: 0x2008, "array": lambda: ARRAYS[what]}[kind]()

    def qualifier(self, values, name, value):
        rng = self.rng
        if name in PREDEFINED and rng.random() < 0.8:
            where = 0x80000000 | PREDEFINED[name]
        else:
            where = values.string(name)
        head = pack("IB", where, rng.randrange(2))
        if isinstance(value, bool):
            return head + pack("IH", 0x0B, 0xFFFF if value else 0)
        if isinstance(value, str):
            return head + pack("II", 0x08, values.string(value))
        if isinstance(value, float):
            return head + pack("Id", 0x05, value)
        if isinstance(value, list):
            return head + pack("II", 0x2008, values.add(
                pack("I", len(value)) + b"".join(pack("I", 0) for _ in value)))
        number, layout = rng.choice([(2, "h"), (3, "i"), (0x14, "q"), (0x13, "I"), (0x12, "H"),
                                     (0x10, "b"), (0x11, "B"), (0x15, "Q")])
        return head + pack("I" + layout, number, value)

    def class_block(self, definition):
        """The class definition block, without its size."""
        rng = self.rng
        values = Values()
        if rng.random() < 0.5:
            values.add(rng.randbytes(rng.randrange(1, 9)))
        name_offset = values.string(definition.name)
        qualifiers = b""
        for name in rng.sample(["abstract", "dynamic", "provider", "version", "Locale", "UUID"],
                               rng.randrange(0, 4)):
            value = {"abstract": True, "dynamic": False, "provider": "cimwin32",
                     "version": 2.5, "Locale": 103, "UUID": ["a", "b"]}[name]
            qualifiers += self.qualifier(values, name, value)
        descriptors = b""
        rows = definition.own
        for index, (name, what, kind, offset, repeated) in enumerate(rows):
            where = values.string(name)
            block = b""
            extra = rng.sample([("read", True), ("MaxLen", 12), ("Description", "text"),
                                ("write", False), ("scale", 0.5)], rng.randrange(0, 3))
            if not repeated:
                spelled = what if rng.random() < 0.7 else what.upper()
                extra.insert(rng.randrange(len(extra) + 1), ("type", spelled))
            for qualifier, value in extra:
                block += self.qualifier(values, qualifier, value)
            definition_offset = values.add(pack(
                "IHIII", self.data_type(what, kind), index, offset,
                len(definition.chain()) - 1, 4 + len(block)) + block)
            descriptors += pack("II", where, definition_offset)
        parent = b""
        if definition.parent:
            parent = b"\0" + definition.parent.name.encode("cp1252") + b"\0"
            parent += pack("I", len(parent) + 4)
        default = rng.randbytes((len(rows) + 3) // 4 + definition.size())
        return b"".join([
            pack("BII", rng.randrange(2), name_offset, len(default)),
            pack("I", 4 + len(parent)), parent,
            pack("I", 4 + len(qualifiers)), qualifiers,
            pack("I", len(rows)), descriptors, default,
            pack("I", 0x80000000 | len(values.data)), bytes(values.data)])

    def instance(self, definition, fixed=None):
        """The values of an instance and its block, without its size."""
        rng = self.rng
        values = Values()
        name_offset = values.string(definition.name)
        area = bytearray(rng.randbytes(definition.size()))
        reported = []
        for name, what, kind, offset in definition.properties():
            value = (fixed or {}).get(name, value_of(rng, what, kind))
            if kind == "fixed":
                layout = FIXED[what][1]
                raw = struct.pack(layout, 0xFFFF if value is True else value)
            elif kind == "string":
                raw = pack("I", 0 if value is None else values.string(value))
            elif kind == "strings":
                where = 0
                if value is not None:
                    entries = [values.string(text) for text in value]
                    where = values.add(pack("I", len(value)) + b"".join(
                        pack("I", entry) for entry in entries))
                raw = pack("I", where)
            else:
                raw = pack("I", values.add(rng.randbytes(8)))
            area[offset:offset + len(raw)] = raw
            reported.append((name, value))
        dynamic = pack("B", 1)
        if rng.random() < 0.3:
            entries = [rng.randbytes(rng.choice([0, 1, 9])) for _ in range(rng.randrange(0, 3))]
            dynamic = pack("BI", 2, len(entries)) + b"".join(
                pack("I", 4 + len(entry)) + entry for entry in entries)
        qualifiers = rng.randbytes(rng.choice([0, 0, 7]))
        bits = rng.randbytes((len(reported) + 3) // 4)
        block = b"".join([
            pack("IB", name_offset, rng.randrange(2)), bits, bytes(area),
            pack("I", 4 + len(qualifiers)), qualifiers, dynamic,
            pack("I", 0x80000000 | len(values.data)), bytes(values.data)])
        return reported, block


def described(definition, reported, namespace):
    derivation = [part.name for part in definition.chain()[:-1]][::-1]
    return record(
        "instance", definition.name, derivation, (derivation + [None, None])[1],
        (derivation + [None])[0], reported, namespace)


class Pages:
    """Mapped pages placed at random physical pages."""

    def __init__(self):
        self.pages = []

    def add(self, data):
        assert len(data) <= PAGE
        self.pages.append(data)
        return len(self.pages) - 1

    def place(self, rng, full):
        """The file and, for every mapped page, its physical page."""
        count = len(self.pages) + (rng.randrange(0, 3) if full else 0)
        where = rng.sample(range(count), len(self.pages))
        data = bytearray()
        for number in range(count):
            page = rng.randbytes(PAGE)
            if number in where:
                page = self.pages[where.index(number)]
                page += (rng.randbytes if full else bytes)(PAGE - len(page))
            data += page
        return bytes(data), where


class RepositoryProducer(base.Producer):
    """Repositories with an index, mapping files and objects data."""

    main = "Repository/INDEX.BTR"
    tags = ("traced",)
    whole = True
    instances = 2
    runs = 200

    def __init__(self, version):
        self.version = version
        self.name = "wmi_" + version.replace(".", "")

    def hash(self, text):
        function = hashlib.md5 if self.version == "2.1" else hashlib.sha256
        digest = function(text.upper().encode("utf-16-le")).hexdigest()
        return digest.upper()

    def objects(self, rng, records):
        """Places records; returns the pages and the key values."""
        pages = Pages()
        order = list(range(len(records)))
        rng.shuffle(order)
        where = {}
        while order:
            if rng.random() < 0.3 and pages.pages:
                pages.add(rng.randbytes(rng.randrange(0, 100)))
            data = records[order[0]]
            if len(data) > PAGE - 32 or rng.random() < 0.15:
                number = order.pop(0)
                slack = rng.choice([0, 0, 4, 40])
                identifier = rng.getrandbits(32) or 1
                offset = 32 + slack
                if len(data) <= PAGE - 32 and rng.random() < 0.6:
                    offset = PAGE - len(data) + rng.choice([0, 0, 1, len(data) // 2])
                    offset = max(32, min(offset, PAGE - 1))
                head = pack("4I", identifier, offset, len(data), rng.getrandbits(32)) + bytes(16)
                head += rng.randbytes(offset - len(head))
                first = PAGE - offset
                page = pages.add(head + data[:first])
                for start in range(first, len(data), PAGE):
                    pages.add(data[start:start + PAGE])
                where[number] = (page, identifier, len(data))
                continue
            take, used = [], 16
            while order and len(take) < 40:
                data = records[order[0]]
                if used + 16 + len(data) > PAGE:
                    break
                used += 16 + len(data)
                take.append(order.pop(0))
                if rng.random() < 0.1:
                    break
            table, body = b"", b""
            start = 16 * (len(take) + 1)
            identifiers = rng.sample(range(1, 200), len(take))
            page = len(pages.pages)
            for number, identifier in zip(take, identifiers):
                data = records[number]
                table += pack("4I", identifier, start + len(body), len(data), 0)
                body += data
                where[number] = (page, identifier, len(data))
            pages.add(table + bytes(16) + body)
        if not pages.pages:
            pages.add(bytes(16))
        return pages, where

    def index(self, rng, keys):
        """Writes the keys as a tree; returns the pages and the keys in tree order."""
        pages = Pages()
        root = 1
        pages.add(pack("4I", 0xADDD, 0, 0, root))
        pages.add(b"")
        if self.version == "2.1" and rng.random() < 0.4:
            pages.add(pack("4I", 0xBADD, 2, 0, 0))
            root = pages.add(b"")
            pages.pages[1] = pack("4I", 0xBADD, 1, 0, 0)
            pages.pages[0] = pack("4I", 0xADDD, 0, 0, root)
        order = []

        def page(number, mine):
            count = min(len(mine), rng.choice([1, 2, 5, 20]))
            here, rest = mine[:count], mine[count:]
            order.extend(here)
            children = []
            slots = rng.sample(range(count + 1), rng.randrange(1, min(count, 4) + 2))
            slots.sort()
            pending = []
            for position, slot in enumerate(slots):
                last = position == len(slots) - 1
                share = len(rest) if last else rng.randrange(len(rest) + 1)
                part, rest = rest[:share], rest[share:]
                if part:
                    pending.append((slot, part))
            for slot, part in pending:
                children.append((slot, pages.add(b""), part))
            subs = [rng.choice([0, NONE]) for _ in range(count + 1)]
            for slot, child, _ in children:
                subs[slot] = child
            pages.pages[number] = self.page(rng, number, root, here, subs)
            for _, child, part in children:
                page(child, part)
        page(root, keys)
        return pages, order

    def page(self, rng, number, root, keys, subs):
        values, offsets, area = {}, [], bytearray()
        pieces = [key[1:].split("\\") for key in keys]
        pool = sorted({piece for parts in pieces for piece in parts})
        rng.shuffle(pool)
        for piece in pool:
            values[piece] = len(offsets)
            offsets.append(len(area))
            area += piece.encode() + b"\0"
        words, starts = b"", {}
        order = list(range(len(keys)))
        rng.shuffle(order)
        for index in order:
            starts[index] = len(words) // 2
            words += pack(f"H{len(pieces[index])}H", len(pieces[index]),
                          *(values[piece] for piece in pieces[index]))
        count = len(keys)
        data = b"".join([
            pack("4I", 0xACCC, number, 0, root),
            pack(f"I{count}I", count, *(rng.getrandbits(32) for _ in keys)),
            pack(f"{count + 1}I", *subs),
            pack(f"{count}H", *(starts[index] for index in range(count))),
            pack("H", len(words) // 2), words,
            pack(f"H{len(offsets)}H", len(offsets), *offsets),
            pack("H", len(area)), bytes(area)])
        if len(data) > PAGE:
            raise OverflowError(len(data))
        return data

    def mapping(self, rng, table, sequence):
        """One mapping, format 1."""
        spare = rng.randrange(0, 3)
        unknown = [rng.getrandbits(32) for _ in range(rng.randrange(1, 4))]
        entries = table + [NONE] * spare
        if self.version == "2.1":
            return b"".join([
                pack("3I", 0xABCD, sequence, len(entries)),
                pack(f"I{len(entries)}I", len(entries), *entries),
                pack(f"I{len(unknown)}I", len(unknown), *unknown), pack("I", 0xDCBA)])
        return b"".join([
            pack("5I", 0xABCD, sequence, 8, 7, len(entries)),
            pack("I", len(entries)),
            *(pack("6I", entry, *(rng.getrandbits(32) for _ in range(5))) for entry in entries),
            pack(f"I{len(unknown)}I", len(unknown), *unknown), pack("I", 0xDCBA)])

    def spell(self, rng, name):
        return "Repository/" + rng.choice([
            name.upper(), name.lower(), name.title(), name.swapcase()])

    def contents(self, rng):
        """The records, the keys with the number of their record, the model."""
        builder = Builder(rng, self.full)
        classes = builder.classes()
        records, keys = [], []

        def add(data):
            records.append(data)
            return len(records) - 1
        system = self.hash("__SystemClass")
        for definition in classes:
            block = builder.class_block(definition)
            parent = definition.parent.name if definition.parent else ""
            data = pack("I", len(parent)) + parent.encode("utf-16-le") + pack(
                "QI", rng.getrandbits(60), 4 + len(block)) + block
            if self.full and rng.random() < 0.3:
                data += pack("I", 4 + 9) + rng.randbytes(9)
            space = system if definition.parent is None else self.hash(
                rng.choice(["ROOT", "ROOT\\CIMV2"]))
            keys.append((f"\\NS_{space}\\CD_{self.hash(definition.name)}", add(data)))
        model = []

        def instance(space, definition, fixed=None):
            reported, block = builder.instance(definition, fixed)
            data = self.hash(definition.name).encode("utf-16-le") + pack(
                "QQI", rng.getrandbits(60), rng.getrandbits(60), 4 + len(block)) + block
            number = add(data)
            unique = self.hash(token(rng))
            where = f"\\NS_{self.hash(space)}"
            which = rng.choice(["I", "IL", "both"])
            if which != "IL":
                keys.append((f"{where}\\KI_{self.hash(definition.name)}\\I_{unique}", number))
                model.append((number, definition, reported))
            if which == "both" and not fixed and rng.random() < 0.5:
                number = add(data)
            if which != "I":
                keys.append((f"{where}\\CI_{self.hash(definition.name)}\\IL_{unique}", number))
                model.append((number, definition, reported))
        spaces = ["ROOT", "ROOT\\CIMV2"]
        found = []
        for _ in range(rng.randrange(0, 5)):
            parent = rng.choice([space for space in spaces if space.count("\\") < 3])
            name = token(rng, rng.randrange(3, 10))
            instance(parent, classes[0], {"Name": name})
            spaces.append(parent + "\\" + name)
            found.append(parent + "\\" + name)
        for _ in range(rng.choice([0, 1, 4, 25])):
            instance(rng.choice(spaces), rng.choice(classes[1:]))
        for space in spaces[2:]:
            keys.append((f"\\NS_{self.hash(space)}\\CR_{self.hash('x')}\\{rng.choice('CR')}_"
                         f"{self.hash(token(rng))}", None))
        for _ in range(rng.randrange(0, 3)):
            strings = [token(rng, rng.randrange(1, 20)) for _ in range(4)]
            data = b"".join(pack("I", len(text)) + text.encode("utf-16-le")
                            for text in strings) + rng.randbytes(8)
            keys.append((f"\\NS_{system}\\KI_{self.hash(token(rng))}\\IR_{self.hash('y')}"
                         f"\\R_{self.hash(token(rng))}", add(data)))
        if rng.random() < 0.5:
            number = add(rng.randbytes(rng.choice([1, 3000, 20000])))
            keys.append((f"\\NS_{system}\\XX_{self.hash(token(rng))}", number))
        return records, keys, model, found

    def make(self, rng):
        while True:
            try:
                return self.attempt(rng)
            except OverflowError:
                continue

    def attempt(self, rng):
        records, keys, model, found = self.contents(rng)
        pages, where = self.objects(rng, records)
        objects, objects_map = pages.place(rng, self.full)
        spelled = []
        numbers = {}
        for key, number in keys:
            if number is not None:
                key += ".{:d}.{:d}.{:d}".format(*where[number])
            spelled.append(key)
            numbers[key] = number
        spelled = sorted(set(spelled))
        if rng.random() < 0.3:
            rng.shuffle(spelled)
        pages, order = self.index(rng, spelled)
        index, index_map = pages.place(rng, self.full)
        files = {self.main: index, self.spell(rng, "objects.data"): objects}
        sequence = rng.randrange(5, 1000)
        if self.version == "2.1":
            main = self.mapping(rng, index_map, sequence)
            other = self.mapping(rng, objects_map, sequence)
            if self.full:
                if rng.random() < 0.3:
                    other += self.mapping(rng, [99] * len(objects_map), sequence + 1)
                if rng.random() < 0.3:
                    main += rng.choice([b"", bytes(4), bytes(40)])
            files[self.spell(rng, "index.map")] = main
            files[self.spell(rng, "objects.map")] = other
            if self.full and rng.random() < 0.3:
                files[self.spell(rng, "mapping1.map")] = rng.randbytes(10)
        else:
            active = rng.choice([1, 2, 3])
            for number in {active, *rng.sample([1, 2, 3], rng.randrange(0, 3))}:
                if number == active:
                    tables, rank = (objects_map, index_map), sequence
                else:
                    tables, rank = ([77] * 30, [78] * 30), rng.randrange(sequence)
                files[self.spell(rng, f"mapping{number}.map")] = b"".join(
                    self.mapping(rng, table, rank) for table in tables)
            if self.full and rng.random() < 0.6:
                files[self.spell(rng, "mapping.ver")] = pack(
                    "I", rng.choice([active, active, 0, 9]))
        if self.full and rng.random() < 0.3:
            files["Repository/cim.rep"] = b"stale"
        reports = [record("key", key) for key in order]
        by_number = {}
        for number, definition, reported in model:
            by_number[number] = (definition, reported)
        for key in order:
            kind = key.rsplit("\\", 1)[1].partition("_")[0]
            if numbers[key] in by_number and kind in ("I", "IL"):
                definition, reported = by_number[numbers[key]]
                # The namespace is only known of namespaces.
                reports.append(described(definition, reported, None))
        reports.extend(record("namespace", space) for space in sorted(found))
        for key in order:
            if numbers[key] is not None:
                kind = key.rsplit("\\", 1)[1].partition("_")[0]
                reports.append(record("object", kind, records[numbers[key]]))
        size = len(index)
        return Product(files, self.main, reports, [size] * len(reports))

    def session(self, context):
        from dtformats import wmi_repository

        reader = context.make(wmi_repository.CIMRepository)
        reader.Open(context.path("Repository"))
        try:
            keys = []
            for key in reader.GetIndexKeys():
                context.emit("key", key)
                keys.append(key)
            for instance in reader.GetInstances():
                context.emit(
                    "instance", instance.class_name, instance.derivation, instance.dynasty,
                    instance.super_class_name, list(instance.properties.items()),
                    instance.namespace)
            for space in sorted(instance.namespace for instance in reader.GetNamespaces()):
                context.emit("namespace", space)
            for key in keys:
                if "." in key:
                    found = reader.GetObjectRecordByKey(key)
                    if found:
                        context.emit("object", found.data_type, found.data)
        finally:
            reader.Close()



class CimRepProducer(base.Producer):
    """Repositories of format 2.0: a single file with a tree of nodes."""

    name = "wmi_20"
    main = "FS/cim.rep"
    tags = ("traced",)
    whole = True
    instances = 2
    runs = 250

    def make(self, rng):
        builder = Builder(rng, self.full)
        cells = []

        def cell(write, footer=True):
            """write: called with at(cell) to give the data of the cell."""
            tail = rng.randbytes(12) if footer else b""
            padding = rng.choice([0, 0, 4, 8, 20])
            cells.append([write, tail, padding])
            return cells[-1]

        def at(which):
            return offsets[id(which)] if which is not None else nothing(which)

        def nothing(_):
            return 0

        def name_node(text):
            data = text.encode("utf-16-le") + b"\0\0"
            return cell(lambda at: data + bytes(-len(data) % 4))

        def tree(values):
            """A tree of at most 10 values."""
            if not values:
                if rng.random() < 0.5:
                    return cell(lambda at: pack("3I", 0, 0, 0))
                return None
            if len(values) == 1 and rng.random() < 0.7:
                return cell(lambda at: pack("3I", 1, 1, at(values[0])))
            slots = values + [None] * (10 - len(values))
            if rng.random() < 0.4:
                # Empty slots are anywhere.
                where = sorted(rng.sample(range(10), len(values)))
                slots = [None] * 10
                for slot, value in zip(where, values):
                    slots[slot] = value
            leaf = cell(lambda at: pack("10I", *(at(value) for value in slots)))
            branch = cell(lambda at: pack("4I", len(values), 10, 0, at(leaf)))
            return cell(lambda at: pack("3I", 2, len(values), at(branch)))

        def listed(values):
            elements = []
            for value in values:
                name = name_node(token(rng)) if rng.random() < 0.5 else None

                def write(at, value=value, name=name, number=len(elements)):
                    following = elements[number + 1] if number + 1 < len(elements) else None
                    before = elements[number - 1] if number else None
                    return pack("7I", 1, at(name), at(value), 0, 0, at(before), at(following))
                elements.append(cell(write))
            return cell(lambda at: pack(
                "5I", 0, at(elements[0] if elements else None),
                at(elements[-1] if elements else None), 0, len(elements)))

        roots = {}

        def class_root(definition, instances=(), children=()):
            """A class definition root; definition may be None for a plain container."""
            branch = None
            if definition is not None:
                block = builder.class_block(definition)
                extra = rng.randbytes(rng.choice([0, 5]))
                data = pack("I", 4 + len(block)) + block + pack("I", 4 + len(extra)) + extra
                leaf = cell(lambda at: data + bytes(-len(data) % 4))
                branch = cell(lambda at: pack("5I", 0, 0, 7, at(leaf), 7))
            chain = listed(instances) if instances else None
            sub = tree(list(children)) if children else None
            kind = rng.choice([9, 10]) if sub else rng.choice([0, 1])
            text = tree([name_node(token(rng)) for _ in range(rng.randrange(0, 3))])
            return cell(lambda at: pack(
                "8I", 0, at(branch), 0, kind, at(chain), at(sub), 0, at(text)))

        def instance(definition, fixed=None):
            """An instance branch node and what is reported of it."""
            if definition not in roots:
                roots[definition] = class_root(definition)
            root = roots[definition]
            reported, block = builder.instance(definition, fixed)
            leaf = cell(lambda at: pack("I", 4 + len(block)) + block)
            return cell(lambda at: pack("5I", 0, at(root), 2, at(leaf), 3)), reported

        spaces = Class("__NAMESPACE", None)
        spaces.own.append(("Name", "string", "string", 0, False))
        builder.fill(spaces, 4)
        classes = builder.classes(single=True)[1:]
        instances, found = [], []

        def space(path, depth):
            name = token(rng, rng.randrange(2, 9))
            here = path + [name]
            branch, reported = instance(spaces, {"Name": name})
            found.append("\\".join(here))
            instances.append((spaces, reported, found[-1]))
            leaves = []
            for _ in range(rng.choice([0, 1, 2, 5]) if depth < 2 else 0):
                child = space(here, depth + 1)
                label = name_node(token(rng)) if rng.random() < 0.6 else None
                leaves.append(cell(
                    lambda at, child=child, label=label: pack("II", at(label), at(child))))
            top = tree(leaves)
            label = name_node(name)
            five = None
            chain = None
            if rng.random() < 0.3 and classes:
                chain = listed([class_root(rng.choice(classes))])
            none = rng.choice([0, NONE]) if top is None else 0
            return cell(lambda at: pack(
                "7I", at(top) or none, at(label), at(branch), 0, at(chain), 0, at(five)))

        root = space([], 0)
        defined = []

        def hierarchy(depth):
            definition = rng.choice(classes + [None]) if classes else None
            mine = []
            if classes:
                for _ in range(rng.choice([0, 0, 1, 3])):
                    owner = rng.choice(classes)
                    node, reported = instance(owner)
                    mine.append(node)
                    defined.append((owner, reported, None))
            children = []
            for _ in range(rng.choice([0, 1, 3]) if depth < 2 else 0):
                children.append(hierarchy(depth + 1))
            return class_root(definition, mine, children)

        system = hierarchy(0)
        for _ in range(rng.randrange(0, 4)):
            name_node(token(rng))
        rng.shuffle(cells)
        # Place the cells in bins.
        offsets, position = {}, 40
        bins, started = [], 0
        for entry in cells:
            if position - started > rng.choice([60, 500, 5000]) and position > 40:
                bins.append(position)
                started = position
                position += 4
            offsets[id(entry)] = position + 4
            entry.append(position)
            position += 4 + len(entry[0](lambda which: 0)) + len(entry[1]) + entry[2]
        edges = bins + [position + rng.randrange(1, 999)]
        data = bytearray(struct.pack(
            "<10I", cells.index(system), cells.index(root), position, 0, 0, position, 0, 0, 0,
            edges[0]))
        sizes = dict(zip(bins, (b - a for a, b in zip(edges, edges[1:]))))
        for write, tail, padding, where in cells:
            if len(data) in sizes:
                data += pack("I", sizes[len(data)])
            assert len(data) == where, (len(data), where)
            body = write(at) + tail + bytes(padding)
            data += pack("I", 4 + len(body)) + body
        if self.full and rng.random() < 0.3:
            data += pack("I", 0) + rng.randbytes(rng.randrange(0, 99))
        reports = [described(*row[:2], None) for row in instances]
        reports.extend(described(*row) for row in instances)
        reports.extend(described(*row) for row in defined)
        return Product({self.main: bytes(data)}, self.main, reports, [len(data)] * len(reports))

    def session(self, context):
        from dtformats import wmi_repository

        def report(instance):
            context.emit(
                "instance", instance.class_name, instance.derivation, instance.dynasty,
                instance.super_class_name, list(instance.properties.items()),
                instance.namespace)
        reader = context.make(wmi_repository.CIMRepository)
        reader.Open(context.path(self.main))
        try:
            for instance in reader.GetInstances():
                report(instance)
            for instance in reader.GetNamespaces():
                report(instance)
        finally:
            reader.Close()
        reader = context.make(wmi_repository.RepositoryFile)
        reader.Open(context.path(self.main))
        try:
            for instance in reader.ReadClassDefinitions():
                report(instance)
        finally:
            reader.Close()


PRODUCERS = [
    RepositoryProducer("2.1"), RepositoryProducer("2.2"), CimRepProducer()]
