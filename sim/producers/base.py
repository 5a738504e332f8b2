"""Reference producers: independent writers of the formats that dtformats reads.

A producer writes a file (or a set of files) from values it chose itself, and
knows after how many bytes of the main file every record is complete. It shares
no code or definition with dtformats: it is the reference model of P03.
"""

import copy
import datetime
import re

from sim import session as session_module
from sim import subjects


def record(tag, *values):
    """The history line that Context.emit() records for these values."""
    return tag + " " + " ".join(session_module.canon(value) for value in values)


class Product:
    """What a producer wrote.

    files: {name: data}; main: name of the file written in order;
    expected: the record histories, in order; ends: for every record the number
    of bytes of main needed to report it.
    """

    def __init__(self, files, main, expected, ends):
        self.files = files
        self.main = main
        self.expected = expected
        self.ends = ends
        assert len(expected) == len(ends), (len(expected), len(ends))


class Producer:
    """A reference producer.

    torn: what a reader may do with an incomplete tail: "error" (must raise) or
    "either". live: complete records have to be reported while the file is
    still being written.
    """

    name = ""
    main = "evidence.bin"
    live = True
    debug_only = False
    tags = ()
    # The file is only complete as a whole: a prefix of it is not usable.
    whole = False
    # How many fixed products take part as subjects in the other properties.
    instances = 1
    # How many products the quick tier of P03 checks.
    runs = 400
    # False for a subject of the other properties: the files have no bytes that
    # do not count, and the session does not report what only holds of all of
    # the evidence.
    full = True

    def make(self, rng):
        raise NotImplementedError

    def session(self, context):
        raise NotImplementedError

    def observe(self, outcome):
        """The record histories of an outcome."""
        return outcome.records

    def subject(self, rng, name=None):
        producer = copy.copy(self)
        producer.full = False
        product = producer.make(rng)
        subject = subjects.Subject(
            name or self.name, product.files, producer.session, tags=self.tags)
        subject.product = product
        subject.producer = producer
        return subject


_DUMP = re.compile(r"^0x([0-9a-f]{8})  (.{48})")


def fields(text, *descriptions):
    """The (description, value) lines of a report, in order."""
    wanted = set(descriptions)
    result = []
    for line in text.split("\n"):
        if "\t: " in line:
            description, _, value = line.partition("\t: ")
            description = description.rstrip("\t")
            if description in wanted:
                result.append((description, value))
        elif "\t:" in line and line.endswith(":"):
            description = line[:-1].rstrip("\t")
            if description in wanted:
                result.append((description, ""))
    return result


def dumps(text, *descriptions):
    """The (description, bytes) hexadecimal dumps of a report, in order."""
    wanted = set(descriptions)
    result = []
    lines = text.split("\n")
    index = 0
    while index < len(lines):
        line = lines[index]
        index += 1
        if not line.endswith(":") or line[:-1] not in wanted:
            continue
        data = bytearray()
        previous = b""
        while index < len(lines):
            if lines[index] == "...":
                index += 1
                continue
            match = _DUMP.match(lines[index])
            if not match:
                break
            offset = int(match.group(1), 16)
            while len(data) < offset and previous:
                data += previous
            previous = bytes.fromhex(match.group(2).replace(" ", ""))
            data += previous
            index += 1
        result.append((line[:-1], bytes(data)))
    return result


def token(rng, size=8):
    """A token that is unique for practical purposes."""
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(size))


def size_near(rng, *edges, low=0, high=64):
    """A size, often next to an edge."""
    if edges and rng.random() < 0.6:
        return max(low, rng.choice(edges) + rng.randrange(-2, 3))
    return rng.randrange(low, high)


def rows(text, *descriptions, tag="row"):
    """The records of a report of which every one starts with the first description.

    The last value printed for a description counts; a description that is not
    printed for a record is not part of it.
    """
    result = []
    current = None
    for description, value in fields(text, *descriptions):
        if description == descriptions[0]:
            if current is not None:
                result.append(row(current, tag=tag))
            current = {}
        if current is not None:
            current[description] = value
    if current is not None:
        result.append(row(current, tag=tag))
    return result


def row(values, tag="row"):
    """The expected record for rows()."""
    return record(tag, sorted(values.items()))


_EPOCH = datetime.datetime(1970, 1, 1)


def date(seconds, fraction=0, digits=0):
    """The text of a date and time in seconds since January 1, 1970."""
    value = (_EPOCH + datetime.timedelta(seconds=seconds)).strftime("%Y-%m-%d %H:%M:%S")
    value = value.rjust(19, "0")
    if digits:
        value += f".{fraction:0{digits}d}"
    return value + " UTC"


def posix(seconds):
    return date(seconds) if seconds else "Not set (0)"


def filetime(value):
    if value == 0:
        return "Not set (0)"
    if value == 0x7FFFFFFFFFFFFFFF:
        return "Never (0x7fffffffffffffff)"
    seconds, fraction = divmod(value, 10000000)
    return date(seconds - 11644473600, fraction, 7)


def random_filetime(rng):
    return rng.choice([0, 0x7FFFFFFFFFFFFFFF, 1] + [rng.randrange(1, 2600000000000000000)] * 9)


def clean(rng, size):
    """A text without control characters of at most size bytes in UTF-8."""
    value = token(rng, rng.randrange(size + 1))
    if size > 8 and rng.random() < 0.3:
        value = value[:size - 6] + rng.choice(["\u00e9", "\u65e5", " ", "=:"])
    return value
