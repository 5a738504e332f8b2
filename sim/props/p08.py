"""P08: a range or an archive member behaves as a file of exactly its bytes."""

import os
import random

from sim import engine
from sim import registry
from sim import session
from sim import world as world_module
from sim.props import common


class Model:
    """A read-only file of these bytes, of which the tail may be missing."""

    def __init__(self, data, size):
        self.data = data
        self.size = size
        self.position = 0

    def read(self, size):
        if size is None or size < 0:
            size = self.size
        return self.data[self.position : min(self.size, self.position + size)]

    def seek(self, offset, whence):
        if whence == os.SEEK_CUR:
            offset += self.position
        elif whence == os.SEEK_END:
            offset += self.size
        elif whence != os.SEEK_SET:
            return False
        if offset < 0:
            return False
        self.position = offset
        return True


class Mismatch(Exception):
    """A file-like object did not do what the model does."""


def step(rng, name, view, model, injected):
    """One operation on a view, compared with its model."""
    kind = rng.choice(["read", "read", "read", "seek", "tell", "size"])
    if kind == "read":
        size = rng.choice([
            None, -1, 0, 1, 2, 3, 7, 512, model.size, model.size + 1,
            rng.randrange(model.size + 2), max(0, model.size - model.position)])
        want = model.read(size)
        before = model.position
        try:
            got = view.read() if size is None and rng.random() < 0.5 else view.read(size)
        except OSError as exception:
            if not injected():
                raise Mismatch(f"{name}: read({size}) at {before} failed: {exception}")
            if view.tell() != before:
                raise Mismatch(f"{name}: failed read({size}) moved {before} to {view.tell()}")
            return
        if injected() and want.startswith(got) and len(got) < len(want):
            model.position += len(got)
        elif got != want:
            raise Mismatch(
                f"{name}: read({size}) at {before} of {model.size} returned {len(got)} bytes "
                f"{got[:16].hex()} expected {len(want)} bytes {want[:16].hex()}")
        else:
            model.position += len(got)
    elif kind == "seek":
        whence = rng.choice([os.SEEK_SET, os.SEEK_SET, os.SEEK_CUR, os.SEEK_END, 9])
        offset = rng.choice([
            0, 1, -1, model.size, -model.size, rng.randrange(-model.size - 2, model.size + 9),
            rng.randrange(model.size + 1)])
        before = model.position
        want = model.seek(offset, whence)
        try:
            if whence == os.SEEK_SET and rng.random() < 0.5:
                view.seek(offset)
            else:
                view.seek(offset, whence)
            got = True
        except OSError:
            got = False
        if got != want:
            raise Mismatch(f"{name}: seek({offset}, {whence}) at {before} of {model.size} "
                           f"{'worked' if got else 'failed'}")
    elif kind == "size":
        if view.get_size() != model.size or not view.seekable():
            raise Mismatch(f"{name}: size {view.get_size()} expected {model.size}")
    if view.tell() != model.position or view.get_offset() != model.position:
        raise Mismatch(f"{name}: {kind} ended at {view.tell()} expected {model.position}")


def slice_of(data, offset, size):
    return data[offset : offset + size]


class Property(common.Property):
    id = "P08"
    chunk = 60
    fault_kinds = ("EIO", "short", "interleave")
    nontrivial_rule = "operations on at least two views that share a file were interleaved"

    def cases(self, tier, seed):
        count = 60000 if tier == "thorough" else 30000
        rng = random.Random(f"{seed}:P08")
        return [
            {"kind": rng.choice(["range", "range", "member"]), "seed": f"{seed}-{number}",
             "faults": rng.choice([0, 0, 1, 3]), "ops": rng.choice([10, 40, 120])}
            for number in range(count)
        ]

    def run(self, case):
        rng = random.Random(f"P08:{case['seed']}")
        producer = None
        if case["kind"] == "member":
            producer = {item.name: item for item in registry.producers()}["cpio_archive"]
            subject = producer.subject(rng)
        else:
            size = rng.choice([0, 1, 100, 5000])
            subject = registry.subjects.Subject("range", {"data": rng.randbytes(size)}, None)
        subject.root = "/simfs/evidence"
        faults = [
            {"op": "read", "nth": rng.randrange(case["ops"]), "arg": rng.choice([0, 300, 900]),
             "kind": rng.choice(["EIO", "short"])}
            for _ in range(case["faults"])]
        tally = {"ops": 0, "views": 0}

        def session_body(context):
            world = context.world
            fired = []

            def injected():
                """Whether a fault took effect since the last operation."""
                return len(world.fired) > len(fired)

            if producer:
                world.faults = []
                views, close = self.members(context, subject, rng)
                # What the archive itself reads is the matter of P01.
                world.faults = [dict(fault, seen=0, fired=0) for fault in faults]
            else:
                views, close = self.ranges(context, subject, rng)
            tally["views"] = len(views)
            try:
                current = 0
                for _ in range(case["ops"] if views else 0):
                    if rng.random() < 0.6:
                        current = rng.randrange(len(views))
                    name, view, model = views[current]
                    fired[:] = world.fired
                    step(rng, name, view, model, injected)
                    tally["ops"] += 1
            finally:
                close()

        subject.session = session_body
        outcome, world = session.run_single(
            subject, subject.files, faults=() if producer else faults, trace=False)
        violation = None
        if isinstance(outcome.error, Mismatch):
            violation = f"model: {outcome.error_text}"
        elif outcome.error is not None:
            violation = f"error: {outcome.summary()}"
        elif world.leaked():
            violation = f"leaked: {world.leaked()}"
        counters = {"ops": tally["ops"], f"kind:{case['kind']}": 1,
                    "fault:interleave": int(tally["views"] > 1)}
        for fired in world.fired:
            counters[f"fault:{fired[0]}"] = counters.get(f"fault:{fired[0]}", 0) + 1
        return engine.Verdict(
            violation=violation, key=(case["kind"], (violation or "")[:6]), counters=counters,
            steps=world.steps, nontrivial=tally["views"] > 1,
            digest=engine.digest_of(case["kind"], case["seed"], world.steps, violation),
            note=outcome.summary())

    def ranges(self, context, subject, rng):
        """Ranges of one file, and ranges of ranges."""
        from dtformats import data_range
        data = subject.files["data"]
        file_object = open(context.path("data"), "rb")
        views = []
        for number in range(rng.randrange(1, 6)):
            offset = rng.choice([0, 1, len(data), rng.randrange(len(data) + 1)])
            size = rng.choice([0, 1, len(data), rng.randrange(len(data) + 20)])
            base, content, name = file_object, data, "file"
            inside = None
            if views and rng.random() < 0.4:
                # A range of a range moves the position of the outer range.
                inside = rng.randrange(len(views))
                name, base, model = views[inside]
                content = slice_of(model.data, 0, model.size)
            view = data_range.DataRange(base, data_offset=offset, data_size=size)
            views.append((
                f"{name}[{offset}:{offset}+{size}]", view,
                Model(slice_of(content, offset, size), size)))
            if inside is not None:
                views[inside] = None
                views = [item for item in views if item is not None]
        return views, file_object.close

    def members(self, context, subject, rng):
        """Members of one archive, and a second reader on the same archive."""
        from dtformats import cpio
        readers = []
        for _ in range(rng.choice([1, 1, 2])):
            reader = context.make(cpio.CPIOArchiveFile)
            reader.Open(context.path(subject.product.main))
            readers.append(reader)
        content = {}
        for line in subject.product.expected:
            if line.startswith("entry "):
                name = line.split("'")[1]
                content[name] = bytes.fromhex(line.rsplit("b:", 1)[1])
        views = []
        for number, reader in enumerate(readers):
            names = [entry.path for entry in reader.GetFileEntries()]
            if names != list(content):
                raise Mismatch(f"members {names} expected {list(content)}")
            for name in names:
                if not reader.FileEntryExistsByPath(name):
                    raise Mismatch(f"member {name} does not exist")
                if reader.FileEntryExistsByPath(name + "x") or reader.GetFileEntryByPath(
                        name + "x") is not None:
                    raise Mismatch(f"member {name}x exists")
                data = content[name]
                views.append((
                    f"{number}:{name}", reader.GetFileEntryByPath(name),
                    Model(data, len(data))))

        def close():
            for reader in readers:
                reader.Close()
        return views, close

    def shrink(self, case):
        for ops in (10, 40):
            if ops < case["ops"]:
                yield dict(case, ops=ops)
        if case["faults"]:
            yield dict(case, faults=0)


PROP = Property()
