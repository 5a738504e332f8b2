"""Disturbances of one session, as data: I/O faults, cuts, corruption, writer failures."""


from sim import session

WORDS = (0, 1, 2, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFF, 0x10000)
LONG_WORDS = ((1 << 64) - 1, (1 << 63) - 1, 1 << 63, 1 << 62, 1 << 55, 0x7FF0 << 48,
              0x7FF8 << 48, 0xFFF0 << 48, 0x7E37 << 48, 0x4E37 << 48)


class WriterFailure(OSError):
    """The output (a full disk, a closed pipe) failed."""


def corrupt(data, change):
    """Applies one stored-data fault to the content of a file."""
    kind, offset = change[0], change[1]
    result = bytearray(data)
    if kind == "cut":
        return bytes(result[:offset])
    if kind == "zero":
        size = min(change[2], max(0, len(result) - offset))
        result[offset : offset + size] = bytes(size)
    elif kind == "copy":
        part = bytes(result[change[2] : change[2] + change[3]])
        size = min(len(part), max(0, len(result) - offset))
        result[offset : offset + size] = part[:size]
    elif kind == "flip":
        if offset < len(result):
            result[offset] ^= change[2]
    elif kind == "word":
        size, value, order = change[2], change[3], change[4]
        if offset + size <= len(result):
            result[offset : offset + size] = (value & ((1 << (8 * size)) - 1)).to_bytes(
                size, order)
    elif kind == "fill":
        pattern = bytes.fromhex(change[2]) * change[3]
        size = min(len(pattern), max(0, len(result) - offset))
        result[offset : offset + size] = pattern[:size]
    elif kind == "append":
        result += bytes.fromhex(change[2])
    return bytes(result)


def random_change(rng, data, spots=None):
    """A random stored-data fault; spots are offsets that the reader visits."""
    size = max(1, len(data))
    if spots and rng.random() < 0.75:
        start, length = rng.choice(spots)
        offset = start + rng.randrange(max(1, min(length, 4096)))
    else:
        offset = rng.randrange(size)
    offset = min(offset, size - 1)
    kind = rng.choice(["flip", "flip", "word", "word", "word", "zero", "copy"])
    if kind == "flip":
        return ["flip", offset, 1 << rng.randrange(8)]
    if kind == "word":
        width = rng.choice([1, 2, 4, 4, 4, 8, 8])
        if rng.random() < 0.5:
            offset -= offset % width
        value = rng.choice(list(WORDS) + [
            rng.randrange(size), offset, max(0, offset - 8), size, size - 1,
            rng.getrandbits(32)])
        if width == 8 and rng.random() < 0.7:
            # Times and sizes beyond every limit, not a number and infinity.
            value = rng.choice(LONG_WORDS)
        return ["word", offset, width, value, rng.choice(["little", "little", "big"])]
    if kind == "zero":
        block = rng.choice([4, 16, 512, 512, 4096])
        return ["zero", offset - offset % block, block]
    block = rng.choice([4, 16, 512])
    source = rng.randrange(size)
    return ["copy", offset - offset % block, source - source % block, block]


def apply(subject, plan):
    """Returns (files, faults, fail_write) of a plan.

    plan: {"fault": kind, "nth": n, "arg": a, "persist": bool},
    {"file": name, "change": [...]}, {"content": n, "change": [...]} (the nth piece
    that is decompressed) or {"write": n}; all optional.
    """
    files = subject.files
    if plan.get("change") and plan.get("content") is None:
        files = dict(files)
        files[plan["file"]] = corrupt(files[plan["file"]], plan["change"])
    faults = []
    if plan.get("fault"):
        faults.append({"op": "any", "nth": plan["nth"], "kind": plan["fault"],
                       "arg": plan.get("arg", 0), "persist": plan.get("persist", False)})
    fail_write = None
    if plan.get("write") is not None:
        fail_write = (plan["write"], WriterFailure(28, "No space left on device"))
    return files, faults, fail_write


def content_of(plan):
    """The damage inside of compressed data, or None."""
    if plan.get("content") is None:
        return None
    return plan["content"], lambda data: corrupt(data, plan["change"])


def run(subject, plan, debug, budget, text_budget=1 << 28, pool=None, sites=False):
    files, faults, fail_write = apply(subject, plan)
    return session.run_single(
        subject, files, faults=faults, debug=debug, budget=budget, trace=False,
        fail_write=fail_write, pool=pool, text_budget=text_budget, sites=sites,
        content=content_of(plan))


def random_plan(rng, subject, golden, kinds=("none", "io", "cut", "change", "write")):
    """A random disturbance of a session with this undisturbed history."""
    kind = rng.choice(kinds)
    if kind == "io":
        site = rng.choice(sorted(golden.sites))
        number = rng.choice(golden.sites[site])
        if site[0] in ("stat", "list"):
            return {}
        if site[0] == "read":
            fault, arg = rng.choice([
                ("EIO", 0), ("shrink", 0), ("shrink", 500), ("short", 0), ("short", 700),
                ("cancel", 0), ("nomem", 0)])
        else:
            fault, arg = rng.choice([("EIO", 0), ("cancel", 0), ("nomem", 0)])
        return {"fault": fault, "nth": number, "arg": arg}
    if kind == "change" and golden.contents and rng.random() < 0.4:
        number = rng.randrange(len(golden.contents))
        return {"content": number,
                "change": random_change(rng, bytes(golden.contents[number]))}
    if kind in ("cut", "change") and golden.opened:
        filename = rng.choice(golden.opened)[len(subject.root) + 1 :]
        data = subject.files[filename]
        spots = [
            (operation[3], operation[2]) for operation in golden.ops
            if operation[0] == "read" and operation[1].endswith(filename)
        ]
        if kind == "change" and rng.random() < 0.5:
            # Every place in the code that reads gets its turn, however few its reads.
            sites = [site for site in sorted(golden.sites) if site[0] == "read"]
            if sites:
                operation = golden.ops[rng.choice(golden.sites[rng.choice(sites)])]
                if operation[1].endswith(filename):
                    spots = [(operation[3], operation[2])]
        if kind == "cut":
            if spots and rng.random() < 0.7:
                position, size = rng.choice(spots)
                return {"file": filename,
                        "change": ["cut", position + rng.randrange(max(1, size))]}
            return {"file": filename, "change": ["cut", rng.randrange(len(data) + 1)]}
        return {"file": filename, "change": random_change(rng, data, spots)}
    if kind == "write" and golden.writes:
        return {"write": rng.randrange(golden.writes)}
    return {}


def field_plans(rng, subject, golden, sites):
    """Extreme values in the fields of the structures that these call sites read."""
    result = []
    for site in sites:
        _, path, size, position = golden.ops[rng.choice(golden.sites[site])]
        for offset in range(position, position + min(size, 96), 2):
            for order in ("little", "big"):
                value = rng.choice(LONG_WORDS + WORDS[3:])
                width = 8 if value > 0xFFFFFFFF else rng.choice([4, 4, 2])
                result.append({
                    "file": path[len(subject.root) + 1 :],
                    "change": ["word", offset, width, value, order]})
    return result


def shrink_plan(plan):
    """Simpler plans."""
    if plan.get("fault") and plan["fault"] not in ("EIO", "cancel"):
        yield dict(plan, fault="EIO", arg=0)
    change = plan.get("change")
    if change and change[0] == "cut" and change[1]:
        yield dict(plan, change=["cut", 0])
        yield dict(plan, change=["cut", change[1] // 2])
    if change and change[0] in ("zero", "copy") and change[-1] > 4:
        half = change[-1] // 2
        yield dict(plan, change=change[:-1] + [half])
        if change[0] == "zero":
            yield dict(plan, change=["zero", change[1] + half, half])
    if plan:
        yield {}


def describe(plan):
    return ", ".join(f"{key}={value}" for key, value in plan.items()) or "undisturbed"


