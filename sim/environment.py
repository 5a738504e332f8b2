"""The environments a reader can find itself in: places, file systems, processes.

  python -m sim.environment < {"items": [[name, debug, digest], ...]}

runs the undisturbed sessions in this process (started with another hash seed,
time zone, locale or optimisation level) and prints what differs.
"""

import io
import json
import os
import posixpath
import subprocess
import sys
import tarfile
import time
import zipfile

from sim import engine
from sim import session
from sim import world as world_module

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Names of directories that evidence ends up in.
PLACES = (
    "case 1", "[a-z]*", "x?y", "{0}%s", "日本語", "e\u0301", "~", "-rf", "a.logarchive.bak",
    "uuidtext", "diagnostics", "dsc", "index", "CIM", "very/deep/er/and/deeper",
    "a;b&c", "#1", "a:b", "x=y,z", "Persist/timesync",
)
ZONES = ("UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "<-11>11",
         "Europe/Amsterdam")
ROOT = "<root>"


def image(kind, files):
    """A storage media image of which the root has the files."""
    stream = io.BytesIO()
    if kind == "tar":
        with tarfile.open(fileobj=stream, mode="w", format=tarfile.PAX_FORMAT) as archive:
            for name, data in files.items():
                info = tarfile.TarInfo(name)
                info.size = len(data)
                archive.addfile(info, io.BytesIO(data))
    else:
        # Stored members that are read in turns are broken in zipfile of Python 3.12.
        with zipfile.ZipFile(stream, "w", zipfile.ZIP_DEFLATED) as archive:
            for name, data in files.items():
                info = zipfile.ZipInfo(name)
                info.compress_type = zipfile.ZIP_DEFLATED
                archive.writestr(info, data)
    return stream.getvalue()


_IMAGES = [0]


def helper_for(kind, files, prefix):
    """Returns (the helper, the files of the simulated disk, root in the helper)."""
    from dfvfs.path import factory
    from dtformats import dfvfs_helpers
    if kind == "os":
        path_spec = factory.Factory.NewPathSpec("OS", location="/")
        disk = {f"{prefix}/{name}": data for name, data in files.items()}
        root = prefix
    else:
        # The resolver of dfVFS remembers file systems by the path of the image.
        _IMAGES[0] += 1
        location = f"/simfs/images/{_IMAGES[0]}.{kind}"
        inside = prefix[len("/simfs/"):]
        disk = {location: image(
            kind, {f"{inside}/{name}": data for name, data in files.items()})}
        parent = factory.Factory.NewPathSpec("OS", location=location)
        path_spec = factory.Factory.NewPathSpec(kind.upper(), location="/", parent=parent)
        root = "/" + inside

    def open_helper():
        helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
        helper.OpenFileSystem(path_spec)
        return helper

    return open_helper, disk, root


class PlacedContext(session.Context):
    """A context that names its files the way a client in some place would."""

    spelling = "plain"
    cwd = None

    def path(self, *names):
        path = "/".join((self.root,) + names)
        if self.spelling == "relative":
            return posixpath.relpath(path, self.cwd)
        if self.spelling == "loose":
            head, _, tail = path[1:].partition("/")
            path = f"//{head}/.//{tail}"
            if not names:
                path += "/"
        return path


def run(subject, env, debug, budget):
    """Runs the session of a subject in an environment. Returns (outcome, world)."""
    import random
    world_module.install()
    place = env.get("place", "")
    root = f"/simfs/{place}/evidence" if place else "/simfs/evidence"
    open_helper = None
    disk = {f"{root}/{name}": data for name, data in subject.files.items()}
    if env.get("helper"):
        open_helper, disk, root = helper_for(env["helper"], subject.files, root)
    rng = random.Random(env["order"]) if env.get("order") is not None else None
    world = world_module.World(disk, list_rng=rng, budget=budget)
    world.trace_on = False
    context = PlacedContext(world, root, debug=debug)
    context.spelling = env.get("spelling", "plain")
    if context.spelling == "relative":
        directories = {root, posixpath.dirname(root), "/simfs"}
        for name in subject.files:
            directory = posixpath.dirname(f"{root}/{name}")
            directories.update((directory, posixpath.dirname(directory)))
        directories = sorted(
            name for name in directories if name.startswith("/simfs"))
        context.cwd = world.cwd = directories[env.get("cwd", 0) % len(directories)]
    zone = os.environ.get("TZ")
    if env.get("zone"):
        os.environ["TZ"] = env["zone"]
        time.tzset()
    world_module.set_world(world)
    try:
        if open_helper is not None:
            context.helper = open_helper()
        outcome = session.run_session(subject, context)
    finally:
        world_module.set_world(None)
        if env.get("zone"):
            if zone is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = zone
            time.tzset()
    return outcome, world, plain(outcome.records, context), plain([outcome.text], context)


def plain(texts, context):
    """The history without the place it was made in."""
    spellings = [context.root]
    if context.spelling == "loose":
        spellings = [context.path("x")[:-2], context.path("x")[1:-2], context.root]
    elif context.spelling == "relative":
        spellings = [context.root, posixpath.relpath(context.root, context.cwd)]
    result = []
    for text in texts:
        for spelling in spellings:
            if len(spelling) > 6:
                text = text.replace(spelling, ROOT)
        result.append(text)
    return result


def fingerprint(records, text, error):
    return engine.digest_of(records, text, error)


def run_process(items, env):
    """Runs sessions in a process with other settings; returns what differs."""
    variables = dict(os.environ)
    for name in ("PYTHONHASHSEED", "TZ", "LC_ALL", "PYTHONUTF8", "PYTHONOPTIMIZE",
                 "PYTHONDEVMODE"):
        variables.pop(name, None)
    variables.update(env)
    variables["PYTHONPATH"] = f"{HERE}:/repo"
    result = subprocess.run(
        [sys.executable, "-m", "sim.environment"], input=json.dumps({"items": items}).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, env=variables, check=False)
    if result.returncode:
        raise world_module.HarnessError(
            "environment process: " + result.stderr.decode("utf-8", "replace")[-2000:])
    return json.loads(result.stdout.decode("ascii"))


def main():
    from sim import registry
    data = json.loads(sys.stdin.buffer.read())
    output = os.dup(1)
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 1)
    different = []
    for name, debug, digest in data["items"]:
        subject = registry.all_subjects()[name]
        outcome, world = session.run_single(
            subject, subject.files, debug=debug, trace=False)
        if fingerprint(outcome.records, outcome.text, outcome.error_name) != digest:
            different.append({
                "name": name, "debug": debug, "records": outcome.records,
                "text": outcome.text, "error": outcome.error_name,
                "summary": outcome.summary()})
    with os.fdopen(output, "wb") as stream:
        stream.write(json.dumps({"different": different}).encode("ascii"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
