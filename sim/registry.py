"""All simulation subjects, and their undisturbed histories (goldens)."""

import os
import pickle
import random
import sys
import traceback

from sim import session
from sim import subjects

_SUBJECTS = None


def preload():
    """Imports the code under test, so that no run imports it halfway."""
    import importlib
    import pkgutil
    import dtformats
    for module in sorted(item.name for item in pkgutil.iter_modules(dtformats.__path__)):
        importlib.import_module(f"dtformats.{module}")


def all_subjects():
    """Returns {name: subject}, in a fixed order."""
    global _SUBJECTS
    if _SUBJECTS is None:
        preload()
        result = list(subjects.sample_subjects())
        for producer in producers():
            for number in range(producer.instances):
                result.append(producer.subject(
                    random.Random(f"subject:{number}"), f"{producer.name}~{number}"))
        for subject in result:
            subject.root = f"/simfs/{subject.name}"
        _SUBJECTS = {subject.name: subject for subject in result}
    return _SUBJECTS


def producers():
    """Returns the reference producers."""
    from sim.producers import PRODUCERS
    return PRODUCERS


def parallel(function, items, workers=None):
    """Maps function over items, each in its own fork of this process."""
    items = list(items)
    workers = workers or min(8, os.cpu_count() or 1)
    results = [None] * len(items)
    running = {}
    index = 0

    def reap(read_fd):
        number, pid = running.pop(read_fd)
        data = bytearray()
        while True:
            part = os.read(read_fd, 1 << 20)
            if not part:
                break
            data += part
        os.close(read_fd)
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError(f"worker for {items[number]!r} died")
        ok, value = pickle.loads(bytes(data))
        if not ok:
            raise RuntimeError(f"worker for {items[number]!r} failed: {value}")
        results[number] = value

    import select
    while index < len(items) or running:
        while index < len(items) and len(running) < workers:
            read_fd, write_fd = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(read_fd)
                    null = os.open("/dev/null", os.O_RDWR)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                    try:
                        value = (True, function(items[index]))
                    except BaseException:  # pylint: disable=broad-except
                        value = (False, traceback.format_exc())
                    with os.fdopen(write_fd, "wb") as stream:
                        stream.write(pickle.dumps(value))
                finally:
                    os._exit(0)
            os.close(write_fd)
            running[read_fd] = (index, pid)
            index += 1
        ready, _, _ = select.select(list(running), [], [])
        for read_fd in ready:
            reap(read_fd)
    return results


class Golden:
    """The undisturbed history of a subject, with the operations it made."""

    def __init__(self, outcome, world):
        self.records = outcome.records
        self.text = outcome.text
        self.error = outcome.error_name
        self.summary = outcome.summary()
        self.steps = world.steps
        self.ops = [
            (kind, path, arg, position) if kind == "read" else (kind, path, arg)
            for kind, path, arg, _, position in world.sites
        ]
        self.sites = {}
        for number, (kind, _, _, site, _) in enumerate(world.sites):
            self.sites.setdefault((kind, site), []).append(number)
        self.opened = list(dict.fromkeys(world.opened_paths))
        self.leaked = world.leaked()
        self.violations = list(world.violations)
        self.cost_ms = 1.5 + world.steps * 0.012 + len(outcome.text) * 0.0002
        self.writes = outcome.writes
        self.classes = outcome.classes
        self.contents = list(world.contents)


_GOLDENS = {}


def _golden(item):
    name, debug = item
    subject = all_subjects()[name]
    outcome, world = session.run_single(
        subject, subject.files, debug=debug, sites=True, trace=False)
    return Golden(outcome, world)


def goldens(names=None, debugs=(False, True)):
    """Computes the undisturbed histories, every one in a fresh process."""
    wanted = [
        (name, debug)
        for name in (names or all_subjects())
        for debug in debugs
        if (name, debug) not in _GOLDENS
    ]
    for item, golden in zip(wanted, parallel(_golden, wanted)):
        _GOLDENS[item] = golden
    return _GOLDENS


def golden(name, debug):
    if (name, debug) not in _GOLDENS:
        goldens([name], (debug,))
    return _GOLDENS[(name, debug)]
