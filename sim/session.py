"""Sessions: one use of a dtformats reader by a client, and its recorded history."""

import datetime
import enum
import sys
import threading
import traceback
import uuid

from sim import world as world_module

sys.path.insert(0, "/repo")
sys.dont_write_bytecode = True


def canon(value, depth=0):
    """Canonical text of a value: only public state, no identities or order of hashing."""
    if depth > 24:
        return "<deep>"
    if value is None or isinstance(value, (bool, int, str)):
        return repr(value)
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, (bytes, bytearray)):
        return "b:" + bytes(value).hex()
    if isinstance(value, uuid.UUID):
        return "uuid:" + str(value)
    if isinstance(value, (list, tuple)):
        return "[" + ", ".join(canon(item, depth + 1) for item in value) + "]"
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(canon(item, depth + 1) for item in value)) + "}"
    if isinstance(value, dict):
        return (
            "{" + ", ".join(
                canon(key, depth + 1) + ": " + canon(item, depth + 1)
                for key, item in value.items()
            ) + "}"
        )
    if isinstance(value, (datetime.datetime, enum.Enum)):
        return repr(value)
    if isinstance(value, type) or callable(value):
        return f"<{getattr(value, '__name__', 'callable')}>"
    attributes = getattr(value, "__dict__", None)
    if attributes is None:
        return f"<{type(value).__name__}>"
    return (
        "(" + ", ".join(
            f"{name}={canon(attributes[name], depth + 1)}"
            for name in sorted(attributes)
            if not name.startswith("_")
        ) + ")"
    )


class SimWriter:
    """Output writer: the seam every reader writes its report through."""

    def __init__(self, context):
        self._context = context
        self.parts = []
        self.size = 0
        self.fail_at = None
        self.fail_with = None
        self.calls = 0
        self.failed = 0

    def Open(self):
        return True

    def Close(self):
        return None

    def _write(self, text):
        if not isinstance(text, str):
            raise TypeError("output writer needs str")
        self._context.step()
        call = self.calls
        self.calls += 1
        if self.fail_at is not None and call >= self.fail_at:
            self.failed += 1
            raise self.fail_with
        self.parts.append(text)
        self.size += len(text)
        if self.size > self._context.text_budget:
            raise world_module.StepBudgetExceeded(f"{self.size} characters of output")

    def WriteText(self, text):
        self._write(text)

    def WriteValue(self, description, value):
        self._write(f"{description}: {value}\n")

    @property
    def text(self):
        return "".join(self.parts)


class Context:
    """What a session sees."""

    def __init__(self, world, root, debug=False, helper=None, text_budget=1 << 30,
                 params=None, pool=None):
        self.world = world
        self.root = root
        self.debug = debug
        self.helper = helper
        self.text_budget = text_budget
        self.writer = SimWriter(self)
        self.records = []
        self.params = params or {}
        self.instances = []
        self.pool = pool
        self.line = ""
        # Whether what is printed is the report (of a command line tool).
        self.capture = False
        self.entries = None

    def path(self, *names):
        return "/".join((self.root,) + names)

    def make(self, cls, **kwargs):
        """Creates a reader the way a client does, or takes it from the pool."""
        if self.pool is not None:
            instance = self.pool.get(self, cls, kwargs)
            self.instances.append(instance)
            return instance
        instance = cls(debug=self.debug, output_writer=self.writer, **kwargs)
        if self.helper is not None:
            try:
                instance = cls(
                    debug=self.debug, output_writer=self.writer,
                    file_system_helper=self.helper, **kwargs
                )
            except TypeError:
                pass
        self.instances.append(instance)
        return instance

    def emit(self, tag, *values):
        self.records.append(tag + " " + " ".join(canon(value) for value in values))
        self.step()

    def step(self):
        if self.world.scheduler is not None:
            self.world.scheduler.pause()


class PoolWriter:
    """Output writer of pooled readers: writes to the session in progress."""

    def __init__(self):
        self.context = None

    def WriteText(self, text):
        self.context.writer.WriteText(text)

    def WriteValue(self, description, value):
        self.context.writer.WriteValue(description, value)


class Pool:
    """Readers that one client keeps and uses again."""

    def __init__(self, debug):
        self._debug = debug
        self._writer = PoolWriter()
        self._readers = {}

    def get(self, context, cls, kwargs):
        self._writer.context = context
        key = (cls.__module__, cls.__name__, repr(sorted(kwargs.items())))
        if key not in self._readers:
            self._readers[key] = cls(
                debug=self._debug, output_writer=self._writer, **kwargs)
        return self._readers[key]


class Outcome:
    """The recorded history of one session."""

    def __init__(self, context, error):
        self.records = list(context.records)
        self.text = context.writer.text
        self.error = error
        self.error_name = None if error is None else type(error).__name__
        self.error_text = "" if error is None else str(error)
        self.where = ""
        if error is not None:
            frames = [
                frame for frame in traceback.extract_tb(error.__traceback__)
                if "/repo/" in frame.filename
            ]
            if frames:
                self.where = f"{frames[-1].filename.split('/')[-1]}:{frames[-1].name}"
        self.writer_failed = context.writer.failed
        self.writes = context.writer.calls
        self.entries = context.entries
        self.classes = [type(instance).__name__ for instance in context.instances]

    def same(self, other):
        return (
            self.records == other.records
            and self.text == other.text
            and self.error_name == other.error_name
        )

    def summary(self):
        return (
            f"{len(self.records)} records, {len(self.text)} chars, "
            f"error={self.error_name}({self.error_text[:160]}) at {self.where}"
        )


_CURRENT = threading.local()


class Stdout:
    """Standard output: what a session prints becomes its records."""

    def __init__(self, original):
        self._original = original

    def write(self, text):
        context = getattr(_CURRENT, "context", None)
        if context is None:
            return self._original.write(text)
        if context.capture:
            if text:
                context.writer.WriteText(text)
            return len(text)
        *lines, context.line = (context.line + text).split("\n")
        for line in lines:
            context.emit("print", line)
        return len(text)

    def __getattr__(self, name):
        return getattr(self._original, name)


def run_session(subject, context):
    """Runs a session in the current thread, never raises for the code under test."""
    error = None
    if not isinstance(sys.stdout, Stdout):
        sys.stdout = Stdout(sys.stdout)
    _CURRENT.context = context
    try:
        subject.session(context)
    except (world_module.HarnessError, world_module.HangError):
        raise
    except BaseException as exception:  # pylint: disable=broad-except
        error = exception
    finally:
        _CURRENT.context = None
    return Outcome(context, error)


def run_single(subject, files, faults=(), debug=False, list_rng=None, budget=2000000,
               text_budget=1 << 30, params=None, helper=None, trace=True,
               fail_write=None, sites=False, events=(), pool=None, content=None):
    """Runs one session alone on a fresh disk. Returns (outcome, world)."""
    world_module.install()
    world = world_module.World(
        {subject.root + "/" + name: data for name, data in files.items()},
        faults=faults, list_rng=list_rng, budget=budget,
    )
    world.trace_on = trace
    world.sites_on = sites
    if content is not None:
        world.content_faults[None] = content
    world.at_steps([
        [step, verb, subject.root + "/" + name, data] for step, verb, name, data in events
    ])
    context = Context(world, subject.root, debug=debug, params=params, helper=helper,
                      text_budget=text_budget, pool=pool)
    if fail_write is not None:
        context.writer.fail_at, context.writer.fail_with = fail_write
    world_module.set_world(world)
    try:
        outcome = run_session(subject, context)
    finally:
        world_module.set_world(None)
    return outcome, world
