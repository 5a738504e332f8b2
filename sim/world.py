"""The simulated world: virtual disk, fault plan, scheduler and history.

Everything a dtformats reader can observe besides its own memory goes through
this module: the virtual disk mounted at /simfs (installed at the builtins.open
and os.* seams, so the shipped NativeFileSystemHelper runs as real code on top
of it), the output writer, and -- when several readers run -- the scheduler
that decides at every disk operation which reader continues.
"""

import builtins
import errno
import fnmatch
import io
import os
import stat as stat_module
import sys
import threading

MOUNT = "/simfs"


class StepBudgetExceeded(BaseException):
    """The run used more disk operations or output writes than allowed."""


class SimCancelled(KeyboardInterrupt):
    """The caller was interrupted at a disk operation."""


class SimMemoryError(MemoryError):
    """An allocation failed at a disk operation."""


class HangError(BaseException):
    """The code under test used too much processor time in one case."""


class HarnessError(Exception):
    """Something is wrong in the harness, not in the code under test."""


class SimFile:
    """A simulated, seekable, read-only binary file (io.BufferedReader like)."""

    def __init__(self, world, path, node, raw=False):
        self._w = world
        self._path = path
        self._node = node
        self._pos = 0
        self._raw = raw
        self.closed = False
        self.name = path
        self.mode = "rb"
        world.open_files.append(self)

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def read(self, size=-1):
        self._check()
        if size is None or size == -1:
            size = max(0, len(self._node.data) - self._pos)
        elif size < 0:
            raise ValueError("read length must be non-negative or -1")
        elif size >= 1 << 63:
            raise OverflowError("Python int too large to convert to C ssize_t")
        self._w.largest_read = max(self._w.largest_read, size)
        if size >= 1 << 40:
            # The buffer of that many bytes is allocated before anything is read.
            raise MemoryError()
        self._w.position = self._pos
        fault = self._w.op("read", self._path, size)
        data = self._node.data
        if fault is not None and fault[0] == "shrink":
            # Something else truncated the file, it stays truncated.
            end = min(len(data), self._pos + (size * fault[1]) // 1000)
            if end < len(data):
                self._w.effective = True
            self._node.data = data = data[:end]
        result = data[self._pos : self._pos + size]
        if fault is not None and fault[0] == "short" and result:
            result = result[: (len(result) * fault[1]) // 1000]
        if fault is not None and fault[0] in ("short", "shrink"):
            self._w.fault_effective(fault, len(result) < size)
        self._pos += len(result)
        self._w.bytes_read += len(result)
        return result

    def read1(self, size=-1):
        return self.read(size)

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def readline(self, size=-1):
        self._check()
        end = self._node.data.find(b"\n", self._pos)
        end = len(self._node.data) if end < 0 else end + 1
        return self.read(end - self._pos)

    def __iter__(self):
        line = self.readline()
        while line:
            yield line
            line = self.readline()

    def seek(self, offset, whence=os.SEEK_SET):
        self._check()
        self._w.op("seek", self._path, offset)
        if whence == os.SEEK_CUR:
            offset += self._pos
        elif whence == os.SEEK_END:
            offset += len(self._node.data)
        if offset < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        if offset >= 1 << 63:
            raise OverflowError("Python int too large to convert to C long")
        self._pos = offset
        return offset

    def tell(self):
        self._check()
        return self._pos

    def get_offset(self):
        return self.tell()

    def get_size(self):
        self._check()
        return len(self._node.data)

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return True

    def isatty(self):
        return False

    def flush(self):
        return None

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if not self.closed:
            self.closed = True
            self._w.log("close", self._path, 0)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *unused):
        self.close()


class _Node:
    def __init__(self, data):
        self.data = data


class _DirEntry:
    def __init__(self, disk, directory, name, is_dir):
        self.name = name
        self.path = os.path.join(directory, name)
        self._is_dir = is_dir
        self._disk = disk

    def is_dir(self, follow_symlinks=True):
        return self._is_dir

    def is_file(self, follow_symlinks=True):
        return not self._is_dir

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return self._disk.stat(self.path)

    def __fspath__(self):
        return self.path


class _ScanDir:
    def __init__(self, entries):
        self._entries = iter(entries)

    def __iter__(self):
        return self._entries

    def __next__(self):
        return next(self._entries)

    def __enter__(self):
        return self

    def __exit__(self, *unused):
        return None

    def close(self):
        return None


class World:
    """One simulated run.

    faults: list of dicts {"op": kind or "any", "nth": n, "path": glob or None,
        "kind": fault kind, "arg": integer}. The nth (0-based) matching
        operation triggers the fault, once (except persistent kinds).
    """

    def __init__(self, files, faults=(), list_rng=None, budget=2000000):
        self.nodes = {path: _Node(data) for path, data in files.items()}
        self.missing = set()
        self.faults = [dict(fault, seen=0, fired=0) for fault in faults]
        self.list_rng = list_rng
        self.budget = budget
        self.steps = 0
        self.bytes_read = 0
        self.largest_read = 0
        self.open_files = []
        self.violations = []
        self.trace = []
        self.trace_on = True
        self.counts = {}
        self.scheduler = None
        self.fired = []
        self.effective = False
        self.opened_paths = []
        self.sites_on = False
        self.position = 0
        self.sites = []
        self.events = []
        self.cwd = None
        # Sizes of what was decompressed, and the damage of it: {task: (nth, function)}.
        self.contents = []
        self.content_counts = {}
        self.content_faults = {}

    def at_steps(self, events):
        """Something else changes the disk: [step, verb, path, data], in step order.

        Before the operation with that number the content of the file is
        replaced ("set") or the file is deleted ("delete"; open files live on).
        """
        self.events = sorted(events, key=lambda event: event[0])

    def _apply_events(self):
        while self.events and self.events[0][0] <= self.steps:
            _, verb, path, data = self.events.pop(0)
            self.log(verb, path, len(data or b""))
            if verb == "set":
                if path in self.nodes:
                    self.nodes[path].data = data
                else:
                    self.nodes[path] = _Node(data)
            elif verb == "swap":
                self.nodes[path] = _Node(data)
            elif verb == "delete":
                self.nodes.pop(path, None)
            self.fired.append((verb, "event", path))

    # -- history ---------------------------------------------------------
    def log(self, kind, path, arg):
        if self.trace_on:
            task = self.scheduler.current_name() if self.scheduler else "-"
            self.trace.append((task, kind, path, arg))

    def fault_effective(self, fault, effective):
        if effective:
            self.effective = True

    # -- the operation seam ------------------------------------------------
    def op(self, kind, path, arg):
        """Accounts for an operation, returns a data fault or raises a fault."""
        if self.scheduler is not None:
            self.scheduler.pause()
        if self.events:
            self._apply_events()
        self.steps += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.steps > self.budget:
            raise StepBudgetExceeded(f"{self.steps} disk operations")
        self.log(kind, path, arg)
        if self.sites_on:
            self.sites.append((kind, path, arg, self._site(), self.position))
        task = self.scheduler.current_name() if self.scheduler else None
        for fault in self.faults:
            if fault["fired"] and not fault.get("persist"):
                continue
            if fault["op"] != "any" and fault["op"] != kind:
                continue
            if fault["op"] == "any" and fault.get("files") and kind in ("stat", "list"):
                continue
            if fault.get("task") and fault["task"] != task:
                continue
            if fault.get("path") and not fnmatch.fnmatchcase(path, fault["path"]):
                continue
            index = fault["seen"]
            fault["seen"] += 1
            if index < fault["nth"]:
                continue
            kind_of_fault = fault["kind"]
            if kind_of_fault in ("short", "shrink"):
                if kind != "read":
                    continue
                fault["fired"] += 1
                self.fired.append((kind_of_fault, kind, path))
                return (kind_of_fault, fault.get("arg", 0))
            fault["fired"] += 1
            self.fired.append((kind_of_fault, kind, path))
            self.effective = True
            if kind_of_fault == "cancel":
                raise SimCancelled("simulated interrupt")
            if kind_of_fault == "nomem":
                raise SimMemoryError("simulated allocation failure")
            number = getattr(errno, kind_of_fault)
            raise OSError(number, os.strerror(number), path)
        return None

    def _site(self):
        """The chain of code positions of the code under test for this operation."""
        frame = sys._getframe(2)
        chain = []
        while frame is not None and len(chain) < 4:
            filename = frame.f_code.co_filename
            if "/dtformats/" in filename or "/scripts/" in filename:
                chain.append(f"{os.path.basename(filename)}:{frame.f_lineno}")
            frame = frame.f_back
        return "<".join(chain)

    def content(self, data):
        """Damages what was stored compressed, inside of it."""
        task = self.scheduler.current_name() if self.scheduler else None
        number = self.content_counts.get(task, 0)
        self.content_counts[task] = number + 1
        self.contents.append(len(data))
        nth, change = self.content_faults.get(task, (None, None))
        if nth == number:
            self.fired.append(("content", "decompress", ""))
            self.effective = True
            return change(data)
        return data

    # -- file system -------------------------------------------------------
    def norm(self, path):
        if self.cwd is not None:
            path = os.path.join(self.cwd, path)
        path = os.path.normpath(path)
        return path[1:] if path.startswith("//") else path

    def is_dir(self, path):
        prefix = path.rstrip("/") + "/"
        return any(name.startswith(prefix) for name in self.nodes)

    def stat(self, path, **unused):
        path = self.norm(os.fspath(path))
        self.op("stat", path, 0)
        node = self.nodes.get(path)
        if node is not None:
            return os.stat_result(
                (stat_module.S_IFREG | 0o444, 1, 1, 1, 0, 0, len(node.data), 0, 0, 0)
            )
        if self.is_dir(path):
            return os.stat_result(
                (stat_module.S_IFDIR | 0o555, 1, 1, 2, 0, 0, 4096, 0, 0, 0)
            )
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

    def names(self, path):
        path = self.norm(path)
        if path in self.nodes:
            raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), path)
        if not self.is_dir(path):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        prefix = path.rstrip("/") + "/"
        names = sorted(
            {
                name[len(prefix) :].split("/", 1)[0]
                for name in self.nodes
                if name.startswith(prefix)
            }
        )
        if self.list_rng is not None:
            self.list_rng.shuffle(names)
        return names

    def listdir(self, path="."):
        path = os.fspath(path)
        self.op("list", self.norm(path), 0)
        return self.names(path)

    def scandir(self, path="."):
        path = os.fspath(path)
        self.op("list", self.norm(path), 0)
        return _ScanDir(
            [
                _DirEntry(self, path, name, self.is_dir(self.norm(os.path.join(path, name))))
                for name in self.names(path)
            ]
        )

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = self.norm(os.fspath(path))
        if any(flag in mode for flag in "wax+"):
            self.violations.append(f"open for writing: {path} mode {mode}")
            raise PermissionError(errno.EROFS, os.strerror(errno.EROFS), path)
        self.op("open", path, 0)
        node = self.nodes.get(path)
        if node is None:
            if self.is_dir(path):
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        self.opened_paths.append(path)
        sim_file = SimFile(self, path, node)
        if "b" not in mode:
            data = sim_file.read()
            sim_file.close()
            return io.StringIO(data.decode(encoding or "utf-8"))
        return sim_file

    def mutate(self, verb, path):
        self.violations.append(f"{verb}: {path}")
        raise PermissionError(errno.EROFS, os.strerror(errno.EROFS), path)

    def leaked(self):
        return [
            sim_file._path for sim_file in self.open_files if not sim_file.closed
        ]


# The world of the current run; None means only the real file system exists.
_CURRENT = None
_REAL = {}


def _in_mount(path):
    if _CURRENT is None or isinstance(path, int):
        return False
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        return False
    if path.startswith("//"):
        path = "/" + path.lstrip("/")
    if _CURRENT.cwd is not None and not path.startswith("/"):
        return True
    return path == MOUNT or path.startswith(MOUNT + "/")


def _wrap(name, method):
    real = getattr(os, name)
    _REAL[name] = real

    def wrapper(path=".", *args, **kwargs):
        if _in_mount(path):
            return getattr(_CURRENT, method)(path, *args, **kwargs)
        return real(path, *args, **kwargs)

    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _wrap_mutation(name):
    real = getattr(os, name)
    _REAL[name] = real

    def wrapper(path, *args, **kwargs):
        if _in_mount(path):
            return _CURRENT.mutate(name, path)
        return real(path, *args, **kwargs)

    wrapper.__name__ = name
    setattr(os, name, wrapper)


def install():
    """Mounts the virtual disk at the builtins.open and os seams (idempotent)."""
    if _REAL:
        return
    real_open = builtins.open
    _REAL["builtins.open"] = real_open

    def sim_open(file, *args, **kwargs):
        if _in_mount(file):
            return _CURRENT.open(file, *args, **kwargs)
        return real_open(file, *args, **kwargs)

    builtins.open = sim_open
    io.open = sim_open
    real_getcwd = os.getcwd
    _REAL["getcwd"] = real_getcwd

    def sim_getcwd():
        if _CURRENT is not None and _CURRENT.cwd is not None:
            return _CURRENT.cwd
        return real_getcwd()

    os.getcwd = sim_getcwd
    import lz4.block
    import snappy
    import zlib
    import zstd
    for module in (lz4.block, snappy, zlib, zstd):
        _wrap_decompress(module)
    _wrap("stat", "stat")
    _wrap("lstat", "stat")
    _wrap("listdir", "listdir")
    _wrap("scandir", "scandir")
    for name in (
        "remove", "unlink", "rename", "replace", "rmdir", "mkdir", "makedirs",
        "truncate", "chmod", "chown", "utime", "link", "symlink",
    ):
        _wrap_mutation(name)


def _wrap_decompress(module, name="decompress"):
    real = getattr(module, name)

    def wrapper(*args, **kwargs):
        data = real(*args, **kwargs)
        # Only what readers take out of the virtual disk.
        if _CURRENT is not None and "/dtformats/" in sys._getframe(1).f_code.co_filename:
            return _CURRENT.content(data)
        return data

    setattr(module, name, wrapper)


def set_world(world):
    global _CURRENT
    _CURRENT = world


class Scheduler:
    """Runs tasks as threads, exactly one at a time.

    Every disk operation, output write and history record is a scheduling
    point, and with fine "call" or "line" so is every function entry or every
    line of the code under test, for the first fine_limit of those. At a
    scheduling point choose(runnable, current) -> task number picks who
    continues; the thread that pauses makes the choice and hands over.
    """

    def __init__(self, choose, fine=None, fine_limit=20000):
        self._choose = choose
        self._fine = fine
        self._fine_left = fine_limit
        self._tasks = []
        self._local = threading.local()
        self._all_done = threading.Semaphore(0)
        self.switches = 0
        self.schedule = []
        self._last = None

    def current_name(self):
        task = getattr(self._local, "task", None)
        return task["name"] if task else "-"

    def add(self, name, function):
        self._tasks.append(
            {
                "name": name, "function": function, "go": threading.Semaphore(0),
                "done": False, "error": None, "number": len(self._tasks),
            }
        )

    def _next(self):
        """Decides who continues; None when nobody is left."""
        runnable = [task["number"] for task in self._tasks if not task["done"]]
        if not runnable:
            return None
        number = self._choose(runnable, self._last)
        if self._last is not None and self._last != number:
            self.switches += 1
        if self.schedule and self.schedule[-1][0] == number:
            self.schedule[-1][1] += 1
        else:
            self.schedule.append([number, 1])
        self._last = number
        return self._tasks[number]

    def pause(self):
        task = getattr(self._local, "task", None)
        if task is None:
            return
        chosen = self._next()
        if chosen is not task:
            chosen["go"].release()
            task["go"].acquire()

    def _trace(self, frame, event, unused):
        filename = frame.f_code.co_filename
        if "/dtformats/" in filename and "/repo/" in filename:
            if self._fine_left <= 0:
                sys.settrace(None)
                return None
            self._fine_left -= 1
            self.pause()
            if self._fine == "line":
                return self._trace_line
        return None

    def _trace_line(self, frame, event, unused):
        if self._fine_left <= 0:
            return None
        if event == "line":
            self._fine_left -= 1
            self.pause()
        return self._trace_line

    def _body(self, task):
        self._local.task = task
        task["go"].acquire()
        if self._fine:
            sys.settrace(self._trace)
        try:
            task["function"]()
        except BaseException as exception:  # pylint: disable=broad-except
            task["error"] = exception
        finally:
            sys.settrace(None)
        task["done"] = True
        chosen = self._next()
        if chosen is None:
            self._all_done.release()
        else:
            chosen["go"].release()

    def run(self):
        threads = []
        for task in self._tasks:
            thread = threading.Thread(target=self._body, args=(task,), daemon=True)
            thread.start()
            threads.append(thread)
        first = self._next()
        if first is not None:
            first["go"].release()
            self._all_done.acquire()
        for thread in threads:
            thread.join()
        for task in self._tasks:
            if task["error"] is not None:
                raise task["error"]


def random_chooser(rng, mode):
    """A seeded schedule: uniform, rarely switching, or two priorities swapped."""
    if mode == "uniform":
        return lambda runnable, last: rng.choice(runnable)
    if mode == "lazy":
        rate = rng.choice([0.02, 0.1, 0.3])

        def lazy(runnable, last):
            if last in runnable and rng.random() > rate:
                return last
            return rng.choice(runnable)
        return lazy

    order = {}

    def priorities(runnable, last):
        for number in runnable:
            order.setdefault(number, rng.random())
        if rng.random() < 0.01:
            order[rng.choice(runnable)] = rng.random()
        return max(runnable, key=lambda number: order[number])
    return priorities


def explicit_chooser(schedule):
    """Replays a recorded schedule (run lengths); afterwards lowest number first."""
    left = [list(entry) for entry in schedule]

    def choose(runnable, last):
        while left:
            if left[0][1] <= 0 or left[0][0] not in runnable:
                left.pop(0)
                continue
            left[0][1] -= 1
            return left[0][0]
        return last if last in runnable else runnable[0]
    return choose
