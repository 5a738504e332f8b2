"""The search engine: chunks of seeded cases in forked children, minimisation, replay.

A case is a JSON object; running a case is a pure function of the case and the
code under test. Cases run in chunks. Every chunk runs in a fresh fork of the
pristine parent, so what a case can inherit is the earlier cases of its chunk;
when a violation only shows after those, the replay file lists them too.
"""

import collections
import gc
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from sim import world as world_module

MEMORY_LIMIT = 3 << 30
# Only a deadlock between simulated readers, or a stalled sandbox, takes this long.
CASE_WALL_SECONDS = 300


class Verdict:
    """What one case showed."""

    __slots__ = ("violation", "key", "counters", "steps", "nontrivial", "digest",
                 "note")

    def __init__(self, violation=None, key=None, counters=None, steps=0,
                 nontrivial=False, digest="", note=""):
        self.violation = violation
        self.key = key
        self.counters = counters or {}
        self.steps = steps
        self.nontrivial = nontrivial
        self.digest = digest
        self.note = note


def digest_of(*values):
    state = hashlib.sha256()
    for value in values:
        state.update(repr(value).encode("utf-8", "backslashreplace"))
        state.update(b"\0")
    return state.hexdigest()[:16]


def _on_cpu_limit(signum, frame):
    raise world_module.HangError("no end within the processor time budget")


def _on_wall_limit(signum, frame):
    raise world_module.HarnessError("no end within the wall clock limit of one case")


def run_case(prop, case):
    """Runs one case with the watchdog armed."""
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.signal(signal.SIGALRM, _on_wall_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, prop.cpu_seconds(case))
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_SECONDS)
    try:
        return prop.run(case)
    except world_module.HangError as exception:
        world_module.set_world(None)
        return Verdict(violation=f"hang: {case.get('subject')}: {exception!s}", key="hang",
                       nontrivial=True, digest="hang")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _child(prop, cases, write_fd):
    """Runs cases in this (forked) process, streams verdicts."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1000)
    # Readers print through their output writer; what still reaches the
    # standard streams (destructor noise of extension modules) is not shown.
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(null, 2)
    gc.disable()
    with os.fdopen(write_fd, "wb") as stream:
        for index, case in enumerate(cases):
            try:
                verdict = run_case(prop, case)
            except world_module.HarnessError:
                verdict = Verdict(note="HARNESS " + traceback.format_exc())
            except BaseException:  # pylint: disable=broad-except
                verdict = Verdict(note="HARNESS " + traceback.format_exc())
            data = pickle.dumps((index, verdict))
            stream.write(struct.pack("<I", len(data)) + data)
            stream.flush()
            if index % 16 == 15:
                gc.collect()


class ForkPool:
    """Runs chunks of cases, each in its own fork, a number at a time."""

    def __init__(self, prop, workers):
        self._prop = prop
        self._workers = workers

    def run(self, chunks, deadline=None, stop_on=None):
        """Yields (chunk index, list of verdicts, complete) in completion order."""
        pending = collections.deque(enumerate(chunks))
        running = {}
        stopped = False
        while pending or running:
            while pending and len(running) < self._workers and not stopped:
                if deadline is not None and time.monotonic() > deadline:
                    pending.clear()
                    break
                number, cases = pending.popleft()
                read_fd, write_fd = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    status = 1
                    try:
                        os.close(read_fd)
                        _child(self._prop, cases, write_fd)
                        status = 0
                    except BaseException:  # pylint: disable=broad-except
                        pass
                    finally:
                        os._exit(status)
                os.close(write_fd)
                running[read_fd] = [number, cases, pid, bytearray()]
            if not running:
                break
            ready, _, _ = select.select(list(running), [], [], 1.0)
            for read_fd in ready:
                data = os.read(read_fd, 1 << 20)
                entry = running[read_fd]
                if data:
                    entry[3] += data
                    continue
                os.close(read_fd)
                del running[read_fd]
                _, status = os.waitpid(entry[2], 0)
                verdicts = []
                buffer = bytes(entry[3])
                offset = 0
                while offset + 4 <= len(buffer):
                    size = struct.unpack_from("<I", buffer, offset)[0]
                    if offset + 4 + size > len(buffer):
                        break
                    verdicts.append(pickle.loads(buffer[offset + 4 : offset + 4 + size])[1])
                    offset += 4 + size
                yield entry[0], verdicts, len(verdicts) == len(entry[1]), status
                if stop_on and any(stop_on(verdict) for verdict in verdicts):
                    stopped = True
                    pending.clear()


def run_fresh(prop, cases):
    """Runs cases in order in one fresh fork. Returns the list of verdicts."""
    for _, verdicts, complete, status in ForkPool(prop, 1).run([cases]):
        if not complete:
            verdicts.append(
                Verdict(violation=f"crash: process ended with status {status}",
                        key="crash", nontrivial=True, digest="crash")
            )
        return verdicts
    return []


def violation_class(violation):
    return violation.split(":", 1)[0]


def reproduces(prop, cases, wanted):
    verdicts = run_fresh(prop, cases)
    if len(verdicts) < len(cases):
        return None
    last = verdicts[len(cases) - 1]
    if last.violation and violation_class(last.violation) == wanted:
        return last
    return None


def minimise(prop, cases, verdict, budget_s=90):
    """Shrinks the list of cases (history first, then the failing case)."""
    wanted = violation_class(verdict.violation)
    deadline = time.monotonic() + budget_s
    best, best_verdict = list(cases), verdict
    # History: alone if possible, else halves, else one by one.
    if len(best) > 1:
        alone = reproduces(prop, best[-1:], wanted)
        if alone:
            best, best_verdict = best[-1:], alone
        else:
            size = max(1, (len(best) - 1) // 2)
            while size >= 1 and time.monotonic() < deadline:
                index = 0
                while index < len(best) - 1 and time.monotonic() < deadline:
                    trial = best[:index] + best[min(index + size, len(best) - 1):]
                    result = reproduces(prop, trial, wanted)
                    if result:
                        best, best_verdict = trial, result
                    else:
                        index += size
                size //= 2
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for candidate in prop.shrink(best[-1]):
            if time.monotonic() > deadline:
                break
            result = reproduces(prop, best[:-1] + [candidate], wanted)
            if result:
                best, best_verdict = best[:-1] + [candidate], result
                progress = True
                break
    return best, best_verdict


def write_replay(prop, cases, verdict, seed, directory):
    os.makedirs(directory, exist_ok=True)
    name = f"{prop.id}-{digest_of(cases, verdict.violation)}.json"
    path = os.path.join(directory, name)
    with open(path, "w", encoding="utf-8") as file_object:
        json.dump(
            {
                "property": prop.id, "seed": seed, "violation": verdict.violation,
                "note": verdict.note, "event_digest": verdict.digest, "cases": cases,
                "replay": f"./check {prop.id} --replay {path}",
            },
            file_object, indent=1, sort_keys=True,
        )
        file_object.write("\n")
    return path
