#!/opt/venv/bin/python
"""Looks for blind spots of the producers: mutates functions in memory.

  tools/mutate.py OUT.json COUNT [SEED] [file.py ...]

Every mutant replaces the code of one function that some producer reaches and
runs the producers that reach it against their expected records (the fault free
part of P03). What survives is written to OUT.json. Not a check: it only guides
the work.
"""

import ast
import collections
import json
import os
import random
import signal
import sys
import types

sys.path.insert(0, "/verif")
sys.path.insert(0, "/repo")

from sim import registry  # noqa: E402
from sim import session  # noqa: E402

SEEDS = int(os.environ.get("SEEDS", "12"))
SKIP = ("_DebugPrint", "_Format", "DebugPrint")


def reach():
    monitoring = sys.monitoring
    monitoring.use_tool_id(3, "reach")
    hit = collections.defaultdict(set)
    current = [None]

    def callback(code, line):
        if "/repo/dtformats/" in code.co_filename:
            hit[(os.path.basename(code.co_filename), line)].add(current[0])
    monitoring.register_callback(3, monitoring.events.LINE, callback)
    monitoring.set_events(3, monitoring.events.LINE)
    for producer in registry.producers():
        current[0] = producer.name
        for seed in range(SEEDS):
            subject = producer.subject(random.Random(seed))
            session.run_single(subject, subject.files, debug=producer.debug_only, trace=False)
        subject = producer.subject(random.Random(0))
        session.run_single(subject, subject.files, debug=True, trace=False)
    monitoring.set_events(3, 0)
    return hit


def debug_test(node):
    return isinstance(node, ast.If) and any(
        isinstance(part, ast.Attribute) and part.attr == "_debug" for part in ast.walk(node.test))


def candidates(source):
    """(line, start, end, replacement, kind, qualname) of every mutant of a file."""
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    for line in source.encode().split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    result = []

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        start, end = span(node)
        return source.encode()[start:end].decode()

    swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
            ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
            ast.NotIn: "in"}

    def visit(node, qualname, inside):
        if debug_test(node) and not node.orelse:
            return
        if isinstance(node, (ast.Raise, ast.JoinedStr)):
            return
        if isinstance(node, ast.ClassDef):
            for child in node.body:
                visit(child, qualname + [node.name], False)
            return
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if node.name.startswith(SKIP) or node.name == "__init__" or inside:
                return
            for child in node.body:
                visit(child, qualname + [node.name], True)
            return
        if inside:
            def add(target, replacement, kind):
                start, end = span(target)
                result.append((node.lineno, start, end, replacement, kind, ".".join(qualname)))
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                left, right = text(node.left), text(node.comparators[0])
                operator = type(node.ops[0])
                if operator in swap:
                    add(node, f"({left} {swap[operator]} {right})", "compare")
            elif isinstance(node, ast.BoolOp):
                parts = [text(value) for value in node.values]
                word = " or " if isinstance(node.op, ast.And) else " and "
                add(node, "(" + word.join(f"({part})" for part in parts) + ")", "boolean")
                add(node, parts[0], "drop")
            elif isinstance(node, ast.BinOp):
                other = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*",
                         ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>",
                         ast.RShift: "<<", ast.Mod: "//"}.get(type(node.op))
                if other:
                    add(node, f"({text(node.left)} {other} {text(node.right)})", "arithmetic")
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                add(node, f"({text(node.operand)})", "not")
            elif isinstance(node, ast.Constant) and type(node.value) is int:
                add(node, str(node.value + 1), "constant")
                if node.value:
                    add(node, str(node.value - 1), "constant")
            elif isinstance(node, (ast.Assign, ast.AugAssign)):
                targets = node.targets if isinstance(node, ast.Assign) else [node.target]
                if all(isinstance(target, (ast.Attribute, ast.Subscript)) for target in targets) or (
                        isinstance(node, ast.AugAssign)):
                    add(node, "pass", "delete")
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                add(node, "pass", "delete")
            elif isinstance(node, (ast.Break, ast.Continue)):
                add(node, "pass", "delete")
            elif isinstance(node, ast.If):
                add(node.test, f"(not ({text(node.test)}))", "negate")
            elif isinstance(node, ast.Yield) and node.value is not None:
                add(node, "None", "delete")
        for child in ast.iter_child_nodes(node):
            visit(child, qualname, inside)
    del lines
    for node in tree.body:
        visit(node, [], False)
    return result


def find(code, parts):
    for part in parts:
        code = next(constant for constant in code.co_consts
                    if isinstance(constant, types.CodeType) and constant.co_name == part)
    return code


def evaluate(mutant, producers):
    filename, line, start, end, replacement, kind, qualname = mutant
    path = "/repo/dtformats/" + filename
    data = open(path, "rb").read()
    source = data[:start] + replacement.encode() + data[end:]
    try:
        code = find(compile(source, path, "exec"), qualname.split("."))
    except (SyntaxError, StopIteration):
        return "invalid"
    here = sys.modules["dtformats." + filename[:-3]]
    for part in qualname.split("."):
        here = here.__dict__[part] if isinstance(here, types.ModuleType) else vars(here)[part]
    here = getattr(here, "__func__", here)
    if isinstance(here, property):
        here = here.fget
    try:
        here.__code__ = code
    except ValueError:
        return "invalid"
    for producer in producers:
        for seed in range(SEEDS * 2):
            subject = producer.subject(random.Random(seed))
            for debug in ((True,) if producer.debug_only else (False, True)):
                outcome, world = session.run_single(
                    subject, subject.files, debug=debug, trace=False)
                if outcome.error or world.violations or world.leaked() or (
                        producer.observe(outcome) != subject.product.expected):
                    return f"killed by {producer.name}"
                if debug and seed >= SEEDS // 2:
                    break
    return "survived"


def main():
    out, count = sys.argv[1], int(sys.argv[2])
    seed = sys.argv[3] if len(sys.argv) > 3 else "1"
    only = sys.argv[4:]
    hit = reach()
    by_name = {producer.name: producer for producer in registry.producers()}
    mutants = []
    for filename in sorted(os.listdir("/repo/dtformats")):
        if not filename.endswith(".py") or (only and filename not in only):
            continue
        source = open("/repo/dtformats/" + filename).read()
        for mutant in candidates(source):
            if hit.get((filename, mutant[0])):
                mutants.append((filename,) + mutant)
    random.Random(seed).shuffle(mutants)
    print(len(mutants), "mutants")
    mutants = mutants[:count]
    running, survivors, tally = {}, [], collections.Counter()
    import tempfile
    scratch = tempfile.mkdtemp(prefix="mut")
    pending = list(enumerate(mutants))
    limit = int(os.environ.get("JOBS", "7"))
    while pending or running:
        while pending and len(running) < limit:
            number, mutant = pending.pop(0)
            producers = [by_name[name] for name in sorted(hit[(mutant[0], mutant[1])])]
            random.Random(number).shuffle(producers)
            if len(producers) > 6:
                producers = producers[:6]
            pid = os.fork()
            if not pid:
                signal.alarm(240)
                sys.stdout = sys.stderr = open(os.devnull, "w")
                try:
                    answer = evaluate(mutant, producers)
                except BaseException as exception:  # pylint: disable=broad-except
                    answer = f"killed by exception {exception!r}"
                with open(f"{scratch}/{number}", "w") as file_object:
                    file_object.write(answer)
                os._exit(0)
            running[pid] = number
        pid, status = os.wait()
        number = running.pop(pid)
        path = f"{scratch}/{number}"
        answer = "killed by timeout"
        if os.path.exists(path):
            answer = open(path).read()
            os.unlink(path)
        tally[answer.split(" by")[0]] += 1
        if answer == "survived":
            survivors.append(mutants[number])
            filename, line, start, end, replacement, kind, qualname = mutants[number]
            data = open("/repo/dtformats/" + filename, "rb").read()
            print(f"{filename}:{line} {qualname} {kind}: {data[start:end].decode()!r} -> "
                  f"{replacement!r}", flush=True)
    os.rmdir(scratch)
    print(dict(tally))
    with open(out, "w") as file_object:
        json.dump(survivors, file_object)


if __name__ == "__main__":
    main()
