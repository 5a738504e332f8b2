"""Plants a bug: plant.py ID SPEC.py (run by hand).

SPEC.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and DEMO (a
python program that exits nonzero when it shows the bug; run with cwd at the
repository). Everything is tried in a scratch copy of /repo; seeded/ID is only
written when the tests pass with the change and the demonstration separates.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 TZ=UTC
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
FILTER = "import json,sys;d=json.load(open(sys.argv[1]));"


def main():
    name, spec_path = sys.argv[1:3]
    spec = {}
    with open(spec_path, encoding="utf-8") as stream:
        exec(stream.read(), spec)  # pylint: disable=exec-used
    scratch = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(scratch, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        for path, old, new in spec["EDITS"]:
            full = os.path.join(copy, path)
            with open(full, encoding="utf-8") as stream:
                text = stream.read()
            if text.count(old) != 1:
                sys.exit(f"{path}: {text.count(old)} occurrences of {old!r}")
            with open(full, "w", encoding="utf-8") as stream:
                stream.write(text.replace(old, new))
        patch = subprocess.run(
            ["git", "-C", copy, "diff"], check=True, capture_output=True).stdout
        target = os.path.join(scratch, "seed")
        os.mkdir(target)
        with open(os.path.join(target, "demo.sh"), "w", encoding="utf-8") as stream:
            stream.write(SH)
        os.chmod(os.path.join(target, "demo.sh"), 0o755)
        with open(os.path.join(target, "demo.py"), "w", encoding="utf-8") as stream:
            stream.write(spec["DEMO"].lstrip("\n"))
        with open(os.path.join(target, "patch.diff"), "wb") as stream:
            stream.write(patch)
        with open(os.path.join(target, "meta.json"), "w", encoding="utf-8") as stream:
            json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"],
                       "what_it_breaks": spec["BREAKS"]}, stream, indent=1)
            stream.write("\n")
        good = subprocess.run([os.path.join(target, "demo.sh")], cwd="/repo",
                              capture_output=True, check=False)
        bad = subprocess.run([os.path.join(target, "demo.sh")], cwd=copy,
                             capture_output=True, check=False)
        print("unchanged:", good.returncode, good.stderr.decode()[-300:])
        print("patched:", bad.returncode, (bad.stdout + bad.stderr).decode()[-400:])
        tests = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p",
             "no:cacheprovider", "--timeout=300", "-o", "python_files=*.py", "-x"],
            cwd=copy, capture_output=True, check=False,
            env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1",
                     PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8"))
        print("tests:", tests.stdout.decode().strip().split("\n")[-1])
        if good.returncode or not bad.returncode or tests.returncode:
            sys.exit("NOT KEPT")
        final = os.path.join(HERE, "seeded", name)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(target, final)
        print("kept", final)
    finally:
        shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
