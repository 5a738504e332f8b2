#!/usr/bin/env python3
"""Writes the list of repaired defects in known-findings.json (run by hand).

The property of a fix is looked up by the first word group that matches its
subject line; what is not listed here is about records (P03).
"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "496fac3"
RULES = [
    ("P15", ("undocumented error",)),
    ("P12", ("without a dsc directory",)),
    ("P09", ("of every iteration",)),
    ("P06", ("close the", "close the file when")),
    ("P07", ("forever", "more than once", "cyclic")),
    ("P08", ("data range", "CPIO file entry", "GZip member data up to")),
    ("P05", ("of a previously", "previously opened", "previously read", "different tracepoint")),
    ("P14", (" script", "hash CPIO", "hash every CPIO", "when hashing", "empty JSON list",
             "that have no event type", "keychain table with an unnamed")),
    ("P10", ("fixed order", "like a glob", "relative path", "file system helper",
             "near the root")),
    ("P01", ("index table completely", "Firefox cache entry that cannot be read",
             "missing CIM index pages")),
    ("P11", ("tracing", "debugging", "trace ", "show the", "show keychain", "instead of a tuple",
             "formatting tuple")),
    ("P02", ("incomplete", "parse error", "too small", "without its end", "cannot be read",
             "a missing", "without a descriptor", "broken")),
]

def property_of(subject):
    for identifier, words in RULES:
        if any(word in subject for word in words):
            return identifier
    return "P03"


def main():
    lines = subprocess.run(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + ".."],
        capture_output=True, text=True, check=True).stdout.splitlines()
    path = os.path.join(HERE, "known-findings.json")
    with open(path, encoding="utf-8") as stream:
        known = json.load(stream)
    known["fixed"] = []
    for line in lines:
        commit, _, subject = line.partition(" ")
        if not subject.startswith("fix: "):
            continue
        subject = subject[5:].removeprefix("unified logging: ")
        known["fixed"].append(
            f"fixed: property={property_of(subject)} {commit} did not {subject}"
            if not subject.startswith("do not ") else
            f"fixed: property={property_of(subject)} {commit} did {subject[7:]}")
    with open(path, "w", encoding="utf-8") as stream:
        json.dump(known, stream, indent=1)
        stream.write("\n")


if __name__ == "__main__":
    main()
