"""Command line of the checks."""

import argparse
import hashlib
import importlib
import json
import os
import sys
import time

from sim import engine

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, "known-findings.json")


def load(property_id):
    module = importlib.import_module(f"sim.props.{property_id.lower()}")
    return module.PROP


def known_findings(property_id):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS, encoding="utf-8") as file_object:
        data = json.load(file_object)
    return [
        entry for entry in data.get("findings", []) if entry["property"] == property_id
    ]


def is_known(findings, violation):
    for entry in findings:
        if entry["match"] in violation:
            return entry
    return None


def replay(prop, path):
    with open(path, encoding="utf-8") as file_object:
        data = json.load(file_object)
    prop.prepare()
    verdicts = engine.run_fresh(prop, data["cases"])
    last = verdicts[len(data["cases"]) - 1] if len(verdicts) >= len(data["cases"]) else (
        verdicts[-1])
    print(f"replay of {path}")
    print(f"  recorded: {data['violation']}")
    print(f"  now:      {last.violation}")
    print(f"  event digest {last.digest} (recorded {data['event_digest']})")
    if last.violation:
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    parser.add_argument("--seed", type=int,
                        default=int(os.environ.get("VERIF_SEED") or "1"))
    parser.add_argument("--replay")
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument("--all", action="store_true", help="do not stop early")
    parser.add_argument("--digest", action="store_true", help="print the digest")
    parser.add_argument("--only", help="only cases whose subject contains this")
    options = parser.parse_args()

    prop = load(options.property)
    if options.replay:
        return replay(prop, options.replay)
    started = time.monotonic()
    prop.prepare()
    cases = list(prop.cases(options.tier, options.seed))
    if options.only:
        cases = [case for case in cases if options.only in str(case.get("subject"))]
    prepared = time.monotonic()
    wall = prop.thorough_wall if options.tier == "thorough" else prop.quick_wall
    chunks = [
        cases[index : index + prop.chunk] for index in range(0, len(cases), prop.chunk)
    ]
    findings = known_findings(prop.id)
    found = []
    hits = {}
    counters = {}
    digests = set()
    nontrivial = set()
    evaluations = 0
    steps = 0
    harness = []
    event_log = {}

    def stop(verdict):
        return (verdict.violation and not is_known(findings, verdict.violation)
                and not options.all)

    for number, verdicts, complete, status in engine.ForkPool(prop, options.workers).run(
            chunks, deadline=started + wall, stop_on=stop):
        if not complete:
            verdicts = verdicts + [engine.Verdict(
                violation=f"crash: process ended with status {status}", key="crash",
                nontrivial=True, digest="crash")]
        for index, verdict in enumerate(verdicts):
            evaluations += 1
            steps += verdict.steps
            for name, value in verdict.counters.items():
                counters[name] = counters.get(name, 0) + value
            digests.add(verdict.digest)
            if verdict.nontrivial:
                nontrivial.add(verdict.digest)
            event_log[number * prop.chunk + index] = verdict.digest
            if verdict.note.startswith("HARNESS"):
                harness.append((chunks[number][index], verdict.note))
            if verdict.violation:
                entry = is_known(findings, verdict.violation)
                if entry:
                    hits[entry["match"]] = entry
                else:
                    found.append((chunks[number][: index + 1], verdict))
    searched = time.monotonic()

    state = hashlib.sha256()
    for number in sorted(event_log):
        state.update(f"{number}:{event_log[number]}\n".encode())
    reports = []
    seen = set()
    for history, verdict in found:
        key = str(verdict.key)
        if key in seen or len(seen) >= (20 if options.all else 1):
            continue
        seen.add(key)
        if options.all:
            print(f"  {json.dumps(history[-1])[:300]} -> {verdict.violation[:600]}")
        best, best_verdict = engine.minimise(prop, history, verdict,
                                             budget_s=5 if options.all else 60)
        again = engine.reproduces(
            prop, best, engine.violation_class(best_verdict.violation))
        if again is None:
            harness.append((best[-1], f"does not replay: {best_verdict.violation}"))
            continue
        path = engine.write_replay(
            prop, best, again, options.seed, os.path.join(HERE, "evidence", "replay"))
        reports.append((path, again))
    ended = time.monotonic()
    faults = {
        name[6:]: value for name, value in sorted(counters.items())
        if name.startswith("fault:")
    }
    hours = max(searched - prepared, 0.001) / 3600
    evidence = {
        "property": prop.id, "tier": options.tier, "seed": options.seed,
        "level": getattr(prop, "level", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.measure + "; nontrivial: " + getattr(
                prop, "nontrivial_rule",
                "an injected fault took effect in the run"),
            "samples": [
                {"input": prop.describe(case)} for case in cases[:: max(1, len(cases) // 5)][:5]
            ],
            "planned_cases": len(cases),
            "simulated_runs": evaluations,
            "runs_per_hour": int(evaluations / hours),
            "seeds_per_hour": int(evaluations / hours),
            "simulated_time": f"{steps} simulated disk operations (the logical clock)",
            "fault_kinds_injected": faults,
            "counters": {
                name: value for name, value in sorted(counters.items())
                if not name.startswith("fault:")
            },
            "distinct_states": len(digests),
            "event_log_digest": state.hexdigest(),
            "components_real": prop.real,
            "components_stub": prop.stub,
        },
        "violations": [
            {"violation": verdict.violation[:1000], "replay": path}
            for path, verdict in reports
        ],
        "assumptions": getattr(prop, "assumptions", []),
        "wall_s": round(ended - started, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop.id}.json"), "w",
              encoding="utf-8") as file_object:
        json.dump(evidence, file_object, indent=1)
        file_object.write("\n")
    print(f"{prop.id} {options.tier}: {evaluations}/{len(cases)} runs, {steps} operations, "
          f"{len(nontrivial)} distinct nontrivial, faults {faults}, "
          f"{ended - started:.1f} s")
    if options.digest:
        print(f"event log {state.hexdigest()}")
    for entry in findings:
        print(f"KNOWN-FINDING: property={prop.id} {entry['what']}")
    for path, verdict in reports:
        print(f"  {verdict.violation[:1500]}")
        print(f"VIOLATION property={prop.id} replay={path}")
    if reports:
        return 1
    if harness:
        for case, note in harness[:5]:
            print(f"HARNESS ERROR {json.dumps(case)[:300]}: {note}", file=sys.stderr)
        return 2
    if evaluations < len(cases):
        print(f"  wall limit: {len(cases) - evaluations} planned runs not made")
    return 0


if __name__ == "__main__":
    sys.exit(main())
