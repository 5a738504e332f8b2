"""P10: the report of evidence does not depend on where and how it is read."""

import inspect
import random

from sim import engine
from sim import environment
from sim import registry
from sim import session
from sim.props import common


class Property(common.Property):
    id = "P10"
    chunk = 40
    stub = common.Property.stub + (
        ", the current directory; dfVFS runs for real on top of the simulated disk")
    measure = "distinct digests of (subject, environment, steps) of a run"
    nontrivial_rule = "the environment differs from the one of the reference run"

    def prepare(self):
        import dfvfs.resolver.resolver  # noqa: F401
        import dtformats.dfvfs_helpers  # noqa: F401
        registry.goldens()
        environment.helper_for("os", {}, "/simfs/x")

    @staticmethod
    def _helpers(name):
        """Whether every reader of the subject can be given a file system helper."""
        from sim import props  # noqa: F401
        import sys
        for class_name in registry.golden(name, False).classes:
            for module_name, module in list(sys.modules.items()):
                if module_name.startswith("dtformats."):
                    found = getattr(module, class_name, None)
                    if found is not None and found.__module__ == module_name:
                        if "file_system_helper" not in inspect.signature(
                                found.__init__).parameters:
                            return False
        return True

    def cases(self, tier, seed):
        thorough = tier == "thorough"
        result = []
        for name, subject in registry.all_subjects().items():
            rng = random.Random(f"{seed}:P10:{name}")
            helpers = self._helpers(name)
            for debug in (False, True):
                golden = registry.golden(name, debug)
                if golden.error:
                    continue
                budget = (40000 if thorough else 1200) / golden.cost_ms
                for number in range(int(max(10, min(budget, 1500 if thorough else 45)))):
                    env = {}
                    if number % 2 == 0 or rng.random() < 0.5:
                        env["place"] = rng.choice(environment.PLACES)
                    if helpers and rng.random() < 0.4:
                        env["helper"] = rng.choice(["os", "tar", "zip"])
                    elif rng.random() < 0.5:
                        env["spelling"] = rng.choice(["relative", "relative", "loose"])
                        env["cwd"] = rng.randrange(16)
                    if rng.random() < 0.7:
                        env["order"] = rng.getrandbits(16)
                    if rng.random() < 0.5:
                        env["zone"] = rng.choice(environment.ZONES)
                    result.append({"subject": name, "debug": debug, "env": env})
        names = [name for name in registry.all_subjects()
                 if not registry.golden(name, False).error]
        rng = random.Random(f"{seed}:P10:process")
        for _ in range(24 if thorough else 4):
            rng.shuffle(names)
            for index in range(0, len(names), 15):
                env = {"PYTHONHASHSEED": str(rng.randrange(1, 1 << 32))}
                if rng.random() < 0.5:
                    env["TZ"] = rng.choice(environment.ZONES)
                if rng.random() < 0.4:
                    env["LC_ALL"] = rng.choice(["C", "POSIX", "C.utf8"])
                    env["PYTHONUTF8"] = "0"
                    env["PYTHONCOERCECLOCALE"] = "0"
                if rng.random() < 0.4:
                    env["PYTHONOPTIMIZE"] = rng.choice(["1", "2"])
                debug = rng.random() < 0.5
                part = [name for name in names[index : index + 15]
                        if registry.golden(name, debug).cost_ms < 300]
                result.append({"subject": "process", "debug": debug, "process": env,
                               "names": part})
        random.Random(f"{seed}:order").shuffle(result)
        return result

    def run(self, case):
        if case.get("process"):
            return self._process(case)
        name, debug, env = case["subject"], case["debug"], case["env"]
        subject = registry.all_subjects()[name]
        golden = registry.golden(name, debug)
        outcome, world, records, (text,) = environment.run(
            subject, env, debug, golden.steps * 40 + 200000)
        wanted = [entry.replace(subject.root, environment.ROOT) for entry in golden.records]
        wanted_text = golden.text.replace(subject.root, environment.ROOT)
        violation = None
        where = f"{name}{' (tracing)' if debug else ''} in {env}"
        if outcome.error is not None:
            violation = f"unreadable: {where}: {outcome.summary()}"
        elif records != wanted or text != wanted_text:
            outcome.records, outcome.text = records, text
            reference = registry.Golden.__new__(registry.Golden)
            reference.records, reference.text = wanted, wanted_text
            violation = f"different: {where}: {common.show_difference(outcome, reference)}"
        counters = {"ops": world.steps}
        for key, value in env.items():
            counters[f"env:{key}" + (f"={value}" if key in ("helper", "spelling") else "")] = 1
        return engine.Verdict(
            violation=violation, key=(name, (violation or "")[:60]), counters=counters,
            steps=world.steps, nontrivial=bool(env),
            digest=engine.digest_of(name, debug, sorted(env.items()), world.steps, records,
                                    text, outcome.error_name), note=outcome.summary())

    def _process(self, case):
        items = []
        for name in case["names"]:
            golden = registry.golden(name, case["debug"])
            items.append([name, case["debug"], environment.fingerprint(
                golden.records, golden.text, golden.error)])
        different = environment.run_process(items, case["process"])["different"]
        violation = None
        if different:
            entry = different[0]
            golden = registry.golden(entry["name"], case["debug"])
            outcome = session.Outcome.__new__(session.Outcome)
            outcome.records, outcome.text = entry["records"], entry["text"]
            violation = (
                f"different: {entry['name']} in a process with {case['process']}: "
                f"{entry['summary']}; {common.show_difference(outcome, golden)}")
        counters = {"processes": 1, "sessions": len(items)}
        for key in case["process"]:
            counters[f"env:{key}"] = 1
        return engine.Verdict(
            violation=violation, key=(violation or "")[:60], counters=counters,
            nontrivial=True, digest=engine.digest_of(case, violation))

    def shrink(self, case):
        if case.get("process"):
            names = case["names"]
            if len(names) > 1:
                half = len(names) // 2
                yield dict(case, names=names[:half])
                yield dict(case, names=names[half:])
            for key in case["process"]:
                if key != "PYTHONHASHSEED":
                    process = {name: value for name, value in case["process"].items()
                               if name != key}
                    yield dict(case, process=process)
            return
        for key in case["env"]:
            yield dict(case, env={
                name: value for name, value in case["env"].items() if name != key})
        if case["debug"]:
            yield dict(case, debug=False)


PROP = Property()
