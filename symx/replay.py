"""Replay a counterexample on the real code with plain Python numbers: exit 1 if it reproduces."""
import importlib
import json
import os
import sys
import traceback


def main(path):
    from . import paths  # noqa: F401
    from . import core, env, runner
    body = json.load(open(path))
    env.load(replay=True)
    mod = importlib.import_module(body["module"])
    case = body["case"]
    if "exists" in body:
        return exists(core, runner, mod, case, body["exists"])
    conc = core.ConcCtx(body["inputs"], {}, {})
    conc.case = case
    core._current[0] = conc
    raised = None
    try:
        runner.harness_of(mod, case)(conc, **case.get("params", {}))
    except core.PathInfeasible:
        if not conc.failed:
            print("the inputs do not satisfy the harness's assumptions concretely")
            return 0
    except Exception as e:
        kind, label = runner.classify_exception(e, e.__traceback__)
        if kind == "harness":
            traceback.print_exc()
            return 2
        raised = (label, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
    print("inputs:", json.dumps(body["inputs"]))
    if raised:
        conc.failed.append(raised)
    for label, detail in conc.failed:
        print(f"FAILED: {label}" + (f": {detail}" if detail else ""))
    for n, v in conc.observed[:40]:
        print("  observed", n, v)
    return 1 if conc.failed else 0


def exists(core, runner, mod, case, label):
    """Run the real code with every outcome of the harness's choices; exit 1 if none reaches the label."""
    stack, runs = [[]], 0
    while stack:
        prefix = stack.pop()

        class Enum(core.ConcCtx):
            def choice(self, name, n):
                if n <= 0:
                    raise core.PathInfeasible()
                k = len(self.script)
                v = prefix[k] if k < len(prefix) else 0
                if k >= len(prefix):
                    stack.extend(self.script + [o] for o in range(1, n))
                self.script.append(v)
                return v
        conc = Enum({}, {}, {})
        conc.script, conc.case = [], case
        core._current[0] = conc
        runs += 1
        try:
            runner.harness_of(mod, case)(conc, **case.get("params", {}))
        except core.PathInfeasible:
            continue
        if label in conc.reached:
            print(f"reached after {runs} runs with choices {conc.script}")
            return 0
        if runs > 200000:
            print("gave up enumerating")
            return 0
    print(f"FAILED: none of the {runs} runs reaches: {label}")
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
