"""Explore the cases of one property check in parallel, replay counterexamples, write evidence."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback
from collections import deque

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(OUT, "replays")


def harness_of(mod, case):
    return getattr(mod, case.get("harness", "harness"))


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


# ---------------------------------------------------------------------------------------- worker
_W: dict = {}


def _init_worker(mod_name, opts, known_ids):
    from . import env
    env.load()
    _W["mod"] = importlib.import_module(mod_name)
    _W["opts"] = opts
    _W["known"] = known_ids
    _W["rng"] = env._RandomOrig(opts.get("seed", 1))
    _W["profiled"] = set()
    _W["frame_cache"] = {}


def _repo_frames(tb):
    from . import env
    root = os.path.realpath(env.REPO) + os.sep
    out = []
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        out.append((fn.startswith(root), os.path.basename(fn), f.name, f.lineno, fn))
    return out


def classify_exception(e, tb):
    """('code', label) when jinete's code is involved, else ('harness', text)."""
    frames = _repo_frames(tb)
    last_h = max((i for i, f in enumerate(frames) if f[4].startswith(HERE + os.sep + "checks")), default=-1)
    inner = [f for f in frames[last_h + 1:] if f[0]]
    called_back = last_h >= 0 and any(f[0] for f in frames[:last_h])  # the code's call of a stand-in fails
    if inner or called_back:
        return "code", f"no unexpected {type(e).__name__}"
    return "harness", "".join(traceback.format_exception(type(e), e, tb))[-3000:]


def _profiler(seen, root):
    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c not in seen and c.co_filename.startswith(root):
                seen[c] = f"{os.path.relpath(c.co_filename, root)}:{c.co_qualname}"
    return prof


def run_path(mod, case, prefix, stats, opts, known, rng, functions):
    """Returns (pending prefixes, failures, errors)."""
    from . import core, env
    ctx = core.SymCtx(prefix, stats, opts, known)
    ctx.case = case
    core._current[0] = ctx
    failures, errors = [], []
    seen = None
    if functions is not None:
        seen = {}
        sys.setprofile(_profiler(seen, os.path.realpath(env.REPO) + os.sep))
    try:
        try:
            harness_of(mod, case)(ctx, **case.get("params", {}))
            if ctx.reached:
                # one satisfiability query shows that the path (hence its labels) is not vacuous
                if not ctx.feasible():
                    raise core.PathInfeasible()
            ctx.flush_checks()
            stats.paths += 1
            for lab in ctx.reached:
                stats.witnesses[lab] = stats.witnesses.get(lab, 0) + 1
        finally:
            if functions is not None:
                sys.setprofile(None)
                functions.update(seen.values())
    except core.PathInfeasible:
        stats.infeasible += 1
    except core.Inconclusive as e:
        errors.append(("inconclusive", f"{case['name']}: {e}"))
    except core.NonDeterminism as e:
        errors.append(("error", f"{case['name']}: nondeterminism {e}"))
    except RecursionError as e:
        kind, label = "code", "no unexpected RecursionError"
        _exc_failure(ctx, kind, label, case, stats, failures, errors)
    except Exception as e:
        kind, label = classify_exception(e, e.__traceback__)
        _exc_failure(ctx, kind, label, case, stats, failures, errors,
                     "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:])
    try:
        for label, cond, kid in ctx.failures:
            inputs, grid, m = ctx.model_inputs(cond)
            if inputs is None:
                errors.append(("inconclusive", f"{case['name']}: no model for failing {label}"))
                continue
            soft = False
            if ctx.rounded is not None:
                verdict, doubles = ctx.rounded.doubles(cond, m)
                stats.double_queries += 1
                if verdict == "unsat":
                    stats.double_refuted += 1
                    continue
                soft = verdict != "sat"
                inputs = doubles or inputs
            failures.append(dict(case=case, label=label, inputs=inputs, grid=grid, known=kid, soft=soft))
        if not ctx.failures and not failures and not errors and ctx.observed:
            nv = stats.validated + stats.validation_skipped
            if nv < 2 or rng.random() < opts.get("validate_rate", 0.02):
                _validate(mod, case, ctx, stats, opts, errors)
    except core.Inconclusive as e:
        errors.append(("inconclusive", f"{case['name']}: {e}"))
    finally:
        core._current[0] = core._rounding[0] = None
    return ctx.pending, failures, errors


def _exc_failure(ctx, kind, label, case, stats, failures, errors, text=""):
    import z3
    from . import core
    if kind == "harness":
        errors.append(("error", f"{case['name']}: harness error\n{text}"))
        return
    try:
        if not ctx.feasible():
            stats.infeasible += 1
            return
        stats.obligations += 1
        # obligations recorded before the exception still count
        ctx.flush_checks()
        regions = [(kid, r) for kid, r in getattr(ctx, "exc_known", {}).items() if kid in ctx.known]
        conds = [z3.Not(core.bterm(r)) for _, r in regions]
        if not regions or ctx._check(*conds):
            ctx.failures.append((label, z3.And(*conds) if conds else z3.BoolVal(True), None))
        for kid, r in regions:
            if ctx._check(core.bterm(r)):
                ctx.failures.append((label, core.bterm(r), kid))
        ctx.exc_text = text
    except core.Inconclusive as e:
        errors.append(("inconclusive", f"{case['name']}: {e}"))


def _num(v, m):
    import z3
    from fractions import Fraction
    from . import core
    if isinstance(v, core.SymNum):
        r = m.eval(v.t, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(30)
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if isinstance(v, core.SymBool):
        return bool(z3.is_true(m.eval(v.t, model_completion=True)))
    if isinstance(v, (tuple, list)):
        return tuple(_num(a, m) for a in v)
    return v


def _same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(_same(p, q) for p, q in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return a == b
    if a == b:
        return True
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def _validate(mod, case, ctx, stats, opts, errors):
    """Run the same harness on plain numbers drawn from a model of the path; compare what is observed."""
    import z3
    from . import core
    inputs, grid, m = ctx.model_inputs(z3.BoolVal(True) if ctx.rounded is None else ctx.rounded.all_exact())
    if inputs is None or not grid:
        stats.validation_skipped += 1
        return
    want = [(n, _num(v, m)) for n, v in ctx.observed]
    conc = core.ConcCtx(inputs, ctx.choices, opts)
    conc.case = case
    core._current[0] = conc
    core._rounding[0] = None
    try:
        harness_of(mod, case)(conc, **case.get("params", {}))
    except core.PathInfeasible:
        stats.validation_mismatch += 1
        errors.append(("mismatch", f"{case['name']}: concrete run left the assumptions; inputs={inputs}"))
        return
    except Exception as e:
        stats.validation_mismatch += 1
        errors.append(("mismatch", f"{case['name']}: concrete run raised {e!r}; inputs={inputs}"))
        return
    finally:
        core._current[0] = ctx
    if not _same(want, conc.observed) or conc.failed:
        stats.validation_mismatch += 1
        diff = [(a, b) for a, b in zip(want, conc.observed) if not _same(a, b)]
        errors.append(("mismatch", f"{case['name']}: symbolic {diff[:3]} failed={conc.failed[:2]} inputs={inputs}"))
        return
    stats.validated += 1
    if len(stats.samples) < 2:
        stats.samples.append(dict(case=case["name"], inputs={k: v for k, v in list(inputs.items())[:14]},
                                  observed=[[n, repr(v)[:60]] for n, v in conc.observed[:6]]))


def worker_task(task):
    case, prefixes, slice_s = task
    from . import core
    mod, opts = _W["mod"], _W["opts"]
    stats = core.Stats()
    stack = list(prefixes)
    failures, errors = [], []
    functions = set()
    t0 = time.perf_counter()
    first = True
    profile = case["name"] not in _W["profiled"]
    while stack:
        prefix = stack.pop()
        pend, fails, errs = run_path(
            mod, case, prefix, stats, opts, _W["known"], _W["rng"], functions if (first and profile) else None
        )
        first = False
        _W["profiled"].add(case["name"])
        stack.extend(pend)
        failures.extend(fails)
        errors.extend(errs)
        if len([f for f in failures if f["known"] is None]) >= 3 or len(errors) > 5:
            break
        if time.perf_counter() - t0 > slice_s:
            break
    return case["name"], stack, stats, failures, errors, functions, time.perf_counter() - t0


# ---------------------------------------------------------------------------------------- master
def replay_file(prop, mod_name, failure, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    body = dict(property=prop, module=mod_name, case=failure["case"], label=failure["label"], inputs=failure["inputs"])
    if "exists" in failure:
        body["exists"] = failure["exists"]
    h = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{h}.json")
    json.dump(body, open(path, "w"), indent=1, default=str)
    return path


def run_replay(path):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([sys.executable, "-m", "symx.replay", path], cwd=HERE, env=env, capture_output=True,
                           text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1, (p.stdout + p.stderr)[-3000:]


def main(mod_name, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None, help="only cases whose name contains this")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--all-failures", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    from . import core, env
    env.load()
    mod = importlib.import_module(mod_name)
    prop = mod.PROPERTY
    budget = a.budget or getattr(mod, "BUDGET", {}).get(a.tier) or (300 if a.tier == "quick" else 3000)
    deadline = t0 + budget
    opts = dict(seed=seed, tier=a.tier, query_timeout_ms=20000 if a.tier == "quick" else 60000)
    opts.update(getattr(mod, "OPTS", {}))
    cases = [c for c in mod.cases(a.tier) if a.case is None or a.case in c["name"]]
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    findings = [f for f in load_known() if f["property"] == prop]
    known_ids = [f["id"] for f in findings]

    by_name = {c["name"]: c for c in cases}
    total = core.Stats()
    per_case = {n: dict(paths=0, seconds=0.0, open=1, reached=set(), broken=False) for n in names}
    functions, errors, failures, known_seen = set(), [], [], {}
    violation = None
    unreproduced = []
    tried = {}

    pool = mp.get_context("fork").Pool(a.jobs, _init_worker, (mod_name, opts, known_ids), maxtasksperchild=60)
    queue = deque((c["name"], [[]]) for c in cases)
    running = []
    exhausted = True
    stop = False
    try:
        while (queue or running) and not stop:
            if time.time() > deadline:
                exhausted = False
                break
            while queue and len(running) < a.jobs + 2:
                name, prefixes = queue.popleft()
                # hand out few prefixes while workers are hungry, more when there is plenty
                slice_s = 0.5 if len(queue) < a.jobs else 2.0
                running.append(pool.apply_async(worker_task, ((by_name[name], prefixes, slice_s),)))
            done = [r for r in running if r.ready()]
            if not done:
                time.sleep(0.005)
                continue
            running = [r for r in running if r not in done]
            for r in done:
                name, left, stats, fails, errs, fns, secs = r.get()
                total.add(stats)
                pc = per_case[name]
                pc["paths"] += stats.paths
                pc["seconds"] += secs
                pc["reached"] |= set(stats.witnesses)
                pc["broken"] = pc["broken"] or bool(errs or fails)
                functions |= fns
                errors.extend(errs)
                if left:
                    hungry = max(1, a.jobs + 2 - len(running) - len(queue))
                    n = min(len(left), max(1, hungry))
                    for k in range(n):
                        chunk = left[k::n]
                        queue.append((name, chunk))
                for f in fails:
                    if f["known"] is not None:
                        known_seen.setdefault(f["known"], f)
                        continue
                    failures.append(f)
                    key = (f["case"]["name"], f["label"])
                    tried[key] = tried.get(key, 0) + 1
                    if violation is not None and not a.all_failures or tried[key] > (6 if not a.all_failures else 1):
                        continue
                    path = replay_file(prop, mod_name, f, a.tier)
                    ok, text = run_replay(path)
                    if ok:
                        violation = violation or (path, f, text)
                        if a.all_failures:
                            print("VIOL", f["case"]["name"], f["label"], path)
                            print("\n".join(text.splitlines()[:12]))
                        else:
                            stop = True
                    elif f.get("soft"):
                        errors.append(("inconclusive", f"{name}: {f['label']} fails in the model of rounding; no doubles found"))
                    else:
                        unreproduced.append((f, text))
                        if a.verbose or a.all_failures:
                            print("UNREPRODUCED", f["case"]["name"], f["label"], f["inputs"], text)
                if any(k == "error" for k, _ in errs) and not getattr(a, "keep_going", False):
                    stop = stop or len([1 for k, _ in errors if k == "error"]) > 3
        if not stop and not queue and not running and violation is None:
            # existential obligations of a case: labels that some path within the bounds must reach
            for c in cases:
                if violation is not None and not a.all_failures:
                    break
                want = [w for w in c.get("expect", ()) if w not in per_case[c["name"]]["reached"]]
                if not want or per_case[c["name"]]["broken"]:
                    continue
                f = dict(case=c, label=f"possible within the bounds: {want[0]}", inputs={}, exists=want[0])
                path = replay_file(prop, mod_name, f, a.tier)
                ok, text = run_replay(path)
                if ok:
                    violation = violation or (path, f, text)
                    if a.all_failures:
                        print("VIOL", c["name"], f["label"], path)
                else:
                    unreproduced.append((f, text))
    finally:
        pool.terminate()
        pool.join()

    open_cases = sorted({n for n, _ in queue}) if not exhausted else []
    hard = [e for k, e in errors if k == "error"]
    inconcl = [e for k, e in errors if k == "inconclusive"]
    mism = [e for k, e in errors if k == "mismatch"]
    must = [] if a.case else list(getattr(mod, "MUST_REACH", {}).get(a.tier, getattr(mod, "MUST_REACH", {}).get("quick", [])))
    missing = [m for m in must if not total.witnesses.get(m)]

    if findings and violation is None and not a.case:
        for f in findings:
            if f["id"] in known_seen:
                print(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")
    wall = time.time() - t0
    status = 0
    if violation is not None:
        status = 1
    elif hard or unreproduced or mism:
        status = 2
    elif missing and exhausted and (2 * len(missing) > len(must) or not total.obligations or os.environ.get("VERIF_STRICT")):
        # most of what makes the check mean something no longer happens: no answer
        status = 2

    evidence = dict(
        property=prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking",
        coverage=dict(
            states=total.paths, transitions=total.branches,
            traces_validated_against_impl=total.validated,
            samples=total.samples or [dict(case=n) for n in names[:3]],
            exhaustive=bool(exhausted and not inconcl and violation is None and status == 0),
            technique="symbolic execution of the real code with an SMT solver (Z3); states = feasible paths, "
                      "transitions = symbolic branch decisions",
            functions_encoded=sorted(functions),
            cases={n: dict(params={k: repr(v) for k, v in by_name[n].get("params", {}).items()},
                           paths=per_case[n]["paths"], seconds=round(per_case[n]["seconds"], 2)) for n in names},
            bounds=getattr(mod, "BOUNDS", ""),
            solver_queries=total.queries, solver_seconds=round(total.solver_s, 2), solver_unknown=total.unknown,
            forks=total.forks, infeasible_paths=total.infeasible,
            obligations=total.obligations, obligations_needing_solver=total.solver_obligations,
            concretised_values=total.realized, validation_skipped_off_grid=total.validation_skipped,
            reached=total.witnesses, not_reached=missing, inconclusive_paths=len(inconcl), unfinished_cases=open_cases,
            known_findings_seen=sorted(known_seen),
            **(dict(double_precision_queries=total.double_queries, double_precision_refuted=total.double_refuted)
               if total.double_queries else {}),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=1 if violation else 0,
    )
    os.makedirs(OUT, exist_ok=True)
    if not a.case:
        with open(os.path.join(OUT, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1, default=str)
    print(f"{prop} [{a.tier}] cases={len(cases)} paths={total.paths} infeasible={total.infeasible} "
          f"forks={total.forks} queries={total.queries} solver={total.solver_s:.1f}s "
          f"obligations={total.obligations}({total.solver_obligations} by solver) validated={total.validated} "
          f"skipped={total.validation_skipped} realized={total.realized} exhaustive={exhausted and not inconcl} wall={wall:.1f}s")
    if a.verbose:
        for n in names:
            print(f"  {n}: paths={per_case[n]['paths']} cpu={per_case[n]['seconds']:.1f}s")
        print("  reached:", total.witnesses)
        print("  functions:", len(functions))
    for e in hard[:3]:
        print("ERROR:", e)
    for e in mism[:3]:
        print("MODEL-MISMATCH:", e)
    for e in inconcl[:3]:
        print("INCONCLUSIVE:", e)
    if missing:
        print("NOT-REACHED:", missing)
    if unreproduced and violation is None:
        for f, text in unreproduced[:3]:
            print("UNREPRODUCED counterexample:", f["case"]["name"], f["label"], f["inputs"], text[-1500:])
    if violation is not None:
        path, f, text = violation
        print(f"counterexample: case={f['case']['name']} label={f['label']}")
        print(text)
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return status


COMMON_ASSUMPTIONS = [
    "numbers are exact reals in the symbolic run; on the dyadic grid used for replays double arithmetic is exact",
    "sets of identity-hashed objects are enumerated in creation order (one of the orders CPython may use)",
    "the generator behind random.Random is an arbitrary function of (seed, draw number)",
    "Z3, CPython and the engine in /verif/symx are trusted; sampled paths are compared with concrete runs",
]
