"""C20: solving pipes the instance in and the same result out."""
import contextlib
import io
import os
import pathlib
import tempfile

from checks.planning_common import *  # noqa: F401,F403
from checks.loading import loaded  # noqa: E402,F401
from checks import loading  # noqa: E402
import jinete as jit  # noqa: E402
from jinete.algorithms import Algorithm  # noqa: E402
from jinete.dispatchers import StaticDispatcher  # noqa: E402
from jinete.loaders import FileLoader, HashCodeLoaderFormatter, Loader  # noqa: E402
from jinete.solvers import Solver  # noqa: E402
from jinete.storers import (  # noqa: E402
    ColumnarStorerFormatter, FileStorer, HashCodeStorerFormatter, NaiveStorer, PromptStorer, Storer, StorerFormatter, StorerSet,
)

PROPERTY = "C20"
BOUNDS = ("quick: every subset of up to 2 options per component (all four components), option values symbolic; 0-3 storers in a "
          "set; both formatters and one returning arbitrary text; one or two solves of the same solver; planning with symbolic loads; "
          "real file-to-file runs on instance files with 0-2 vehicles and rides whose ride times are symbolic; thorough: 3 options, "
          "4 storers, a 2x3 file")
ASSUMPTIONS = ["a file path is a pathlib.Path and its folder exists", "numbers read from the text are kept exactly"]
MUST_REACH = {"quick": ["solved", "option", "no option", "set", "file", "prompt", "end to end", "default dispatcher", "no storer"]}


THREE = ("loader_cls", "algorithm_cls", "storer_cls")


class Log(list):
    def of(self, kind):
        return [e[1:] for e in self if e[0] == kind]


def components(x, log, layout, data):
    """Recording stand-ins for the four configurable parts (everything between them is jinete's)."""
    built = build(x, layout, data)

    class AnyLoader(Loader):
        def __init__(self, *args, **kwargs):
            self.w, self.result, self.shown = built
            log.append(("loader", self, args, kwargs))

        _data = None
        fleet = property(lambda self: self.result.fleet)
        job = property(lambda self: self.result.job)
        surface = property(lambda self: self.w.surface)

    class AnyAlgorithm(Algorithm):
        def __init__(self, *args, **kwargs):
            log.append(("algorithm", self, args, dict(kwargs)))
            super().__init__(*args, **kwargs)

        def _optimize(self):
            log.append(("optimized", self))
            return log.of("loader")[-1][0].result.planning

        def optimize(self):
            result = super().optimize()
            log.append(("result", self, result))
            return result

    class AnyStorer(Storer):
        def __init__(self, *args, **kwargs):
            log.append(("storer", self, args, kwargs))
            super().__init__(kwargs["result"], kwargs.get("formatter_cls"))

        def store(self):
            log.append(("stored", self, self.result))

    class AnyDispatcher(StaticDispatcher):
        def __init__(self, *args, **kwargs):
            log.append(("dispatcher", self, args, kwargs))
            super().__init__(*args, **{k: v for k, v in kwargs.items() if k in THREE})

    return AnyLoader, AnyAlgorithm, AnyStorer, AnyDispatcher


NAMES = dict(loader=["file_path", "encoding", "data"], algorithm=["seed", "iterations", "fleets"],
             storer=["file_path", "tab_character", "remove_empty_routes"], dispatcher=["loader_kwargs", "timeout", "workers"])


def options(x, part, n, names=None):
    out = {}
    for i in range(n):
        if x.flag(f"{part}.{i}"):
            out[NAMES[part][i] if names == "usual" else f"{part}_option_{i}"] = x.real(f"{part}.value{i}", -1000, 1000)
            x.reach("option")
        else:
            x.reach("no option")
    return out


def same_options(x, got, want, label, extra=()):
    x.check(set(got) == set(want) | set(extra), label)
    for k in want:
        if k in got:
            x.check(x.eq(got[k], want[k]), label)


def pipeline(x, n=1, parts=("loader", "algorithm", "storer", "dispatcher"), dispatcher=True, solves=1, given=True, names=None):
    log = Log()
    L, A, S, D = components(x, log, [ONE], LOADS)
    opt = {p: options(x, p, n, names) if p in parts else {} for p in ("loader", "algorithm", "storer", "dispatcher")}
    if not dispatcher:
        opt["dispatcher"] = {}
    before = {p: dict(o) for p, o in opt.items()}
    kw = {f"{p}_kwargs": o for p, o in opt.items() if o or given}
    if dispatcher:
        kw["dispatcher"] = D
    else:
        x.reach("default dispatcher")
    solver = Solver(loader=L, algorithm=A, storer=S, **kw)
    for k in range(solves):
        log.clear()
        result = solver.solve()
        judge(x, log, result, opt, dispatcher)
    for p in opt:
        x.check(opt[p].keys() == before[p].keys() and all(opt[p][o] is before[p][o] for o in opt[p]), "options given are not changed")
    x.reach("solved")


def judge(x, log, result, opt, dispatcher):
    loaders, algorithms, storers, results = (log.of(k) for k in ("loader", "algorithm", "storer", "result"))
    x.check(len(loaders) == len(algorithms) == len(storers) == len(results) == 1, "one loader, algorithm and storer per solve")
    if not (len(loaders) == len(algorithms) == len(storers) == len(results) == 1):
        return
    loader, algorithm, storer = loaders[0][0], algorithms[0][0], storers[0][0]
    x.check(loaders[0][1] == (), "the loader gets its options")
    same_options(x, loaders[0][2], opt["loader"], "the loader gets its options")
    args, kwargs = algorithms[0][1:]
    x.check(algorithm.fleet is loader.fleet and algorithm.job is loader.job, "the algorithm gets the loaded fleet and job")
    x.check(kwargs.get("fleet", args[0] if args else None) is loader.fleet, "the algorithm gets the loaded fleet and job")
    same_options(x, {k: v for k, v in kwargs.items() if k not in ("fleet", "job")}, opt["algorithm"], "the algorithm gets its options")
    x.check(len(log.of("optimized")) == 1, "the instance is optimised once")
    x.check(result is results[0][1], "the algorithm's result is returned")
    x.check(result.planning is loader.result.planning and result.algorithm is algorithm, "the result holds the algorithm's planning")
    x.check(result.job is loader.job and result.fleet is loader.fleet, "the result is about the loaded instance")
    args, kwargs = storers[0][1:]
    x.check((args[0] if args else kwargs.get("result")) is results[0][1], "the storer gets the algorithm's result")
    same_options(x, {k: v for k, v in kwargs.items() if k != "result"}, opt["storer"], "the storer gets its options")
    stored = log.of("stored")
    x.check(len(stored) == 1 and stored[0][0] is storer and stored[0][1] is result, "the result is stored once")
    order = [e[0] for e in log if e[0] in ("optimized", "stored")]
    x.check(order == ["optimized", "stored"], "the result is stored after the optimisation")
    if dispatcher:
        ds = log.of("dispatcher")
        x.check(len(ds) == 1, "one dispatcher per solve")
        if ds:
            named = [k for k in THREE if k in ds[0][2]]
            same_options(x, {k: v for k, v in ds[0][2].items() if k not in THREE}, opt["dispatcher"], "the dispatcher gets its options")
            x.check(len(ds[0][1]) + len(named) == 3, "the dispatcher gets the three components")
    x.observe("served", result.coverage_rate)


def storer_set(x, n, through="solver"):
    """Every storer of a set stores the result once, with the set's options."""
    log = Log()
    L, A, S, D = components(x, log, [ONE], LOADS)
    classes = [type(f"Storer{i}", (S,), {}) for i in range(n)]
    count = x.choice("storers", n + 1)
    chosen = classes[:count]
    opt = dict(formatter_cls=HashCodeStorerFormatter) if x.flag("formatter") else {}  # the one option every storer takes
    if through == "solver":
        result = Solver(loader=L, algorithm=A, storer=StorerSet, storer_kwargs=dict(storer_cls_set=set(chosen), **opt)).solve()
    else:
        result = L().result
        StorerSet(set(chosen), result=result, **opt).store()
    made, stored = log.of("storer"), log.of("stored")
    x.check(sorted(type(m[0]).__name__ for m in made) == sorted(c.__name__ for c in chosen), "every storer of the set is used once")
    x.check(sorted(type(m[0]).__name__ for m in stored) == sorted(c.__name__ for c in chosen), "every storer of the set stores once")
    for s, r in stored:
        x.check(r is result, "every storer of the set stores the same result")
    for m in made:
        got = {k: v for k, v in m[2].items() if k not in ("result",)}
        x.check(got == opt, "every storer of the set gets the set's options")
    x.reach("set")
    x.observe("count", count)


TEXTS = ["", "a", "two\nlines", "ends\n", "\n\n", "percent %s %d", "{0} {name}", "tab\t blank ", "\\n \\t", "x" * 300]


def recording(kind, made):
    """A formatter class whose every output is kept."""
    class Rec(kind):
        def format(self):
            out = super().format()
            made.append((self.result, out))
            return out
    return Rec


def output(x, kind, form, layout, data, existing="", tries=1):
    made = []
    if form == "text":
        text = TEXTS[x.choice("text", len(TEXTS))]

        class Base(StorerFormatter):
            def format(self):
                return text
    else:
        Base = dict(hashcode=HashCodeStorerFormatter, columnar=ColumnarStorerFormatter)[form]
    F = recording(Base, made)
    w, result, shown = build(x, layout, data, objective="hashcode")
    folder = tempfile.mkdtemp(prefix="symx-store-")
    path = pathlib.Path(folder) / "out.txt"
    try:
        if existing:
            path.write_text(existing)
        shown_text = io.StringIO()
        with contextlib.redirect_stdout(shown_text):
            if kind == "file":
                s = FileStorer(file_path=path, result=result, formatter_cls=F)
            elif kind == "prompt":
                s = PromptStorer(result=result, formatter_cls=F)
            elif kind == "set":
                class ToFile(FileStorer):
                    def __init__(self, *a, **k):
                        super().__init__(path, *a, **k)
                s = StorerSet({ToFile, PromptStorer, NaiveStorer}, result=result, formatter_cls=F)
            else:
                s = NaiveStorer(result=result, formatter_cls=F)
            for _ in range(tries):
                s.store()
        files = sorted(os.listdir(folder))
        content = path.read_text() if path.exists() else None
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)
    x.check(all(r is result for r, _ in made), "the stored result is the one given")
    outs = [stripped(x, o) for _, o in made]
    if kind in ("file", "set"):
        x.reach("file")
        x.check(files == ["out.txt"] and content is not None, "the file is written where asked")
        x.check(content is not None and stripped(x, content) in outs, "the file holds exactly the formatted result")
    else:
        x.check(content == (existing or None), "nothing else is written")
    if kind in ("prompt", "set"):
        x.reach("prompt")
        got = stripped(x, shown_text.getvalue())
        x.check(any(got == (o + "\n") * tries for o in outs), "the formatted result is printed exactly")
    else:
        x.check(shown_text.getvalue() == "", "nothing else is printed")
    if form == "text" and made:
        x.check(all(o == text for o in outs), "the formatted result is the formatter's")
    x.observe("size", len(files))


def stripped(x, text):
    """Printed symbolic figures by what they stand for rather than by when they were printed."""
    if not x.symbolic:
        return text
    import re
    return re.sub(r"<<(\d+):([^>]*)>>", lambda m: f"<<{x.tokens[int(m[1])][0].t.sexpr()}:{m[2]}>>", text)


def through(x, m, n, form="hashcode"):
    """A HashCode file in, a file out, with nothing replaced in between."""
    rows = [[10, 10, m, n, 2.0, x.real("steps", 0, 100)]]
    for i in range(n):
        rows.append([float(i), 0.0, float(i), 3.0, x.real(f"e{i}", 0, 100) if i == 0 else 0.0, x.real(f"f{i}", 0, 100)])
    source = loading.write(x, rows, "plain")
    folder = tempfile.mkdtemp(prefix="symx-solve-")
    target = pathlib.Path(folder) / "plan.out"
    try:
        result = Solver(loader_kwargs=dict(file_path=source, formatter_cls=HashCodeLoaderFormatter), storer=FileStorer,
                        storer_kwargs=dict(file_path=target, formatter_cls=HashCodeStorerFormatter)).solve()
        content = target.read_text()
    finally:
        os.unlink(source)
        if target.exists():
            target.unlink()
        os.rmdir(folder)
    x.check(len(result.fleet.vehicles) == m and sorted(t.identifier for t in result.job.trips) == [str(i) for i in range(n)],
            "the result is about the loaded instance")
    want = sorted([str(len(ids))] + ids for ids in ([t.identifier for t in r.trips] for r in result.routes) if ids)
    x.check(sorted(line.split() for line in content.split("\n") if line) == want, "the file lists the returned result's rides")
    x.observe("lines", len(want))
    x.reach("end to end")


def direct(x, storer):
    """A dispatcher used without a solver; without a storer nothing is stored."""
    log = Log()
    L, A, S, D = components(x, log, [ONE], LOADS)
    result = StaticDispatcher(L, A, S).run() if storer else StaticDispatcher(L, A).run()
    if storer:
        judge(x, log, result, {p: {} for p in ("loader", "algorithm", "storer")}, False)
    else:
        x.check(len(log.of("result")) == 1 and result is log.of("result")[0][1], "the algorithm's result is returned")
        x.check(not log.of("stored"), "nothing is stored without a storer")
        x.reach("no storer")


def cases(tier):
    out = []
    deep = tier == "thorough"

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    add("pipeline", "all", n=1)
    add("pipeline", "all-twice", n=1, solves=2)
    add("pipeline", "default-dispatcher", n=1, dispatcher=False, given=False)
    for p in ("loader", "algorithm", "storer", "dispatcher"):
        add("pipeline", p, n=3 if deep else 2, parts=[p])
        add("pipeline", f"{p}-named", n=3, parts=[p], names="usual")
    add("storer_set", "solver", n=4 if deep else 3)
    add("storer_set", "direct", n=4 if deep else 3, through="direct")
    for kind in ("file", "prompt", "set", "naive"):
        add("output", f"{kind}-text", kind=kind, form="text", layout=[ONE], data=LOADS)
        for form in ("hashcode", "columnar"):
            add("output", f"{kind}-{form}", kind=kind, form=form, layout=[ONE, shift(ONE, 1)], data=LOADS)
        add("output", f"{kind}-text-existing", kind=kind, form="text", layout=[ONE], data=LOADS, existing="something longer\n" * 40)
        add("output", f"{kind}-text-again", kind=kind, form="text", layout=[ONE], data=LOADS, tries=2)
    add("direct", "storer", storer=True)
    add("direct", "none", storer=False)
    for m, n in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)) + (((2, 3),) if deep else ()):
        add("through", f"{m}x{n}", m=m, n=n)
    return out
