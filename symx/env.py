"""Import jinete from /repo so that its own code runs on symbolic numbers.

Nothing in jinete is rewritten: the interpreter's numeric builtins, `math`, `statistics` and `random`
are given symbolic-aware versions before jinete is imported, and jinete's modules see `float`, `int`
and `hash` replacements through their module globals.  In replay mode (`replay=True`) only the random
source and the iteration order of identity-hashed sets are controlled; all numbers are plain floats.
"""
from __future__ import annotations

import builtins
import importlib
import math
import os
import pkgutil
import random as _random
import statistics
import sys

from . import core
from .core import Inconclusive, SymBool, SymNum, current

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------------------------- random numbers
class ScriptRandom:
    """Stand-in for random.Random: every draw is a solver-chosen value.

    Draw number i of a generator seeded with s is F(s, i): two generators with the same seed give the
    same sequence; an unseeded generator gives fresh, unrelated values."""

    def __init__(self, seed=None):
        self._init(seed)

    def _init(self, seed):
        ctx = current()
        self._n = 0
        if isinstance(seed, SymNum):
            self._key = ("s", seed.t.sexpr())
        elif seed is None:
            if ctx is None:
                self._key = ("u", 0)
            else:
                ctx.store["unseeded"] = ctx.store.get("unseeded", 0) + 1
                self._key = ("u", ctx.store["unseeded"])
        else:
            self._key = ("c", repr(seed))

    def seed(self, a=None, version=2):
        self._init(a)

    def _draw(self, n, tag="i"):
        """index in 0..n-1"""
        ctx = current()
        if ctx is None:
            raise RuntimeError("random number drawn outside of a harness run")
        table = ctx.store.setdefault("rnd", {})
        key = (self._key, self._n, n, tag)
        self._n += 1
        if key not in table:
            period, times = ctx.store.get("echo", (0, 0))
            past = ctx.store.setdefault("rnd_sizes", [])
            k = len(past)
            if ctx.store.get("fair_draws"):
                # one ordinary source, where the harness says that draws may not matter
                table[key] = _RandomOrig(k).randrange(n)
            elif period <= k < period + times and past[k - period][0] == n:
                # a source that gives the same numbers over and over (one of its outcomes) before anything may follow
                table[key] = past[k - period][1]
            else:
                if ctx.store.get("rnd_chosen", 0) >= ctx.store.get("draw_limit", 1 << 30):
                    raise core.PathInfeasible()  # bound on the number of random draws (stated by the check)
                ctx.store["rnd_chosen"] = ctx.store.get("rnd_chosen", 0) + 1
                table[key] = ctx.choice(f"rnd{len(table)}", n)
            past.append((n, table[key]))
        return self._drawn(ctx, table[key])

    @staticmethod
    def _drawn(ctx, value):
        ctx.store.setdefault("draws", []).append(value)
        return value

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        ctx = current()
        if ctx is not None and ctx.store.get("symbolic_draws") and step == 1:
            return self._symbolic(ctx, start, stop - 1)
        big = self._big(start, stop - 1)
        if big is not None:
            return big
        start, stop = int(start), int(stop)
        n = len(range(start, stop, step))
        if n <= 0:
            raise ValueError("empty range for randrange()")
        return start + step * self._draw(n)

    def _big(self, a, b):
        """Wide ranges (seeds) stay symbolic instead of being enumerated."""
        if isinstance(a, SymNum) or isinstance(b, SymNum) or b - a < 4096:
            return None
        ctx = current()
        table = ctx.store.setdefault("rnd", {})
        key = (self._key, self._n, a, b)
        self._n += 1
        if key not in table:
            table[key] = ctx.integer(f"rndbig{len(table)}", a, b)
            ctx.store.setdefault("wide_draws", []).append(table[key])
        return self._drawn(ctx, table[key])

    def _symbolic(self, ctx, a, b):
        """A draw whose bounds and value stay symbolic (harnesses that ask for it)."""
        if a > b:
            raise ValueError("empty range for randrange()")
        table = ctx.store.setdefault("rnd", {})
        key = (self._key, self._n)
        self._n += 1
        if key not in table:
            if len(table) >= ctx.store.get("draw_limit", 1 << 30):
                raise core.PathInfeasible()
            v = table[key] = ctx.integer(f"rndsym{len(table)}", 0)
            ctx.assume(ctx.all([a <= v, v <= b]))
        return self._drawn(ctx, table[key])

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._draw(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError("Sample larger than population or is negative")
        return [pool.pop(self._draw(len(pool))) for _ in range(k)]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._draw(i + 1)
            x[i], x[j] = x[j], x[i]

    def random(self):
        ctx = current()
        table = ctx.store.setdefault("rnd", {})
        key = (self._key, self._n, "r")
        self._n += 1
        if key not in table:
            v = ctx.real(f"rndreal{len(table)}", 0, 1)
            ctx.assume(v < 1)
            table[key] = v
        return self._drawn(ctx, table[key])

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        return self.randrange(0, 2 ** k)

    def __deepcopy__(self, memo):
        r = object.__new__(type(self))
        r._key, r._n = self._key, self._n
        return r


class _GlobalRandom:
    """The module-level functions of `random`: one hidden unseeded generator per run."""

    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        ctx = current()
        if ctx is None:
            return getattr(_orig_random, self.name)(*a, **k)
        g = ctx.store.get("global_random")
        if g is None:
            g = ctx.store["global_random"] = ScriptRandom()
        return getattr(g, self.name)(*a, **k)


_orig_random = _random.Random()
_RandomOrig = _random.Random


def patch_random():
    _random.Random = ScriptRandom
    _random.SystemRandom = ScriptRandom
    for name in ("randint", "randrange", "choice", "choices", "sample", "shuffle", "random", "uniform",
                 "getrandbits", "seed"):
        setattr(_random, name, _GlobalRandom(name))


# ---------------------------------------------------------------------------------- numbers
def patch_numbers():
    builtins.max, builtins.min = core.sym_max, core.sym_min
    orig = {n: getattr(math, n) for n in dir(math)}

    def wrap(name, f):
        o = orig[name]

        def g(*a):
            for v in a:
                if type(v) is SymNum:
                    return f(*a)
            return o(*a)
        g.__name__ = name
        setattr(math, name, g)

    wrap("sqrt", core.sym_sqrt)
    wrap("isqrt", lambda v: v.__index__() and orig["isqrt"](v.__index__()))
    wrap("fabs", abs)
    wrap("floor", lambda v: v.__floor__())
    wrap("ceil", lambda v: v.__ceil__())
    wrap("trunc", lambda v: v.__trunc__())
    wrap("isinf", lambda v: False)
    wrap("isnan", lambda v: False)
    wrap("isfinite", lambda v: True)
    wrap("pow", lambda a, b: a ** b)
    wrap("copysign", lambda a, b: core.ite(b >= 0, abs(a), -abs(a)))

    def hypot(*c):
        if not any(type(v) is SymNum for v in c):
            return orig["hypot"](*c)
        s = 0
        for v in c:
            s = s + v * v
        return core.sym_sqrt(s)
    math.hypot = hypot

    def dist(p, q):
        return hypot(*[a - b for a, b in zip(p, q)])
    math.dist = dist

    def fsum(it):
        it = list(it)
        if not any(type(v) is SymNum for v in it):
            return orig["fsum"](it)
        s = 0
        for v in it:
            s = s + v
        return s
    math.fsum = fsum

    def prod(it, *, start=1):
        for v in it:
            start = start * v
        return start
    math.prod = prod

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if type(a) is not SymNum and type(b) is not SymNum:
            return orig["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        if core.is_inf(a) or core.is_inf(b):
            return False
        m = core.sym_max(core.sym_max(abs(a), abs(b)) * rel_tol, abs_tol)
        return abs(a - b) <= m
    math.isclose = isclose

    omean = statistics.mean

    def mean(data, weights=None):
        data = list(data)
        if not any(type(v) is SymNum for v in data):
            return omean(data)
        if not data:
            raise statistics.StatisticsError("mean requires at least one data point")
        s = 0
        for v in data:
            s = s + v
        return s / len(data)
    statistics.mean = mean
    statistics.fmean = mean


class _NumMeta(type):
    def __instancecheck__(cls, obj):
        if isinstance(obj, cls._base):
            return True
        if type(obj) is SymNum:
            return cls._sym(obj)
        return False

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


def parsed(v):
    """The symbolic number a text token written by a harness (`text`) stands for, or None."""
    if isinstance(v, str):
        ctx = current()
        if ctx is not None:
            return ctx.store.get("text", {}).get(v.strip())
    return None


def text(x, v):
    """How a number is written in a file read by the code under test."""
    if type(v) is not SymNum:
        return repr(v)
    table = x.store.setdefault("text", {})
    key = f"0.{len(table)}symbolic"
    table[key] = v
    return key


class FloatShim(float, metaclass=_NumMeta):
    _base = float
    _sym = staticmethod(lambda v: not v.isint)

    def __new__(cls, v=0.0):
        if type(v) is SymNum:
            return SymNum(v.t)
        if type(v) is SymBool:
            return v._num()
        f = parsed(v)
        return float(v) if f is None else f


class IntShim(int, metaclass=_NumMeta):
    _base = int
    _sym = staticmethod(lambda v: v.isint)

    def __new__(cls, v=0, *a):
        if type(v) is SymNum:
            return v.__trunc__()
        if type(v) is SymBool:
            return v._num()
        f = parsed(v)
        if f is not None:
            if not (f == f.__trunc__()):
                raise ValueError("invalid literal for int()")
            return f.__trunc__()
        return int(v, *a)


def sym_round(v, nd=None):
    return round(v, nd) if nd is not None else round(v)


# ---------------------------------------------------------------------------------- identity hashes
def _model_hash(self):
    ctx = current()
    if ctx is None:
        return object.__hash__(self)
    table = ctx.store.setdefault("hash", {})
    e = table.get(id(self))
    if e is None:
        n = ctx.store["hash_next"] = ctx.store.get("hash_next", 0) + 1
        e = table[id(self)] = (n, self)  # keeps the object alive: ids are not reused
    return e[0]


def stub_plotting():
    """Drawing is outside every property; its libraries are slow to import."""
    import types
    from unittest.mock import MagicMock

    class Stub(types.ModuleType):
        __path__ = []

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return MagicMock(name=name)

    for name in ("seaborn", "matplotlib", "matplotlib.pyplot"):
        if name not in sys.modules:
            sys.modules[name] = Stub(name)
            if "." in name:
                setattr(sys.modules[name.split(".")[0]], name.split(".")[1], sys.modules[name])


MODULES: dict = {}
_loaded = []


def load(replay=False):
    """Import every jinete module; returns the package."""
    if _loaded:
        return _loaded[0]
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import heapq, copy, functools, itertools, uuid, enum  # noqa: F401
    import networkx, pulp  # noqa: F401  (before the patches)
    import tempfile, multiprocessing.pool, subprocess, statistics  # noqa: F401
    stub_plotting()
    patch_random()
    if not replay:
        patch_numbers()
    pkg = importlib.import_module("jinete")
    if not os.path.realpath(pkg.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"jinete imported from {pkg.__file__}, not from {REPO}")
    for m in pkgutil.walk_packages(pkg.__path__, "jinete."):
        importlib.import_module(m.name)
    for name, mod in list(sys.modules.items()):
        if name == "jinete" or name.startswith("jinete."):
            MODULES[name] = mod
            if not replay:
                for k, v in (("float", FloatShim), ("int", IntShim), ("hash", core.sym_hash)):
                    if k not in mod.__dict__:
                        mod.__dict__[k] = v
    model = sys.modules["jinete.models.abc"].Model
    if "__hash__" not in model.__dict__ and "__eq__" not in model.__dict__:
        model.__hash__ = _model_hash
    _loaded.append(pkg)
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(20000)
    return pkg
