"""C22: sampling of index pairs is valid, distinct, complete and decided by its random source."""
import math
from symx import env
env.load()
import random as random_module  # noqa: E402
from symx.inst import *  # noqa: E402,F403
from jinete.utils import random as ur  # noqa: E402
from jinete.utils import sample_index_pairs  # noqa: E402

PROPERTY = "C22"
BOUNDS = ("quick: 0-4 positions (5 and 6 with small counts), wanted counts 0 to 8, every outcome of the random source with at most "
          "6-8 random numbers drawn (so up to two rejected draws; also after the source gave its first pair 5, 60 or 300 times over), own and global random source; thorough: up to 7 positions and 10 draws. "
          "Up to 1000 positions with up to 3 pairs "
          "and two rejected draws, the drawn numbers symbolic. The number of pairs is checked for 0-40 positions")
ASSUMPTIONS = ["a random integer in a range may take each value of the range, independently of the other draws",
               "runs that need more random numbers than the bound are not looked at"]
MUST_REACH = {"quick": ["all", "sampled", "large"]}


def pairs(n):
    return [(i, j) for j in range(n) for i in range(j)]


def run(x, n, count, source, limit, echo=0):
    x.store["draw_limit"] = limit
    if echo:
        x.store["echo"] = (2, 2 * echo)
    rnd = random_module.Random(5) if source == "own" else None
    got = list(sample_index_pairs(n, count, rnd) if source == "own" else sample_index_pairs(n, count))
    drawn = len(x.store.get("rnd", {}))
    x.check(all(0 <= i < j < n for i, j in got), "every pair (i, j) has 0 <= i < j < n")
    x.check(len(set(got)) == len(got), "no pair twice")
    x.check(len(got) == min(count, n * (n - 1) // 2 if n > 1 else 0), "exactly as many pairs as asked for, or all there are")
    if count >= len(pairs(n)):
        x.check(set(got) == set(pairs(n)), "all pairs when the count covers them")
        x.reach("all")
    elif count:
        x.reach("sampled")
        if drawn > 2 * count:
            x.reach("repeated draw")
        if echo and drawn > 2 * echo:
            x.reach("stubborn")
    if source == "own":
        x.check("global_random" not in x.store, "with a given source the global random numbers are not used")
        again = list(sample_index_pairs(n, count, random_module.Random(5)))
        x.check(set(again) == set(got), "the given source decides the outcome")
        x.check(again == got, "the given source decides the order")
    for p in got:
        x.reach(f"pair {p}")
    x.reach("finished")
    x.observe("drawn", float(drawn))


def large(x, n, count, limit):
    """Many positions: the drawn numbers stay symbolic."""
    x.store["draw_limit"] = limit
    x.store["symbolic_draws"] = True
    got = list(sample_index_pairs(n, count, random_module.Random(5)))
    x.check(len(got) == count, "exactly as many pairs as asked for, or all there are")
    x.check(x.all([x.all([0 <= i, i < j, j < n]) for i, j in got]), "every pair (i, j) has 0 <= i < j < n")
    x.check(x.no(x.any([x.all([a[0] == b[0], a[1] == b[1]]) for k, a in enumerate(got) for b in got[:k]])), "no pair twice")
    x.reach("large")
    x.observe("sums", (x.sum([i for i, _ in got]), x.sum([j for _, j in got])))


def count_pairs(x, lo, hi):
    """The number of existing pairs is the one used to tell whether the count covers them all."""
    n = lo + x.choice("n", hi - lo + 1)
    want = n * (n - 1) // 2 if n > 1 else 0
    if n > 1 and hasattr(ur, "ncr"):
        x.check(ur.ncr(n, 2) == want, "number of pairs of n positions")
    x.store["draw_limit"] = 0
    for extra in (0, 1, 7):
        got = list(sample_index_pairs(n, want + extra, random_module.Random(1)))
        x.check(len(got) == want and set(got) == set(pairs(n)), "all pairs when the count covers them")
    x.reach("all")


def cases(tier):
    out = []
    sizes = [(n, c) for n in range(0, 5) for c in range(0, 9)] + [(5, 1), (5, 2), (6, 1), (6, 2), (5, 10), (6, 15)]
    limit = 6
    if tier == "thorough":
        sizes += [(5, 3), (6, 3), (7, 1), (7, 2), (7, 3), (5, 9)]
        limit = 10
    for n, c in sizes:
        total = len(pairs(n))
        for source in ("own", "global"):
            lim = max(limit, 2 * min(c, total)) if n <= 3 or c <= 2 else max(2 * min(c, total), 6)
            if n == 4 and c == 4 and source == "global" and tier == "quick":
                continue
            if c == total - 1 and n >= 4 and tier == "quick":
                continue
            if n >= 5 and c == 2:
                lim = 6 if tier == "thorough" else 4
            expect = ["finished"]
            if c:
                expect += [f"pair {p}" for p in pairs(n)]
            out.append(dict(name=f"{n}-{c}-{source}", harness="run", params=dict(n=n, count=c, source=source, limit=lim), expect=expect))
    for n, c in [(3, 1), (3, 2), (5, 3), (10, 2), (50, 1), (50, 3), (1000, 2), (1000, 3)] + ([(12, 4), (1000, 4), (100000, 2)] if tier == "thorough" else []):
        out.append(dict(name=f"large-{n}-{c}", harness="large", params=dict(n=n, count=c, limit=2 * c + 4)))
    for n, c in [(3, 2), (4, 2), (5, 3), (6, 2)]:
        for source in ("own", "global"):
            for echo in (5, 60, 300):
                out.append(dict(name=f"stubborn-{n}-{c}-{source}-{echo}", harness="run",
                                params=dict(n=n, count=c, source=source, limit=2 * c + 2 * (n < 5), echo=echo)))
    out.append(dict(name="count", harness="count_pairs", params=dict(lo=0, hi=40)))
    return out
