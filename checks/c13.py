"""C13: distances are a metric on coordinates and caching is invisible."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.models import DistanceMetric, GeometricPosition, GeometricSurface  # noqa: E402

PROPERTY = "C13"
BOUNDS = ("positions with 1-3 symbolic coordinates (-1000 to 1000); every history of up to 2 (thorough 3) earlier questions among 3 positions, "
          "on the same or another surface with the same or the other metric; surfaces with up to 3 registered positions; quick checks the "
          "triangle inequality directly for Manhattan (1-3 dimensions) and Euclidean (1 dimension, axis-parallel in 2), in general it follows from the exact formula")
ASSUMPTIONS = ["square roots are exact reals"]
MUST_REACH = {"quick": ["asked", "same place", "registered", "known", "equal", "different", "symmetric", "triangle"]}
METRICS = dict(manhattan=DistanceMetric.MANHATTAN, euclidean=DistanceMetric.EUCLIDEAN)


def position(x, name, dim, surface, create=False):
    c = tuple(x.real(f"{name}.{k}", -1000, 1000) for k in range(dim))
    return surface.get_or_create_position(c) if create else GeometricPosition(c, surface=surface)


def formula(x, metric, d, a, b, label):
    """d is the distance of a and b (positions), as conditions on its square for the Euclidean one."""
    pairs = list(zip(a.coordinates, b.coordinates))
    if metric == "manhattan":
        x.check(x.eq(d, x.sum([abs(p - q) for p, q in pairs])), f"{label} is the Manhattan distance of the coordinates")
    else:
        x.check(0 <= d, f"{label} is not negative")
        x.check(x.eq(d * d, x.sum([(p - q) * (p - q) for p, q in pairs])), f"{label} is the Euclidean distance of the coordinates")


def asked(x, metric, dim, steps, other=None, services=False, shared=()):
    """Distances after a history of other questions."""
    surfaces = [GeometricSurface(METRICS[metric])]
    if other:
        surfaces.append(GeometricSurface(METRICS[other]))
    pos = [[position(x, f"p{i}", dim, surfaces[0]) for i in range(3)]]
    if other:
        pos.append([GeometricPosition(p.coordinates, surface=surfaces[1]) for p in pos[0]])
    for s in range(steps):
        k = x.choice(f"q{s}.on", len(surfaces))
        i, j = x.choice(f"q{s}.a", 3), x.choice(f"q{s}.b", 3)
        d = pos[k][i].distance_to(pos[k][j])
        formula(x, (metric, other)[k], d, pos[k][i], pos[k][j], "an asked distance")
    for k, name in enumerate((metric, other)[:len(surfaces)]):
        a, b = pos[k][0], pos[k][1]
        d = a.distance_to(b)
        formula(x, name, d, a, b, "the distance")
        formula(x, name, surfaces[k].distance(a, b), a, b, "the surface's distance")
        t = a.time_to(b, now=x.real(f"now{k}", 0, 1000))
        x.check(x.eq(t, d), "travel time equals distance")
        x.check(x.eq(a.time_to(b), d), "travel time without a time of day equals distance")
        if services:
            s, u = Service(a), Service(b)
            x.check(x.eq(s.distance_to(u), d), "services are as far apart as their positions")
            x.check(x.eq(s.time_to(u, 5.0), d), "services are as long apart as their positions")
            tr = Trip("t", s, u)
            x.check(x.eq(tr.distance, d), "a trip is as long as the distance of its end points")
            x.check(x.eq(tr.duration(0.0), d), "a trip takes as long as the distance of its end points")
        zero = x.all([p == q for p, q in zip(a.coordinates, b.coordinates)])
        x.check(x.iff(d == 0, zero), "the distance is zero exactly for equal coordinates")
        if zero:
            x.reach("same place")
    x.observe("d", d)
    x.reach("asked")


def metric_laws(x, metric, dim, axis=False, triangle=True, ask_first=False):
    surface = GeometricSurface(METRICS[metric])
    a, b, c = (position(x, n, dim, surface) for n in "abc")
    if axis:
        x.assume(x.all([b.coordinates[1] == a.coordinates[1], c.coordinates[1] == b.coordinates[1]]))
    if ask_first:
        surface.distance(c, a)
    ab, ba = surface.distance(a, b), surface.distance(b, a)
    x.check(x.eq(ab, ba), "distance is symmetric")
    x.check(0 <= ab, "distance is not negative")
    x.check(x.eq(surface.distance(a, a), 0), "distance to itself is zero")
    x.reach("symmetric")
    if triangle:
        x.check(x.le(surface.distance(a, c), ab + surface.distance(b, c)), "the triangle inequality holds")
        x.reach("triangle")
    x.observe("ab", ab)


def registry(x, metric, dim, n, ask=False):
    """Asking a surface for positions."""
    surface = GeometricSurface(METRICS[metric])
    wanted, got = [], []
    for i in range(n):
        c = tuple(x.real(f"p{i}.{k}", -1000, 1000) for k in range(dim))
        wanted.append(c)
        before = set(surface.positions)
        p = surface.get_or_create_position(list(c) if i % 2 else c)
        got.append(p)
        x.check(x.eqall(zip(p.coordinates, c)) if len(p.coordinates) == dim else False, "the position has the requested coordinates")
        x.check(p.surface is surface, "the position belongs to the surface")
        x.check(all(any(q is r for r in surface.positions) for q in before), "positions already registered stay")
        if ask and i:
            d = p.distance_to(got[0])
            formula(x, metric, d, p, got[0], "the distance to a registered position")
    regs = list(surface.positions)
    for c in wanted:
        x.check(x.any([x.all([i == j for i, j in zip(r.coordinates, c)]) for r in regs]), "requested coordinates are registered")
    for i, r in enumerate(regs):
        for s in regs[:i]:
            x.check(x.no(x.all([p == q for p, q in zip(r.coordinates, s.coordinates)])), "no coordinates are registered twice")
    x.reach("registered")
    if len(regs) < n:
        x.reach("known")
    x.observe("size", float(len(regs)))


def equality(x, dim, metric="manhattan"):
    sa, sb = GeometricSurface(METRICS[metric]), GeometricSurface(METRICS["euclidean"])
    a, b = position(x, "a", dim, sa), position(x, "b", dim, sb)
    want = x.all([p == q for p, q in zip(a.coordinates, b.coordinates)])
    x.check(x.iff(a == b, want), "positions are equal exactly when their coordinates are")
    x.check(x.iff(a != b, x.no(want)), "positions are unequal exactly when their coordinates differ")
    x.reach("equal" if want else "different")


def cases(tier):
    out = []

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    deep = tier == "thorough"
    for m in METRICS:
        for dim in (1, 2, 3):
            add("asked", f"{m}-{dim}-0", metric=m, dim=dim, steps=0, services=True)
            if dim < 3 or deep:
                add("asked", f"{m}-{dim}-1", metric=m, dim=dim, steps=1, services=dim == 2)
            add("registry", f"{m}-{dim}-2", metric=m, dim=dim, n=2, ask=True)
        add("asked", f"{m}-1-2", metric=m, dim=1, steps=2)
        for other in METRICS:
            add("asked", f"{m}+{other}-1-1", metric=m, dim=1, steps=1, other=other)
            add("asked", f"{m}+{other}-2-1", metric=m, dim=2, steps=1, other=other)
        add("registry", f"{m}-1-3", metric=m, dim=1, n=3, ask=deep)
        add("metric_laws", f"{m}-1", metric=m, dim=1)
        add("metric_laws", f"{m}-2", metric=m, dim=2, triangle=m == "manhattan")
        add("metric_laws", f"{m}-3", metric=m, dim=3, triangle=m == "manhattan")
        add("metric_laws", f"{m}-1-asked", metric=m, dim=1, ask_first=True)
        if deep:
            add("asked", f"{m}-1-3", metric=m, dim=1, steps=3)
            add("asked", f"{m}-2-2", metric=m, dim=2, steps=2)
            add("registry", f"{m}-2-3", metric=m, dim=2, n=3)
    add("metric_laws", "euclidean-axis", metric="euclidean", dim=2, axis=True)
    for dim in (1, 2, 3):
        add("equality", f"{dim}", dim=dim)
    return out
