"""C21: services are equal exactly when their data is, and equal ones hash alike."""
import copy
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403
from jinete.models import DistanceMetric, GeometricPosition, GeometricSurface, DialARideObjective  # noqa: E402

PROPERTY = "C21"
BOUNDS = ("two services at positions with 1-3 coordinates, every coordinate and time an arbitrary symbolic number (-1000 to 1000) or "
          "a default or infinite bound; sets and dictionaries of up to 3 services or positions; copies of every kind of instance entity")
ASSUMPTIONS = ["numbers hash as CPython's do on integers (-1 and -2 collide, other bounded numbers do not)"]
MUST_REACH = {"quick": ["equal", "different", "same place", "found", "missing", "copied"]}


def position(x, name, dim, surface):
    return GeometricPosition(tuple(x.real(f"{name}.{k}", -1000, 1000) for k in range(dim)), surface=surface)


def service(x, name, pos, spec):
    kw = {}
    for key, s in zip(("earliest", "latest", "duration"), spec):
        if s == "sym":
            kw[key] = x.real(f"{name}.{key}", -1000, 1000)
        elif s == "inf":
            kw[key] = INF
    return Service(pos, **kw), kw


def data(s):
    return s.position.coordinates, s.earliest, s.latest, s.duration


def same_data(x, a, b):
    (p, *u), (q, *v) = data(a), data(b)
    return x.all([len(p) == len(q)] + ([i == j for i, j in zip(p, q)] if len(p) == len(q) else []) + [i == j for i, j in zip(u, v)])


def hash_equal(a, b):
    from symx.core import sym_hash
    return sym_hash(a) == sym_hash(b)


def services(x, dim, spec_a, spec_b, shared=False, other_dim=None):
    surface = GeometricSurface(DistanceMetric.MANHATTAN)
    pa = position(x, "pa", dim, surface)
    pb = pa if shared else position(x, "pb", other_dim or dim, surface)
    a, ka = service(x, "a", pa, spec_a)
    b, kb = service(x, "b", pb, spec_b)
    for s, k in ((a, ka), (b, kb)):
        x.check(x.all([s.earliest == k.get("earliest", 0.0), s.latest == k.get("latest", INF), s.duration == k.get("duration", 0.0)]),
                "a service has the data it was built with")
    want = same_data(x, a, b)
    got = a == b
    x.check(x.iff(got, want), "services are equal exactly when their data is")
    x.check(x.iff(b == a, want), "equality is symmetric")
    x.check(x.iff(x.no(a != b), want), "services are unequal exactly when their data differs")
    x.check(bool(a == a), "a service equals itself")
    for other in (None, "service", 0, object(), tuple(a), pa, Vehicle("v", a)):
        x.check(not bool(a == other) and bool(a != other), "a service never equals something that is not a service")
    if want:
        x.check(hash_equal(a, b), "equal services have equal hashes")
        x.reach("equal")
    else:
        x.reach("different")
        if bool(x.eqall(zip(pa.coordinates, pb.coordinates))) and pa.coordinates[0] == -1:
            x.reach("same place")
    x.observe("equal", bool(got))


def positions(x, dim, other_dim=None):
    surface, second = GeometricSurface(DistanceMetric.MANHATTAN), GeometricSurface(DistanceMetric.EUCLIDEAN)
    a, b = position(x, "a", dim, surface), position(x, "b", other_dim or dim, second)
    want = x.all([len(a.coordinates) == len(b.coordinates)] + [i == j for i, j in zip(a.coordinates, b.coordinates)])
    x.check(x.iff(a == b, want), "positions are equal exactly when their coordinates are")
    x.check(x.iff(a != b, x.no(want)), "positions are unequal exactly when their coordinates differ")
    for thing in (None, "position", 0, object(), tuple(a), a.coordinates, Service(a)):
        x.check(not bool(a == thing) and bool(a != thing), "a position never equals something that is not a position")
    if want:
        x.check(hash_equal(a, b), "equal positions have equal hashes")
        x.reach("equal")
    else:
        x.reach("different")


def found(x, what, n):
    """Equal ones are found again in sets and dictionaries, others are not."""
    surface = GeometricSurface(DistanceMetric.MANHATTAN)
    items = []
    for i in range(n + 1):
        p = position(x, f"p{i}", 1, surface)
        items.append(p if what == "position" else service(x, f"s{i}", p, ("sym", None, "sym") if i else ("sym", None, "sym"))[0])
    probe, rest = items[-1], items[:-1]
    table = {s: i for i, s in enumerate(rest)}
    same = (lambda a, b: x.all([i == j for i, j in zip(a.coordinates, b.coordinates)])) if what == "position" else \
        (lambda a, b: same_data(x, a, b))
    want = bool(x.any([same(s, probe) for s in rest]))
    x.check((probe in set(rest)) == want, "found in a set exactly when an equal one is there")
    x.check((probe in table) == want, "found in a dictionary exactly when an equal one is there")
    distinct = [s for i, s in enumerate(rest) if not any(same(s, r) for r in rest[:i])]
    x.check(len(set(rest)) == len(distinct), "a set keeps one of equal ones")
    x.reach("found" if want else "missing")
    x.observe("size", float(len(distinct)))


def copies(x):
    surface = GeometricSurface(DistanceMetric.EUCLIDEAN)
    pa, pb = position(x, "pa", 2, surface), position(x, "pb", 2, surface)
    a, _ = service(x, "a", pa, ("sym", "sym", "sym"))
    b, _ = service(x, "b", pb, ("sym", "inf", "sym"))
    trip = Trip("t", a, b, on_time_bonus=x.real("bonus"), timeout=x.real("limit"), capacity=x.real("load"))
    vehicle = Vehicle("v", a, b, capacity=x.real("cap"), timeout=x.real("max"))
    job, fleet = Job({trip}, DialARideObjective), Fleet({vehicle})
    for one in (pa, a, b, trip, vehicle, job, fleet):
        for dup in (copy.deepcopy(one), copy.deepcopy([one])[0]):
            x.check(dup == one, "a deep copy of an instance entity equals the original")
            if isinstance(one, (GeometricPosition, Service)):
                x.check(hash_equal(dup, one), "a deep copy hashes like the original")
    x.reach("copied")


def cases(tier):
    out = []

    def add(h, name, **p):
        out.append(dict(name=f"{h}-{name}", harness=h, params=p))
    S = ("sym", "sym", "sym")
    for dim in (1, 2, 3):
        add("services", f"{dim}", dim=dim, spec_a=S, spec_b=S)
        add("positions", f"{dim}", dim=dim)
    for i, (a, b) in enumerate([(("sym", None, None), ("sym", None, None)), ((None, "sym", None), (None, "sym", None)),
                                ((None, None, "sym"), (None, None, "sym")), (("sym", "inf", "sym"), ("sym", "sym", "sym")),
                                (("sym", "inf", "sym"), ("sym", "inf", "sym")), ((None, None, None), ("sym", "sym", "sym"))]):
        add("services", f"mix{i}", dim=2, spec_a=a, spec_b=b)
        add("services", f"shared{i}", dim=2, spec_a=a, spec_b=b, shared=True)
    add("services", "dims", dim=1, other_dim=2, spec_a=S, spec_b=S)
    add("positions", "dims", dim=1, other_dim=2)
    for n in (0, 1, 2, 3):
        add("found", f"position-{n}", what="position", n=n)
        if n < 3 or tier == "thorough":
            add("found", f"service-{n}", what="service", n=n)
    add("copies", "all")
    return out
