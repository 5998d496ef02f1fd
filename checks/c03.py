"""C03: the windows a trip derives from its services, travel time and ride limit."""
from symx import env
env.load()
from symx.inst import *  # noqa: E402,F403

PROPERTY = "C03"
BOUNDS = ("one trip; both windows, both durations, travel time, ride limit (finite symbolic or infinite) arbitrary in "
          "[0, 1000] (windows may also be open); pickup and delivery start times arbitrary in [-5000, 5000]; trip built "
          "on a table surface and on the geometric surfaces (Manhattan, symbolic coordinates)")
ASSUMPTIONS = ["travel time between a trip's end points does not depend on the clock"]
MUST_REACH = {"quick": ["pair", "binding-ride", "binding-travel"]}


def harness(x, timeout, tw, surface="table", shared_position=False):
    if surface == "table":
        w = World(x, 2, tri=False, separate_time=True)
        t = w.trip("t", 0, 0 if shared_position else 1, tw=tw, timeout=timeout)
    else:
        from jinete.models import DistanceMetric, GeometricSurface
        s = GeometricSurface(DistanceMetric.MANHATTAN)
        pos = [s.get_or_create_position([x.real(f"x{i}", -BIG, BIG), x.real(f"y{i}", -BIG, BIG)]) for i in (0, 1)]
        vals = {k: x.real(k, 0, BIG) for k in ("oe", "ol", "os", "de", "dl", "ds", "r")}
        x.assume(x.all([vals["oe"] <= vals["ol"], vals["de"] <= vals["dl"]]))
        t = Trip("t", Service(pos[0], vals["oe"], vals["ol"], vals["os"]), Service(pos[1], vals["de"], vals["dl"], vals["ds"]),
                 timeout=vals["r"])
    o, d = t.origin, t.destination
    travel = o.position.surface.time(o.position, d.position)
    a, b = x.real("start_pickup", -5000, 5000), x.real("start_delivery", -5000, 5000)
    ok = x.all([o.earliest <= a, a <= o.latest, d.earliest <= b, b <= d.latest,
                a + o.duration + travel <= b, b - (a + o.duration) <= t.timeout])
    if x.flag("read_twice"):
        t.origin_earliest, t.origin_latest, t.destination_earliest, t.destination_latest
    oe, ol, de, dl = derived(t)
    for name, got, want in (("origin_earliest", t.origin_earliest, oe), ("origin_latest", t.origin_latest, ol),
                            ("destination_earliest", t.destination_earliest, de),
                            ("destination_latest", t.destination_latest, dl)):
        x.check(x.eq(got, want), f"{name} is the tightest implied bound")
        x.observe(name, got)
    x.check(x.implies(ok, x.all([x.le(t.origin_earliest, a), x.le(a, t.origin_latest)])), "a valid pickup start is kept")
    x.check(x.implies(ok, x.all([x.le(t.destination_earliest, b), x.le(b, t.destination_latest)])),
            "a valid delivery start is kept")
    x.check(x.all([x.le(o.earliest, t.origin_earliest), x.le(t.origin_latest, o.latest), x.le(d.earliest, t.destination_earliest),
                   x.le(t.destination_latest, d.latest)]), "derived windows stay inside the services' own")
    x.check(x.eq(t.origin_duration, o.duration), "pickup duration")
    x.check(x.eq(t.destination_duration, d.duration), "delivery duration")
    x.check(x.eq(t.duration(0.0), travel), "direct travel time")
    x.check(x.eq(t.distance, o.position.surface.distance(o.position, d.position)), "direct distance")
    x.check(t.origin_position is o.position and t.destination_position is d.position, "end points")
    x.check(x.iff(t.empty, t.capacity == 0), "empty means no load")
    if surface == "table":
        x.assume(ok)
        if x.symbolic and x._check(core.bterm(x.all([oe > o.earliest, timeout != INF]))):
            x.reach("binding-ride")
        if x.symbolic and x._check(core.bterm(de > d.earliest)):
            x.reach("binding-travel")
        x.reach("pair")


def cases(tier):
    out = []
    for to in ("sym", INF):
        for tw in ("sym", "none", "early", "late"):
            out.append(dict(name=f"table-{to}-{tw}", params=dict(timeout=to, tw=tw)))
    out.append(dict(name="same-place", params=dict(timeout="sym", tw="sym", shared_position=True)))
    out.append(dict(name="manhattan", params=dict(timeout="sym", tw="sym", surface="geo")))
    return out
