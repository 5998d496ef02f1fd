"""C18: HashCode output lists every served ride once, in order."""
from checks.planning_common import *  # noqa: F401,F403
from jinete.storers import HashCodeStorerFormatter  # noqa: E402

PROPERTY = "C18"
BOUNDS = ("quick: plannings of 0-3 routes with up to 3 trips each in every visiting order (any stop shared in some), waypoints, equal "
          "routes, 11 one-trip routes and one 11-trip route; loads (0 or positive), times, windows, durations symbolic; empty routes "
          "kept or not; thorough: 4 trips, two trips per route on 3 routes. Data in [0, 1000]")
ASSUMPTIONS = ["identifiers are as the loaders make them (no blanks)", "rides picked up at the same stop have no order among them"]
MUST_REACH = {"quick": ["formatted", "empty ride", "loaded ride", "unserved"]}


def output(x, layout, data, keep=None, names=None, pending=0, retimed=(), read=False):
    w, result, shown = build(x, layout, data, pending=pending, names=names, retimed=retimed, objective="hashcode", separate=False)
    if read:
        for r, _ in shown:
            bool(r.feasible)
    kwargs = {} if keep is None else dict(remove_empty_routes=not keep)
    out = HashCodeStorerFormatter(result=result, **kwargs).format()
    lines = [line.split() for line in out.split("\n")] if out else []
    wanted = []
    for route, visits in shown:
        if not keep and not any(v.pickups for v in visits):
            x.reach("unserved")
            continue
        groups = []
        for v in visits:
            g = set()
            for t in v.pickups:
                if t.capacity == 0:
                    x.reach("empty ride")
                else:
                    x.reach("loaded ride")
                    g.add(t.identifier)
            groups.append(g)
        wanted.append(groups)
    x.check(len(lines) == len(wanted), "one line per route")
    left = list(lines)
    for groups in wanted:
        hit = [line for line in left if matches(line, groups)]
        x.check(bool(hit), "each route's line states the number and the served rides in pickup order")
        if hit:
            left.remove(hit[0])
    x.check(not left, "no line without a route")
    x.observe("output", sum(len(line) for line in lines))
    x.reach("formatted")


def matches(line, groups):
    if not line or line[0] != str(sum(len(g) for g in groups)):
        return False
    ids, k = line[1:], 0
    for g in groups:
        if set(ids[k:k + len(g)]) != g:
            return False
        k += len(g)
    return k == len(ids)


def cases(tier):
    out = []

    def add(name, layout, data=TIMED, **p):
        out.append(dict(name=name, harness="output", params=dict(layout=layout, data=data, **p)))
    add("none", [])
    add("one", [ONE], FULL)
    add("way", [[("W",), ("P", 0), ("W",), ("D", 0), ("W",)]])
    for keep in (None, True, False):
        k = {None: "default", True: "keep", False: "drop"}[keep]
        add(f"empty-{k}", [[], []], keep=keep)
        add(f"1+0-{k}", [ONE, []], keep=keep)
        add(f"1+way-{k}", [ONE, [("W",)], []], keep=keep)
        add(f"1+1-{k}", [ONE, shift(ONE, 1)], keep=keep, pending=1)
    two = simple_orders(2)
    for o in two:
        add(label(o), [o])
        add(label(o) + "-read", [o], names=["10", "9"], read=True)
    add("shared", [[([0, 1], []), ([], [1]), ([], [0])]])
    add("shared-mixed", [[([0], []), ([1], [0]), ([], [1])]])
    add("shared-both", [[([1, 0], []), ([], [0, 1])]], LOADS)
    add("2+1", [[("P", 0), ("P", 1), ("D", 1), ("D", 0)], shift(ONE, 2)], LIGHT, names=["2", "0", "1"])
    add("2+2", [[("P", 1), ("P", 0), ("D", 0), ("D", 1)], shift([("P", 0), ("D", 0), ("P", 1), ("D", 1)], 2)], LOADS)
    for o in simple_orders(3):
        add(label(o), [o], LOADS, names=["2", "10", "0"])
    add("3-timed", [[("P", 2), ("P", 0), ("D", 0), ("P", 1), ("D", 2), ("D", 1)]], LIGHT)
    add("3-retimed", [[("P", 2), ("P", 0), ("D", 0), ("P", 1), ("D", 2), ("D", 1)]], LOADS, retimed=[1, 2])
    add("1+1+1", [ONE, shift(ONE, 1), shift(ONE, 2)], LIGHT)
    fixed = dict(timeout=INF, capacity=1.0, duration=0.0, o_tw="early", d_tw="none")
    add("11x1", [shift(ONE, i) for i in range(11)], dict(fixed, o_tw="none"))
    add("1x11", [sum((shift(ONE, i) for i in (3, 1, 10, 0, 2, 9, 8, 4, 5, 7, 6)), [])], dict(fixed, o_tw="none"))
    if tier == "thorough":
        for o in simple_orders(3):
            add(label(o) + "-timed", [o], LIGHT)
        for o in [x for x in simple_orders(4) if x[0] == ("P", 0)][::7]:
            add(label(o), [o], LOADS)
        add("2+2+2", [[("P", 1), ("P", 0), ("D", 0), ("D", 1)], shift(two[0], 2), shift(two[3], 4)], LOADS)
    return out
