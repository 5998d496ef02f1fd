"""C26: the drawn graph shows exactly the routes."""
import sys
import networkx as nx  # the real graph library (only its drawing is replaced, below)

from checks.planning_common import *  # noqa: F401,F403
from jinete.models import DistanceMetric, GeometricPosition, GeometricSurface  # noqa: E402
from jinete.storers import GraphPlotStorer  # noqa: E402

PROPERTY = "C26"
BOUNDS = ("quick: 0-3 routes with up to 3 trips in given visiting orders, waypoints, shared stops, pending trips, empty routes; each case has up "
          "to 5 places with symbolic coordinates, so that every way in which places coincide is covered; thorough: 6 places")
ASSUMPTIONS = ["the graph library and the palette do what they document (palette colours differ)", "drawing itself (pixels) is replaced by a recorder"]
MUST_REACH = {"quick": ["drawn", "file", "screen", "labelled", "unlabelled", "own leg", "shared leg", "same place", "empty route"]}


class Canvas:
    """What the drawing functions were asked to draw."""

    def __init__(self):
        self.graphs, self.pos, self.edges, self.labels, self.ends = [], [], [], [], []

    def draw(self, graph, pos=None, ax=None, **kw):
        self.graphs.append(graph)
        self.at(pos)
        edges = list(kw.get("edgelist") or graph.edges())
        colors = kw.get("edge_color")
        self.edges.append((edges, colors))
        if kw.get("with_labels") or kw.get("labels"):
            self.labels.append(kw.get("labels"))

    def at(self, pos):
        self.pos.append(pos)

    def draw_nodes(self, graph, pos=None, *a, **kw):
        self.graphs.append(graph)
        self.at(pos)

    def draw_edges(self, graph, pos=None, edgelist=None, *a, **kw):
        self.draw(graph, pos, edgelist=edgelist, edge_color=kw.get("edge_color"))

    def draw_labels(self, graph, pos=None, labels=None, *a, **kw):
        self.at(pos)
        self.labels.append(labels)

    def draw_edge_labels(self, graph, pos=None, edge_labels=None, *a, **kw):
        self.at(pos)


class recorded:
    """Drawing calls go to a canvas while this is active."""

    def __enter__(self):
        c = self.canvas = Canvas()
        plt, sns = sys.modules["matplotlib.pyplot"], sys.modules["seaborn"]
        self.old = {}
        for name, f in (("draw", c.draw), ("draw_networkx", c.draw), ("draw_networkx_nodes", c.draw_nodes), ("draw_networkx_edges", c.draw_edges),
                        ("draw_networkx_labels", c.draw_labels), ("draw_networkx_edge_labels", c.draw_edge_labels)):
            self.swap(nx, name, f)
        self.swap(plt, "savefig", lambda path=None, *a, **kw: c.ends.append(("file", path if path is not None else kw.get("fname"))))
        self.swap(plt, "show", lambda *a, **kw: c.ends.append(("screen", None)))
        for name in ("husl_palette", "hls_palette", "color_palette"):
            self.swap(sns, name, palette)
        return c

    def swap(self, mod, name, f):
        self.old[mod, name] = mod.__dict__.get(name)
        setattr(mod, name, f)

    def __exit__(self, *a):
        for (mod, name), f in self.old.items():
            if f is None:
                delattr(mod, name)
            else:
                setattr(mod, name, f)


def palette(*a, **kw):
    n = [v for v in (*a, *kw.values()) if isinstance(v, int) and not isinstance(v, bool)]
    return [(i / 100, .5, .25) for i in range(n[0] if n else 6)]


def drawn(x, layout, sym, pending=0, target="file", registered=True, twice=False):
    surface = GeometricSurface(DistanceMetric.MANHATTAN)
    place = {}

    def at(name):
        if name not in place:
            k = len(place)
            c = [x.real(f"{name}.x", 0, 9), 0.0] if name in sym else [100.0 + 10 * k, 7.0 * k]
            place[name] = surface.get_or_create_position(c) if registered else GeometricPosition(c, surface=surface)
        return place[name]
    n = len(trips_in(layout)) + pending
    alias = {}
    for item in (i for seq in layout for i in seq if i[0] not in ("P", "D", "W")):
        names = [f"p{i}" for i in item[0]] + [f"d{i}" for i in item[1]]
        alias.update({k: names[0] for k in names})
    trips = [Trip(f"t{i}", *(Service(at(alias.get(k, k))) for k in (f"p{i}", f"d{i}"))) for i in range(n)]
    shown, vehicles = [], []
    for k, seq in enumerate(layout):
        v = Vehicle(f"v{k}", Service(at(f"o{k}")), Service(at(f"e{k}")) if k % 2 == 0 else None)
        items = []
        for item in seq:
            if item[0] == "W":
                items.append(([], [], at(f"w{k}")))
            elif item[0] in ("P", "D"):
                items.append((item[0], trips[item[1]]))
            else:
                a, b = item
                items.append(([trips[i] for i in a], [trips[i] for i in b], at((["p%d" % i for i in a] + ["d%d" % i for i in b])[0])))
        vehicles.append(v)
        shown.append(fresh_route(v, items))
        if not seq:
            x.reach("empty route")
    result = make_result(Job(set(trips), OBJECTIVES["ride"]), Fleet(set(vehicles)), shown)
    legs_ = [[(a.position, b.position) for a, b in zip(r.stops[:-1], r.stops[1:])] for r in shown]
    with recorded() as canvas:
        storer = GraphPlotStorer(result=result, **(dict(file_path="/nowhere/graph.png") if target == "file" else {}))
        for _ in range(2 if twice else 1):
            storer.store()
    judge(x, canvas, target, 2 if twice else 1, trips, legs_)


def coords(p):
    return tuple(p.coordinates)


def judge(x, canvas, target, times, trips, legs_):
    x.check([e[0] for e in canvas.ends] == [target] * times and all(e[1] is None or str(e[1]) == "/nowhere/graph.png" for e in canvas.ends),
            "the drawing goes where asked, once")
    x.reach(target)
    x.check(bool(canvas.graphs) and bool(canvas.labels), "something is drawn")
    used = [p for leg in legs_ for ab in leg for p in ab]
    ends = [p for t in trips for p in (t.origin_position, t.destination_position)]
    every = used + ends
    for graph in canvas.graphs:
        nodes = list(graph.nodes)
        for p in every:
            x.check(sum(1 for q in nodes if q == p) == 1, "every place visited or asked for is drawn, once")
        for q in nodes:
            x.check(any(q == p for p in every), "no other place is drawn")
        if len(nodes) < len(every):
            x.reach("same place")
    for pos in canvas.pos:
        if pos is None:
            x.check(False, "places are drawn at their coordinates")
            continue
        for q in pos:
            x.check(x.all([x.eq(a, b) for a, b in zip(pos[q], coords(q))]), "places are drawn at their coordinates")
        for p in every:
            x.check(any(q == p for q in pos), "places are drawn at their coordinates")
    color, common = {}, []
    for edges, colors in canvas.edges:
        for legs__ in legs_:
            for a, b in legs__:
                x.check(any(e[0] == a and e[1] == b for e in edges), "every leg of a route is drawn")
        for e in edges:
            x.check(any(e[0] == a and e[1] == b for leg in legs_ for a, b in leg), "only legs of routes are drawn, in their direction")
        if colors is None or not len(colors) == len(edges):
            x.check(False, "legs have a colour")
            continue
        for e, c in zip(edges, colors):
            owners = [k for k, leg in enumerate(legs_) if any(e[0] == a and e[1] == b for a, b in leg)]
            if len(owners) == 1:
                x.reach("own leg")
                x.check(color.setdefault(owners[0], tuple(c)) == tuple(c), "a route's own legs have one colour")
            else:
                x.reach("shared leg")
                common.append((owners, tuple(c)))
    x.check(len(set(color.values())) == len(color), "different routes have different colours")
    for owners, c in common:
        if c in color.values():
            x.check(any(color.get(k) == c for k in owners), "a leg of several routes has the colour of one of them")
    for labels in canvas.labels:
        if labels is None:
            x.check(False, "places are labelled")
            continue
        for q in labels:
            mine = [f"+{t.identifier}" for t in trips if t.origin_position == q] + [f"-{t.identifier}" for t in trips if t.destination_position == q]
            x.reach("labelled" if mine else "unlabelled")
            x.check(labels[q] in mine if mine else labels[q] in ("", None), "a place is labelled with a trip that starts or ends there")
        for p in ends:
            x.check(any(q == p for q in labels), "every trip's places are labelled")
    x.reach("drawn")
    x.observe("places", len(canvas.graphs[0].nodes))


TWO = [("P", 0), ("P", 1), ("D", 0), ("D", 1)]
SHARED = [([0, 1], []), ("D", 0), ("D", 1)]


def cases(tier):
    out = []
    deep = tier == "thorough"

    def add(name, layout, sym, **p):
        out.append(dict(name=f"drawn-{name}", harness="drawn", params=dict(layout=layout, sym=sym.split(), **p)))
    add("none", [], "")
    add("none-pending", [], "p0 d0", pending=1)
    add("empty", [[]], "o0 e0")
    add("empty-two", [[], []], "o0 e0 o1")
    add("one", [ONE], "o0 e0 p0 d0")
    add("one-new", [ONE], "o0 e0 p0 d0", registered=False)
    add("one-screen", [ONE], "o0 p0", target="screen")
    add("one-twice", [ONE], "o0 p0 d0", twice=True)
    add("one-way", [[("P", 0), ("W",), ("D", 0)]], "o0 w0 p0 d0")
    add("one-pending", [ONE], "p0 d0 p1 d1", pending=1)
    add("two-in-one", [TWO], "p0 d0 p1 d1")
    add("shared", [SHARED], "o0 p0 d0 d1")
    add("swap", [[("P", 0), ([1], [0]), ("D", 1)]], "o0 p0 p1 d1")
    add("two", [ONE, shift(ONE, 1)], "p0 d0 p1 d1")
    add("two-depots", [ONE, shift(ONE, 1)], "o0 e0 o1 p0 p1")
    add("two-empty", [ONE, []], "o0 o1 p0 d0")
    add("three", [ONE, shift(ONE, 1), shift(ONE, 2)], "o0 o1 o2 p0 p1")
    if deep:
        add("two-all", [ONE, shift(ONE, 1)], "o0 o1 p0 d0 p1 d1")
        add("one-all", [[("P", 0), ("W",), ("D", 0)]], "o0 e0 w0 p0 d0", pending=1)
        add("two-in-one-all", [TWO], "o0 e0 p0 d0 p1 d1")
    return out
