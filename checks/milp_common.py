"""Instances for the checks of the exact algorithm (C14, C15)."""
from symx import env
env.load()
from symx import core  # noqa: E402,F401
from symx.fakelp import FakeLP, Captured, patched  # noqa: E402,F401
from symx.inst import *  # noqa: E402,F403
from jinete.algorithms import MilpAlgorithm  # noqa: E402,F401
from jinete.models import DialARideObjective  # noqa: E402,F401

KINDS = dict(
    # which limits are symbolic
    plain=(dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF, capacity=5.0)),
    late=(dict(o_tw="none", d_tw="late", timeout=INF, capacity=1.0, duration=0.0), dict(earliest=0.0, latest=900.0, timeout=900.0, capacity=5.0)),
    win=(dict(o_tw="sym", d_tw="late", timeout=INF, capacity=1.0, duration=0.0), dict(earliest="sym", latest="sym", timeout=900.0, capacity=5.0)),
    dur=(dict(o_tw="late", d_tw="late", timeout=500.0, capacity=1.0, duration="sym"), dict(earliest=0.0, latest=900.0, timeout=900.0, capacity=5.0)),
    ride=(dict(o_tw="early", d_tw="none", timeout="sym", capacity=1.0, duration=0.0), dict(earliest="sym", latest=INF, timeout="sym", capacity=5.0)),
    load=(dict(tw="none", timeout=INF, capacity="sym", duration=0.0), dict(earliest=0.0, latest=INF, timeout=INF, capacity="sym")),
    day=(dict(tw="none", timeout=INF, capacity=1.0, duration=0.0), dict(earliest="sym", latest="sym", timeout="sym", capacity=5.0)),
    all=(dict(tw="sym", timeout="sym", capacity="sym", duration="sym"), dict(earliest="sym", latest="sym", timeout="sym", capacity="sym")),
)
# coinciding positions: trip pickup/delivery -> position
SPOTS = dict(origins={"1P": 1}, dests={"1D": 2}, chain={"1P": 2}, both={"1P": 1, "1D": 2}, swap={"1P": 2, "1D": 1},
             depot={"0P": 0}, home={"0D": 0}, none={"0D": 1})


def build(x, nv, nt, kind, places=None, depots=None, geometry="sym", hi=BIG):
    """Instance.  places: {'<trip>P'|'<trip>D': node} for coinciding positions; depots: per vehicle (start node, end node)."""
    places = places or {}
    extra = 1 + 2 * nt
    n = extra + max([0] + [d + 1 for v in (depots or []) for d in v if d < 0] + [max(v) for v in (depots or [])])
    w = World(x, n, tri=True, hi=hi)
    if geometry == "line":
        xs = [0] + [c for i in range(nt) for c in (4 * i + 1, 4 * i + 7)] + [-2 * (i + 1) for i in range(n - extra)]
        for i, j in w.surface.matrix:
            w.surface.matrix[i, j] = w.surface.tmatrix[i, j] = float(abs(xs[i] - xs[j]))
    else:
        x.assume(x.all([d > 0 for d in w.surface.matrix.values()]))
    tk, vk = KINDS[kind]
    for i in range(nv):
        a, b = (depots[i] if depots else (0, 0))
        w.vehicle(f"v{i}", a if a == 0 else extra + a - 1, None if a == b else (b if b == 0 else extra + b - 1), **vk)
    for i in range(nt):
        w.trip(f"t{i}", places.get(f"{i}P", 1 + 2 * i), places.get(f"{i}D", 2 + 2 * i), **tk)
    return w
