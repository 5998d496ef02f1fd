"""Maintain /verif/seeded: `seed.py make FILE` builds the planted bugs described in FILE (a Python file with SEEDS),
`seed.py verify [ID...]` confirms each (applies, builds, stable tests pass, demo 0/non-zero) in a scratch copy,
`seed.py check [ID...]` runs the property's check against a scratch copy with the bug."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(here, "seeded")
LIB = '''import os, sys
sys.path.insert(0, os.getcwd())
from jinete import *
from jinete.models import *
from jinete.models.constants import *
from jinete.algorithms import *


def surface(metric=DistanceMetric.MANHATTAN):
    return GeometricSurface(metric)


def trip(s, name, a, b, ow=(0, 1e6), dw=(0, 1e6), od=0, dd=0, cap=1, timeout=1e6, bonus=0):
    return Trip(name, Service(s.get_or_create_position([a, 0]), ow[0], ow[1], od),
                Service(s.get_or_create_position([b, 0]), dw[0], dw[1], dd), capacity=cap, timeout=timeout, on_time_bonus=bonus)


def vehicle(s, name="v", at=0, cap=5, earliest=0, latest=1e6, timeout=1e6):
    return Vehicle(name, Service(s.get_or_create_position([at, 0]), earliest, latest), capacity=cap, timeout=timeout)


def plan(route, t, pickup_after, delivery_after=None):
    """Insert the trip: pickup right after stop pickup_after, delivery right after delivery_after (None: after the pickup)."""
    p = Stop(route.vehicle, t.origin_position, route.stops[pickup_after])
    before = p if delivery_after is None else route.stops[delivery_after]
    d = Stop(route.vehicle, t.destination_position, before)
    pt = PlannedTrip(route.vehicle, t, p, d)
    route.append_planned_trip(pt)
    return pt
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="seed")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"), symlinks=True)
    sh("git", "init", "-q", cwd=d + "/repo")
    return d, d + "/repo"


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(S, s["id"])
        os.makedirs(d, exist_ok=True)
        tmp, r = copy()
        sh("git", "add", "-A", cwd=r)
        for f, old, new in s["edits"]:
            t = open(os.path.join(r, f)).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(os.path.join(r, f), "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "diff", "--no-color", cwd=r).stdout)
        shutil.rmtree(tmp)
        open(d + "/lib.py", "w").write(LIB)
        open(d + "/demo.py", "w").write("from lib import *\n\n" + s["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# Exit 0 when the property holds on the demonstrated input.\n'
                                        'PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)


def each(ids):
    for i in ids or sorted(os.listdir(S)):
        yield i, os.path.join(S, i)


def verify(ids):
    for i, d in each(ids):
        tmp, r = copy()
        before = sh("bash", d + "/demo.sh", cwd=r)
        ap = sh("git", "apply", d + "/patch.diff", cwd=r)
        after = sh("timeout", "250", "bash", d + "/demo.sh", cwd=r)
        t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", "--randomly-seed=0",
               "--randomly-dont-reorganize", cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0"))
        good = before.returncode == 0 and ap.returncode == 0 and after.returncode not in (0,) and t.returncode == 0
        print(i, "ok" if good else "BAD", before.returncode, ap.returncode, after.returncode, t.stdout.strip().splitlines()[-1], flush=True)
        if not good:
            print(before.stdout[-600:], ap.stdout[-300:], after.stdout[-600:])
        elif "-v" in sys.argv:
            print(after.stdout[-300:])
        shutil.rmtree(tmp)


def check(ids):
    for i, d in each(ids):
        prop = json.load(open(d + "/meta.json"))["property"]
        tmp, r = copy()
        assert sh("git", "apply", d + "/patch.diff", cwd=r).returncode == 0
        out = sh(here + "/run.sh", prop.lower(), cwd=here, env=dict(os.environ, VERIF_REPO=r))
        v = [l for l in out.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, prop, "CAUGHT" if out.returncode == 1 and v else f"MISSED rc={out.returncode}", flush=True)
        if out.returncode not in (0, 1):
            print(out.stdout[-800:])
        shutil.rmtree(tmp)


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if x != "-v"]
    {"make": lambda: make(a[0]), "verify": lambda: verify(a), "check": lambda: check(a)}[sys.argv[1]]()
