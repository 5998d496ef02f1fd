"""Instance files whose numbers are symbolic, read through the real file loader."""
import os
import tempfile

from symx import env
env.load()
from symx import core  # noqa: E402,F401
from symx.inst import INF  # noqa: E402,F401
import jinete  # noqa: E402
from jinete.loaders import FileLoader  # noqa: E402

LO, HI = -1000, 1000


def write(x, rows, layout):
    """Lay the numbers out like the published files do: one row per line, blank-separated."""
    sep, lead, end = dict(plain=(" ", "", "\n"), wide=("\t", "  ", "\n"), open=("   ", " ", ""))[layout]
    body = "\n".join(lead + sep.join(env.text(x, v) for v in r) for r in rows) + end
    fd, path = tempfile.mkstemp(prefix="symx-instance-")
    with os.fdopen(fd, "w") as f:
        f.write(body)
    return path


class loaded:
    def __init__(self, x, formatter_cls, rows, layout):
        self.path = write(x, rows, layout)
        self.formatter_cls = formatter_cls

    def __enter__(self):
        return FileLoader(file_path=self.path, formatter_cls=self.formatter_cls)

    def __exit__(self, *a):
        os.unlink(self.path)


def same(x, position, coords):
    c = tuple(position.coordinates)
    return x.all([len(c) == 2] + [x.eq(a, b) for a, b in zip(c, coords)])


def window(x, service, low, high, tag):
    """The service may start exactly at the times between low and high (fresh time, all values)."""
    t = x.real(f"when.{tag}", LO * 4, HI * 4)
    return x.iff(x.all([service.earliest <= t, t <= service.latest]), x.all([low <= t, t <= high]))
