"""Wall as limiter: points along the closed wall at which contact is looked for; closedness of the wall."""
from fractions import Fraction

from .common import *  # noqa
from .c16 import rep

ID = "C25"
RULE = "value number of the limiter points equals the wall's points at equal steps of length along its closed outline"
HEAD = """
import numpy as np
from freegs.machine import Machine, Wall
def lin(x, y, t):
    return 0
class Interp:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        assert kind in ("linear", 1)
        self.x = list(x)
        y = np.array(y)
        self.two = len(y.shape) == 2
        self.flip = self.two and axis in (-1, 1)
        self.cols = ([list(v) for v in y] if self.flip else [list(y[:, k]) for k in range(y.shape[1])]) if self.two else [list(y)]
    def __call__(self, t):
        v = [[lin(self.x, c, s) for s in t] for c in self.cols]
        if not self.two:
            return np.array(v[0])
        return np.array(v) if self.flip else np.array([[c[k] for c in v] for k in range(len(t))])
def interp(t, x, y, left=None, right=None, period=None):
    return np.array([lin(list(x), list(y), s) for s in t])
def points(r, z, n):
    m = len(r) - 1
    s = [0.0]
    for i in range(m):
        s.append(s[-1] + np.sqrt((r[i + 1] - r[i]) ** 2 + (z[i + 1] - z[i]) ** 2))
    s = [v / s[-1] for v in s]
    return [lin(s, list(r), k / (n - 1)) for k in range(n)], [lin(s, list(z), k / (n - 1)) for k in range(n)]
"""
MODELS = {"scipy.interpolate.interp1d": "Interp", "numpy.interp": "interp"}


def check(ctx):
    at = ctx.at("machine", "Machine", "generate_limit_points")
    for corners in (3, 4, 6):
        for closed in (False, True):
            for conv, cn in (("", "lists"), ("np.array", "arrays")):
                SHAPE = {3: [(1, 0), (2, 0), (2, 1)], 4: [(1, -1), (2, -1), (2, 1), (1, 1)], 6: [(1, -2), (3, -1), (4, 0), (3, 2), (1, 3), (2, 0)]}[corners]
                at_ = {"%s%d" % (c, i): Fraction(x) for i, pt in enumerate(SHAPE) for c, x in zip("rz", pt)}

                def leaf(t, ev, at_=at_):
                    return at_.get(t.args[0]) if t.op == "sym" else None

                v = ["r%d" % i for i in range(corners)], ["z%d" % i for i in range(corners)]
                a = ", ".join(v[0] + v[1])
                r, z = (", ".join(x + ([x[0]] if closed else [])) for x in v)
                fr, fz = (", ".join(x + [x[0]]) for x in v)
                for n in (2, 7):
                    # corners in general position: the last differs from the first unless it repeats it
                    ctx.pair("points[%d corners%s, %s, %d]" % (corners, " closed" if closed else "", cn, n), at, RULE, HEAD + """
def code(%s):
    m = Machine([], Wall(%s([%s]), %s([%s])), nlimit=%d)
    return list(m.limit_points_R), list(m.limit_points_Z)
def spec(%s):
    return points([%s], [%s], %d)
""" % (a, conv, r, conv, z, n, a, fr, fz, n), dense=True, raises=False, models=MODELS, opaque=("lin",), pure=("lin",), ranks={"lin()": 0}, assume_atom=rep(leaf))
    ctx.pair("no-wall", ctx.at("machine", "Machine", "__init__"), "a machine without wall has no limiter points", HEAD + """
def code(R0):
    m = Machine([], None, R0=R0)
    return m.limit_points_R, m.limit_points_Z, m.wall, m.R0
def spec(R0):
    return None, None, None, R0
""", dense=True, raises=False)

