"""Polygon geometry and quadrature: signed area, triangulation, line crossing, averages over polygons."""
from .common import *
from .. import terms as T
from fractions import Fraction

ID = "C17"
RULE = "value number of the area, triangles, crossing test or quadrature sum equals the closed form over the corners, with corner order types fixed by a representative"
HEAD = """
from freegs import polygons, quadrature
def A(p):
    return 0.5 * sum((p[(i + 1) % len(p)][0] - p[i][0]) * (p[(i + 1) % len(p)][1] + p[i][1]) for i in range(len(p)))
def h(m, x, y, z):
    # complete homogeneous symmetric polynomial
    return sum(x ** i * y ** j * z ** (m - i - j) for i in range(m + 1) for j in range(m + 1 - i))
def mean(m, p, a, b, c):
    # average of (a + b r + c z)^m over a polygon, by triangles from the origin
    n = len(p)
    t = 0
    for i in range(n):
        u = p[i]
        v = p[(i + 1) % n]
        t = t + 0.5 * (v[0] * u[1] - u[0] * v[1]) * 2 * h(m, a, a + b * u[0] + c * u[1], a + b * v[0] + c * v[1]) / ((m + 1) * (m + 2))
    return t
"""
# corner order types: convex, concave, collinear corners, star-like
SHAPES = {
    "triangle": [(1, 0), (0, 2), (3, 1)],
    "square": [(0, 0), (0, 2), (2, 2), (2, 0)],
    "quad": [(1, -1), (0, 3), (4, 4), (5, 1)],
    "arrow": [(0, 0), (1, 3), (2, 0), (1, 1)],
    "collinear": [(0, 0), (0, 2), (1, 2), (2, 2), (2, 0)],
    "pentagon": [(2, 0), (0, 2), (1, 4), (4, 4), (5, 2)],
    "house": [(0, 0), (0, 3), (1, 1), (3, 3), (3, 0)],
    "L": [(0, 0), (0, 2), (1, 2), (1, 1), (2, 1), (2, 0)],
    "hexagon": [(1, 0), (0, 2), (1, 4), (3, 5), (5, 3), (4, 1)],
    "small": [(Fraction(x, 50) + 1, Fraction(y, 50)) for x, y in ((0, 0), (0, 2), (1, 1), (3, 2), (2, 0))],
    "wire": [(1, 0), (1, Fraction(1, 2000)), (1 + Fraction(1, 2000), Fraction(1, 2000)), (1 + Fraction(1, 2000), 0)],
    "M": [(0, 0), (0, 4), (2, 1), (4, 5), (4, 0), (2, -1)],
    "U": [(0, 0), (0, 3), (1, 3), (1, 1), (2, 1), (2, 3), (3, 3), (3, 0)],
}
DEEP = {
    "Z": [(0, 0), (0, 1), (2, 1), (2, 3), (5, 3), (5, 2), (3, 2), (3, 0)],
    "comb": [(0, 0), (0, 4), (1, 1), (2, 5), (3, 1), (4, 4), (5, 0)],
    "spiral": [(0, 0), (0, 5), (5, 5), (5, 1), (2, 1), (2, 3), (3, 3), (3, 2), (4, 2), (4, 4), (1, 4), (1, 0)],
    "star": [(0, 5), (1, 1), (5, 0), (1, -1), (0, -5), (-1, -1), (-5, 0), (-1, 1)],
    "cross": [(1, 0), (1, 1), (0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (2, 2), (3, 2), (3, 1), (2, 1), (2, 0)],
}


def shoelace(p):
    return sum((p[(i + 1) % len(p)][0] - p[i][0]) * (p[(i + 1) % len(p)][1] + p[i][1]) for i in range(len(p)))


def tidy(c):
    d = c.limit_denominator(5000)
    return d if abs(d - c) < Fraction(1, 10**11) else c


def small(t):
    """rounding of tabulated coefficients"""
    def go(x, memo={}):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op in ("poly", "num"):
                r = T.from_poly({m: tidy(c) for m, c in T.poly_of(r).items()})
            memo[x] = r
        return r

    return go(t)


def coords(p, x="r", y="z"):
    args = ", ".join("%s%d, %s%d" % (x, i, y, i) for i in range(len(p)))
    lst = "[" + ", ".join("(%s%d, %s%d)" % (x, i, y, i) for i in range(len(p))) + "]"
    vals = {}
    for i, (r, z) in enumerate(p):
        vals["%s%d" % (x, i)] = r
        vals["%s%d" % (y, i)] = z
    return args, lst, vals


def check(ctx):
    wa, wt, wi = ctx.at("polygons", "area"), ctx.at("polygons", "triangulate"), ctx.at("polygons", "intersect")
    wq, wp, wv = ctx.at("quadrature", "triangle_quad"), ctx.at("quadrature", "polygon_quad"), ctx.at("quadrature", "average")

    ctx.pair("area:any", wa, RULE, HEAD + "def code(p):\n    return polygons.area(p)\ndef spec(p):\n    return 0.5 * sum((p[(i + 1) % len(p)][0] - p[i][0]) * (p[i][1] + p[(i + 1) % len(p)][1]) for i in range(len(p)))\n", raises=False)
    for n in (3, 4, 5, 7):
        a, l, _ = coords(range_pts(n))
        ctx.pair("area:%d" % n, wa, RULE, HEAD + "def code(%s):\n    return polygons.area(%s)\ndef spec(%s):\n    p = %s\n    return -0.5 * sum(p[i][0] * p[(i + 1) %% %d][1] - p[(i + 1) %% %d][0] * p[i][1] for i in range(%d))\n" % (a, l, a, l, n, n, n))
    shapes = dict(SHAPES)
    if (ctx.tier != "quick"):
        shapes.update(DEEP)
    for name, p in shapes.items():
        n = len(p)
        starts = range(n) if (ctx.tier != "quick") or n < 5 else (0, 2)
        for rev in (0, 1):
            for s in starts:
                q = p[s:] + p[:s]
                q = q[::-1] if rev else q
                a, l, v = coords(q)
                sg = 1 if shoelace(q) > 0 else -1
                key = "%s:%s%d" % (name, "rev" if rev else "fwd", s)
                kw = dict(assume_atom=values(**v), unroll=n + 1)
                if s == 0:
                    ctx.pair("clockwise:" + key, ctx.at("polygons", "clockwise"), RULE, HEAD + "def code(%s):\n    return 1 if polygons.clockwise(%s) else 0\ndef spec(%s):\n    return %d\n" % (a, l, a, sg > 0), **kw)
                ctx.pair("triangles:" + key, wt, "triangles are n-2, none of negative area, their areas add up to the polygon's identically in the corners, the caller's list is unchanged",
                         HEAD + "def code(%s):\n    p = %s\n    t = polygons.triangulate(p)\n    return len(t), [len(x) for x in t], [1 if A(x) >= 0 else 0 for x in t], sum(A(x) for x in t), p\ndef spec(%s):\n    p = %s\n    return %d, %s, %s, %d * A(p), p\n" % (a, l, a, l, n - 2, [3] * (n - 2), [1] * (n - 2), sg), **kw)
                if s == 0 and (n < 7 or (ctx.tier != "quick")):
                    for m, k in ((1, 1), (2, 3), (2, 6)):
                        if n > 5 and k == 6 and not (ctx.tier != "quick"):
                            continue
                        ctx.pair("polygon-average:%s:%d" % (key, k), wp, "quadrature sums of powers of a general linear function equal the polygon moments",
                                 HEAD + "def code(%s, a, b, c):\n    p = %s\n    q = quadrature.polygon_quad(p, n=%d)\n    return len(q), sum(w for r, z, w in q), sum(w * (a + b * r + c * z) ** %d for r, z, w in q) * A(p), [1 if w >= 0 else 0 for r, z, w in q], p\ndef spec(%s, a, b, c):\n    p = %s\n    return %d, 1, mean(%d, p, a, b, c), [1] * %d, p\n" % (a, l, k, m, a, l, k * (n - 2), m, k * (n - 2)), modulo=small, **kw)
    # triangles of either orientation
    tri = "r1, z1, r2, z2, r3, z3"
    v0 = dict(r1=1, z1=0, r2=0, z2=2, r3=3, z3=1)
    for k, deg in ((1, 1), (3, 2), (6, 4)):
        for m in range(deg + 1):
            ctx.pair("triangle:%d:degree%d" % (k, m), wq, "quadrature sum of the m-th power of a general linear function equals its exact average",
                     HEAD + "def code(%s, a, b, c):\n    q = quadrature.triangle_quad([(r1, z1), (r2, z2), (r3, z3)], n=%d)\n    return len(q), sum(w * (a + b * r + c * z) ** %d for r, z, w in q)\ndef spec(%s, a, b, c):\n    return %d, 2 * h(%d, a + b * r1 + c * z1, a + b * r2 + c * z2, a + b * r3 + c * z3) / %d\n" % (tri, k, m, tri, k, m, (m + 1) * (m + 2)), modulo=small)
        ctx.pair("triangle:%d:inside" % k, wq, "every quadrature point lies inside the triangle and has positive weight",
                 HEAD + "def code(%s):\n    t = [(r1, z1), (r2, z2), (r3, z3)]\n    q = quadrature.triangle_quad(t, n=%d)\n    return [1 if w > 0 and A([t[0], t[1], (r, z)]) > 0 and A([t[1], t[2], (r, z)]) > 0 and A([t[2], t[0], (r, z)]) > 0 else 0 for r, z, w in q], t\ndef spec(%s):\n    return [1] * %d, [(r1, z1), (r2, z2), (r3, z3)]\n" % (tri, k, tri, k), assume_atom=values(**v0))
    ctx.pair("triangle:default", wq, RULE, HEAD + "def code(%s):\n    return quadrature.triangle_quad([(r1, z1), (r2, z2), (r3, z3)])\ndef spec(%s):\n    return quadrature.triangle_quad([(r1, z1), (r2, z2), (r3, z3)], 6)\n" % (tri, tri))
    for k in (0, 2, 4, 5, 7, 9):
        ctx.pair("triangle:refuse%d" % k, wq, "an unavailable number of points is refused", HEAD + "def code(%s):\n    return quadrature.triangle_quad([(r1, z1), (r2, z2), (r3, z3)], n=%d)\ndef spec(%s):\n    raise ValueError('')\n" % (tri, k, tri))
    ctx.pair("average", wv, "sum of function values times weights", HEAD + "def code(f, q):\n    return quadrature.average(f, q)\ndef spec(f, q):\n    return sum(f(q[i][0], q[i][1]) * q[i][2] for i in range(len(q)))\n", ranks={"f()": 0}, raises=False)
    ctx.pair("average:points", wv, "sum of function values times weights", HEAD + "def code(f, r0, z0, w0, r1, z1, w1):\n    q = [(r0, z0, w0), (r1, z1, w1)]\n    return quadrature.average(f, q)\ndef spec(f, r0, z0, w0, r1, z1, w1):\n    return f(r0, z0) * w0 + f(r1, z1) * w1\n", ranks={"f()": 0})
    crossings(ctx, wi)


def range_pts(n):
    return [(i, i) for i in range(n)]


def seg_cross(p, q, u, v):
    def o(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return o(p, q, u) * o(p, q, v) < 0 and o(u, v, p) * o(u, v, q) < 0


def crosses(a, b, ca, cb):
    na, nb = len(a) - (not ca), len(b) - (not cb)
    return any(seg_cross(a[i], a[(i + 1) % len(a)], b[j], b[(j + 1) % len(b)]) for i in range(na) for j in range(nb))


LINES = {
    "two-crossing": ([(0, 0), (4, 5)], [(0, 4), (5, 1)]),
    "two-apart": ([(0, 0), (1, 5)], [(3, 4), (5, 1)]),
    "two-beyond-start": ([(4, 4), (6, 7)], [(0, 4), (5, 1)]),
    "two-beyond-end": ([(0, 0), (1, 1)], [(0, 4), (5, 1)]),
    "two-beyond-other": ([(0, 0), (4, 5)], [(3, 2), (6, 1)]),
    "two-before-other": ([(0, 0), (4, 5)], [(0, 4), (1, 3)]),
    "near-start": ([(4, 4), (8, 8)], [(0, 7), (7, 0)]),
    "near-end": ([(0, 0), (3, 3)], [(0, 7), (7, 0)]),
    "near-other-start": ([(0, 0), (7, 7)], [(4, 3), (8, -1)]),
    "near-other-end": ([(0, 0), (7, 7)], [(0, 7), (3, 4)]),
    "barely": ([(0, 0), (Fraction(36, 10), Fraction(36, 10))], [(0, 7), (Fraction(36, 10), Fraction(34, 10))]),
    "small": ([(0, 0), (Fraction(4, 100), Fraction(5, 100))], [(0, Fraction(4, 100)), (Fraction(5, 100), Fraction(1, 100))]),
    "millimetres": ([(Fraction(3, 2), 0), (Fraction(3, 2) + Fraction(4, 1000), Fraction(5, 1000))], [(Fraction(3, 2), Fraction(4, 1000)), (Fraction(3, 2) + Fraction(5, 1000), Fraction(1, 1000))]),
    "by-end": ([(0, 0), (Fraction(2003, 1000), Fraction(2003, 1000))], [(0, 4), (4, 0)]),
    "by-start": ([(Fraction(1997, 1000), Fraction(1997, 1000)), (5, 5)], [(0, 4), (4, 0)]),
    "two-parallel": ([(0, 0), (4, 4)], [(0, 1), (4, 5)]),
    "first-first": ([(0, 0), (4, 5), (9, 9)], [(0, 4), (5, 1), (6, 0)]),
    "first-last": ([(0, 0), (4, 5), (9, 9)], [(0, 9), (0, 4), (5, 1)]),
    "last-first": ([(-3, -5), (0, 0), (4, 5)], [(0, 4), (5, 1), (6, 0)]),
    "last-last": ([(-3, -5), (0, 0), (4, 5)], [(0, 9), (0, 4), (5, 1)]),
    "closing-only": ([(0, 0), (0, 6), (6, 6)], [(1, 2), (3, 2), (3, 1)]),
    "closing-other": ([(1, 2), (3, 2), (3, 1)], [(0, 0), (0, 6), (6, 6)]),
    "closing-both": ([(0, 0), (-3, 6), (6, 7)], [(2, 4), (5, 4), (5, 0), (4, 0)]),
    "inside": ([(0, 0), (0, 9), (9, 9), (9, 0)], [(3, 3), (4, 6), (6, 4)]),
    "around": ([(3, 3), (4, 6), (6, 4)], [(0, 0), (0, 9), (9, 9), (9, 0)]),
    "overlap": ([(0, 0), (0, 4), (4, 4), (4, 0)], [(2, 2), (2, 7), (7, 7), (7, 2)]),
    "vertical": ([(2, 0), (2, 6)], [(0, 3), (5, 3)]),
    "vertical-miss": ([(2, 0), (2, 2)], [(0, 3), (5, 3)]),
}


def crossings(ctx, wi):
    for name, (a, b) in LINES.items():
        for swap in (0, 1):
            if swap and not (ctx.tier != "quick") and len(a) + len(b) > 5:
                continue
            x, y = (b, a) if swap else (a, b)
            a1, _, v1 = coords(x, "r", "z")
            a2, _, v2 = coords(y, "s", "t")
            v1.update(v2)
            kw = dict(assume_atom=values(**v1))
            for ca in (True, False):
                for cb in (True, False):
                    if (ca and len(x) < 3) or (cb and len(y) < 3):
                        continue
                    dflt = ca and cb
                    call = "polygons.intersect([%s], [%s], [%s], [%s]%s)" % (
                        ", ".join("r%d" % i for i in range(len(x))), ", ".join("z%d" % i for i in range(len(x))),
                        ", ".join("s%d" % i for i in range(len(y))), ", ".join("t%d" % i for i in range(len(y))), "" if dflt else ", closed1=%s, closed2=%s" % (ca, cb))
                    ctx.pair("cross:%s:%s%s%s" % (name, "swap:" if swap else "", "closed" if ca else "open", "-closed" if cb else "-open"), wi, "lines cross exactly if two of their segments do, the closing one only for closed lines",
                             HEAD + "def code(%s, %s):\n    return 1 if %s else 0\ndef spec(%s, %s):\n    return %d\n" % (a1, a2, call, a1, a2, crosses(x, y, ca, cb)), **kw)
