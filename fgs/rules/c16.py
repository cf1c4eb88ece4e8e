"""Critical points of the flux: search, classification, duplicates, order and choice of X-points."""
from .common import *
from fractions import Fraction as Fr
import random

ID = "C16"
RULE = "value number of the reported points equals the Newton iterates of the interpolated flux, with branch outcomes fixed by a representative flux"
HEAD = """
from freegs import critical
def val(data, r, z, dx, dy):
    return 0
class Spl:
    def __init__(self, x, y, p):
        self.data = (x, y, p)
    def at(self, r, z, dx, dy):
        return val(self.data, r, z, dx, dy)
    def __call__(self, r, z, dx=0, dy=0, grid=True):
        if np.ndim(r) == 0:
            v = self.at(r, z, dx, dy)
            return np.array([[v]]) if grid else v
        if np.ndim(r) == 1:
            return np.array([self.at(r[i], z[i], dx, dy) for i in range(r.shape[0])])
        return np.array([[self.at(r[i, j], z[i, j], dx, dy) for j in range(r.shape[1])] for i in range(r.shape[0])])
    def ev(self, r, z, dx=0, dy=0):
        return self(r, z, dx, dy, False)
def point(R, Z, psi, i, j, steps):
    f = Spl(R[:, 0], Z[0, :], psi)
    r = R[i, j]
    z = Z[i, j]
    for k in range(steps):
        br = -f.at(r, z, 0, 1) / r
        bz = f.at(r, z, 1, 0) / r
        a = -br / r - f.at(r, z, 1, 1) / r
        b = -f.at(r, z, 0, 2) / r
        c = -bz / r + f.at(r, z, 2, 0) / r
        d = f.at(r, z, 1, 1) / r
        r, z = r - (d * br - b * bz) / (a * d - b * c), z - (a * bz - c * br) / (a * d - b * c)
    return r, z, f.at(r, z, 0, 0)
"""
MODELS = {"scipy.interpolate.RectBivariateSpline": "Spl"}


class Case:
    """representative: grid spacing, flux on the grid, and interpolated flux with derivatives"""

    def __init__(self, nx, ny, h, F, psi=None, R0=1, Z0=None, hz=None):
        self.nx, self.ny, self.h, self.F = nx, ny, Fr(h), F
        self.hz = Fr(hz if hz is not None else h)
        self.R0, self.Z0 = Fr(R0), Fr(Z0) if Z0 is not None else -self.hz * (ny - 1) / 2
        self.psi = psi or (lambda i, j: self.F(self.R0 + i * self.h, self.Z0 + j * self.hz, 0, 0))

    def grid(self, i, j):
        return self.R0 + i * self.h, self.Z0 + j * self.hz

    def oracle(self):
        return rep(self.leaf_of({}))

    def leaf_of(self, syms):
        names = {"R": lambda i, j: self.grid(i, j)[0], "Z": lambda i, j: self.grid(i, j)[1], "psi": self.psi}

        def leaf(t, ev):
            if t.op == "sym" and t.args[0] in syms:
                return syms[t.args[0]]
            if t.op == "elem" and len(t.args) == 3 and t.args[0].op == "sym" and t.args[0].args[0] in names:
                return Fr(names[t.args[0].args[0]](int(t.args[1].args[0]), int(t.args[2].args[0])))
            if t.op == "fcall" and str(t.args[0]).endswith(".val"):
                d = dict(t.args[1])
                r, z = ev(d["r"]), ev(d["z"])
                if r is None or z is None:
                    return None
                return Fr(self.F(r, z, int(d["dx"].args[0]), int(d["dy"].args[0])))
            return None

        return leaf

    def steps(self, i, j, limit=8):
        r0, z0 = r, z = self.grid(i, j)
        for k in range(limit):
            br, bz = -self.F(r, z, 0, 1) / r, self.F(r, z, 1, 0) / r
            if br**2 + bz**2 < Fr(1, 10**6):
                return k
            a, b = -br / r - self.F(r, z, 1, 1) / r, -self.F(r, z, 0, 2) / r
            c, d = -bz / r + self.F(r, z, 2, 0) / r, self.F(r, z, 1, 1) / r
            r, z = r - (d * br - b * bz) / (a * d - b * c), z - (a * bz - c * br) / (a * d - b * c)
            if (r - r0) ** 2 + (z - z0) ** 2 > 9 * (self.h**2 + self.hz**2):
                return None
        raise ValueError("does not converge")


def poly(terms, r0, z0):
    """F(r, z) = sum c (r - r0)^m (z - z0)^n with derivatives"""
    r0, z0 = Fr(r0), Fr(z0)

    def F(r, z, dx, dy):
        t = Fr(0)
        for c, m, n in terms:
            if m < dx or n < dy:
                continue
            k = Fr(c)
            for q in range(dx):
                k *= m - q
            for q in range(dy):
                k *= n - q
            t += k * (Fr(r) - r0) ** (m - dx) * (Fr(z) - z0) ** (n - dy)
        return t

    return F


def pair(ctx, key, rule, case, opts, opt, xpt, discard=True, unroll=8, args=""):
    """opt, xpt: lists of (i, j, steps) expected"""
    at = ctx.at("critical", "find_critical")
    lst = lambda ps: "[" + ", ".join("point(R, Z, psi, %d, %d, %d)" % p for p in ps) + "]"
    sh = {n: (case.nx, case.ny) for n in ("R", "Z", "psi")}
    ctx.pair(key, at, rule, HEAD + "def code(R, Z, psi):\n    return critical.find_critical(R, Z, psi%s)\ndef spec(R, Z, psi):\n    return %s, %s\n" % (opts, lst(opt), lst(xpt)),
             dense=True, shapes=sh, models=MODELS, opaque=("val",), pure=("val",), ranks={"val()": 0}, unroll=unroll, assume_atom=case.oracle(), lazy=40)


def newton(ctx):
    rule = "a reported point is the Newton iterate from a local minimum of the poloidal field at which both components vanish, with the interpolated flux there"
    base = [("O", [(1, 2, 0), (2, 0, 2), (3, 1, 1)], 0), ("O-high", [(-3, 2, 0), (-1, 0, 2), (1, 1, 1)], 0), ("X", [(1, 2, 0), (-2, 0, 2)], 1), ("X-tilted", [(Fr(1, 2), 2, 0), (Fr(1, 2), 0, 2), (4, 1, 1)], 1),
            ("O-curved", [(2, 2, 0), (1, 0, 2), (1, 3, 0), (2, 1, 2)], 0), ("X-curved", [(2, 2, 0), (-1, 0, 2), (1, 3, 0), (2, 1, 2)], 1)]
    base[0] = ("O", [(3, 2, 0), (2, 0, 2), (1, 1, 1)], 0)
    for name, terms, isx in base:
        for off in ((0, 0), (Fr(1, 100), Fr(-1, 100))):
            F = poly(terms, Fr(12, 10) + off[0], off[1])
            c = Case(5, 5, Fr(1, 10), F)
            k = c.steps(2, 2)
            if k is None or not minimum(c, 2, 2):
                raise ValueError(name)
            pt = [(2, 2, k)]
            # an X-point alone leaves nothing to order
            pair(ctx, "newton:%s:%d" % (name, bool(off[0])), rule, c, ", False", [] if isx else pt, pt if isx else [])
    # the root is too far away
    for name, dr, dz, hit, hz in (("near-R", Fr(4, 10), 0, True, Fr(1, 10)), ("near-Z", 0, Fr(-4, 10), True, Fr(1, 10)), ("far-R", Fr(9, 20), 0, False, Fr(1, 10)), ("far-Z", 0, Fr(9, 20), False, Fr(1, 10)),
                                  ("near-Z:tall", 0, Fr(6, 10), True, Fr(2, 10)), ("far-Z:tall", 0, Fr(7, 10), False, Fr(2, 10)), ("far-Z:flat", 0, Fr(38, 100), False, Fr(1, 20))):
        G = poly([(Fr(1, 3), 3, 0), (-(Fr(12, 10) + dr) / 2, 2, 0), (Fr(1, 2), 0, 2)], 0, dz)  # at most two steps

        def F(r, z, dx, dy, G=G):
            # strictly lower field at the middle so that the search starts there
            if (r, z) in near and dx + dy == 1:
                return G(r, z, dx, dy) * 50
            return G(r, z, dx, dy)
        c = Case(5, 5, Fr(1, 10), F, hz=hz)
        near = {c.grid(i, j) for i in range(5) for j in range(5) if (i, j) != (2, 2)}
        k = c.steps(2, 2)
        if (k is not None) != hit:
            raise ValueError(name)
        pair(ctx, "newton:" + name, "a root further than three cells from where the search started is not reported", c, ", False", [(2, 2, k)] if hit else [], [])


def minimum(c, i, j):
    b = lambda i, j: (c.F(*c.grid(i, j), 1, 0) ** 2 + c.F(*c.grid(i, j), 0, 1) ** 2) / c.grid(i, j)[0] ** 2
    return all(b(i, j) < b(i + p, j + q) for p in (-1, 0, 1) for q in (-1, 0, 1) if (p, q) != (0, 0))


class Sites(Case):
    """candidates exactly on grid points: {(i, j): (kind, flux)}; lines: shape of the flux from the primary O-point to an X-point"""

    def __init__(self, nx, ny, h, sites, lines=None, primary=None, lower=(), hz=None, Z0=None):
        self.sites, self.lines, self.primary, self.lower = sites, lines or {}, primary, set(lower)
        self.nx, self.ny = nx, ny
        super().__init__(nx, ny, h, self.flux, psi=self.pick(), hz=hz, Z0=Z0)
        self.where = {self.grid(i, j): (i, j) for i in range(nx) for j in range(ny)}

    def pick(self):
        """grid values whose second differences two cells around every candidate have the wanted signs"""
        rnd = random.Random(7)
        while True:
            p = {(i, j): rnd.randint(-9, 9) for i in range(self.nx) for j in range(self.ny)}
            for (i, j), (kind, _) in self.sites.items():
                if not (2 <= i < self.nx - 2 and 2 <= j < self.ny - 2):
                    continue
                rr, zz = p[i + 2, j] - 2 * p[i, j] + p[i - 2, j], p[i, j + 2] - 2 * p[i, j] + p[i, j - 2]
                rz = Fr(p[i + 2, j + 2] - p[i + 2, j - 2] - p[i - 2, j + 2] + p[i - 2, j - 2], 4)
                if (rr * zz - rz**2 < 0) != (kind in "Xx") or rr * zz == rz**2 or (rr > 0) != (kind in "OX"):
                    break
            else:
                return lambda i, j: p[i, j]

    def flux(self, r, z, dx, dy):
        p = self.where.get((r, z))
        if dx + dy == 1:
            if p in self.sites:
                return Fr(0)
            if p in self.lower:
                return Fr(1, 10**5) if dx else Fr(0)
            return Fr(1)
        if dx + dy == 0:
            if p in self.sites:
                return Fr(self.sites[p][1])
            if self.primary is not None:
                ro, zo = self.grid(*self.primary)
                for q, f in self.lines.items():
                    rx, zx = self.grid(*q)
                    if (rx - ro) * (z - zo) == (zx - zo) * (r - ro):
                        t = (r - ro) / (rx - ro) if rx != ro else (z - zo) / (zx - zo)
                        if 0 <= t <= 1:
                            a, b = self.sites[self.primary][1], self.sites[q][1]
                            return a + (b - a) * f(t)
            return Fr(0)
        return Fr(1) if dx != 1 else Fr(0)


def choose(ctx):
    up = lambda t: t
    rule = "points nearer than the duplicate distance are reported once, O-points ordered by distance from the middle of the domain, X-points by flux distance from the primary one"

    def case(key, nx, ny, h, sites, opt, xpt, lines=None, opts="", rule=rule, lower=(), hz=None, Z0=None):
        prim = opt[0] if opt else None
        ln = {p: up for p in sites if sites[p][0] in "Xx"}
        ln.update(lines or {})
        c = Sites(nx, ny, h, sites, ln, prim, lower, hz, Z0)
        pair(ctx, key, rule, c, opts, [p + (0,) for p in opt], [p + (0,) for p in xpt])

    h = Fr(1, 10)
    case("order:one", 5, 5, h, {(2, 2): ("O", 3)}, [(2, 2)], [])
    case("order:none", 5, 5, h, {}, [], [])
    case("order:lone-X", 5, 5, h, {(2, 2): ("X", 3)}, [], [(2, 2)])
    case("order:lone-x", 5, 5, h, {(2, 2): ("x", 3)}, [], [(2, 2)])
    case("order:lone-o", 5, 5, h, {(2, 2): ("o", 3)}, [(2, 2)], [])
    # no O-point: the X-points as found
    case("order:two-X", 5, 7, h, {(2, 2): ("X", 3), (2, 4): ("x", 1)}, [], [(2, 2), (2, 4)])
    # nearest to the middle first, either direction, both coordinates
    case("order:O-Z", 5, 9, h, {(2, 2): ("O", 3), (2, 5): ("o", 1)}, [(2, 5), (2, 2)], [])
    case("order:O-R", 9, 5, h, {(2, 2): ("O", 3), (5, 2): ("o", 1)}, [(5, 2), (2, 2)], [])
    case("order:O-R2", 9, 5, h, {(3, 2): ("O", 3), (6, 2): ("o", 1)}, [(3, 2), (6, 2)], [])
    case("order:O-wide", 9, 9, h, {(2, 4): ("O", 3), (4, 7 - 1): ("o", 1)}, [(4, 6), (2, 4)], [], hz=Fr(1, 20))
    case("order:O-above", 5, 9, h, {(2, 2): ("O", 3), (2, 5): ("o", 1)}, [(2, 5), (2, 2)], [], Z0=3)
    case("order:O-below", 5, 9, h, {(2, 3): ("O", 3), (2, 6): ("o", 1)}, [(2, 3), (2, 6)], [], Z0=-5)
    case("order:X-many", 9, 9, h, {(4, 4): ("O", 1), (2, 2): ("X", 9), (6, 6): ("X", 3), (2, 6): ("x", 5), (4, 6): ("X", 2), (6, 2): ("x", 7)}, [(4, 4)], [(4, 6), (6, 6), (2, 6), (6, 2), (2, 2)])
    case("order:O-three", 9, 9, h, {(2, 2): ("O", 3), (4, 4): ("O", 5), (6, 3): ("o", 1)}, [(4, 4), (6, 3), (2, 2)], [])
    # X-points nearest in flux first, not nearest in space, flux above or below the axis
    case("order:X", 5, 9, h, {(2, 4): ("O", 3), (2, 2): ("X", 9), (2, 6): ("x", 5)}, [(2, 4)], [(2, 6), (2, 2)])
    case("order:X-keep", 5, 9, h, {(2, 4): ("O", 3), (2, 2): ("X", 5), (2, 6): ("x", 9)}, [(2, 4)], [(2, 2), (2, 6)])
    case("order:X-below", 5, 9, h, {(2, 4): ("o", 9), (2, 2): ("X", 2), (2, 6): ("x", 5)}, [(2, 4)], [(2, 6), (2, 2)])
    case("order:X-around", 5, 9, h, {(2, 4): ("o", 9), (2, 2): ("X", 2), (2, 6): ("x", 11)}, [(2, 4)], [(2, 6), (2, 2)])
    case("order:X-primary", 5, 11, h, {(2, 5): ("o", 9), (2, 2): ("O", 1), (2, 8): ("x", 3)}, [(2, 5), (2, 2)], [(2, 8)])
    case("order:two-O-two-X", 9, 9, h, {(2, 2): ("O", 0), (4, 4): ("O", 5), (6, 2): ("X", 1), (6, 6): ("X", 8)}, [(4, 4), (2, 2)], [(6, 6), (6, 2)])
    # duplicates: same kind within the distance once, first found stays; different kinds both
    s = Fr(1, 1000)
    case("same:O", 5, 7, s, {(2, 2): ("O", 3), (2, 4): ("O", 4)}, [(2, 2)], [])
    case("same:X", 7, 5, s, {(2, 2): ("X", 3), (4, 2): ("X", 4)}, [], [(2, 2)])
    case("same:O-and-X", 5, 7, s, {(2, 2): ("O", 3), (2, 4): ("X", 4)}, [(2, 2)], [(2, 4)])
    case("same:three", 5, 9, Fr(13, 10000), {(2, 2): ("X", 3), (2, 4): ("X", 4), (2, 6): ("X", 5)}, [], [(2, 2), (2, 6)])
    case("same:not", 5, 7, Fr(17, 10000), {(2, 2): ("X", 3), (2, 4): ("X", 4)}, [], [(2, 2), (2, 4)])
    case("same:not-both", 7, 7, Fr(12, 10000), {(2, 2): ("X", 3), (4, 4): ("X", 4)}, [], [(2, 2), (4, 4)])
    # X-points behind a maximum of the flux are not kept
    mono = "an X-point is kept exactly if the flux on the straight line from the primary O-point stays within 0.1% of monotonic and is extreme at the O-point"
    for nm, a, b in (("up", 1, 4), ("down", 4, 1)):
        sites = {(2, 4): ("O" if a < b else "o", a), (2, 2): ("X", b), (2, 6): ("X", 2 * b - a)}
        hill = lambda t: t + (Fr(1, 2) if Fr(4, 10) < t < Fr(9, 10) else 0)
        slight = lambda t: t if t < Fr(1, 2) or t == 1 else 1 + Fr(1, 2000)
        over = lambda t: t if t < Fr(1, 2) or t == 1 else 1 + Fr(1, 500)
        dip = lambda t: t - (Fr(1, 2) if Fr(2, 10) < t < Fr(3, 10) else 0)
        tiny = lambda t: t - (Fr(1, 2) if Fr(1, 100) < t < Fr(3, 100) else 0)
        case("keep:%s:straight" % nm, 5, 9, h, sites, [(2, 4)], [(2, 2), (2, 6)], rule=mono)
        case("keep:%s:hill" % nm, 5, 9, h, sites, [(2, 4)], [(2, 6)], {(2, 2): hill}, rule=mono)
        case("keep:%s:hill-other" % nm, 5, 9, h, sites, [(2, 4)], [(2, 2)], {(2, 6): hill}, rule=mono)
        case("keep:%s:slight" % nm, 5, 9, h, sites, [(2, 4)], [(2, 2), (2, 6)], {(2, 2): slight}, rule=mono)
        case("keep:%s:over" % nm, 5, 9, h, sites, [(2, 4)], [(2, 6)], {(2, 2): over}, rule=mono)
        case("keep:%s:dip" % nm, 5, 9, h, sites, [(2, 4)], [(2, 6)], {(2, 2): dip}, rule=mono)
        case("keep:%s:tiny" % nm, 5, 9, h, sites, [(2, 4)], [(2, 2), (2, 6)], {(2, 2): tiny}, rule=mono)
        case("keep:%s:none" % nm, 5, 9, h, sites, [(2, 4)], [], {(2, 2): hill, (2, 6): hill}, rule=mono)
        case("keep:%s:asked-not" % nm, 5, 9, h, sites, [(2, 4)], [(2, 2), (2, 6)], {(2, 2): hill, (2, 6): dip}, opts=", discard_xpoints=False", rule=mono)
    # only strict local minima are looked at, and none on the two outer rows
    loc = "the search starts at every strict local minimum of the poloidal field at least two cells from the edge"
    for i in (-1, 0, 1):
        for j in (-1, 0, 1):
            if (i, j) != (0, 0):
                low(ctx, loc, i, j)
    case("inner:edges", 7, 8, h, {(1, 3): ("O", 1), (3, 1): ("O", 2), (5, 3): ("O", 3), (3, 6): ("O", 4), (3, 4): ("O", 5)}, [(3, 4)], [], rule=loc)
    for k, p in enumerate(((2, 2), (2, 6), (6, 2), (6, 6))):
        case("inner:corner:%d" % k, 9, 9, h, {p: ("O", 1)}, [p], [], rule=loc)


def low(ctx, rule, i, j):
    """a neighbour with lower poloidal field"""
    class C(Sites):
        def flux(self, r, z, dx, dy):
            p = self.where.get((r, z))
            if dx + dy == 1 and p == (2, 2):
                return Fr(1, 10**4) if dx else Fr(0)
            return super().flux(r, z, dx, dy)
    c = C(5, 5, Fr(1, 10), {(2, 2): ("O", 1)}, lower=[(2 + i, 2 + j)])
    pair(ctx, "inner:lower%+d%+d" % (i, j), rule, c, "", [], [])


def flood(ctx):
    """core mask: the part connected to the axis"""
    at = ctx.at("critical", "core_mask")
    rule = "the mask is 1 exactly on points with normalised flux below one which are joined to the axis along grid lines, deciding by flux alone next to an X-point"
    pics = {
        "round": ("......", ".####.", ".#O##.", ".####.", "..##..", "......"),
        "apart": ("##....", "##.##.", "...O#.", "#..##.", ".#....", "##..##"),
        "diagonal": ("#.....", ".##...", ".#O#..", ".###..", "....##", "....##"),
        "snake": (".#####", ".#...#", ".#.O.#", ".#.#.#", ".#.###", ".#...."),
        "comb": ("#.#.#.", "#.#.#.", "#####O", "#.#.#.", "#.#.##", "#.#.#."),
        "edge": ("######", "######", "O#####", "######", "######", "######"),
        "spiral": ("#####.", "....#.", "###.#.", "#.O.#.", "#...#.", "#####."),
        "hook": ("....#.", "###.#.", "#O#.#.", "#.#.#.", "..#.##", "..###."),
        "hook-down": ("..###.", "..#.##", "#.#..#", "#O#.##", "###.#.", "....#."),
        "alone": ("......", "..#...", ".#O#..", "..#...", "......", "......"),
        "only": ("......", "......", "..O...", "......", "......", "......"),
        "wide": ("########", "#......#", "#.####.#", "#.#O...#", "#.######"),
        "tall": ("#.###", "#.#.#", "#.#.#", "#.#.#", "#.#.#", "#.O.#", "#.#.#", "#####"),
    }
    for nm, pic in pics.items():
        mask_case(ctx, at, rule, nm, pic, [])
        mask_case(ctx, at, rule, nm + ":down", [row[::-1] for row in pic], [], sign=-1)
    tall = (".........", "..#####..", ".#######.", ".###O###.", ".#######.", "..#####..", "...###...", "....#....", "...###...", "..#####..")
    for nm, xs in (("X", [(7, 4)]), ("X-secondary", [(7, 4), (0, 4)]), ("X-corner", [(7, 4), (0, 0)]), ("X-edge", [(7, 4), (4, 8)]), ("X-last", [(7, 4), (9, 8)]), ("X-inside", [(7, 4), (2, 2)]),
                   ("X-off", [(6, 4)]), ("X-two-near", [(7, 3), (7, 5)]), ("X-below", [(8, 4)])):
        mask_case(ctx, at, rule, nm, tall, xs)
        mask_case(ctx, at, rule, nm + ":given", tall, xs, bndry=True, sign=-1)
        mask_case(ctx, at, rule, nm + ":turned", ["".join(r[k] for r in tall) for k in range(9)], [(j, i) for i, j in xs])
    mask_case(ctx, at, rule, "X-given-zero", tall, [(7, 4)], bndry=0)
    mask_case(ctx, at, rule, "X-unset", tall, [(7, 4)], bndry=None)


def mask_case(ctx, at, rule, nm, pic, xs, bndry=False, sign=1):
    nx, ny = len(pic), len(pic[0])
    o = [(i, j) for i in range(nx) for j in range(ny) if pic[i][j] == "O"][0]
    inside = lambda p: pic[p[0]][p[1]] != "."
    zero = bndry == 0 and bndry is not False
    if not xs or zero:
        bndry = True
    # the boundary flux comes from the first X-point unless it is given
    near = {(i + a, j + b) for i, j in xs for a in (-1, 0, 1) for b in (-1, 0, 1) if 0 <= i + a < nx and 0 <= j + b < ny}
    got, todo = {o}, [o]
    while todo:
        i, j = todo.pop()
        for q in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= q[0] < nx and 0 <= q[1] < ny and q not in got and q not in near and inside(q):
                got.add(q)
                todo.append(q)
    if o in near:
        raise ValueError(nm)
    got |= {q for q in near if inside(q)}
    h, hz = Fr(1, 10), Fr(1, 8)
    wob = lambda i, j: Fr((7 * i + 3 * j) % 5, 10)
    base = 10 if zero is False else -4
    psi = lambda i, j: sign * (base + (wob(i, j) if (i, j) == o else 1 + wob(i, j) * 2 if inside((i, j)) else 6 + wob(i, j) * 3))
    c = Case(nx, ny, h, None, psi)
    c.hz, c.Z0 = hz, -Fr(1, 3)
    pos = lambda i, j, k: (c.grid(i, j)[0] + h * Fr(2 * (k % 2) - 1, 3), c.grid(i, j)[1] + hz * Fr(1 - 2 * (k // 2 % 2), 3))
    syms = {}
    syms["Ro"], syms["Zo"] = pos(*o, 0)
    syms["po"] = Fr(sign * base)
    for k, x in enumerate(xs):
        syms["Rx%d" % k], syms["Zx%d" % k] = pos(*x, k + 1)
        # a secondary X-point, or one besides a given boundary, has another flux
        syms["px%d" % k] = Fr(sign * (base + 4)) if k == 0 and not bndry else Fr(sign * (base + 20)) if k else Fr(sign * (base + 7))
    syms["pb"] = Fr(sign * (base + 4))
    inner = c.leaf_of(syms)
    names = [n for n in syms if n != "pb" or (bndry and not zero)]
    call = "critical.core_mask(R, Z, psi, [(Ro, Zo, po), (Ro + 3, Zo + 2, po * 5)], [%s]%s)" % (", ".join("(Rx%d, Zx%d, px%d)" % (k, k, k) for k in range(len(xs))), ", 0.0" if zero else ", pb" if bndry else ", None" if bndry is None else "")
    want = "np.array([%s])" % ", ".join("[%s]" % ", ".join("1.0" if (i, j) in got else "0.0" for j in range(ny)) for i in range(nx))
    args = ", ".join(["R", "Z", "psi"] + names)
    ctx.pair("mask:" + nm, at, rule, "from freegs import critical\ndef code(%s):\n    return %s\ndef spec(%s):\n    return %s\n" % (args, call, args, want),
             dense=True, shapes={n: (nx, ny) for n in ("R", "Z", "psi")}, ranks={n: 0 for n in names}, unroll=400, assume_atom=rep(inner), lazy=40)


def check(ctx):
    newton(ctx)
    choose(ctx)
    flood(ctx)
