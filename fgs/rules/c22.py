"""Plasma shape, beta, inductance and other summary quantities follow their definitions."""
from .common import *
from fractions import Fraction as Fr

ID = "C22"
RULE = "value number equals the defining formula"
HEAD = """
from freegs.equilibrium import Equilibrium
from freegs import critical, polygons
def bg(r, z):
    return 0
def bh(r, z):
    return 0
def bp(r, z):
    return 0
def ps(r, z, dx, dy):
    return 0
def each(f, r, z):
    if np.ndim(r) == 0:
        return f(r, z)
    if np.ndim(r) == 1:
        return np.array([f(r[i], z[i]) for i in range(r.shape[0])])
    return np.array([[f(r[i, j], z[i, j]) for j in range(r.shape[1])] for i in range(r.shape[0])])
class Tok:
    def __init__(self, src):
        self.src = src
        self.wall = src.wall
        self.coils = []
    def createPsiGreens(self, R, Z):
        return {}
    def calcPsiFromGreens(self, pgreen):
        return self.src.tpsi
    def psi(self, R, Z):
        return each(bp, R, Z)
    def Br(self, R, Z):
        return each(bg, R, Z)
    def Bz(self, R, Z):
        return each(bh, R, Z)
class Prof:
    def pressure(self, x):
        x = np.asarray(x)
        if np.ndim(x) == 0:
            return pr(x)
        if np.ndim(x) == 1:
            return np.array([pr(x[i]) for i in range(x.shape[0])])
        return np.array([[pr(x[i, j]) for j in range(x.shape[1])] for i in range(x.shape[0])])
    def fpol(self, x):
        x = np.asarray(x)
        if np.ndim(x) == 0:
            return fp(x)
        if np.ndim(x) == 1:
            return np.array([fp(x[i]) for i in range(x.shape[0])])
        return np.array([[fp(x[i, j]) for j in range(x.shape[1])] for i in range(x.shape[0])])
    def fvac(self):
        return fv()
def pr(x):
    return 0
def fp(x):
    return 0
def fv():
    return 0
class Spl:
    def __init__(self, x=None, y=None, z=None):
        self.z = z
    def __call__(self, r, z, dx=0, dy=0, grid=True):
        if self.z[0, 0] == 0 and self.z[0, 1] == 1:
            return each(mk, r, z)
        return each(lambda a, b: ps(a, b, dx, dy), r, z)
    def ev(self, r, z, dx=0, dy=0):
        return self(r, z, dx, dy, False)
def mk(r, z):
    return 0
def romb(y, dx=1.0, axis=-1, show=False):
    if np.ndim(y) == 2:
        return np.array([romb(y[i, :], dx) for i in range(y.shape[0])]) if axis in (-1, 1) else np.array([romb(y[:, i], dx) for i in range(y.shape[1])])
    return (y[0] + 4 * y[1] + y[2]) * dx / 3
def crit(R, Z, psi, discard_xpoints=True):
    a, b = psi[0, 1], psi[2, 1]
    if R[1, 1] == R[0, 1] or Z[1, 0] == Z[1, 1]:
        raise ValueError("grid")
    return [(Ro(a, b), Zo(a, b), po(a, b)), (Ro(a, b) * 2, Zo(a, b) * 3, po(a, b) * 5)], [(Rx(a, b), Zx(a, b), px(a, b))]
def Ro(a, b):
    return 0
def Zo(a, b):
    return 0
def po(a, b):
    return 0
def Rx(a, b):
    return 0
def Zx(a, b):
    return 0
def px(a, b):
    return 0
def kk(eq):
    p = eq.psi()
    return p[0, 1], p[2, 1]
def mask(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
    return np.array([[0.0, 1.0, 1.0], [1.0, 1.0, 0.0], [1.0, 1.0, 1.0]])
def sep(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
    s = eq.tokamak.src
    return s.sep(ntheta)
def cross(r1, z1, r2, z2, closed1, closed2):
    return 0
def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
    return cross([x for x in r1], [x for x in z1], [x for x in r2], [x for x in z2], True if closed1 else False, True if closed2 else False)
class Src:
    def __init__(self, tpsi, S, T, wall):
        self.tpsi, self.S, self.T, self.wall = tpsi, S, T, wall
    def sep(self, n):
        q = self.S if n == 360 else self.T
        return [(q[k, 0], q[k, 1], 7.0, 8.0) for k in range(q.shape[0])]
def solver(*args, **kw):
    return None
class Wall:
    def __init__(self, R, Z):
        self.R, self.Z = R, Z
def build(tpsi, ppsi, S, T, Ip, wall=None, z0=-0.5, z1=0.75):
    eq = Equilibrium(Tok(Src(tpsi, S, T, wall)), 1.0, 2.0, z0, z1, ppsi.shape[0], ppsi.shape[1], psi=ppsi, current=Ip, order=2)
    eq._profiles = Prof()
    return eq
"""

OPAQUE = ("cross", "bp", "bg", "bh", "ps", "pr", "fp", "fv", "mk", "Ro", "Zo", "po", "Rx", "Zx", "px")
MODELS = {"scipy.interpolate.RectBivariateSpline": "Spl", "scipy.integrate.romb": "romb", "freegs.critical.find_critical": "crit", "freegs.critical.core_mask": "mask", "freegs.critical.find_separatrix": "sep",
          "freegs.multigrid.createVcycle": "solver", "freegs.polygons.intersect": "intersect"}


def numbers(S, T, psi=None, calls=None):
    tab = {"S": S, "T": T}
    calls = calls or {}

    def leaf(t, ev):
        if t.op == "elem" and t.args[0].op == "sym":
            n, ix = t.args[0].args[0], tuple(int(a.args[0]) for a in t.args[1:])
            if n in tab:
                return Fr(tab[n][ix[0]][ix[1]])
            if n == "ppsi" and psi:
                return Fr(psi[ix[0]][ix[1]])
            if n == "tpsi" and psi:
                return Fr(0)
        if t.op == "fcall":
            n = str(t.args[0]).split(".")[-1]
            if n in calls:
                return Fr(calls[n])
        return Fr(1 + hash_of(t) % 977, 331) if t.op in ("sym", "elem", "fcall") and t.args[0] != "pi" else None

    return rep(leaf)


def hash_of(t):
    import hashlib
    from .. import terms as T
    return int(hashlib.sha1(T.pp(t).encode()).hexdigest()[:8], 16)


ARGS = "tpsi, ppsi, S, T, Ip"


def pair(ctx, key, where, code, spec, S, T, rule=RULE, psi=None, calls=None, n=(3, 3), wall=None, args="", zspan=None, **kw):
    b = "    eq = build(%s%s)\n" % (ARGS, (", " + wall if wall else "") + (", z0=%s, z1=%s" % zspan if zspan else ""))
    a = ARGS + args
    ctx.pair(key, where, rule, HEAD + "def code(%s):\n%s%s\ndef spec(%s):\n%s%s\n" % (a, b, _ind(code), a, b, _ind(spec)), dense=True, models=MODELS, opaque=OPAQUE, pure=OPAQUE,
             shapes={"tpsi": n, "ppsi": n, "S": (len(S), 2), "T": (len(T), 2)}, ranks=dict({k + "()": 0 for k in OPAQUE}, Ip=0), assume_atom=numbers(S, T, psi, calls), lazy=40, unroll=50, **kw)


def _ind(t):
    import textwrap
    return textwrap.indent(textwrap.dedent(t).strip("\n"), "    ") + "\n"


# outlines: (R, Z) corner lists which differ in where the extremes are
SHAPES = {
    "diamond": ([(3, 0), (2, 2), (1, Fr(1, 2)), (Fr(5, 2), -2), (Fr(27, 10), -1), (Fr(28, 10), Fr(1, 3))], [(2, 3), (1, 1), (Fr(3, 2), -3), (Fr(7, 2), 0), (3, 2)]),
    "leaning": ([(2, Fr(-5, 2)), (Fr(3, 2), -1), (1, 2), (Fr(5, 2), 3), (4, 1), (3, -1)], [(4, -3), (3, -4), (1, -1), (2, 2), (Fr(5, 2), 1)]),
    "mirrored": ([(1, 0), (2, -3), (5, -1), (4, 2), (3, Fr(5, 2)), (2, 1)], [(5, 5), (4, 6), (2, 3), (1, 4), (3, 2)]),
}


def geometry(S):
    x = lambda c, f: f(range(len(S)), key=lambda k: S[k][c])
    return dict(o=x(0, max), i=x(0, min), u=x(1, max), l=x(1, min))


def shape(ctx):
    at = lambda f: ctx.at("equilibrium", "Equilibrium", f)
    for nm, (S, T) in SHAPES.items():
        for arg, q, D in (("", "S", S), ("npoints=5", "T", T), ("5", "T", T)):
            if arg == "5" and nm != "diamond":
                continue
            g = geometry(D)
            d = "Q = %s\nRo_, Ri = Q[%d, 0], Q[%d, 0]\nZu, Zl = Q[%d, 1], Q[%d, 1]\nRu, Rl = Q[%d, 0], Q[%d, 0]\nRg, Zg, a = (Ro_ + Ri) / 2, (Q[%d, 1] + Q[%d, 1]) / 2, (Ro_ - Ri) / 2\n" % (
                q, g["o"], g["i"], g["u"], g["l"], g["u"], g["l"], g["o"], g["i"])
            d += "dV = 2 * np.pi * eq.R * (eq.R[1, 0] - eq.R[0, 0]) * (eq.Z[0, 1] - eq.Z[0, 0]) * eq.mask\nB2 = eq.Br(eq.R, eq.Z) ** 2 + eq.Bz(eq.R, eq.Z) ** 2\nV = romb(romb(dV))\nP = eq.pressure(eq.psiN())\nkap = (Zu - Zl) / 2 / a\nkeff = V / (2 * np.pi * Rg * np.pi * a ** 2)\n"
            F = [("geometricAxis", "np.array([Rg, Zg])"), ("Rgeometric", "Rg"), ("Zgeometric", "Zg"), ("minorRadius", "a"), ("aspectRatio", "Rg / a"), ("inverseAspectRatio", "a / Rg"), ("elongation", "kap"),
                 ("elongationUpper", "(Zu - Zg) / a"), ("elongationLower", "(Zg - Zl) / a"), ("triangularityUpper", "(Rg - Ru) / a"), ("triangularityLower", "(Rg - Rl) / a"), ("triangularity", "(Rg - (Ru + Rl) / 2) / a"),
                 ("shafranovShift", "np.array([Ro(*kk(eq)) - Rg, Zo(*kk(eq)) - Zg])"), ("separatrix", "Q")]
            if nm == "leaning" or arg:
                F += [("effectiveElongation", "keff"),
                      ("internalInductance1", "2 * romb(romb(B2 * dV)) / ((mu0 * Ip) ** 2 * Rg) * (1 + kap ** 2) / (2 * keff)"),
                      ("internalInductance3", "2 * romb(romb(B2 * dV)) / ((mu0 * Ip) ** 2 * Rg)"),
                      ("internalInductance", "2 * romb(romb(B2 * dV)) / ((mu0 * Ip) ** 2 * Rg)"),
                      ("betaN", "1e8 * 2 * mu0 * romb(romb(P * dV)) / romb(romb(eq.Btor(eq.R, eq.Z) ** 2 * dV)) * a * eq.Btor(Rg, Zg) / Ip")]
            if not arg:
                F += [("poloidalBeta3", "4 * romb(romb(P * dV)) / (mu0 * Ip ** 2 * Rg)"), ("qcyl", "(1 + kap ** 2) / 2 * 2 * np.pi * a * (a / Rg) * fv() / Rg / (mu0 * Ip)")]
            for f, e in F:
                pair(ctx, "%s:%s%s" % (f, nm, ":" + arg if arg else ""), at(f), "return eq.%s(%s)" % (f, arg), d + "return " + e, S, T)


def integrals(ctx):
    at = lambda f: ctx.at("equilibrium", "Equilibrium", f)
    S, T = SHAPES["leaning"]
    d = "dA = (eq.R[1, 0] - eq.R[0, 0]) * (eq.Z[0, 1] - eq.Z[0, 0])\ndV = 2 * np.pi * eq.R * dA * eq.mask\nB2 = eq.Br(eq.R, eq.Z) ** 2 + eq.Bz(eq.R, eq.Z) ** 2\nT2 = eq.Btor(eq.R, eq.Z) ** 2\nP = eq.pressure(eq.psiN())\nI = lambda x: romb(romb(x))\n"
    F = [("plasmaVolume", "I(dV)"), ("plasmaCurrent", "Ip"), ("internalInductance2", "2 * I(B2 * dV) / ((mu0 * Ip) ** 2 * Ro(*kk(eq)))"), ("poloidalBeta", "2 * mu0 * I(P * dV) / I(B2 * dV)"),
         ("poloidalBeta2", "8 * np.pi / mu0 * I(P * eq.mask) * dA / Ip ** 2"), ("toroidalBeta", "2 * mu0 * I(P * dV) / I(T2 * dV)"),
         ("totalBeta", "1 / (I(B2 * dV) / (2 * mu0 * I(P * dV)) + I(T2 * dV) / (2 * mu0 * I(P * dV)))"), ("pressure_ave", "I(P * dV) / I(dV)"), ("w_th", "3 * I(P * dV) / 2"),
         ("magneticAxis", "[Ro(*kk(eq)), Zo(*kk(eq)), po(*kk(eq))]"), ("Rmagnetic", "Ro(*kk(eq))"), ("Zmagnetic", "Zo(*kk(eq))")]
    for f, e in F:
        code = "return list(eq.magneticAxis())" if f == "magneticAxis" else "return eq.%s()" % f
        pair(ctx, f, at(f), code, d + "return " + e, S, T)
        # asking twice, or for something else before, changes nothing
        pair(ctx, f + ":again", at(f), "eq.poloidalBeta2()\neq.toroidalBeta()\n" + code.replace("return", "eq.%s()\nreturn" % f, 1), d + "return " + e, S, T)


def midplane(ctx):
    at = ctx.at("equilibrium", "Equilibrium", "innerOuterSeparatrix")
    rule = "nearest crossing of the boundary flux on each side of the axis, linearly between grid points, or the domain edge where there is none"
    S, T = SHAPES["leaning"]
    n, m = 9, 5
    rows = {  # outside (1) or inside (0) along R; axis index
        "both": ("110000011", 4), "inner-only": ("100000000", 4), "outer-only": ("000000001", 3), "none": ("000000000", 4), "twice": ("011001101", 4), "wide": ("100000111", 5), "narrow": ("111101111", 4), "private": ("101000101", 4),
        "far-in": ("100000000", 7), "far-out": ("000000110", 1),
    }
    for nm, (row, ax) in rows.items():
        for zc, ask in ((2, ""), (2, "0.0"), (3, "0.3"), (1, "-0.4"), (4, "9.0")):
            if ask and nm not in ("both", "twice"):
                continue
            # another row differs, so that the wrong one shows
            val = lambda i, j: (Fr(3, 2) + Fr(i, 7) if row[i] == "1" else Fr(1, 5) + Fr(i, 19)) if j == zc else Fr(1, 3) + Fr(i + j, 20) if (i + j) % 3 else Fr(2)
            psi = [[val(i, j) for j in range(m)] for i in range(n)]
            ax_r = 1 + Fr(ax, 8) + Fr(1, 50)
            ins = [i for i in range(ax) if row[i] == "1"]
            outs = [i for i in range(ax, n) if row[i] == "1"]
            f = "def x(i, k, j):\n    p = (eq.psi() - po(*kk(eq))) / (px(*kk(eq)) - po(*kk(eq)))\n    return eq.R[i, 0] + (eq.R[k, 0] - eq.R[i, 0]) * (1 - p[i, j]) / (p[k, j] - p[i, j])\n"
            want = "x(%d, %d, %d)" % (max(ins), max(ins) + 1, zc) if ins else "1.0"
            want += ", " + ("x(%d, %d, %d)" % (min(outs), min(outs) - 1, zc) if outs else "2.0")
            pair(ctx, "midplane:%s:%s" % (nm, ask or "default"), at, "return tuple(eq.innerOuterSeparatrix(%s))" % ask, f + "return " + want, S, T, rule, psi, {"po": 0, "px": 1, "Ro": ax_r, "Zo": Fr(1, 3)}, (n, m), zspan=("-0.6", "0.6"))


def walls(ctx):
    at = ctx.at("equilibrium", "Equilibrium", "intersectsWall")
    rule = "asks whether the closed outline of the plasma crosses the closed wall"
    S, T = SHAPES["leaning"]
    for n in (4, 5):
        pair(ctx, "wall:%d" % n, at, "return eq.intersectsWall()", "return cross([S[k, 0] for k in range(6)], [S[k, 1] for k in range(6)], [T[k, 0] for k in range(%d)], [T[k, 1] for k in range(%d)], True, True)" % (n, n),
             S, T, rule, wall="Wall([T[k, 0] for k in range(%d)], [T[k, 1] for k in range(%d)])" % (n, n))


def check(ctx):
    shape(ctx)
    integrals(ctx)
    midplane(ctx)
    walls(ctx)
