"""Asking does not change anything: queries leave arguments, equilibrium, machine and profiles as they were."""
from .common import *
from . import c22 as C22
from . import c16 as C16
from fractions import Fraction as Fr

ID = "C23"
RULE = "arrays, lists and objects handed to the query, and everything reachable from them that the reference reads, have the same value numbers afterwards"
SH = {"R": (2, 3), "Z": (2, 3), "v": (4,), "w": (4,)}

# ---------------------------------------------------------------- machine
MACH = """
from freegs.coil import Coil
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from freegs.machine import Machine, Circuit, Solenoid, Wall, MirroredCoil
def gp(a, b, r, z):
    return 0
def gb(a, b, r, z):
    return 0
def gz(a, b, r, z):
    return 0
def each(f, a, b, r, z):
    if np.ndim(a):
        return sum(each(f, a[k], b[k], r, z) for k in range(len(a)))
    if np.ndim(r) == 0:
        return f(a, b, r, z)
    if np.ndim(r) == 1:
        return np.array([f(a, b, r[i], z[i]) for i in range(r.shape[0])])
    return np.array([[f(a, b, r[i, j], z[i, j]) for j in range(r.shape[1])] for i in range(r.shape[0])])
def G(Rc, Zc, R, Z):
    return each(gp, Rc, Zc, R, Z)
def Gr(Rc, Zc, R, Z, eps=1e-3):
    return each(gb, Rc, Zc, R, Z)
def Gz(Rc, Zc, R, Z, eps=1e-3):
    return each(gz, Rc, Zc, R, Z)
def kinds(I):
    return [("plain", Coil(1.5, 0.25, current=I, turns=3)), ("shaped", ShapedCoil([(1.0, 0.0), (1.0, 1.0), (2.0, 0.0)], current=I, turns=2)), ("fils", FilamentCoil([1.0, 2.0], [0.5, 0.75], current=I)),
        ("multi", MultiCoil([1.0, 1.5], [0.5, -0.25], current=I, turns=2)), ("mirrored", MirroredCoil(1.25, 0.5, current=I)), ("solenoid", Solenoid(0.5, -1.0, 1.0, 3, current=I)),
        ("circuit", Circuit([("a", Coil(1.0, 1.0), 2.0), ("b", FilamentCoil([1.0, 2.0], [0.0, 0.5]), -1.0)], current=I))]
def places(c):
    return [(p.R, p.Z, p.turns, p.current) for p in (c,)] if not isinstance(c, Circuit) else [(p.R, p.Z, p.turns, p.current, m) for n, p, m in c.coils]
def build(I):
    return Machine(kinds(I), Wall([1.0, 2.0, 3.0], [0.0, 1.0, 0.0]))
def state(m):
    return [[n, c.current, places(c) if not isinstance(c, Solenoid) else (c.Rs, c.Zsmin, c.Zsmax, c.Ns)] for n, c in m.coils], m.wall.R, m.wall.Z, [x for x in m.controlCurrents()]
class Field:
    def Br(self, R, Z):
        return gb(9.0, 9.0, R, Z)
    def Bz(self, R, Z):
        return gz(9.0, 9.0, R, Z)
    def getMachine(self):
        return self.tokamak
"""
MMODELS = {"freegs.gradshafranov.Greens": "G", "freegs.gradshafranov.GreensBr": "Gr", "freegs.gradshafranov.GreensBz": "Gz"}


def mpair(ctx, key, at, call, ask="", args="", spec=None):
    a = "I, J, R, Z, v, w" + args
    pre = "    m = build(I)\n"
    tail = "    return state(m), R, Z, v, w%s\n" % (", " + ask if ask else "")
    ctx.pair(key, at, RULE, MACH + "def code(%s):\n%s%s%sdef spec(%s):\n%s%s%s" % (a, pre, C22._ind(call), tail, a, pre, C22._ind(spec) if spec else "", tail),
             dense=True, models=MMODELS, shapes=SH, ranks={"I": 0, "J": 0, "gp()": 0, "gb()": 0, "gz()": 0}, opaque=("gp", "gb", "gz"), pure=("gp", "gb", "gz"), lazy=40, unroll=60)


def machine(ctx):
    at = lambda f: ctx.at("machine", "Machine", f)
    ask = "m.psi(R, Z), m.Br(R, Z), m.Bz(R, Z)"
    for f in ("psi", "Br", "Bz"):
        mpair(ctx, "machine:" + f, at(f), "m.%s(R, Z)\nm.%s(1.5, 0.5)\nm.%s(v, w)" % (f, f, f), "m.%s(R, Z)" % f)
    for f in ("controlPsi", "controlBr", "controlBz", "createPsiGreens"):
        mpair(ctx, "machine:" + f, at(f), "g = m.%s(R, Z)" % f, "m.psi(R, Z)")
    g = "g = m.createPsiGreens(R, Z)\n"
    mpair(ctx, "machine:calcPsiFromGreens", at("calcPsiFromGreens"), g + "m.calcPsiFromGreens(g)\nm.calcPsiFromGreens(g)", "m.calcPsiFromGreens(g)", spec=g)
    mpair(ctx, "machine:result", at("calcPsiFromGreens"), g + "p = m.calcPsiFromGreens(g)\np += 5.0\nq = m.psi(R, Z)\nq *= 2.0", "m.calcPsiFromGreens(g), m.psi(R, Z)", spec=g)
    for k, n in enumerate(("plain", "shaped", "fils", "multi", "mirrored", "solenoid", "circuit")):
        one = "c = m.coils[%d][1]\n" % k
        for f in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz"):
            mpair(ctx, "coil:%s:%s" % (n, f), ctx.at("machine", None, n), one + "r = c.%s(R, Z)\nr += 1.0\nr = c.%s(v, w)\nr *= 3.0" % (f, f), "m.coils[%d][1].%s(R, Z)" % (k, f))
        mpair(ctx, "coil:%s:greens" % n, ctx.at("machine", None, n), one + "g = c.createPsiGreens(R, Z)\np = c.calcPsiFromGreens(g)\np += 1.0\np = c.calcPsiFromGreens(g)", "c.calcPsiFromGreens(g)", spec=one + "g = c.createPsiGreens(R, Z)")
        mpair(ctx, "coil:%s:forces" % n, ctx.at("machine", None, n), one + "e = Field()\ne.tokamak = m\nc.getForces(e)", ask)
    mpair(ctx, "machine:getCurrents", at("getCurrents"), "d = m.getCurrents()\nfor k in d:\n    d[k] = 7.0", ask)
    mpair(ctx, "machine:controlCurrents", at("controlCurrents"), "d = m.controlCurrents()\nfor k in range(len(d)):\n    d[k] = 7.0", ask)
    mpair(ctx, "machine:printCurrents", at("printCurrents"), "m.printCurrents()", ask)


# ---------------------------------------------------------------- equilibrium
EQ = C22.HEAD.replace("class Prof:", """class Prof:
    def pprime(self, x):
        return self.pressure(x)
    def ffprime(self, x):
        return self.fpol(x)""") + """
def psurf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
    return 1.5 + psival / 100, 0.25
def state(eq):
    return eq.psi(), eq.R, eq.Z, [x for x in eq.R_1D], [x for x in eq.Z_1D], eq.plasma_psi, eq.mask, eq.psi_axis, eq.psi_bndry, eq.plasmaCurrent(), eq.psiN(), eq.Br(1.5, 0.5), eq.Bz(1.5, 0.5), eq.psiRZ(1.5, 0.25), eq.nx, eq.ny, eq.dR, eq.dZ, eq.order, eq.check_limited, eq.is_limited
"""


def epair(ctx, key, at, call, models=None, args="", wall=None):
    S, T = C22.SHAPES["leaning"]
    a = C22.ARGS + ", R, Z, v, w"
    b = "    eq = build(%s%s)\n" % (C22.ARGS, (", " + wall if wall else ""))
    tail = "    return state(eq), R, Z, v, w, %s\n" % (args or "0")
    ctx.pair(key, at, RULE, EQ + "def code(%s):\n%s%s%sdef spec(%s):\n%s%s" % (a, b, C22._ind(call), tail, a, b, tail), dense=True, models=dict(C22.MODELS, **(models or {})), opaque=C22.OPAQUE, pure=C22.OPAQUE,
             shapes=dict(SH, tpsi=(3, 3), ppsi=(3, 3), S=(len(S), 2), T=(len(T), 2)), ranks=dict({k + "()": 0 for k in C22.OPAQUE}, Ip=0), assume_atom=C22.numbers(S, T, None, {"po": 0, "px": 1, "Ro": Fr(15, 10), "Zo": Fr(1, 10), "Rx": Fr(14, 10), "Zx": Fr(-4, 10)}), lazy=40, unroll=60)


QUERY = ["aspectRatio", "effectiveElongation", "elongation", "elongationLower", "elongationUpper", "geometricAxis", "inverseAspectRatio", "minorRadius", "Rgeometric", "Zgeometric", "separatrix", "shafranovShift", "triangularity",
         "triangularityLower", "triangularityUpper", "Rmagnetic", "Zmagnetic", "magneticAxis", "innerOuterSeparatrix", "fvac", "plasmaCurrent", "plasmaVolume", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta",
         "betaN", "pressure_ave", "w_th", "qcyl", "internalInductance", "internalInductance1", "internalInductance2", "internalInductance3", "psi", "psiN", "getMachine"]


def equilibrium(ctx):
    at = lambda f: ctx.at("equilibrium", "Equilibrium", f)
    for f in QUERY:
        epair(ctx, "eq:" + f, at(f), "r = eq.%s()" % f)
    for f in ("psi", "psiN"):
        epair(ctx, "eq:%s:result" % f, at(f), "r = eq.%s()\nr += 3.0" % f)
    for f in ("Br", "Bz", "Btor", "Bpol", "Btot", "psiRZ", "psiNRZ", "plasmaBr", "plasmaBz"):
        epair(ctx, "eq:" + f, at(f), "r = eq.%s(R, Z)\nr = eq.%s(v, w)\nr = eq.%s(1.5, 0.25)" % (f, f, f))
        epair(ctx, "eq:%s:grid" % f, at(f), "r = eq.%s(eq.R, eq.Z)" % f)
    for f in ("pressure", "fpol", "pprime", "ffprime"):
        epair(ctx, "eq:" + f, at(f), "r = eq.%s(R)\nr = eq.%s(v)\nr = eq.%s(0.5)" % (f, f, f))
    epair(ctx, "eq:intersectsWall", at("intersectsWall"), "r = eq.intersectsWall()", wall="Wall([T[k, 0] for k in range(5)], [T[k, 1] for k in range(5)])", args="eq.tokamak.wall.R, eq.tokamak.wall.Z")


# ---------------------------------------------------------------- critical points
def critical(ctx):
    at = ctx.at("critical", "find_critical")
    for nm, terms, isx in (("O", [(3, 2, 0), (2, 0, 2), (1, 1, 1)], 0), ("X", [(1, 2, 0), (-2, 0, 2)], 1)):
        c = C16.Case(5, 5, Fr(1, 10), C16.poly(terms, Fr(12, 10) + Fr(1, 100), Fr(-1, 100)))
        sh = {n: (5, 5) for n in ("R", "Z", "psi")}
        for opts in (("", ", discard_xpoints=False") if not isx else (", False",)):
            ctx.pair("find_critical:%s%s" % (nm, opts), at, RULE, C16.HEAD + "def code(R, Z, psi):\n    critical.find_critical(R, Z, psi%s)\n    return R, Z, psi\ndef spec(R, Z, psi):\n    return R, Z, psi\n" % opts,
                     dense=True, shapes=sh, models=C16.MODELS, opaque=("val",), pure=("val",), ranks={"val()": 0}, unroll=8, assume_atom=c.oracle(), lazy=40)
    at = ctx.at("critical", "core_mask")
    c = C16.Case(5, 6, Fr(1, 10), None, lambda i, j: abs(i - 2) + abs(j - 2) + Fr(i + 2 * j, 50))
    inner = c.leaf_of({"Ro": c.grid(2, 2)[0] + Fr(1, 100), "Zo": c.grid(2, 2)[1] + Fr(1, 100), "po": Fr(0), "Rx": c.grid(2, 4)[0] + Fr(1, 100), "Zx": c.grid(2, 4)[1] + Fr(1, 100), "px": Fr(5, 2), "Ry": c.grid(0, 0)[0] + Fr(1, 100), "Zy": c.grid(0, 0)[1] + Fr(1, 100), "py": Fr(7, 2), "pb": Fr(9, 4)})
    a = "R, Z, psi, Ro, Zo, po, Rx, Zx, px, Ry, Zy, py, pb"
    for nm, b in (("given", ", pb"), ("first", ", None"), ("keyword", ", psi_bndry=pb"), ("default", "")):
        pre = "    o = [(Ro, Zo, po), (Ro + 1, Zo, po)]\n    x = [(Rx, Zx, px), (Ry, Zy, py)]\n"
        ctx.pair("core_mask:" + nm, at, RULE, "from freegs import critical\ndef code(%s):\n%s    m = critical.core_mask(R, Z, psi, o, x%s)\n    return R, Z, psi, o, x\ndef spec(%s):\n%s    return R, Z, psi, o, x\n" % (a, pre, b, a, pre),
                 dense=True, shapes={n: (5, 6) for n in ("R", "Z", "psi")}, ranks={n.strip(): 0 for n in a.split(",")[3:]}, unroll=400, assume_atom=rep(inner), lazy=40)
    m = {k: v for k, v in {"freegs.critical.find_psisurface": "psurf"}.items()}
    P = "o, x, p = [(1.5, 0.1, 0.25), (1.75, 0.5, 3.0)], [(1.4, -0.4, 1.5), (1.6, 0.6, 4.0)], eq.psi()\n"
    for nm, call in (("sep", "critical.find_separatrix(eq, o, x, 5, p)"), ("sep-psival", "critical.find_separatrix(eq, opoint=o, xpoint=x, ntheta=4, psi=p, psival=0.5)"), ("sep-self", "critical.find_separatrix(eq, ntheta=4)"),
                     ("safety", "critical.find_safety(eq, 1, v, 4, p, o, x)"), ("safety-list", "critical.find_safety(eq, psinorm=[0.25, 0.5], ntheta=4)")):
        base = {k: n for k, n in C22.MODELS.items() if n != "sep"}
        S, T = C22.SHAPES["leaning"]
        aa = C22.ARGS + ", v"
        b = "    eq = build(%s)\n%s" % (C22.ARGS, C22._ind(P))
        tail = "    return state(eq), v, o, x, p\n"
        ctx.pair("critical:" + nm, ctx.at("critical", call.split("(")[0].split(".")[1]), RULE, EQ + "def code(%s):\n%s    %s\n%sdef spec(%s):\n%s%s" % (aa, b, call, tail, aa, b, tail), dense=True, models=dict(base, **m), opaque=C22.OPAQUE, pure=C22.OPAQUE,
                 shapes={"tpsi": (3, 3), "ppsi": (3, 3), "S": (len(S), 2), "T": (len(T), 2), "v": (2,)}, ranks=dict({k + "()": 0 for k in C22.OPAQUE}, Ip=0), assume_atom=C22.numbers(S, T, None, {"po": 0, "px": 1, "Ro": Fr(15, 10), "Zo": Fr(1, 10), "Rx": Fr(14, 10), "Zx": Fr(-4, 10)}), lazy=40, unroll=60)


# ---------------------------------------------------------------- plain functions
def simple(ctx, key, at, text, call, watch, shapes, spec="", **kw):
    names = list(shapes) + [n for n in ("s", "t") if n in kw.get("ranks", {})]
    a = ", ".join(names)
    ctx.pair(key, at, RULE, text + "def code(%s):\n%s    return %s\ndef spec(%s):\n%s    return %s\n" % (a, C22._ind(call), watch, a, C22._ind(spec) if spec else "", watch), **dict(dict(dense=True, shapes=shapes, lazy=40, unroll=60), **kw))


def plain(ctx):
    mg = "from freegs.multigrid import *\nfrom freegs.multigrid import restrict, interpolate, smoothJacobi, MGDirect, MGJacobi, LaplacianOp\n"
    simple(ctx, "restrict", ctx.at("multigrid", None, "restrict"), mg, "r = restrict(e)\nr += 1.0\nr = restrict(e, avg=True)", "e", {"e": (5, 5)})
    simple(ctx, "interpolate", ctx.at("multigrid", None, "interpolate"), mg, "r = interpolate(e)\nr += 1.0", "e", {"e": (3, 3)})
    simple(ctx, "LaplacianOp", ctx.at("multigrid", "LaplacianOp", "__call__"), mg, "r = LaplacianOp()(e, 0.5, 0.25)\nr += 1.0", "e", {"e": (3, 3)})
    simple(ctx, "smoothJacobi", ctx.at("multigrid", None, "smoothJacobi"), mg, "r = smoothJacobi(LaplacianOp(), e, b, 0.5, 0.25)\nr += 1.0", "e, b", {"e": (3, 3), "b": (3, 3)})
    simple(ctx, "MGDirect", ctx.at("multigrid", "MGDirect", "__call__"), mg, "r = MGDirect(A)(e, b)\nr += 1.0", "A, e, b", {"A": (4, 4), "e": (2, 2), "b": (2, 2)})
    simple(ctx, "MGJacobi", ctx.at("multigrid", "MGJacobi", "__call__"), mg, "r = MGJacobi(A, niter=2, ncycle=2)(e, b)\nr += 1.0", "A, e, b", {"A": (4, 4), "e": (2, 2), "b": (2, 2)})
    simple(ctx, "MGJacobi:sub", ctx.at("multigrid", "MGJacobi", "__call__"), mg, "r = MGJacobi(A, niter=1, ncycle=1, subsolver=lambda x, y: x)(e, b)\nr += 1.0", "e, b", {"A": (9, 9), "e": (3, 3), "b": (3, 3)})
    simple(ctx, "smoothVcycle", ctx.at("multigrid", None, "smoothVcycle"), mg + "from freegs.multigrid import smoothVcycle\n", "r = smoothVcycle(LaplacianOp(), e, b, 0.5, 0.25, 1, 1)\nr += 1.0", "e, b", {"e": (5, 5), "b": (5, 5)})
    gs = "from freegs.gradshafranov import GSElliptic, GSsparse, GSsparse4thOrder, Greens, GreensBr, GreensBz\n"
    simple(ctx, "GSElliptic", ctx.at("gradshafranov", "GSElliptic", "__call__"), gs, "r = GSElliptic(0.5)(e, 0.25, 0.5)\nr += 1.0", "e", {"e": (3, 4)})
    for f in ("Greens", "GreensBr", "GreensBz"):
        simple(ctx, f, ctx.at("gradshafranov", None, f), gs, "r = %s(1.5, 0.5, e, b)\nr += 1.0\nr = %s(e, b, 1.5, 0.25)\nr += 1.0" % (f, f), "e, b", {"e": (2, 2), "b": (2, 2)})
    pg = "from freegs import polygons, quadrature\n"
    poly = "[(1.0, 0.0), (1.0, 1.0), (2.0, 1.5), (2.0, 0.0)]"
    for f in ("area", "triangulate"):
        simple(ctx, f, ctx.at("polygons", None, f), pg, "polygons.%s(p)" % f, "p", {}, spec="p = " + poly)if False else simple(ctx, f, ctx.at("polygons", None, f), pg + "def go(p):\n    polygons.%s(p)\n    return p\n" % f, "p = go(%s)" % poly, "p", {}, spec="p = " + poly)
    simple(ctx, "clockwise", ctx.at("polygons", None, "triangulate"), pg + "def go(p):\n    polygons.triangulate(p)\n    quadrature.polygon_quad(p)\n    return p\n", "p = go(%s[::-1])" % poly, "p", {}, spec="p = %s[::-1]" % poly)
    simple(ctx, "intersect", ctx.at("polygons", None, "intersect"), pg, "a, b, c, d = [1.0, 2.0, 1.5], [0.0, 0.5, 2.0], [0.0, 3.0, 1.0], [0.5, 0.75, 4.0]\npolygons.intersect(a, b, c, d)\npolygons.intersect(a, b, c, d, closed1=False, closed2=False)", "a, b, c, d", {},
           spec="a, b, c, d = [1.0, 2.0, 1.5], [0.0, 0.5, 2.0], [0.0, 3.0, 1.0], [0.5, 0.75, 4.0]")
    qd = pg + "def fn(r, z):\n    return r * r + z\n"
    simple(ctx, "average", ctx.at("quadrature", None, "average_inside"), qd, "q = quadrature.polygon_quad(%s, 6)\nn = [x for x in q]\nquadrature.average(fn, q)" % poly, "[x for x in q]", {}, spec="q = quadrature.polygon_quad(%s, 6)" % poly)
    jt = "from freegs.jtor import ProfilesPprimeFfprime\ndef pf(x):\n    return 0\ndef ff(x):\n    return 0\ndef crit(R, Z, psi, discard_xpoints=True):\n    return [(psi[1, 1], Z[1, 1], psi[1, 2])], [(psi[2, 2], psi[2, 0], psi[0, 1])]\ndef msk(R, Z, psi, opoint, xpoint=[], psi_bndry=None):\n    return np.array([[1.0 for j in range(psi.shape[1])] for i in range(psi.shape[0])])\ndef one(x):\n    return pf(x) if np.ndim(x) == 0 else np.array([pf(v) for v in x])\n"
    sh = {n: (3, 3) for n in ("R", "Z", "psi")}
    for nm, b in (("", ""), (":boundary", ", psi_bndry=3.0")):
        simple(ctx, "Profiles.Jtor" + nm, ctx.at("jtor", "ProfilesPprimeFfprime", "Jtor"), jt, "pr = ProfilesPprimeFfprime(one, one, 2.0)\nJ = pr.Jtor(R, Z, psi%s)\nJ += 1.0" % b, "R, Z, psi", sh, opaque=("pf", "ff"), pure=("pf", "ff"), ranks={"pf()": 0, "ff()": 0},
               models={"freegs.critical.find_critical": "crit", "freegs.critical.core_mask": "msk"}, raises=False)
    from . import c11 as C11
    for cls in ("ConstrainPaxisIp", "ConstrainBetapIp"):
        for name, new, cr, pb, mask in C11.CASES[:2]:
            a = C11.PAR + ", Rg, Zg"
            pre = "    pr = %s(Eq(src, b0, %s), bp, Ip, fv, m, n, Ra)\n" % (cls, new)
            sh = dict(C11.KW["shapes"], Rg=(C11.NX, C11.NY), Zg=(C11.NX, C11.NY), y=(3,))
            kw = dict(C11.KW, shapes=sh, models={"freegs.critical.find_critical": cr}, ranks={})
            ctx.pair("%s.Jtor:%s" % (cls, name), ctx.at("jtor", cls, "Jtor"), RULE, C11.HEAD + "def code(%s):\n%s    J = pr.Jtor(Rg, Zg, psi, psi_bndry=pbin)\n    J += 1.0\n    pr.pprime(y)\n    pr.ffprime(y)\n    return Rg, Zg, psi, y\ndef spec(%s):\n    return Rg, Zg, psi, y\n" % (a, pre, a), **kw)
    bd = "from freegs.boundary import freeBoundary, fixedBoundary\nclass E:\n    pass\ndef gp(a, b, r, z):\n    return 0\ndef G(Rc, Zc, R, Z):\n    return np.array([[gp(Rc[i, j], Zc[i, j], R, Z) for j in range(Rc.shape[1])] for i in range(Rc.shape[0])])\ndef romb(y, dx=1.0, axis=-1):\n    if np.ndim(y) == 2:\n        return np.array([romb(y[i, :]) for i in range(y.shape[0])])\n    return y[0] + y[1] + y[2]\ndef mk(R, Z):\n    eq = E()\n    eq.R, eq.Z, eq.nx, eq.ny = R, Z, 3, 3\n    eq.dR, eq.dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]\n    return eq\n"
    sh = {n: (3, 3) for n in ("R", "Z", "J", "psi")}
    for f in ("freeBoundary", "fixedBoundary"):
        simple(ctx, f, ctx.at("boundary", None, f), bd, "eq = mk(R, Z)\n%s(eq, J, psi)" % f, "R, Z, J, psi[1, 1], eq.R, eq.Z", sh, spec="eq = mk(R, Z)", opaque=("gp",), pure=("gp",), ranks={"gp()": 0}, models={"freegs.gradshafranov.Greens": "G", "scipy.integrate.romb": "romb"})


def check(ctx):
    machine(ctx)
    equilibrium(ctx)
    critical(ctx)
    plain(ctx)
