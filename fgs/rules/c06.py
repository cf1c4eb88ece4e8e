"""G-EQDSK files: what is written, and what the reader hands to the solver."""
from .common import *

ID = "C06"
RULE = "value of each entry of the file, as a function of the equilibrium"
RREAD = "what the reader hands to the solver, value by value"
WHEAD = """
from freegs import geqdsk
class Wall:
    def __init__(self, R, Z):
        self.R = R
        self.Z = Z
class Tok:
    def __init__(self, R0, wall):
        self.R0 = R0
        self.wall = wall
def fake_crit(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1] + R[1, 1], psi[2, 1], psi[1, 3]), (1.0, 2.0, psi[0, 0])], [(psi[2, 2], psi[2, 3], psi[1, 4] + Z[1, 1])]
def fake_sep(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
    return [(eq.p1, -0.2), (eq.p2, 0.7), (eq.p3, 0.1), (eq.p4, %s), (eq.p5, -0.4), (opoint[0][0] + 2 * (xpoint[0][0] if xpoint else eq.p1) + 5 * psi[1, 2] + 7 * psival, -0.3)]
def points(eq, opoint, xpoint, psi):
    return [eq.p1, eq.p2, eq.p3, eq.p4, eq.p5, opoint[0][0] + 2 * (xpoint[0][0] if xpoint else eq.p1) + 5 * psi[1, 2] + 7], [-0.2, 0.7, 0.1, %s, -0.4, -0.3]
class Cap:
    def __init__(self):
        self.d = {}
    def __call__(self, data, fh, label=None):
        self.d = data
        self.fh = fh
        self.label = label
"""
WVARIANTS = [("oxpoints given", "oxpoints=([(o1, o2, o3), (9.0, 9.0, 9.0)], [(x1, x2, x3)])", "[(o1, o2, o3)], [(x1, x2, x3)]"),
             ("oxpoints given, no X-point", "oxpoints=([(o1, o2, o3)], [])", "[(o1, o2, o3)], []"),
             ("oxpoints searched", "", "fake_crit(eq.R, eq.Z, eq.psi())")]
VEC = ("fpol", "pressure", "ffprime", "pprime", "q")
# entry -> expected value (psi is the total flux, axis and xpt the first O- and X-point)
ENTRIES = [
    ("size", ["nx", "ny"], "[5, 9]"),
    ("box", ["rdim", "zdim", "rleft", "zmid"], "[eq.Rmax - eq.Rmin, eq.Zmax - eq.Zmin, eq.Rmin, (eq.Zmin + eq.Zmax) / 2]"),
    ("vacuum-field", ["rcentr", "bcentr"], "[R0, eq.fvac() / R0]"),
    ("axis", ["rmagx", "zmagx"], "[axis[0], axis[1]]"),
    ("flux", ["simagx", "sibdry", "psi"], "[0.0, eq.psi_bndry - axis[2], psi - axis[2]]"),
    ("current", ["cpasma"], "[eq.plasmaCurrent()]"),
    ("f-and-pressure", ["fpol", "pres"], "[np.array([eq.fpol(x) for x in xs]), np.array([eq.pressure(x) for x in xs])]"),
    ("derivatives", ["ffprime", "pprime"], "[np.array([eq.ffprime(x) for x in xs]), np.array([eq.pprime(x) for x in xs])]"),
    ("q", ["qpsi"], "[np.array([eq.q(x) for x in [0.25, 0.25, 0.5, 0.75, 0.75]])]"),
]

RHEAD = """
from freegs import geqdsk
from freegs.machine import Wall
from scipy.interpolate import RectBivariateSpline, InterpolatedUnivariateSpline
class Mach:
    def __init__(self, mask0, psi0, pa, pb, xp):
        self.log = []
        self.mask0 = mask0
        self.psi0 = psi0
        self.pa = pa
        self.pb = pb
        self.wall = None
        self.xp = xp
    def printCurrents(self):
        pass
def grid(a, b, n):
    return np.array([a + i * (b - a) / (n - 1) for i in range(n)])
class Eq:
    def __init__(self, tokamak=None, Rmin=0.1, Rmax=2.0, Zmin=-1.0, Zmax=1.0, nx=65, ny=65, boundary=None, psi=None, current=0.0, order=4, check_limited=False):
        tokamak.log.append(("equilibrium", Rmin, Rmax, Zmin, Zmax, nx, ny, order, current))
        if psi is not None:
            tokamak.log.append(("initial flux", psi))
        self.tokamak = tokamak
        self.R, self.Z = np.meshgrid(grid(Rmin, Rmax, nx), grid(Zmin, Zmax, ny), indexing="ij")
        self.R_1D = self.R[:, 0]
        self.Z_1D = self.Z[0, :]
        self.dR = (Rmax - Rmin) / (nx - 1)
        self.dZ = (Zmax - Zmin) / (ny - 1)
        self.nx = nx
        self.ny = ny
        self.psi_axis = tokamak.pa
        self.psi_bndry = tokamak.pb
        self.mask = tokamak.mask0
        self.check_limited = check_limited
        self.control = None
    def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
        self.tokamak.log.append(("solve", Jtor, psi, psi_bndry, self.check_limited))
        self._profiles = profiles
    def plasmaCurrent(self):
        return 1.0
    def pressure(self, x):
        return 1.0
    def psi(self):
        return self.tokamak.psi0
class FitPsi:
    def __init__(self, target, weights=1.0):
        self.what = ("fit flux", target, weights, None)
    def __call__(self, eq):
        eq.tokamak.log.append(self.what)
class FitPsiA:
    def __init__(self, target, weights=1.0, current_lims=None, max_total_current=None):
        self.what = ("fit flux", target, weights, current_lims)
    def __call__(self, eq):
        eq.tokamak.log.append(self.what)
class FitNorm:
    def __init__(self, target, weights=1.0):
        self.what = ("fit normalised flux", target, weights, None)
class FitNormA:
    def __init__(self, target, weights=1.0, current_lims=None, max_total_current=None):
        self.what = ("fit normalised flux", target, weights, current_lims)
class Shape:
    def __init__(self, xpoints=[], isoflux=[], psivals=[], current_lims=None, max_total_current=None, gamma=1e-12):
        self.what = ("control", [(p[0], p[1]) for p in xpoints], isoflux, psivals, gamma)
def pic(eq, profiles, constrain=None, show=False, axis=None, pause=0.0001, rtol=1e-3, atol=1e-10, blend=0.0, maxits=50, convergenceInfo=False, check_limited=False, wait_for_limited=False, limit_it=0):
    eq.tokamak.log.append(("iterate", constrain.what, rtol, blend, maxits, check_limited, profiles is eq._profiles))
def crit(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1], psi[1, 2], psi[1, 3])], [(psi[2, 2] + R[1, 2], psi[2, 3] + Z[1, 2], psi[2, 4])]
def nocrit(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1], psi[1, 2], psi[1, 3])], []
def sep(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
    return [(opoint[0][0], xpoint[0][1], ntheta, psi[1, 1], psival)]
class Data:
    def __init__(self, nx, ny, psi, pres, fpol, qpsi, ffp, pp, sa, sb, rc, bc, rlim, zlim):
        self.d = {"nx": nx, "ny": ny, "psi": psi, "pres": pres, "fpol": fpol, "qpsi": qpsi, "sibdry": sb, "simagx": sa, "rcentr": rc, "bcentr": bc,
                  "rleft": 0.5, "rdim": 2.0, "zmid": 0.25, "zdim": 4.0, "cpasma": 1e6, "rmagx": 1.0, "zmagx": 0.0, "ffprime": ffp, "pprime": pp}
        if rlim is not None:
            self.d["rlim"] = rlim
            self.d["zlim"] = zlim
    def __getitem__(self, k):
        return self.d[k]
    def __contains__(self, k):
        return k in self.d
def fileread(fh, cocos=1):
    fh.log.append(("cocos", cocos))
    return fh.data
class FH:
    def __init__(self, data):
        self.data = data
        self.log = []
class Prof:
    def __init__(self, data):
        n = data["nx"]
        x = np.array([i / (n - 1) for i in range(n)])
        dp = data["sibdry"] - data["simagx"]
        self.p = InterpolatedUnivariateSpline(x, data["pres"])
        self.f = InterpolatedUnivariateSpline(x, data["fpol"])
        self.pp = InterpolatedUnivariateSpline(x, data["pres"] / dp).derivative()
        self.ff = InterpolatedUnivariateSpline(x, data["fpol"] ** 2 / 2 / dp).derivative()
        self.v = data["rcentr"] * data["bcentr"]
def clipped(psi, a, b, top):
    return np.array([[min(max((x - a) / (b - a), 0.0), top) for x in row] for row in psi])
def resized(psi, n, m, n2, m2):
    f = RectBivariateSpline(grid(0, 1, n), grid(0, 1, m), psi, kx=1, ky=1)
    return f(grid(0, 1, n2), grid(0, 1, m2))
"""
RMODELS = {"freeqdsk.geqdsk.read": "fileread", "freegs.equilibrium.Equilibrium": "Eq", "freegs.picard.solve": "pic", "freegs.critical.find_critical": "crit",
           "freegs.critical.find_separatrix": "sep", "freegs.control.ConstrainPsi2D": "FitPsi", "freegs.control.ConstrainPsi2DAdvanced": "FitPsiA",
           "freegs.control.ConstrainPsiNorm2D": "FitNorm", "freegs.control.ConstrainPsiNorm2DAdvanced": "FitNormA", "freegs.control.constrain": "Shape"}


def check(ctx):
    at = ctx.at("geqdsk", None, "write")
    for name, ox, oxv in WVARIANTS:
        wkw = dict(shapes={"psi()": (5, 9), ".R": (5, 9), ".Z": (5, 9)}, vectorised=VEC, opaque=VEC + ("psi", "fvac", "plasmaCurrent"), raises=False,
                   pure=VEC + ("psi", "fvac", "plasmaCurrent"), models={"freegs.critical.find_critical": "fake_crit", "freegs.critical.find_separatrix": "fake_sep"})
        head = WHEAD % ("-0.9", "-0.9")
        pre = """
    eq.tokamak = Tok(R0, Wall([w1, w2, w3], [v1, v2, v3]))
"""
        par = "eq, fh, R0, lab, o1, o2, o3, x1, x2, x3, w1, w2, w3, v1, v2, v3"
        call = "    c = Cap()\n    geqdsk.write(eq, fh, lab, fileformat=c%s)\n    d = c.d\n" % (", " + ox if ox else "")
        for key, names, val in ENTRIES:
            ctx.pair("write:%s[%s]" % (key, name), at, RULE, head + "def code(%s):%s%s    return [%s]\ndef spec(%s):%s    psi = eq.psi()\n    op, xp = %s\n    axis = op[0]\n    xs = [0.0, 0.25, 0.5, 0.75, 1.0]\n    return %s\n" % (
                par, pre, call, ", ".join('d["%s"]' % n for n in names), par, pre, oxv, val), **wkw)
        ctx.pair("write:file[%s]" % name, at, RULE, head + "def code(%s):%s%s    return c.fh, c.label\ndef spec(%s):\n    return fh, lab\n" % (par, pre, call, par), **wkw)
        ctx.pair("write:wall[%s]" % name, at, RULE, head + "def code(%s):%s%s    return d['rlim'], d['zlim']\ndef spec(%s):\n    return [w1, w2, w3], [v1, v2, v3]\n" % (par, pre, call, par), **wkw)
        ctx.pair("write:no-wall[%s]" % name, at, RULE, head + "def code(%s):\n    eq.tokamak = Tok(R0, None)\n%s    return 'rlim' in d, d['cpasma']\ndef spec(%s):\n    eq.tokamak = Tok(R0, None)\n    return False, eq.plasmaCurrent()\n" % (par, call, par), **wkw)
        for z in ("-0.9", "0.9"):
            ctx.pair("write:boundary[%s,%s]" % (name, z), at, "the boundary written is the separatrix as a closed loop", WHEAD % (z, z) + """
def order(R, Z):
    # closed loop, as a set of joined points: R and Z of every point, and the point that follows it
    n = len(R) - 1
    out = []
    for k in range(n):
        j = 0
        for i in range(n):
            if Z[i] == [-0.2, 0.7, 0.1, %s, -0.4, -0.3][k]:
                j = i
        lo = min(Z[(j + 1) %% n], Z[(j - 1) %% n])
        hi = max(Z[(j + 1) %% n], Z[(j - 1) %% n])
        out.append((Z[j], R[j], lo, hi))
    return out, R[n] - R[0], Z[n] - Z[0], n
def code(%s):%s%s    return order(d['rbdry'], d['zbdry'])
def spec(%s):%s    psi = eq.psi()
    op, xp = %s
    R, Z = points(eq, op, xp, psi)
    return order(np.array(R + [R[0]]), np.array(Z + [Z[0]]))
""" % (z, par, pre, call, par, pre, oxv), **wkw)
    # ---------------------------------------------------------------- reader
    at = ctx.at("geqdsk", None, "read")
    SH = {"mask0": (5, 9), "psi0": (5, 9), "psi5": (5, 9), "psi4": (4, 7), "f5": (5,), "p5": (5,), "q5": (5,), "f4": (4,), "p4": (4,), "q4": (4,), "ff": (5,), "pp": (5,)}
    PARS = "mask0, psi0, psi5, psi4, f5, p5, q5, f4, p4, q4, ff, pp, sa, sb, pa, pb, rc, bc, lo1, hi1, lo2, hi2, xp, rt, bl, y, nt, w1, w2, w3, w4, w5, v1, v2, v3, v4, v5, Y"
    WALLS = {"none": "None, None", "five": "[w1, w2, w3, w4, w5], [v1, v2, v3, v4, v5]", "three": "[w1, w2, w3], [v1, v2, v3]", "four": "[w1, w2, w3, w4], [v1, v2, v3, v4]"}
    VARS = [("plain", 5, None, "", "five", True), ("resized", 4, None, "", "none", True), ("domain-coarse", 5, (0.75, 2.0, -1.0, 2.0, 5, 9), "", "none", True),
            ("domain-wide", 5, (0.25, 3.25, -3.0, 3.5, 9, 17), "", "none", False), ("domain-tall", 5, (0.75, 2.0, -3.0, 3.5, 5, 17), "", "none", True), ("fit-sol", 5, None, "fit_sol=True", "none", True),
            ("bounded", 5, None, "current_bounds=[(lo1, hi1), (lo2, hi2)]", "none", True),
            ("bounded-sol", 5, None, "fit_sol=True, current_bounds=[(lo1, hi1), (lo2, hi2)]", "none", True),
            ("options", 5, None, "rtol=rt, blend=bl, maxits=17, ntheta=nt, cocos=11", "three", True),
            ("resized-across", (4, 9), None, "", "four", True), ("resized-up", (5, 7), None, "", "four", True), ("resized-even", (7, 7), None, "", "four", True)]
    for name, n, dom, opts, wall, xpt in VARS:
        n, m = n if isinstance(n, tuple) else (n, {5: 9, 4: 7}[n])
        N, M = (9, 9) if n == 7 else (5, 9)
        models = dict(RMODELS)
        if not xpt:
            models["freegs.critical.find_critical"] = "nocrit"
        kw = dict(shapes=dict(SH, mask0=(N, M), psi0=(N, M), psi5=(n, m), psi4=(n, m), **{"Y": (2, 3), "p%d" % n: (n,), "f%d" % n: (n,), "q%d" % n: (n,)}), models=models, ranks={"y": 0}, raises=False, vocab=(("call", "InterpolatedUnivariateSpline"),))
        common = "    mach = Mach(mask0, psi0, pa, pb, xp)\n    data = Data(%d, %d, psi%d, p%d, f%d, q%d, ff, pp, sa, sb, rc, bc, %s)\n" % (n, m, 5 if n == 5 else 4, n, n, n, WALLS[wall])
        o = (", " + opts if opts else "") + (", domain=[%s, %s, %s, %s]" % dom[:4] if dom else "")
        call = "    fh = FH(data)\n    eq = geqdsk.read(fh, mach%s)\n" % o
        bounded = "bounded" in name
        sol = "fit_sol" in opts
        par = PARS.replace("p4", "p%d" % n).replace("f4", "f%d" % n).replace("q4", "q%d" % n) if n not in (4, 5) else PARS
        lims = "[(lo1, hi1), (lo2, hi2)]" if bounded else "None"
        opt = name == "options"
        spec = "    psi = " + ("psi5" if (n, m) == (5, 9) else "resized(psi%d, %d, %d, %d, %d)" % (5 if n == 5 else 4, n, m, N, M)) + "\n"
        spec += """
    pr = Prof(data)
    log = [("equilibrium", 0.5, 2.5, -1.75, 2.25, NNN, 9, 4, 0.0), ("initial flux", psi)]
    R, Z = np.meshgrid(grid(0.5, 2.5, NNN), grid(-1.75, 2.25, 9), indexing="ij")
    pn = clipped(psi, sa, sb, 1.1)
    J = (R * pr.pp(pn) + pr.ff(pn) / (R * mu0)) * mask0
    mask = mask0
""".replace("NNN", str(N))
        if dom:
            spec += """
    log.append(("equilibrium", %s, %s, %s, %s, %d, %d, 4, 0.0))
    fJ = RectBivariateSpline(R[:, 0], Z[0, :], J)
    fp = RectBivariateSpline(R[:, 0], Z[0, :], psi)
    fm = RectBivariateSpline(R[:, 0], Z[0, :], mask)
    R, Z = np.meshgrid(grid(%s, %s, %d), grid(%s, %s, %d), indexing="ij")
    J = fJ(R, Z, grid=False)
    psi = fp(R, Z, grid=False)
    mask = fm(R, Z, grid=False)
    mask = np.array([[1.0 if x > 0.5 else 0.0 for x in row] for row in mask])
    pn = clipped(psi, pa, pb, 1.0)
""" % (dom + (dom[0], dom[1], dom[4], dom[2], dom[3], dom[5]))
        spec += """
    log.append(("solve", J, None, None, True))
    log.append(("fit flux", psi, %s, %s))
    log.append(("iterate", ("fit normalised flux", pn, mask, %s), %s, %s, %s, True, True))
""" % ("1.0" if sol else "mask", lims, lims, "rt" if opt else "1e-3", "bl" if opt else "0.0", "1000" if bounded else "17" if opt else "50")
        body = common + call
        sbody = common + spec
        hi = "resized" in name or dom is not None
        ctx.pair("read:steps[%s]" % name, at, RREAD, RHEAD + "def code(%s):\n%s    return mach.log\ndef spec(%s):\n%s    return log\n" % (par, body, par, sbody), **kw)
        if xpt:
            ctx.pair("read:control[%s]" % name, at, "the control attached to the result keeps the X-points and separatrix of the solution", RHEAD + "def code(%s):\n%s    return eq.control.what, eq is not None\ndef spec(%s):\n%s    op, xq = crit(R, Z, psi0)\n    return ('control', [(xq[0][0], xq[0][1])], sep(None, op, xq, %s, psi0), [], 1e-14), True\n" % (
                par, body, par, sbody, "nt" if opt else "8"), **kw)
        ctx.pair("read:profiles[%s]" % name, at, "the profiles of the result are those of the file", RHEAD + "def code(%s):\n%s    p = eq._profiles\n    return p.pprime(y), p.ffprime(y), p.pressure(y), p.fpol(y), p.fvac()\ndef spec(%s):\n%s    return pr.pp(y), pr.ff(y), pr.p(y), pr.f(y), rc * bc\n" % (par, body, par, sbody), **kw)
        if name in ("plain", "resized"):
            ctx.pair("read:arrays[%s]" % name, at, "the profiles of the result are those of the file, value by value", RHEAD + "def code(%s):\n%s    p = eq._profiles\n    return p.pprime(Y), p.ffprime(Y), p.pressure(Y), p.fpol(Y)\ndef spec(%s):\n%s    f = lambda g: np.array([[g(v) for v in row] for row in Y])\n    return f(pr.pp), f(pr.ff), f(pr.p), f(pr.f)\n" % (par, body, par, sbody), **kw)
        ctx.pair("read:machine[%s]" % name, at, "wall and reference radius come from the file", RHEAD + "def code(%s):\n%s    return mach.R0, %s, fh.log\ndef spec(%s):\n    return rc, %s, [('cocos', %s)]\n" % (
            par, body, "(mach.wall.R, mach.wall.Z) if mach.wall is not None else 0" if wall in ("five", "four") else "mach.wall is None", par, "(" + WALLS[wall] + ")" if wall in ("five", "four") else "True", "11" if opt else "1"), **kw)
    ctx.pair("read:fit_sol-and-domain", at, "fitting outside the boundary is refused together with another domain", RHEAD + "def code(mach, fh):\n    return geqdsk.read(fh, mach, fit_sol=True, domain=[0.1, 1.0, -1.0, 1.0])\ndef spec(mach, fh):\n    raise ValueError('no')\n", shapes=SH, models=RMODELS)
