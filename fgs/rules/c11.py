"""Toroidal current density of the profile classes and the constraints it must meet."""
from .common import *

ID = "C11"
RULE = "current density and profile functions, value by value (grid size fixed, everything on it symbolic)"
NX, NY = 3, 5
HEAD = """
from freegs.jtor import ConstrainBetapIp, ConstrainPaxisIp, ProfilesPprimeFfprime
from scipy.integrate import quad, romb
from freegs.critical import core_mask
def grid(a, b, n):
    return np.array([a + i * (b - a) / (n - 1) for i in range(n)])
class Eq:
    def __init__(self, src, bnd, new):
        self.src = src
        self.psi_bndry = bnd
        self.new = new
        self.seen = None
    def _updateBoundaryPsi(self, psi=None):
        self.seen = psi
        self.psi_bndry = self.new
    def Br(self, R, Z):
        return self.src.rad(R, Z)
    def Bz(self, R, Z):
        return self.src.ver(R, Z)
def crit(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1], Z[1, 1], psi[1, 3] + R[1, 1]), (1.0, 0.0, psi[2, 3])], [(psi[2, 2], psi[2, 3], psi[1, 4]), (9.0, 8.0, psi[2, 4])]
def nox(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1], Z[1, 1], psi[1, 3] + R[1, 1])], []
def nothing(R, Z, psi, discard_xpoints=True):
    return [], [(psi[2, 2], psi[2, 3], psi[1, 4])]
def setup(ra, rb, za, zb):
    return np.meshgrid(grid(ra, rb, 3), grid(za, zb, 5), indexing="ij")
def integral(F, ra, rb, za, zb):
    return romb(romb(F)) * (rb - ra) / 2 * (zb - za) / 4
def shape(psi, pa, pb, m, n):
    x = np.array([[min(max((v - pa) / (pb - pa), 0.0), 1.0) for v in row] for row in psi])
    return (1 - x ** m) ** n
def one(x, m, n):
    return (1 - x ** m) ** n
"""
PAR = "src, bp, Ip, fv, m, n, Ra, psi, ra, rb, za, zb, b0, b1, pbin, y, fp, fq"
KW = dict(lazy=60, shapes={"psi": (NX, NY), "core_mask()": (NX, NY), "rad()": (NX, NY), "ver()": (NX, NY), "fp()": (NX, NY), "fq()": (NX, NY)}, opaque=("core_mask",), pure=("core_mask", "rad", "ver", sym("fp"), sym("fq")),
          ranks={"y": 0}, raises=False, assume_atom=given("b1", "pbin"))
# which boundary value and mask apply
CASES = [
    ("boundary", "b1", "crit", "b1", "core_mask(R, Z, psi, opt, xpt, b1)"),
    ("no-boundary", "None", "crit", "xpt[0][2]", "core_mask(R, Z, psi, opt, xpt)"),
    ("no-xpoint", "None", "nox", "psi[0, 0]", "1.0"),
    ("boundary-no-xpoint", "b1", "nox", "b1", "core_mask(R, Z, psi, opt, xpt, b1)"),
]


def check(ctx):
    P = ctx.prog
    for cls in ("ConstrainPaxisIp", "ConstrainBetapIp"):
        at = lambda f: ctx.at("jtor", cls, f)
        for name, new, cr, pb, mask in CASES:
            kw = dict(KW, models={"freegs.critical.find_critical": cr})
            pre = "    R, Z = setup(ra, rb, za, zb)\n    eq = Eq(src, b0, %s)\n    pr = %s(eq, bp, Ip, fv, m, n, Ra)\n    J = pr.Jtor(R, Z, psi, psi_bndry=pbin)\n" % (new, cls)
            spec = """
    R, Z = setup(ra, rb, za, zb)
    opt, xpt = %s(R, Z, psi)
    pa = opt[0][2]
    pb = %s
    mask = %s
    js = shape(psi, pa, pb, m, n) * mask
""" % (cr, pb, mask)
            if cls == "ConstrainPaxisIp":
                spec += "    LB = -bp * Ra / (quad(lambda x: one(x, m, n), 0.0, 1.0)[0] * (pb - pa))\n"
            else:
                spec += """
    p = np.zeros((3, 5))
    for i in range(1, 2):
        for j in range(1, 4):
            v = (psi[i, j] - pa) / (pb - pa)
            if v >= 0 and v < 1:
                p[i, j] = quad(lambda x: one(x, m, n), v, 1.0)[0] * (pb - pa)
    p = p * mask
    B2 = (src.rad(R, Z) ** 2 + src.ver(R, Z) ** 2) * mask
    LB = -bp * Ra / (2 * mu0) * integral(B2 * R, ra, rb, za, zb) / integral(p * R, ra, rb, za, zb)
"""
            spec += """
    IR = integral(js * R / Ra, ra, rb, za, zb)
    I_R = integral(js * Ra / R, ra, rb, za, zb)
    L = Ip / I_R - LB * (IR / I_R - 1)
"""
            k = "%s[%s]" % (cls, name)

            def pair(key, f, code, want, rule=RULE, **kk):
                ctx.pair(key + ":" + k, at(f), rule, HEAD + "def code(%s):\n%s    %s\ndef spec(%s):\n%s    %s\n" % (PAR, pre, code, PAR, spec, want), **dict(kw, **kk))

            pair("J", "Jtor", "return J", "return (LB * R / Ra + (L - LB) * Ra / R) * js")
            pair("Ip", "Jtor", "return integral(J, ra, rb, za, zb)", "return Ip", "the current density integrates to the requested plasma current")
            pair("consistent", "pprime/ffprime", "return J", "pr = %s(Eq(src, b0, %s), bp, Ip, fv, m, n, Ra)\n    pr.Jtor(R, Z, psi)\n    x = np.array([[(v - pa) / (pb - pa) for v in row] for row in psi])\n    return (R * pr.pprime(x) + pr.ffprime(x) / (mu0 * R)) * mask" % (cls, new),
                 "the current density is R p' + ff'/(mu0 R) of the same object's profile functions")
            pair("profiles", "pprime/ffprime", "return pr.pprime(y), pr.ffprime(y)", "c = min(max(y, 0.0), 1.0)\n    return LB / Ra * one(c, m, n), mu0 * (L - LB) * Ra * one(c, m, n)")
            if cls == "ConstrainPaxisIp":
                pair("paxis", "Jtor", "return pr.pressure(0.0)", "return bp", "the pressure on the magnetic axis is the requested one")
            pair("flux", "Jtor", "return pr.psi_axis, pr.psi_bndry, eq.seen, pr.fvac()", "return pa, pb, psi, fv", "axis and boundary flux used are those of the given flux")
        kw = dict(KW, models={"freegs.critical.find_critical": "nothing"})
        kw.pop("raises")
        ctx.pair("no-opoint:" + cls, at("Jtor"), "a flux without O-point is refused", HEAD + "def code(%s):\n    R, Z = setup(ra, rb, za, zb)\n    return %s(Eq(src, b0, b1), bp, Ip, fv, m, n, Ra).Jtor(R, Z, psi)\ndef spec(%s):\n    raise ValueError('no')\n" % (PAR, cls, PAR), **kw)
        ctx.pair("exponents:" + cls, at("__init__"), "negative exponents are refused, non-negative ones kept", HEAD + """
def code(%s):
    p = %s(src, bp, Ip, fv, m, n, Ra)
    d = %s(src, bp, Ip, fv)
    return p.alpha_m, p.alpha_n, p.Ip, p.Raxis, p.fvac(), d.alpha_m, d.alpha_n, d.Raxis
def spec(%s):
    if m < 0:
        raise ValueError("m")
    if n < 0:
        raise ValueError("n")
    return m, n, Ip, Ra, fv, 1.0, 2.0, 1.0
""" % (PAR, cls, cls, PAR), ranks={"m": 0, "n": 0})
    # ---------------------------------------------------------------- a second solve with the same object; as many rows as columns
    for cls in ("ConstrainPaxisIp", "ConstrainBetapIp"):
        at = ctx.at("jtor", cls, "Jtor")
        kw = dict(KW, models={"freegs.critical.find_critical": "crit"})
        kw["shapes"] = dict(KW["shapes"], old=(NX, NY))
        par = PAR + ", old"
        body = "    R, Z = setup(ra, rb, za, zb)\n    pr = %s(Eq(src, b0, b1), bp, Ip, fv, m, n, Ra)\n" % cls
        ctx.pair("again:" + cls, at, "the profile and its constraint depend on the flux given, not on the one before it",
                 HEAD + "def code(%s):\n%s    pr.Jtor(R, Z, old)\n    J = pr.Jtor(R, Z, psi)\n    return J, pr.psi_axis, pr.psi_bndry, pr.pprime(y), pr.ffprime(y)\ndef spec(%s):\n%s    J = pr.Jtor(R, Z, psi)\n    return J, pr.psi_axis, pr.psi_bndry, pr.pprime(y), pr.ffprime(y)\n" % (par, body, par, body), **kw)
        if cls == "ConstrainPaxisIp":
            LB = "-bp * Ra / (quad(lambda x: one(x, m, n), 0.0, 1.0)[0] * (psi[1, 2] - psi[1, 1]))"
            extra = ""
        else:
            extra = """
    p = np.zeros((3, 3))
    v = (psi[1, 1] - pa) / (pb - pa)
    if v >= 0 and v < 1:
        p[1, 1] = quad(lambda x: one(x, m, n), v, 1.0)[0] * (pb - pa)
    p = p * mask
    B2 = (src.rad(R, Z) ** 2 + src.ver(R, Z) ** 2) * mask
"""
            LB = "-bp * Ra / (2 * mu0) * integral3(B2 * R, ra, rb, za, zb) / integral3(p * R, ra, rb, za, zb)"
        kw = dict(KW, models={"freegs.critical.find_critical": "crit3"})
        kw["shapes"] = {k: (3, 3) for k in KW["shapes"]}
        ctx.pair("square:" + cls, at, RULE, HEAD + """
def crit3(R, Z, psi, discard_xpoints=True):
    return [(psi[1, 1], Z[1, 1], psi[1, 1]%s)], [(psi[2, 2], psi[2, 1], psi[1, 2])]
def integral3(F, ra, rb, za, zb):
    return romb(romb(F)) * (rb - ra) / 2 * (zb - za) / 2
def code(%s):
    R, Z = np.meshgrid(grid(ra, rb, 3), grid(za, zb, 3), indexing="ij")
    pr = %s(Eq(src, b0, None), bp, Ip, fv, m, n, Ra)
    return pr.Jtor(R, Z, psi)
def spec(%s):
    R, Z = np.meshgrid(grid(ra, rb, 3), grid(za, zb, 3), indexing="ij")
    opt, xpt = crit3(R, Z, psi)
    pa = opt[0][2]
    pb = xpt[0][2]
    mask = core_mask(R, Z, psi, opt, xpt)
    js = shape(psi, pa, pb, m, n) * mask
%s
    LB = %s
    I_R = integral3(js * Ra / R, ra, rb, za, zb)
    L = Ip / I_R - LB * (integral3(js * R / Ra, ra, rb, za, zb) / I_R - 1)
    return (LB * R / Ra + (L - LB) * Ra / R) * js
""" % ("" if cls == "ConstrainPaxisIp" else " + R[1, 1]", PAR, cls, PAR, extra, LB), **kw)
    # ---------------------------------------------------------------- given profile functions
    at = ctx.at("jtor", "ProfilesPprimeFfprime", "Jtor")
    for name, bnd, cr, pb, mask in [("boundary", "pbin", "crit", "pbin", "core_mask(R, Z, psi, opt, xpt, pbin)"), ("no-boundary", "None", "crit", "xpt[0][2]", "core_mask(R, Z, psi, opt, xpt)"), ("no-xpoint", "None", "nox", "psi[0, 0]", "1.0")]:
        kw = dict(KW, models={"freegs.critical.find_critical": cr}, vectorised=("fp", "fq"))
        kw["shapes"] = {k: v for k, v in KW["shapes"].items() if k not in ("fp()", "fq()")}
        code = "    R, Z = setup(ra, rb, za, zb)\n    pr = ProfilesPprimeFfprime(fp, fq, fv)\n    J = pr.Jtor(R, Z, psi, %s)\n" % bnd
        spec = "    R, Z = setup(ra, rb, za, zb)\n    opt, xpt = %s(R, Z, psi)\n    pa = opt[0][2]\n    pb = %s\n    mask = %s\n    x = np.array([[min(max((v - pa) / (pb - pa), 0.0), 1.0) for v in row] for row in psi])\n" % (cr, pb, mask)
        ctx.pair("J:given[%s]" % name, at, RULE, HEAD + "def code(%s):\n%s    return J, pr.psi_axis, pr.psi_bndry, pr.fvac(), pr.pprime(y), pr.ffprime(y)\ndef spec(%s):\n%s    return (R * fp(x) + fq(x) / (mu0 * R)) * mask, pa, pb, fv, fp(y), fq(y)\n" % (PAR, code, PAR, spec), **kw)
    kw = dict(KW, models={"freegs.critical.find_critical": "nothing"})
    kw.pop("raises")
    ctx.pair("no-opoint:given", at, "a flux without O-point is refused", HEAD + "def code(%s):\n    R, Z = setup(ra, rb, za, zb)\n    return ProfilesPprimeFfprime(fp, fq, fv).Jtor(R, Z, psi)\ndef spec(%s):\n    raise ValueError('no')\n" % (PAR, PAR), **kw)
