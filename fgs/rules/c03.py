"""Magnetic field components derive from the poloidal flux and f = R*Bt."""
from .common import *

ID = "C03"
RULE = "value number equals the field formula"
GH = "from freegs.gradshafranov import Greens, GreensBr, GreensBz\nfrom scipy.special import ellipk, ellipe\n"


def check(ctx):
    P = ctx.prog
    w = lambda f: ctx.where(P.func("gradshafranov", f))
    ctx.pair("Greens", w("Greens"), RULE, GH + """
def code(a, b, R, Z):
    return Greens(a, b, R, Z)
def spec(a, b, R, Z):
    k2 = np.clip(4 * R * a / ((R + a) ** 2 + (Z - b) ** 2), 1e-10, 1 - 1e-10)
    return mu0 / (2 * np.pi) * np.sqrt(R * a) * ((2 - k2) * ellipk(k2) - 2 * ellipe(k2)) / np.sqrt(k2)
""")
    kw = dict(opaque=("Greens",), pure=("Greens",))
    ctx.pair("GreensBz", w("GreensBz"), RULE + " (central difference)", GH + """
def code(a, b, R, Z, e):
    return (GreensBz(a, b, R, Z, e), GreensBz(a, b, R, Z, eps=e))
def spec(a, b, R, Z, e):
    v = (Greens(a, b, R + e, Z) - Greens(a, b, R - e, Z)) / (2 * e) / R
    return (v, v)
""", **kw)
    ctx.pair("GreensBr", w("GreensBr"), RULE + " (central difference)", GH + """
def code(a, b, R, Z, e):
    return (GreensBr(a, b, R, Z, e), GreensBr(a, b, R, Z, eps=e))
def spec(a, b, R, Z, e):
    v = -(Greens(a, b, R, Z + e) - Greens(a, b, R, Z - e)) / (2 * e) / R
    return (v, v)
""", **kw)
    for f, ax in (("GreensBz", "R"), ("GreensBr", "Z")):
        ctx.pair(f + ":default-step", w(f), RULE + " (small step by default)", GH + """
def code(a, b, R, Z):
    return %s(a, b, R, Z)
def spec(a, b, R, Z):
    return %s(a, b, R, Z, 1e-3)
""" % (f, f), **kw)
    m = lambda f: ctx.at("equilibrium", "Equilibrium", f)
    q = "R, Z"
    F = [
        ("plasmaBr", "-psi_spline(eq)(R, Z, dy=1, grid=False) / R"),
        ("plasmaBz", "psi_spline(eq)(R, Z, dx=1, grid=False) / R"),
        ("Br", "-psi_spline(eq)(R, Z, dy=1, grid=False) / R + tok.Br(R, Z)"),
        ("Bz", "psi_spline(eq)(R, Z, dx=1, grid=False) / R + tok.Bz(R, Z)"),
        ("psiRZ", "psi_spline(eq)(R, Z, grid=False) + tok.psi(R, Z)"),
        ("psiNRZ", "(psi_spline(eq)(R, Z, grid=False) + tok.psi(R, Z) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)"),
        ("Bpol", "np.sqrt(eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2)"),
        ("Btot", "np.sqrt(eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2 + eq.Btor(R, Z) ** 2)"),
        ("Btor", "(eq._profiles.fpol(eq.psiNRZ(R, Z)) if eq.mask is None else eq._profiles.fpol(eq.psiNRZ(R, Z)) * RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.mask)(R, Z, grid=False) + (1 - RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.mask)(R, Z, grid=False)) * eq._profiles.fvac()) / R".replace("eq._profiles", "PROF")),
    ]
    for name, spec in F:
        eq_pair(ctx, name, m(name), RULE, "eq.%s(R, Z)" % name, spec.replace("PROF", "prof"), q, variants=("xpoint", "xpoint-fixed", "limiter", "limiter+xpoint", "no-xpoint-fixed") if name == "Btor" else ("xpoint", "xpoint-fixed"))
        for rk, kk in (("point", dict(ranks={"R": 0, "Z": 0})), ("array", dict(shapes={"R": (2,), "Z": (2,)}))):
            eq_pair(ctx, name + ":" + rk, m(name), RULE, "eq.%s(R, Z)" % name, spec.replace("PROF", "prof"), q, **kk)
        eq_pair(ctx, name + ":after-resolve", m(name), RULE, "eq.%s(R, Z)" % name, spec.replace("PROF", "prof2"), q + ", prof2, Jt2", change="eq.solve(prof2, Jt2)")
    eq_pair(ctx, "psi", m("psi"), RULE, "eq.psi()", "eq.plasma_psi + tok.psi(eq.R, eq.Z)", modulo=greens_is_psi)
    eq_pair(ctx, "psiN", m("psiN"), RULE, "eq.psiN()", "(eq.plasma_psi + tok.psi(eq.R, eq.Z) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)", modulo=greens_is_psi)
    eq_pair(ctx, "psi:after-resolve", m("psi"), RULE, "eq.psi()", "eq.plasma_psi + tok.psi(eq.R, eq.Z)", "prof2, Jt2", change="eq.solve(prof2, Jt2)", modulo=greens_is_psi)
    for nm, ar in (("fpol", "x"), ("pprime", "x"), ("ffprime", "x"), ("pressure", "x"), ("fvac", "")):
        eq_pair(ctx, nm, m(nm), "profile queries return the values of the profiles last solved with", "eq.%s(%s)" % (nm, ar), "prof2.%s(%s)" % (nm, ar), "x, prof2, Jt2", change="eq.solve(prof2, Jt2)")
