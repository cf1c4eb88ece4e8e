"""Pressure and f profiles integrate p' and ff' inwards from the plasma boundary."""
from .common import *

ID = "C12"
RULE = "p and f are the integrals of p' and ff' from the boundary"
HEAD = """
from freegs.jtor import Profile, ProfilesPprimeFfprime, ConstrainBetapIp, ConstrainPaxisIp
from scipy.integrate import quad
class Own(Profile):
    def __init__(self, fp, fq, fv, pa, pb):
        self.fp = fp
        self.fq = fq
        self.fv = fv
        self.psi_axis = pa
        self.psi_bndry = pb
    def Jtor(self, R, Z, psi, psi_bndry=None):
        return None
    def pprime(self, x):
        return self.fp(x)
    def ffprime(self, x):
        return self.fq(x)
    def fvac(self):
        return self.fv
def given(fp, fq, fv, pa, pb):
    p = ProfilesPprimeFfprime(fp, fq, fv)
    p.psi_axis = pa
    p.psi_bndry = pb
    return p
def wantp(fp, fq, fv, pa, pb, x):
    return (pa - pb) * quad(lambda t: fp(t), x, 1.0)[0]
def wantf(fp, fq, fv, pa, pb, x):
    return np.copysign(np.sqrt(fv ** 2 + 2 * (pa - pb) * quad(lambda t: fq(t), x, 1.0)[0]), fv)
"""
PAR = "fp, fq, fv, pa, pb, x, out"
KW = dict(dense=True, pure=(sym("fp"), sym("fq"), sym("g"), sym("h")), raises=False)


def check(ctx):
    for mk_, cls in (("Own", "Profile"), ("given", "ProfilesPprimeFfprime")):
        for m, w in (("pressure", "wantp"), ("fpol", "wantf")):
            at = ctx.at("jtor", "Profile", m)
            k = "%s:%s" % (m, mk_)
            A = "fp, fq, fv, pa, pb"

            def pair(key, code, spec, rule=RULE, **kk):
                ctx.pair(key + ":" + k, at, rule, HEAD + "def code(%s):\n    p = %s(%s)\n    %s\ndef spec(%s):\n    %s\n" % (PAR, mk_, A, code, PAR, spec), **dict(KW, **kk))

            pair("scalar", "return p.%s(x)" % m, "return %s(%s, x)" % (w, A), ranks={"x": 0})
            pair("1d", "return p.%s(x)" % m, "return np.array([%s(%s, v) for v in x])" % (w, A), shapes={"x": (4,)})
            pair("one", "return p.%s(x)" % m, "return np.array([%s(%s, v) for v in x])" % (w, A), shapes={"x": (1,)})
            pair("2d", "return p.%s(x)" % m, "return np.array([[%s(%s, v) for v in r] for r in x])" % (w, A), shapes={"x": (2, 3)})
            pair("integers", "return p.%s(x)" % m, "return np.array([[%s(%s, v) for v in r] for r in x])" % (w, A), "whole numbers are like any other", shapes={"x": (2, 3)}, integers=("x",), vocab=("int_cast",))
            pair("integer", "return p.%s(x)" % m, "return np.array([%s(%s, v) for v in x])" % (w, A), "whole numbers are like any other", shapes={"x": (1,)}, integers=("x",), vocab=("int_cast",))
            pair("repeated", "return p.%s(np.array([0.5, 0.25, 0.5, 1.0]))" % m, "return np.array([%s(%s, v) for v in (0.5, 0.25, 0.5, 1.0)])" % (w, A), "each value is answered in its place, repeated or not")
            pair("twice", "p.%s(x)\n    p.fv = pa\n    p._fvac = pa\n    return p.%s(x)" % (m, m), "return np.array([%s(fp, fq, pa, pa, pb, v) for v in x])" % w, shapes={"x": (2,)})
            pair("input", "p.%s(x)\n    return x" % m, "return x", "the given array is not changed", shapes={"x": (3,)})
            pair("out", "return p.%s(x, out), out" % m, "r = np.array([%s(%s, v) for v in x])\n    return r, r" % (w, A), "values go to the given output array", shapes={"x": (3,), "out": (3,)}, assume_atom=given("out"))
            pair("out2", "return p.%s(x, out=out), out" % m, "r = np.array([[%s(%s, v) for v in r] for r in x])\n    return r, r" % (w, A), "values go to the given output array", shapes={"x": (2, 3), "out": (2, 3)}, assume_atom=given("out"))
            kk = dict(KW, shapes={"x": (3,), "out": (4,)}, assume_atom=given("out"))
            kk.pop("raises")
            pair("mismatch", "return p.%s(x, out)" % m, "raise ValueError('length')", "an output array of another length is refused", **dict(kk, raises=True))
    at = ctx.at("jtor", "ProfilesPprimeFfprime", "pressure")
    ctx.pair("functions", at, "given p and f functions are used as they are", HEAD + """
def code(fp, fq, fv, g, h, x):
    p = ProfilesPprimeFfprime(fp, fq, fv, p_func=g, f_func=h)
    q = ProfilesPprimeFfprime(fp, fq, fv, g)
    r = ProfilesPprimeFfprime(fp, fq, fv, f_func=h)
    return p.pressure(x), p.fpol(x), q.pressure(x), r.fpol(x), p.pprime(x), p.ffprime(x), p.fvac()
def spec(fp, fq, fv, g, h, x):
    return g(x), h(x), g(x), h(x), fp(x), fq(x), fv
""", **dict(KW, ranks={"x": 0}, assume_atom=given("g", "h")))
    for n in (1, 3):
        ctx.pair("functions-array[%d]" % n, at, "given p and f functions are used as they are", HEAD + """
def code(fp, fq, fv, pa, pb, g, h, x, out):
    p = ProfilesPprimeFfprime(fp, fq, fv, p_func=g, f_func=h)
    q = ProfilesPprimeFfprime(fp, fq, fv, g)
    r = ProfilesPprimeFfprime(fp, fq, fv, f_func=h)
    for s in (p, q, r):
        s.psi_axis = pa
        s.psi_bndry = pb
    return p.pressure(x), p.fpol(x), q.pressure(x), r.fpol(x), p.pressure(x, out), p.fpol(x, out=out)
def spec(fp, fq, fv, pa, pb, g, h, x, out):
    return g(x), h(x), g(x), h(x), g(x), h(x)
""", **dict(KW, shapes={"x": (n,), "out": (n,)}, assume_atom=given("g", "h", "out")))
    ctx.pair("one-function", at, "the function not given is integrated", HEAD + """
def code(fp, fq, fv, pa, pb, g, h, x):
    p = ProfilesPprimeFfprime(fp, fq, fv, p_func=g)
    q = ProfilesPprimeFfprime(fp, fq, fv, f_func=h)
    for s in (p, q):
        s.psi_axis = pa
        s.psi_bndry = pb
    return p.fpol(x), q.pressure(x)
def spec(fp, fq, fv, pa, pb, g, h, x):
    return wantf(fp, fq, fv, pa, pb, x), wantp(fp, fq, fv, pa, pb, x)
""", **dict(KW, ranks={"x": 0}, assume_atom=given("g", "h")))
    # ------------------------------------------------ equilibrium queries
    ctx.pair("equilibrium", ctx.at("equilibrium", "Equilibrium", "pressure"), "profile queries of an equilibrium are those of the profiles last solved with", HEAD + """
from freegs.equilibrium import Equilibrium
class E(Equilibrium):
    def __init__(self, p):
        self._profiles = p
def code(fp, fq, fv, pa, pb, x):
    p = Own(fp, fq, fv, pa, pb)
    e = E(p)
    return e.pressure(x), e.fpol(x), e.pprime(x), e.ffprime(x), e.fvac()
def spec(fp, fq, fv, pa, pb, x):
    p = Own(fp, fq, fv, pa, pb)
    return p.pressure(x), p.fpol(x), p.pprime(x), p.ffprime(x), fv
""", **dict(KW, ranks={"x": 0}))
    for cls in ("ConstrainBetapIp", "ConstrainPaxisIp"):
        ctx.pair("constrained:" + cls, ctx.at("jtor", cls, "pprime"), RULE, HEAD + """
def make(fp, fv, L, be, m, n, Ra, pa, pb):
    p = %s(fp, 1.0, 2.0, fv, m, n, Ra)
    p.L = L
    p.Beta0 = be
    p.psi_axis = pa
    p.psi_bndry = pb
    return p
def code(fp, fv, L, be, m, n, Ra, pa, pb, x):
    p = make(fp, fv, L, be, m, n, Ra, pa, pb)
    return p.pressure(x), p.fpol(x)
def spec(fp, fv, L, be, m, n, Ra, pa, pb, x):
    p = make(fp, fv, L, be, m, n, Ra, pa, pb)
    return wantp(p.pprime, p.ffprime, fv, pa, pb, x), wantf(p.pprime, p.ffprime, fv, pa, pb, x)
""" % cls, **dict(KW, ranks={"x": 0, "m": 0, "n": 0}))
