"""Toroidal flux and the radius made from it."""
from .common import *  # noqa

ID = "C27"
RULE = "value number of the toroidal flux equals 2 pi times the integral of the safety factor over the flux from the axis"
HEAD = """
from freegs.equilibrium import Equilibrium
class Eq(Equilibrium):
    def __init__(self, pa, pb, qa, qb):
        self.psi_axis, self.psi_bndry, self.qa, self.qb = pa, pb, qa, qb
    def q(self, psinorm=None, npsi=100):
        if psinorm is None:
            raise ValueError("flux")
        return self.qa + self.qb * np.asarray(psinorm)
def F(p, pa, pb, qa, qb):
    return -2 * np.pi * (qa * (p - pa) + qb * (p - pa) ** 2 / (2 * (pb - pa)))
def at(t, pa, pb):
    return pa + t * (pb - pa)
"""
PAR = "pa, pb, qa, qb, u, v, w"
KW = dict(dense=True, raises=False, unroll=300, ranks={k: 0 for k in PAR.split(", ")})
LISTS = (("pair", "[u, v]"), ("array", "np.array([u, v, w])"), ("axis-first", "[pa, u, pb]"), ("whole", "np.array([at(k / 4, pa, pb) for k in range(5)])"), ("inwards", "[pb, u]"),
         ("outer", "[at(0.5, pa, pb), at(0.75, pa, pb)]"), ("inner", "[at(0.001, pa, pb), at(0.002, pa, pb), at(0.3, pa, pb)]"))


def check(ctx):
    for fn, want in (("tor_flux", "F(x, pa, pb, qa, qb)"), ("rhotor", "np.sqrt(F(x, pa, pb, qa, qb) / F(pb, pa, pb, qa, qb))")):
        at = ctx.at("equilibrium", "Equilibrium", fn)
        rule = RULE if fn == "tor_flux" else "square root of the toroidal flux over that at the boundary"

        def pair(key, code, spec, **kk):
            ctx.pair("%s:%s" % (fn, key), at, rule, HEAD + "def code(%s):\n    eq = Eq(pa, pb, qa, qb)\n    %s\ndef spec(%s):\n    eq = Eq(pa, pb, qa, qb)\n    %s\n" % (PAR, code, PAR, spec), **dict(KW, **kk))

        for nm, how in LISTS:
            pair(nm, "r = eq.%s(%s)\n    return [r[k] for k in range(len(r))]" % (fn, how), "return [%s for x in %s]" % (want, how))
        for nm, how in (("one", "[u]"), ("one-array", "np.array([u])"), ("scalar", "u"), ("boundary", "pb")):
            pair(nm, "return eq.%s(%s)" % (fn, how), "x = %s\n    return %s" % ("pb" if nm == "boundary" else "u", want))
        # another equilibrium with the same object; the caller's values
        pair("again", "eq.%s([u, v])\n    eq.psi_axis, eq.psi_bndry, eq.qa = v, w, qb\n    return eq.%s(u)" % (fn, fn), "x = u\n    return %s" % want.replace("pa, pb, qa, qb", "v, w, qb, qb").replace("F(pb", "F(w"))
        pair("kept", "x = np.array([u, v])\n    eq.%s(x)\n    return x, eq.psi_axis, eq.psi_bndry" % fn, "return np.array([u, v]), pa, pb")
        # both signs of the plasma current, given numbers
        for nm, (a, b) in (("falling", ("0.5", "0.25")), ("rising", ("-0.5", "0.25")), ("falling-negative", ("-1.0", "-3.0")), ("rising-through", ("-1", "2"))):
            pair("order:" + nm, "r = Eq(%s, %s, 1.0, 2.0).%s([at(k / 4, %s, %s) for k in (3, 1, 1, 2)])\n    return [r[k] for k in range(len(r))]" % (a, b, fn, a, b), "return [%s for x in [at(k / 4, %s, %s) for k in (3, 1, 1, 2)]]" % (want.replace("pa, pb, qa, qb", "%s, %s, 1.0, 2.0" % (a, b)).replace("F(pb", "F(" + b), a, b))
            pair("numbers:" + nm, "eq = Eq(%s, %s, 1.0, 2.0)\n    r = eq.%s([at(k / 4, %s, %s) for k in range(5)])\n    return [r[k] for k in range(len(r))]" % (a, b, fn, a, b), "return [%s for x in [at(k / 4, %s, %s) for k in range(5)]]" % (want.replace("pa, pb, qa, qb", "%s, %s, 1.0, 2.0" % (a, b)).replace("F(pb", "F(" + b), a, b))
