"""One Grad-Shafranov solve and the state derived from it."""
from .common import *

ID = "C09"
RULE = "state after the call, value by value (grid size fixed, everything on it symbolic)"
ND, NE = 5, 9
SH = {"Jt": (ND, NE), "Jt2": (ND, NE), "pin": (ND, NE), "slv()": (ND, NE), "calcPsiFromGreens()": (ND, NE), "Jtor()": (ND, NE),
      "left()": (NE,), "right()": (NE,), "down()": (ND,), "up()": (ND,), "core_mask()": (ND, NE)}
HEAD = EQ_HEAD + """
from freegs.gradshafranov import GSsparse, GSsparse4thOrder
from freegs.multigrid import createVcycle
def build(tok, Rmin, Rmax, Zmin, Zmax, bnd, order, lim, slv):
    eq = Equilibrium(tok, Rmin, Rmax, Zmin, Zmax, 5, 9, boundary=bnd, order=order, check_limited=lim)
    eq.setSolver(slv)
    return eq
def grids(Rmin, Rmax, Zmin, Zmax, nx, ny):
    R = np.zeros((nx, ny))
    Z = np.zeros((nx, ny))
    for i in range(nx):
        for j in range(ny):
            R[i, j] = Rmin + i * (Rmax - Rmin) / (nx - 1)
            Z[i, j] = Zmin + j * (Zmax - Zmin) / (ny - 1)
    return R, Z
def cross(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
    m = np.zeros((5, 9))
    m[2, 2:7] = 1.0
    m[1:4, 4] = 1.0
    return m
def edges(psi, be, J):
    psi[0, :] = be.left(J)
    psi[-1, :] = be.right(J)
    psi[:, 0] = be.down(J)
    psi[:, -1] = be.up(J)
def zeroed(psi, be, J):
    psi[0, :] = 0.0
    psi[-1, :] = 0.0
    psi[:, 0] = 0.0
    psi[:, -1] = 0.0
def step(psi, J, R, bc, be, slv):
    bc(psi, be, J)
    rhs = -mu0 * R * J
    rhs[0, :] = psi[0, :]
    rhs[-1, :] = psi[-1, :]
    rhs[:, 0] = psi[:, 0]
    rhs[:, -1] = psi[:, -1]
    return slv(psi, rhs)
def total(J, Rmin, Rmax, Zmin, Zmax):
    return romb(romb(J)) * (Rmax - Rmin) / 4 * (Zmax - Zmin) / 8
"""
ARGS = "tok, prof, Rmin, Rmax, Zmin, Zmax, be, slv, Jt, Jt2, prof2, pin, pb, pa"


def check(ctx):
    P = ctx.prog
    at = lambda m: ctx.at("equilibrium", "Equilibrium", m)
    for v in ("xpoint", "no-xpoint-free", "no-xpoint-fixed"):
        rules = VARIANTS[v][1]
        fixed = v == "no-xpoint-fixed"
        bnd, bc = ("fixedBoundary", "zeroed") if fixed else ("Edges(be)", "edges")
        kw = eq_kw(P, assume_atom=emptiness(rules), shapes=SH, modulo=canon_boundary)
        kw["pure"] = tuple(kw["pure"]) + ("slv", sym("slv"))
        kw.pop("hints")
        pre = "    eq = build(tok, Rmin, Rmax, Zmin, Zmax, %s, 4, False, slv)\n" % bnd

        def pair(key, m, code, spec, rule=RULE, k=kw, cpre=pre, spre=pre):
            ctx.pair("%s[%s]" % (key, v), at(m), rule, HEAD + "def code(%s):\n%s%sdef spec(%s):\n%s%s" % (ARGS, cpre, ind(code), ARGS, spre, ind(spec)), raises=False, **k)

        if v == "xpoint":
            pair("grid", "__init__", "return eq.R, eq.Z, eq.dR, eq.dZ, eq.R_1D, eq.Z_1D, eq.nx, eq.ny", """
                R, Z = grids(Rmin, Rmax, Zmin, Zmax, 5, 9)
                return R, Z, (Rmax - Rmin) / 4, (Zmax - Zmin) / 8, R[:, 0], Z[0, :], 5, 9""")
            pair("given-flux", "__init__", """
                eq = Equilibrium(tok, Rmin, Rmax, Zmin, Zmax, 5, 9, boundary=Edges(be), psi=pin, current=pb)
                return eq.plasma_psi, eq.plasmaCurrent()""", "return pin, pb")
            for order, gen in ((2, "GSsparse"), (4, "GSsparse4thOrder")):
                pair("solver-order-%d" % order, "__init__", "return Equilibrium(tok, Rmin, Rmax, Zmin, Zmax, 5, 9, boundary=Edges(be), order=%d).callSolver(Jt, Jt2)" % order,
                     "return createVcycle(5, 9, %s(Rmin, Rmax, Zmin, Zmax), nlevels=1, ncycle=1, niter=2, direct=True)(Jt, Jt2)" % gen,
                     "the linear solver inverts the operator of the requested order on the same domain", k=dict(kw, modulo=only_level))
            ctx.pair("solver-order-other", at("__init__"), "an order other than 2 or 4 is rejected", HEAD + """
def code(tok, n):
    return Equilibrium(tok, order=n, nx=5, ny=9)
def spec(tok, n):
    raise ValueError("order")
""", args={"n": mk("num", __import__("fractions").Fraction(3))}, **kw)
            pair("callSolver", "callSolver", "return eq.callSolver(Jt, Jt2)", "return slv(Jt, Jt2)", "callSolver returns what the solver returns for the same arguments")
            pair("vcycle", "setSolverVcycle", """
                eq.setSolverVcycle(nlevels=pb, ncycle=3, niter=7, direct=False)
                return eq.callSolver(Jt, Jt2)""", "return createVcycle(5, 9, GSsparse(Rmin, Rmax, Zmin, Zmax), nlevels=pb, ncycle=3, niter=7, direct=False)(Jt, Jt2)", "multigrid options are passed on")
        # one solve with a given current density
        pair("solve:flux", "solve", """
            eq.solve(prof, Jt)
            return eq.plasma_psi""", """
            return step(eq.plasma_psi, Jt, eq.R, %s, be, slv)""" % bc)
        pair("solve:current", "solve", """
            eq.solve(prof, Jt)
            return eq.plasmaCurrent(), eq.Jtor""", "return total(Jt, Rmin, Rmax, Zmin, Zmax), Jt")
        pair("solve:again", "solve", """
            eq.solve(prof, Jt)
            eq.solve(prof2, Jt2)
            return eq.plasma_psi, eq.plasmaCurrent(), eq.Jtor""", """
            p = step(eq.plasma_psi, Jt, eq.R, %s, be, slv)
            return step(p, Jt2, eq.R, %s, be, slv), total(Jt2, Rmin, Rmax, Zmin, Zmax), Jt2""" % (bc, bc))
        for key, call, J in (("from-profiles", "eq.solve(prof)", "prof.Jtor(eq.R, eq.Z, eq.psi(), psi_bndry=None)"),
                             ("psi-given", "eq.solve(prof, psi=pin)", "prof.Jtor(eq.R, eq.Z, pin, psi_bndry=None)"),
                             ("psi_bndry-given", "eq.solve(prof, psi=pin, psi_bndry=pb)", "prof.Jtor(eq.R, eq.Z, pin, psi_bndry=pb)"),
                             ("psi_bndry-only", "eq.solve(prof, psi_bndry=pb)", "prof.Jtor(eq.R, eq.Z, eq.psi(), psi_bndry=pb)")):
            pair("solve:" + key, "solve", call + "\nreturn eq.plasma_psi, eq.Jtor, eq.plasmaCurrent()", """
                J = %s
                return step(eq.plasma_psi, J, eq.R, %s, be, slv), J, total(J, Rmin, Rmax, Zmin, Zmax)""" % (J, bc), rule="current density of the profiles on the present flux, then one solve")
            pair("after-limited:" + key, "solve", "eq.is_limited = True\neq.psi_bndry = pa\n" + call + "\nreturn eq.plasma_psi, eq.Jtor, eq.plasmaCurrent()", """
                J = %s
                return step(eq.plasma_psi, J, eq.R, %s, be, slv), J, total(J, Rmin, Rmax, Zmin, Zmax)""" % (J, bc), rule="the same whatever the plasma was before")
        if v == "xpoint":
            # a core which is not the whole domain
            pair("solve:current-core", "solve", """
                eq.solve(prof, Jt)
                eq.solve(prof2, Jt2)
                return eq.plasmaCurrent(), eq.Jtor, eq.mask""", """
                return total(Jt2, Rmin, Rmax, Zmin, Zmax), Jt2, cross(None, None, None, None, None)""", k=dict(kw, models={"freegs.critical.core_mask": "cross"}))
        # axis, boundary and core mask describe the flux now stored
        want = {
            "xpoint": "o[0][2], x[0][2], critical.core_mask(eq.R, eq.Z, eq.psi(), o, x, x[0][2]), False",
            "no-xpoint-free": "o[0][2], None, None, False",
            "no-xpoint-fixed": "o[0][2], eq.psi()[0, 0], None, False",
        }[v]
        for key, st in (("after-solve", "eq.solve(prof, Jt)"), ("initial", ""), ("after-two", "eq.solve(prof, Jt)\neq.solve(prof2, Jt2)"), ("after-limited", "eq.is_limited = True\neq.psi_bndry = pa\neq.solve(prof, Jt)")):
            pair("derived:" + key, "solve", st + "\nreturn eq.psi_axis, eq.psi_bndry, eq.mask, eq.is_limited", st + """
o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
return %s""" % want, "axis flux, boundary flux and core mask are those of the stored flux")
        pair("spline", "solve", "eq.solve(prof, Jt)\nreturn eq.psi_func", "eq.solve(prof, Jt)\nreturn RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.plasma_psi)", "interpolation uses the stored flux")
        if v == "xpoint":
            pair("mask-spline", "solve", "eq.solve(prof, Jt)\nreturn eq.mask_func", "eq.solve(prof, Jt)\nreturn RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.mask)", "interpolation uses the stored mask")
    # limiter: the wall point of largest flux, restricted towards the midplane when there is an X-point
    for v in ("limiter", "limiter+xpoint"):
        sel = "m = np.ravel(np.argwhere(abs(Zl) < abs(0.75 * x[0][1])))\n    Rl = Rl[m]\n    Zl = Zl[m]\n    " if "x" in v[7:] else ""
        fin = "b = max(x[0][2], L)\n    return o[0][2], b, critical.core_mask(eq.R, eq.Z, eq.psi(), o, x, b), b == L, L, Rl[k], Zl[k]" if sel else "return o[0][2], L, None, True, L, Rl[k], Zl[k]"
        st = "eq = make(tok, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, Edges(bnd), Jt, 4, True)"
        ctx.pair("derived[%s]" % v, at("solve"), "a limited plasma is bounded by the wall point of largest flux", HEAD + """
def code(%s):
    %s
    return eq.psi_axis, eq.psi_bndry, eq.mask, eq.is_limited, eq.psi_limit, eq.Rlim, eq.Zlim
def spec(%s):
    %s
    o, x = critical.find_critical(eq.R, eq.Z, eq.psi())
    Rl, Zl = tok.limit_points_R, tok.limit_points_Z
    %sf = RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.psi())
    p = np.zeros(len(Rl))
    for i in range(len(Rl)):
        p[i] = f(Rl[i], Zl[i])[0]
    k = np.argmax(p)
    L = p[k]
    %s
""" % (EQ_ARGS, st, EQ_ARGS, st, sel, fin), raises=False, modulo=canon_boundary, **eq_kw(P, assume_atom=emptiness(VARIANTS[v][1])))
        for key, call, J in (("psi-given", "eq.solve(prof, psi=pin)", "prof.Jtor(eq.R, eq.Z, pin, psi_bndry=None)"),
                             ("psi_bndry-given", "eq.solve(prof, psi=pin, psi_bndry=pb)", "prof.Jtor(eq.R, eq.Z, pin, psi_bndry=pb)"),
                             ("from-profiles", "eq.solve(prof)", "prof.Jtor(eq.R, eq.Z, eq.psi(), psi_bndry=None)")):
            ctx.pair("limited:%s[%s]" % (key, v), at("solve"), "a limited plasma is solved with the flux and boundary flux given", HEAD + """
def code(%s, pin, pb):
    assert pin is not None
    %s
    was = eq.is_limited, eq.psi_limit
    %s
    return eq.Jtor, was
def spec(%s, pin, pb):
    assert pin is not None
    %s
    return %s, (eq.is_limited, eq.psi_limit)
""" % (EQ_ARGS, st, call, EQ_ARGS, st, J), raises=False, modulo=canon_boundary, **eq_kw(P, assume_atom=emptiness(VARIANTS[v][1])))


def only_level(t):
    """with one level and a direct solve the cycle and smoothing counts are irrelevant"""
    from .. import terms as T
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "fcall" and str(r.args[0]).endswith("multigrid.createVcycle"):
                d = dict(r.args[1])
                if d.get("nlevels") is T.ONE and d.get("direct") is T.TRUE:
                    d["ncycle"] = d["niter"] = T.ONE
                    r = mk("fcall", r.args[0], tuple(sorted(d.items())), *r.args[2:])
            memo[x] = r
        return r

    return go(t)


def ind(t):
    import textwrap
    return textwrap.indent(textwrap.dedent(t).strip("\n"), "    ") + "\n"
