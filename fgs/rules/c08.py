"""Boundary conditions on the plasma flux."""
from .common import *

ID = "C08"
RULE = "value of every grid point after the call (all points, grid size fixed, coordinates and current symbolic)"
HEAD = """
from freegs.boundary import fixedBoundary, freeBoundary, freeBoundaryHagenow
from freegs.gradshafranov import Greens
from scipy.integrate import romb
def spacing(eq):
    return eq.R[1, 0] - eq.R[0, 0], eq.Z[0, 1] - eq.Z[0, 0]
"""
STENCIL = "[(0, 25 / 12), (1, -4), (2, 3), (3, -4 / 3), (4, 1 / 4)]"


def check(ctx):
    P = ctx.prog
    base = dict(opaque=("Greens",), pure=("Greens", "callSolver"), vectorised=("Greens",), finite=True)
    for nx, ny in ((5, 5), (5, 9)) + (((9, 5),) if ctx.tier == "thorough" else ()):
        sh = (nx, ny)
        kw = dict(base, shapes={"psi": sh, "Jtor": sh, ".R": sh, ".Z": sh, "callSolver()": sh})
        z = "[%dx%d]" % sh
        ctx.pair("fixedBoundary" + z, ctx.at("boundary", None, "fixedBoundary"), RULE, HEAD + """
def code(eq, Jtor, psi):
    r = fixedBoundary(eq, Jtor, psi)
    return psi, Jtor, eq.R, eq.Z
def spec(eq, Jtor, psi):
    nx, ny = %d, %d
    for i in range(nx):
        for j in range(ny):
            if i == 0 or j == 0 or i == nx - 1 or j == ny - 1:
                psi[i, j] = 0.0
    return psi, Jtor, eq.R, eq.Z
""" % sh, **kw)
        ctx.pair("freeBoundary" + z, ctx.at("boundary", None, "freeBoundary"), RULE, HEAD + """
def code(eq, Jtor, psi):
    freeBoundary(eq, Jtor, psi)
    return psi, Jtor, eq.R, eq.Z
def spec(eq, Jtor, psi):
    nx, ny = %d, %d
    dR, dZ = spacing(eq)
    for i in range(nx):
        for j in range(ny):
            if i == 0 or j == 0 or i == nx - 1 or j == ny - 1:
                f = Jtor * Greens(eq.R, eq.Z, eq.R[i, j], eq.Z[i, j])
                f[i, j] = 0.0
                psi[i, j] = romb(romb(f)) * dR * dZ
    return psi, Jtor, eq.R, eq.Z
""" % sh, **kw)
        ctx.pair("freeBoundaryHagenow" + z, ctx.at("boundary", None, "freeBoundaryHagenow"), RULE, HEAD + """
C = %s
def code(eq, Jtor, psi):
    freeBoundaryHagenow(eq, Jtor, psi)
    return psi, Jtor, eq.R, eq.Z
def spec(eq, Jtor, psi):
    nx, ny = %d, %d
    R, Z = eq.R, eq.Z
    dR, dZ = spacing(eq)
    rhs = R * Jtor
    for i in range(nx):
        for j in range(ny):
            if i == 0 or j == 0 or i == nx - 1 or j == ny - 1:
                rhs[i, j] = 0.0
    U = eq.callSolver(psi, rhs)
    dd = np.sqrt(dR**2 + dZ**2)
    def normal(i, j):
        cx = i == 0 or i == nx - 1
        cy = j == 0 or j == ny - 1
        si = 0 if not cx else (1 if i == 0 else -1)
        sj = 0 if not cy else (1 if j == 0 else -1)
        h = dd if cx and cy else (dR if cx else dZ)
        return sum(w * U[i + si * k, j + sj * k] for k, w in C) / h
    L = [normal(0, j) for j in range(ny)]
    Rt = [normal(nx - 1, j) for j in range(ny)]
    Dn = [normal(i, 0) for i in range(nx)]
    Up = [normal(i, ny - 1) for i in range(nx)]
    def at(r, z):
        a = romb(np.array([Greens(R[0, j], Z[0, j], r, z) * L[j] / R[0, j] for j in range(ny)])) * dZ
        a = a + romb(np.array([Greens(R[nx - 1, j], Z[nx - 1, j], r, z) * Rt[j] / R[nx - 1, j] for j in range(ny)])) * dZ
        a = a + romb(np.array([Greens(R[i, 0], Z[i, 0], r, z) * Dn[i] / R[i, 0] for i in range(nx)])) * dR
        return a + romb(np.array([Greens(R[i, ny - 1], Z[i, ny - 1], r, z) * Up[i] / R[i, ny - 1] for i in range(nx)])) * dR
    e = 1e-2
    for i in range(nx):
        psi[i, 0] = at(R[i, 0], Z[i, 0] - e)
        psi[i, ny - 1] = at(R[i, ny - 1], Z[i, ny - 1] + e)
    for j in range(ny):
        psi[0, j] = at(R[0, j] - e, Z[0, j])
        psi[nx - 1, j] = at(R[nx - 1, j] + e, Z[nx - 1, j])
    return psi, Jtor, eq.R, eq.Z
""" % ((STENCIL,) + sh), **kw)
