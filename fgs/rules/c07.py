"""Discrete Grad-Shafranov operators: stencils on every row, identity on boundary rows."""
from .common import *

ID = "C07"
RULE = "every matrix entry equals the finite-difference formula (all entries, grid size fixed, spacing and radius symbolic)"
HEAD = """
from freegs.gradshafranov import GSElliptic, GSsparse, GSsparse4thOrder
def edge(i, j, nx, ny):
    return i == 0 or j == 0 or i == nx - 1 or j == ny - 1
def second(Rmin, Rmax, Zmin, Zmax, nx, ny):
    A = np.zeros((nx * ny, nx * ny))
    dR = (Rmax - Rmin) / (nx - 1)
    dZ = (Zmax - Zmin) / (ny - 1)
    for i in range(nx):
        for j in range(ny):
            r = i * ny + j
            if edge(i, j, nx, ny):
                A[r, r] = 1.0
            else:
                R = Rmin + i * dR
                A[r, r] = -2 / dR**2 - 2 / dZ**2
                A[r, r + 1] = 1 / dZ**2
                A[r, r - 1] = 1 / dZ**2
                A[r, r + ny] = 1 / dR**2 - 1 / (2 * R * dR)
                A[r, r - ny] = 1 / dR**2 + 1 / (2 * R * dR)
    return A
c1 = [(-2, 1), (-1, -8), (1, 8), (2, -1)]
o1 = [(-1, -3), (0, -10), (1, 18), (2, -6), (3, 1)]
c2 = [(-2, -1), (-1, 16), (0, -30), (1, 16), (2, -1)]
o2 = [(-1, 10), (0, -15), (1, -4), (2, 14), (3, -6), (4, 1)]
def fourth(Rmin, Rmax, Zmin, Zmax, nx, ny):
    A = np.zeros((nx * ny, nx * ny))
    dR = (Rmax - Rmin) / (nx - 1)
    dZ = (Zmax - Zmin) / (ny - 1)
    for i in range(nx):
        for j in range(ny):
            r = i * ny + j
            if edge(i, j, nx, ny):
                A[r, r] = 1.0
            else:
                R = Rmin + i * dR
                sz = -1 if j == ny - 2 else 1
                sx = -1 if i == nx - 2 else 1
                for k, w in (o2 if j == 1 or j == ny - 2 else c2):
                    A[r, r + sz * k] += w / (12 * dZ**2)
                for k, w in (o2 if i == 1 or i == nx - 2 else c2):
                    A[r, r + sx * k * ny] += w / (12 * dR**2)
                for k, w in (o1 if i == 1 or i == nx - 2 else c1):
                    A[r, r + sx * k * ny] -= sx * w / (12 * R * dR)
    return A
"""


def check(ctx):
    for name, ref, sizes in (("GSsparse", "second", [(3, 3), (4, 6), (6, 5)]), ("GSsparse4thOrder", "fourth", [(6, 7), (8, 6)])):
        if ctx.tier == "thorough":
            sizes = sizes + [(9, 9), (7, 10)]
        for nx, ny in sizes:
            ctx.pair("%s[%dx%d]" % (name, nx, ny), ctx.at("gradshafranov", name, "__call__"), RULE, HEAD + """
def code(Rmin, Rmax, Zmin, Zmax):
    return %s(Rmin, Rmax, Zmin, Zmax)(%d, %d)
def spec(Rmin, Rmax, Zmin, Zmax):
    return %s(Rmin, Rmax, Zmin, Zmax, %d, %d)
""" % (name, nx, ny, ref, nx, ny), dense=True)
    for nx, ny in [(3, 4), (5, 4)]:
        ctx.pair("GSElliptic[%dx%d]" % (nx, ny), ctx.at("gradshafranov", "GSElliptic", "__call__"), "the operator applied to a field equals the matrix on interior points and is zero on the edge", HEAD + """
def code(Rmin, dR, dZ, psi):
    return GSElliptic(Rmin)(psi, dR, dZ)
def spec(Rmin, dR, dZ, psi):
    nx, ny = %d, %d
    v = np.reshape(second(Rmin, Rmin + dR * (nx - 1), 0.0, dZ * (ny - 1), nx, ny).dot(np.reshape(psi, -1)), (nx, ny))
    v[0, :] = 0.0
    v[-1, :] = 0.0
    v[:, 0] = 0.0
    v[:, -1] = 0.0
    return v
""" % (nx, ny), shapes={"psi": (nx, ny)})
    ctx.pair("GSElliptic.diag", ctx.at("gradshafranov", "GSElliptic", "diag"), RULE, HEAD + """
def code(Rmin, dR, dZ):
    return GSElliptic(Rmin).diag(dR, dZ)
def spec(Rmin, dR, dZ):
    return -2 / dR**2 - 2 / dZ**2
""")
