"""Changing the grid: refine, coarsen and newDomain keep the equilibrium."""
from .common import *
from . import c22 as C22
from fractions import Fraction as Fr

ID = "C21"
EQ = C22.HEAD + """
from freegs.equilibrium import refine, coarsen, newDomain
from freegs.boundary import freeBoundary, fixedBoundary
class Tk(Tok):
    def createPsiGreens(self, R, Z):
        return R, Z
    def calcPsiFromGreens(self, pgreen):
        return each(tk, pgreen[0], pgreen[1])
class Spline:
    def __init__(self, x=None, y=None, z=None):
        if x.shape[0] != z.shape[0] or y.shape[0] != z.shape[1]:
            raise ValueError("x and z must have the same size")
        self.key = x[0], x[1], y[0], y[1], z[0, 1], z[1, 1], z[2, 1], z[1, 2]
    def __call__(self, r, z, dx=0, dy=0, grid=True):
        if grid:
            return np.array([[ps(*self.key, r[i], z[j], dx, dy) for j in range(z.shape[0])] for i in range(r.shape[0])])
        return each(lambda a, b: ps(*self.key, a, b, dx, dy), r, z)
    def ev(self, r, z, dx=0, dy=0):
        return self(r, z, dx, dy, False)
def tk(r, z):
    return 0
def ps(x0, x1, y0, y1, a, b, c, d, r, z, dx, dy):
    return 0
def jt(k, r, z, p, b):
    return 0
def bb(a, c, r, z):
    return 0
def so(nx, ny, order, dr, x, b, i, j):
    return 0
def pg(r, z, a, b):
    return 0
def cm(a, b, i, j):
    return 0
def mask(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
    return np.array([[cm(psi[0, 1], psi[2, 1], i, j) for j in range(psi.shape[1])] for i in range(psi.shape[0])])
def romb(y, dx=1.0, axis=-1, show=False):
    if np.ndim(y) == 2:
        return np.array([romb(y[i, :], dx) for i in range(y.shape[0])]) if axis in (-1, 1) else np.array([romb(y[:, i], dx) for i in range(y.shape[1])])
    s = 0.0
    for k in range(y.shape[0]):
        s = s + (k + 1) * y[k]
    return s * dx
class Profiles(Prof):
    def __init__(self):
        self.calls = 0
    def Jtor(self, R, Z, psi, psi_bndry=None):
        self.calls = self.calls + 1
        k = self.calls
        self.last = psi_bndry
        return each(lambda i, j: jt(k, R[i, j], Z[i, j], psi[i, j], 0 if psi_bndry is None else psi_bndry), np.array([[i for j in range(R.shape[1])] for i in range(R.shape[0])]), np.array([[j for j in range(R.shape[1])] for i in range(R.shape[0])]))
def bnd(eq, J, psi):
    n, m = psi.shape[0], psi.shape[1]
    for i in range(n):
        for j in range(m):
            if i in (0, n - 1) or j in (0, m - 1):
                psi[i, j] = bb(J[1, 1], J[1, 0], eq.R[i, j], eq.Z[i, j])
class Op2:
    def __init__(self, Rmin, Rmax, Zmin, Zmax):
        self.order, self.dom = 2, [Rmin, Rmax, Zmin, Zmax]
class Op4:
    def __init__(self, Rmin, Rmax, Zmin, Zmax):
        self.order, self.dom = 4, [Rmin, Rmax, Zmin, Zmax]
class Slv:
    def __init__(self, nx, ny, generator, nlevels=1, ncycle=1, niter=1, direct=True):
        self.nx, self.ny, self.gen = nx, ny, generator
    def __call__(self, x, b):
        d = self.gen.dom
        return np.array([[so(self.nx, self.ny, self.gen.order, d[0] + 3 * d[1] + 5 * d[2] + 7 * d[3], x[1, 1], b[i, j], i, j) for j in range(b.shape[1])] for i in range(b.shape[0])])
def make(ppsi, Ip, order, limited, boundary, prof=True, ctl=None):
    eq = Equilibrium(Tk(Src(None, None, None, None)), 1.0, 2.0, -0.5, 0.75, ppsi.shape[0], ppsi.shape[1], boundary=boundary, psi=ppsi, current=Ip, order=order, check_limited=limited)
    if prof:
        eq._profiles = Profiles()
    if ctl is not None:
        eq.control = ctl
    return eq
def look(eq, new):
    b = new._applyBoundary
    g = new._solver
    return [new.tokamak is eq.tokamak, new.Rmin, new.Rmax, new.Zmin, new.Zmax, new.R, new.Z, [v for v in new.R_1D], [v for v in new.Z_1D], new.nx, new.ny, new.order, new.check_limited, b is freeBoundary, b is fixedBoundary, b is bnd,
        new.plasma_psi, new.psi(), new.psi_axis, new.psi_bndry, new.mask, new.plasmaCurrent(), g.nx, g.ny, g.gen.order, g.gen.dom, new.psiRZ(1.25, 0.5),
        [hasattr(eq, "_profiles"), hasattr(new, "_profiles"), (new._profiles is eq._profiles) if hasattr(new, "_profiles") and hasattr(eq, "_profiles") else 0], new.Jtor]
def old(eq):
    return [eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.R, eq.Z, eq.nx, eq.ny, eq.order, eq.check_limited, eq.plasma_psi, eq.psi(), eq.psi_axis, eq.psi_bndry, eq.mask, eq.plasmaCurrent(), eq._solver.nx, eq._solver.gen.order, eq.psiRZ(1.25, 0.5), eq.Jtor]
"""
OPAQUE = tuple(k for k in C22.OPAQUE if k != "cross") + ("tk", "jt", "bb", "so", "pg", "cm")
MODELS = {"scipy.interpolate.RectBivariateSpline": "Spline", "scipy.integrate.romb": "romb", "freegs.critical.find_critical": "crit", "freegs.critical.core_mask": "mask",
          "freegs.multigrid.createVcycle": "Slv", "freegs.gradshafranov.GSsparse": "Op2", "freegs.gradshafranov.GSsparse4thOrder": "Op4"}


def pair(ctx, key, at, rule, code, spec, n=(3, 3), extra=""):
    a = "ppsi, Ip, ctl"
    ctx.pair(key, at, rule, EQ + "def code(%s):\n%sdef spec(%s):\n%s" % (a, C22._ind(code), a, C22._ind(spec)), dense=True, models=MODELS, opaque=OPAQUE, pure=OPAQUE,
             shapes={"ppsi": n}, ranks=dict({k + "()": 0 for k in OPAQUE}, Ip=0, ctl=0), assume_atom=C22.numbers([(0, 0)], [(0, 0)]), lazy=40, unroll=200)


KINDS = [("free-2", 'make(ppsi, Ip, 2, False, freeBoundary)'), ("fixed-4-limited", 'make(ppsi, Ip, 4, True, fixedBoundary, ctl="control")'), ("own-4", 'make(ppsi, Ip, 4, False, bnd, ctl="control")'), ("bare", 'make(ppsi, Ip, 2, True, bnd, prof=False)')]
NEW = """
eq = {make}
J, c = eq.Jtor, getattr(eq, "control", 5)
psi = {psi}
new = Equilibrium(eq.tokamak, 1.0, 2.0, -0.5, 0.75, psi.shape[0], psi.shape[1], boundary=eq._applyBoundary, psi=psi, current=Ip, order=eq.order, check_limited=eq.check_limited)
if hasattr(eq, "_profiles"):
    new._profiles = eq._profiles
return look(eq, new) + [c] + old({make})"""
GET = "eq = {make}\nnew = {call}\nreturn look(eq, new) + [getattr(new, 'control', 5)] + old(eq)"


def check(ctx):
    at = ctx.at("equilibrium", None, "refine")
    rule = "the same domain, machine, boundary, order, limiter setting, current, profiles and control; the plasma flux is the interpolated flux at the new points"
    fine = "np.array([[ps(1.0, 1.0 + 1.0 / {a}, -0.5, -0.5 + 1.25 / {b}, ppsi[0, 1], ppsi[1, 1], ppsi[2, 1], ppsi[1, 2], 1.0 + i / {n}, -0.5 + 1.25 * j / {m}, 0, 0) for j in range({m} + 1)] for i in range({n} + 1)])"
    for nm, mk in KINDS:
        for nx, ny, call, n, m in ((3, 3, "refine(eq)", 5, 5), (3, 5, "refine(eq)", 5, 9), (3, 3, "refine(eq, nx=4)", 4, 5), (5, 3, "refine(eq, ny=3)", 9, 3), (3, 3, "refine(eq, 3, 6)", 3, 6)):
            if (nx, ny, call) != (3, 5, "refine(eq)") and nm in ("free-2", "bare"):
                continue
            pair(ctx, "refine:%s:%dx%d:%s" % (nm, nx, ny, call[7:-1]), at, rule, GET.format(make=mk, call=call), NEW.format(make=mk, psi=fine.format(a=nx - 1, b=ny - 1, n=n - 1, m=m - 1)), n=(nx, ny))
    at = ctx.at("equilibrium", None, "coarsen")
    rule = "the same domain, machine, boundary, order, limiter setting, current, profiles and control; the plasma flux is that of the shared points"
    for nm, mk in KINDS:
        for nx, ny in ((5, 5), (5, 9), (9, 5)):
            if nm in ("free-2", "bare") and (nx, ny) != (5, 9):
                continue
            pair(ctx, "coarsen:%s:%dx%d" % (nm, nx, ny), at, rule, GET.format(make=mk, call="coarsen(eq)"), NEW.format(make=mk, psi="np.array([[ppsi[2 * i, 2 * j] for j in range(%d)] for i in range(%d)])" % ((ny + 1) // 2, (nx + 1) // 2)), n=(nx, ny))
    for nx, ny in ((3, 4), (4, 3), (4, 4)):
        pair(ctx, "coarsen:indivisible:%dx%d" % (nx, ny), at, "a grid that cannot be halved stays as it is, in an equilibrium of its own", GET.format(make=KINDS[2][1], call="coarsen(eq)") .replace("return", "new.plasma_psi[1, 1] = 5.0\nreturn"),
             NEW.format(make=KINDS[2][1], psi="ppsi.copy()").replace("return", "new.plasma_psi[1, 1] = 5.0\nreturn"), n=(nx, ny))
    at = ctx.at("equilibrium", None, "newDomain")
    rule = "missing limits and numbers of points are those of the old grid; the plasma current density of the old equilibrium, interpolated, gives the first flux, which is then solved for again with the same profiles"
    for nm, mk in (("free", 'make(ppsi, Ip, 4, False, bnd)'), ("limited", 'make(ppsi, Ip, 2, True, bnd)')):
        for args, dom, n, m in (("", (1.0, 2.0, -0.5, 0.75), 3, 4), ("Rmin=0.5", (0.5, 2.0, -0.5, 0.75), 3, 4), ("Rmax=4.0, nx=4", (1.0, 4.0, -0.5, 0.75), 4, 4), ("Zmin=-2.0, ny=5", (1.0, 2.0, -2.0, 0.75), 3, 5), ("Zmax=3.0", (1.0, 2.0, -0.5, 3.0), 3, 4),
                                ("0.25, 3.5, 0, 2, 3, 5", (0.25, 3.5, 0, 2, 3, 5)[:4], 3, 5), ("Zmin=0, Zmax=1", (1.0, 2.0, 0, 1), 3, 4)):
            if nm == "limited" and args not in ("", "0.25, 3.5, 0, 2, 3, 5"):
                continue
            spec = """
eq = %s
prof = eq._profiles
new = Equilibrium(eq.tokamak, %s, %s, %s, %s, %d, %d, boundary=bnd, order=eq.order, check_limited=eq.check_limited)
J = prof.Jtor(eq.R, eq.Z, eq.psi(), eq.psi_bndry)
f = Spline(eq.R[:, 0], eq.Z[0, :], J)
J = f(new.R, new.Z, grid=False)
start = new.plasma_psi
bnd(new, J, start)
b = np.array([[start[i, j] if i in (0, %d) or j in (0, %d) else -mu0 * new.R[i, j] * J[i, j] for j in range(%d)] for i in range(%d)])
new._updatePlasmaPsi(new._solver(start, b))
new.solve(prof)
return look(eq, new) + [prof.calls] + old(%s)""" % ((mk,) + dom + (n, m, n - 1, m - 1, m, n, mk))
            pair(ctx, "newDomain:%s:%s" % (nm, args or "defaults"), at, rule, "eq = %s\nnew = newDomain(eq%s)\nreturn look(eq, new) + [eq._profiles.calls] + old(eq)" % (mk, ", " + args if args else ""), spec, n=(3, 4))
