"""Saving and loading: coil records and HDF5 files (h5py replaced by an in-memory reference model)."""
from .common import *

ID = "C05"
RULE = "value after writing and reading back"
HEAD = """
from freegs.dump import OutputFile
from freegs.equilibrium import Equilibrium
from freegs.machine import Coil, Circuit, Solenoid, Wall, Machine
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from freegs import boundary
class Dim:
    def __init__(self):
        self.label = ""
    def attach_scale(self, x):
        pass
class DS:
    def __init__(self, data, dtype):
        self.data = __stored__(data)
        self.dtype = dtype
        self.attrs = {}
        self.dims = [Dim(), Dim()]
        self.shape = np.shape(data)
    def make_scale(self, x=""):
        pass
    def __getitem__(self, k):
        return self.data[k]
    def __len__(self):
        return len(self.data)
    def __iter__(self):
        return self.data
class Grp:
    def __init__(self):
        self.d = {}
    def __getitem__(self, k):
        return self.d[k]
    def __setitem__(self, k, v):
        self.d[k] = v
    def __contains__(self, k):
        return k in self.d
    def create_dataset(self, name, shape=None, dtype=None, data=None):
        self.d[name] = DS(data, dtype)
        return self.d[name]
    def create_group(self, name):
        self.d[name] = Grp()
        return self.d[name]
    def require_group(self, name):
        if name not in self.d:
            self.d[name] = Grp()
        return self.d[name]
    def items(self):
        return list(reversed(list(self.d.items())))
    def keys(self):
        return [k for k, v in self.items()]
    def values(self):
        return [v for k, v in self.items()]
class Mem(OutputFile):
    def __init__(self):
        self.handle = Grp()
class Tok:
    def __init__(self, coils, wall, R0):
        self.coils = coils
        self.wall = wall
        self.R0 = R0
    def psi(self, R, Z):
        return 0.0 * R
    def createPsiGreens(self, R, Z):
        return 0.0
    def calcPsiFromGreens(self, pgreen):
        return 0.0
def through(eq):
    f = Mem()
    f.write_equilibrium(eq)
    return f.read_equilibrium()
def tokamak(coils, w):
    return Machine(coils, w)
"""

BOX = "[(a1, b1), (a2, b2), (a3, b3), (a4, b4)]"
PAR = "R, Z, I, N, c, a1, b1, a2, b2, a3, b3, a4, b4, R2, Z2, I2, npt, Rs, Z0, Z1, m1, m2, x, y, pol1, pol2"
COMMON = "c2.current, c2.turns, c2.control, c2.R, c2.Z"
KINDS = [
    # name, constructor, observed, module/class
    ("Coil", "Coil(R, Z, current=I, turns=N, control=bool(c))", COMMON, "coil"),
    ("ShapedCoil", "ShapedCoil(%s, current=I, turns=N, control=bool(c), npoints=6)" % BOX, "c2.current, c2.turns, c2.control, c2.shape, c2.controlPsi(x, y), c2.area", "shaped_coil"),
    ("ShapedCoil:triangle", "ShapedCoil([(a1, b1), (a2, b2), (a3, b3)], current=I, turns=N, control=bool(c), npoints=1)", "c2.current, c2.turns, c2.control, c2.shape, c2.controlPsi(x, y), c2.area, c2.npoints_per_triangle", "shaped_coil"),
    ("ShapedCoil:ten", "ShapedCoil([(a1 + k, b1 + 2 * k) for k in range(10)], current=I, turns=0, control=bool(c), npoints=3)", "c2.current, c2.turns, c2.control, c2.shape, c2.area, c2.npoints_per_triangle", "shaped_coil"),
    ("FilamentCoil:many", "FilamentCoil(%s, %s, %s, current=I, turns=N, control=bool(c))" % tuple("[" + ", ".join(f % {"k": k} for k in range(n)) + "]" for f, n in (("a1 + %(k)d", 120), ("b1 - %(k)d", 120), ("(a1 + %(k)d, b1 + 2 * %(k)d)", 10))), "c2.current, c2.turns, c2.control, list(c2.points), list(c2.shape)", "filament_coil"),
    ("FilamentCoil:one", "FilamentCoil([R], [Z], current=I, turns=N, control=bool(c))", "c2.current, c2.turns, c2.control, list(c2.points), c2.controlPsi(x, y)", "filament_coil"),
    ("Circuit:one", "Circuit([('A', Coil(a1, b1, turns=N, current=I2, control=False), -0.5)], current=I, control=bool(c))",
     "c2.current, c2.control, [(l, k.R, k.Z, k.current, k.turns, k.control, m) for l, k, m in c2.coils], c2.controlPsi(x, y), c2.psi(x, y)", "machine"),
    ("Solenoid:reversed", "Solenoid(0.25, 1.5, -0.5, 7.5, current=I, control=bool(c))", "c2.Rs, c2.Zsmin, c2.Zsmax, c2.Ns, c2.current, c2.control", "machine"),
    ("FilamentCoil", "FilamentCoil([a1, a2, a3], [b1, b2, b3], %s, current=I, turns=N, control=bool(c))" % BOX, COMMON + ", c2.controlPsi(x, y), list(c2.shape)", "filament_coil"),
    ("MultiCoil", "MultiCoil([a1, a2, a3], [b1, b2, b3], current=I, turns=N, control=bool(c), mirror=False, polarity=[pol1, pol2])", COMMON + ", c2.controlPsi(x, y)", "multi_coil"),
    ("MultiCoil:mirrored", "MultiCoil([a1, a2, a3], [b1, b2, b3], current=I, turns=N, control=bool(c), mirror=True, polarity=[pol1, pol2])", COMMON + ", c2.controlPsi(x, y)", "multi_coil"),
    ("MultiCoil:point", "MultiCoil(R, Z, current=I, turns=N, control=bool(c), mirror=True, polarity=[pol1, pol2])", COMMON + ", c2.controlPsi(x, y)", "multi_coil"),
    ("Circuit", "Circuit([('A', Coil(a1, b1, turns=N), m1), ('B', Coil(a2, b2, turns=3), m2)], current=I, control=bool(c))",
     "c2.current, c2.control, [(l, k.R, k.Z, k.current, k.turns, k.control, m) for l, k, m in c2.coils], c2.controlPsi(x, y), c2.psi(x, y)", "machine"),
    ("Solenoid", "Solenoid(Rs, Z0, Z1, 7, current=I, control=bool(c))", "c2.Rs, c2.Zsmin, c2.Zsmax, c2.Ns, c2.current, c2.control, c2.controlPsi(x, y)", "machine"),
]


def check(ctx):
    P = ctx.prog
    kw = dict(opaque=("polygon_quad", "triangulate") + GREENS, pure=("polygon_quad", "triangulate") + GREENS, dense=True, unroll=150, raises=False, ranks={"R": 0, "Z": 0, "I": 0})
    for name, ctor, obs, mod in KINDS:
        cn = name.split(":")[0]
        for change, st in (("", ""), (":changed", "c1.current = I2\n    c1.control = not bool(c)\n    ") ) if name != "MultiCoil:point" else (("", ""),):
            ctx.pair("record:" + name + change, ctx.at(mod, cn, "to_numpy_array/from_numpy_array"), RULE, HEAD + """
def code(%s):
    c1 = %s
    %sc2 = %s.from_numpy_array(c1.to_numpy_array())
    return %s
def spec(%s):
    c2 = %s
    %sreturn %s
""" % (PAR, ctor, st, cn, obs, PAR, ctor, st.replace("c1", "c2"), obs), **kw)
        if cn == "MultiCoil":
            continue
        ctx.pair("file:" + name, ctx.at("dump", "OutputFile", "write_equilibrium/read_equilibrium"), RULE, HEAD + """
def code(%s):
    c1 = %s
    f = Mem()
    f.write_equilibrium(Equilibrium(Machine([("Z9 ", Coil(R2, Z2, current=I2)), ("p1", Coil(Z2, R2, current=I)), ("P1", c1)]), 0.1, 2.0, -1.0, 1.0, 5, 5))
    t = f.read_equilibrium().tokamak
    d = dict(t.coils)
    if not ("P1" in d and "p1" in d and "Z9 " in d):
        return "labels"
    c2 = d["P1"]
    return (%s), c2.__class__.__name__, d["Z9 "].R, d["Z9 "].Z, d["Z9 "].current, d["p1"].R, len(t.coils)
def spec(%s):
    c2 = %s
    return (%s), "%s", R2, Z2, I2, Z2, 3
""" % (PAR, ctor, obs, PAR, ctor, obs, cn), **dict(kw, opaque=kw["opaque"] + EQ_OPAQUE, pure=kw["pure"] + EQ_OPAQUE, opaque_classes=("GSsparse", "GSsparse4thOrder")))
    ek = eq_kw(P, shapes={"pin": (5, 9), "Jt": (5, 9), "wr": (4,), "wz": (4,), "slv()": (5, 9), "core_mask()": (5, 9)}, raises=False)
    ek.pop("hints")
    ek["pure"] = tuple(ek["pure"]) + ("slv", sym("slv"))
    A = "Rmin, Rmax, Zmin, Zmax, pin, I, wr, wz, R0, R, Z, Ic, prof, Jt, slv"
    for bnd in ("freeBoundary", "fixedBoundary", "freeBoundaryHagenow"):
        order, lim, wall = {"freeBoundary": (4, "True", True), "fixedBoundary": (2, "False", False), "freeBoundaryHagenow": (2, "False", True)}[bnd]
        mk_ = "Equilibrium(Machine([('P', Coil(R, Z, current=Ic))], %s, R0=R0), Rmin, Rmax, Zmin, Zmax, 5, 9, boundary=boundary.%s, psi=pin, current=I, order=%d, check_limited=%s)" % ("Wall(wr, wz)" if wall else "None", bnd, order, lim)
        for key, st in (("", ""),) + ((("after-solve", "eq.setSolver(slv)\n    eq.solve(prof, Jt)\n    "),) if bnd == "fixedBoundary" else ()):
            obs = "eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.R, eq.Z, eq.nx, eq.ny, eq.plasma_psi, eq.psi(), eq.plasmaCurrent(), eq.order, eq.check_limited, eq._applyBoundary, eq.tokamak.R0"
            if wall:
                obs += ", 0 if eq.tokamak.wall is None else [a for a in eq.tokamak.wall.R], 0 if eq.tokamak.wall is None else [a for a in eq.tokamak.wall.Z]"
            else:
                obs += ", eq.tokamak.wall"
            ctx.pair("file:equilibrium[%s%s]" % (bnd, key), ctx.at("dump", "OutputFile", "write_equilibrium/read_equilibrium"), RULE, HEAD + """
def code(%s):
    eq = %s
    %seq = through(eq)
    return %s
def spec(%s):
    eq = %s
    %sreturn %s
""" % (A, mk_, st, obs, A, mk_, st, obs), **ek)
    # grids of ordinary size: nothing that is kept depends on the number of points
    for nx, ny in ((17, 33), (65, 17)) + (((65, 65),) if ctx.tier != "quick" else ()):
        big = dict(ek, shapes=dict(ek["shapes"], pin=(nx, ny)))
        for bnd in ("freeBoundary", "freeBoundaryHagenow", "fixedBoundary"):
            mk_ = "Equilibrium(Machine([('P', Coil(R, Z, current=Ic))], None, R0=R0), Rmin, Rmax, Zmin, Zmax, %d, %d, boundary=boundary.%s, psi=pin, current=I, order=2, check_limited=False)" % (nx, ny, bnd)
            obs = "eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.nx, eq.ny, eq.plasma_psi, eq.plasmaCurrent(), eq.order, eq.check_limited, eq._applyBoundary, eq.tokamak.R0"
            ctx.pair("file:equilibrium[%s:%dx%d]" % (bnd, nx, ny), ctx.at("dump", "OutputFile", "write_equilibrium/read_equilibrium"), RULE, HEAD + """
def code(%s):
    eq = through(%s)
    return %s
def spec(%s):
    eq = %s
    return %s
""" % (A, mk_, obs, A, mk_, obs), **big)
