"""Forces on coils: J x B of everything else plus the hoop force, and nothing left changed."""
from .common import *

ID = "C14"
RULE = "value number of the reported force equals the J x B force of all other currents plus the hoop force; coil currents afterwards equal those before"
HEAD = """
import numbers
from freegs.coil import Coil, AreaCurrentLimit
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from freegs.pre_calc_coil import PreCalcCoil
from freegs.machine import Machine, Circuit, Solenoid
from freegs.equilibrium import Equilibrium
from freegs.gradshafranov import mu0
from freegs import polygons
class Fake:
    def __init__(self, tok, src):
        self.tok = tok
        self.src = src
    def Br(self, R, Z):
        return self.src.br(R, Z) + self.tok.Br(R, Z)
    def Bz(self, R, Z):
        return self.src.bz(R, Z) + self.tok.Bz(R, Z)
def loop(R, total, area, Br, Bz):
    hoop = mu0 * total * total / (4 * np.pi * R) * (np.log(8 * R / np.sqrt(area / np.pi)) - 0.75)
    return np.array([2 * np.pi * R * (total * Bz + hoop), -2 * np.pi * R * total * Br])
"""
KW = dict(opaque=GREENS + ("polygon_quad", "polygons.area"), pure=GREENS + ("polygon_quad", "br", "bz", "Br", "Bz"), raises=False)


def check(ctx):
    def force(key, w, args, pre, make, total, area, centre, **extra):
        """one coil in a machine with another coil, plasma field from an arbitrary source"""
        k = dict(KW)
        k.update(extra)
        head = HEAD + "def build(%s):\n%s    return %s\n" % (args, pre, make)
        call = "build(%s)" % args
        a = args + ", r2, z2, I2, N2, src"
        for tag, eqn, b in (("plasma", "Fake(tok, src)", "src.b%s(R, Z) + I2 * N2 * unit.controlB%s(R, Z)"), ("vacuum", "None", "I2 * N2 * unit.controlB%s(R, Z)")):
            br, bz = (b % ("r", "r"), b % ("z", "z")) if tag == "plasma" else (b % "r", b % "z")
            ctx.pair("%s:%s" % (key, tag), w, RULE, head + """
def code(%s):
    c = %s
    d = Coil(r2, z2, current=I2, turns=N2)
    tok = Machine([("c", c), ("d", d)])
    f = tok.getForces(%s)
    return f["c"][0], f["c"][1], c.current, d.current, c.turns, c.R, c.Z
def spec(%s):
    c = %s
    unit = Coil(r2, z2)
    R, Z = %s
    f = loop(R, %s, %s, %s, %s)
    return f[0], f[1], I, I2, c.turns, R, Z
""" % (a, call, eqn, a, call, centre, total, area, br, bz), **k)

    wc = ctx.at("coil", "Coil", "getForces")
    force("Coil:fixed-area", wc, "R0, Z0, I, N, A", "    assert isinstance(A, numbers.Number)\n    assert A > 0\n", "Coil(R0, Z0, current=I, turns=N, area=A)", "I * N", "A", "R0, Z0")
    force("Coil:default", wc, "R0, Z0, I, N", "", "Coil(R0, Z0, current=I, turns=N)", "I * N", "abs(I * N) / 3.5e9", "R0, Z0")
    force("Coil:density", ctx.at("coil", "AreaCurrentLimit", "__call__"), "R0, Z0, I, N, J", "", "Coil(R0, Z0, current=I, turns=N, area=AreaCurrentLimit(J))", "I * N", "abs(I * N) / J", "R0, Z0")
    force("ShapedCoil", ctx.at("shaped_coil", "ShapedCoil", "__init__"), "shape, I, N", "    assert len(shape) > 2\n", "ShapedCoil(shape, current=I, turns=N)", "I * N", "abs(polygons.area(shape))", "sum(r for r, z in shape) / len(shape), sum(z for r, z in shape) / len(shape)")
    force("FilamentCoil", ctx.at("filament_coil", "FilamentCoil", "__init__"), "Rf, Zf, shape, I, N", "    assert len(shape) > 2\n    assert Rf is not None\n    assert shape is not None\n    assert len(Rf) == len(Zf)\n", "FilamentCoil(Rf, Zf, shape, current=I, turns=N)", "I * N", "abs(polygons.area(shape))", "sum(r for r, z in shape) / len(shape), sum(z for r, z in shape) / len(shape)", ranks={"Rf": 1, "Zf": 1})
    for n in (2, 3, 5):
        # no outline given: the box around the filaments
        ctx.pair("FilamentCoil:box[%d]" % n, ctx.at("filament_coil", "FilamentCoil", "__init__"), RULE, HEAD + """
def code(Rf, Zf, I, N, r2, z2, I2, N2):
    c = FilamentCoil(Rf, Zf, current=I, turns=N)
    f = Machine([("c", c), ("d", Coil(r2, z2, current=I2, turns=N2))]).getForces()
    return f["c"][0], f["c"][1], c.R, c.Z, c.area
def spec(Rf, Zf, I, N, r2, z2, I2, N2):
    R, Z = (np.min(Rf) + np.max(Rf)) / 2, (np.min(Zf) + np.max(Zf)) / 2
    A = abs((np.max(Rf) - np.min(Rf)) * (np.max(Zf) - np.min(Zf)))
    unit = Coil(r2, z2)
    f = loop(R, I * N, A, I2 * N2 * unit.controlBr(R, Z), I2 * N2 * unit.controlBz(R, Z))
    return f[0], f[1], R, Z, A
""", opaque=GREENS, pure=GREENS + ("Br", "Bz"), raises=False, dense=True, shapes={"Rf": (n,), "Zf": (n,)}, ranks=dict.fromkeys(("I", "N", "r2", "z2", "I2", "N2"), 0))
    force("MultiCoil:list", ctx.at("multi_coil", "MultiCoil", "__init__"), "Rf, Zf, I, J", "    assert hasattr(Rf, '__len__')\n    assert len(Rf) == len(Zf)\n", "MultiCoil(Rf, Zf, current=I, area=AreaCurrentLimit(J))", "I * len(Rf)", "abs(I * len(Rf)) / J", "np.mean(Rf), np.mean(Zf)")
    force("MultiCoil:point", ctx.at("multi_coil", "MultiCoil", "__init__"), "R0, Z0, I, N", "    assert not hasattr(R0, '__len__')\n", "MultiCoil(R0, Z0, current=I, turns=N)", "I * N", "abs(I * N) / 3.5e9", "R0, Z0")
    force("PreCalcCoil", ctx.at("pre_calc_coil", "PreCalcCoil", "__init__"), "shape, Rg, Zg, mR, mZ, mP, I, N", "    assert len(shape) > 2\n", "PreCalcCoil(shape, Rg, Zg, mR, mZ, mP, current=I, turns=N)", "I * N", "abs(polygons.area(shape))", "sum(r for r, z in shape) / len(shape), sum(z for r, z in shape) / len(shape)")

    # later changes of current, turns, area and position count
    ctx.pair("Coil:history", wc, RULE, HEAD + """
def code(R0, Z0, I0, N0, R1, Z1, I1, N1, A1, r2, z2, I2, N2, src):
    assert isinstance(A1, numbers.Number)
    assert A1 > 0
    c = Coil(R0, Z0, current=I0, turns=N0)
    d = Coil(r2, z2, current=I2, turns=N2)
    tok = Machine([("c", c), ("d", d)])
    eq = Fake(tok, src)
    tok.getForces(eq)
    tok["c"].current = I1
    tok["c"].turns = N1
    f1 = tok.getForces(eq)["c"]
    c.R = R1
    c.Z = Z1
    c.area = A1
    f2 = tok.getForces(eq)["c"]
    return f1[0], f1[1], f2[0], f2[1]
def spec(R0, Z0, I0, N0, R1, Z1, I1, N1, A1, r2, z2, I2, N2, src):
    assert isinstance(A1, numbers.Number)
    assert A1 > 0
    u = Coil(r2, z2)
    f1 = loop(R0, I1 * N1, abs(I1 * N1) / 3.5e9, src.br(R0, Z0) + I2 * N2 * u.controlBr(R0, Z0), src.bz(R0, Z0) + I2 * N2 * u.controlBz(R0, Z0))
    f2 = loop(R1, I1 * N1, A1, src.br(R1, Z1) + I2 * N2 * u.controlBr(R1, Z1), src.bz(R1, Z1) + I2 * N2 * u.controlBz(R1, Z1))
    return f1[0], f1[1], f2[0], f2[1]
""", **KW)
    # circuits, solenoids and nothing else
    ctx.pair("Circuit:members", ctx.at("machine", "Circuit", "getForces"), RULE, HEAD + """
def code(r0, z0, N0, A0, m0, r1, z1, N1, A1, m1, I, r2, z2, I2, N2, src):
    assert isinstance(A0, numbers.Number)
    assert A0 > 0
    assert isinstance(A1, numbers.Number)
    assert A1 > 0
    a = Coil(r0, z0, turns=N0, area=A0)
    b = Coil(r1, z1, turns=N1, area=A1)
    d = Coil(r2, z2, current=I2, turns=N2)
    cir = Circuit([("a", a, m0), ("b", b, m1)], current=I)
    tok = Machine([("cir", cir), ("d", d)])
    f = tok.getForces(Fake(tok, src))
    g = f["cir"]
    return g["a"][0], g["a"][1], g["b"][0], g["b"][1], cir.current, a.current, b.current, d.current, list(f.keys()), list(g.keys())
def spec(r0, z0, N0, A0, m0, r1, z1, N1, A1, m1, I, r2, z2, I2, N2, src):
    assert isinstance(A0, numbers.Number)
    assert A0 > 0
    assert isinstance(A1, numbers.Number)
    assert A1 > 0
    a = Coil(r0, z0, turns=N0)
    b = Coil(r1, z1, turns=N1)
    d = Coil(r2, z2, turns=N2)
    fa = loop(r0, I * m0 * N0, A0, src.br(r0, z0) + I * m1 * b.controlBr(r0, z0) + I2 * d.controlBr(r0, z0), src.bz(r0, z0) + I * m1 * b.controlBz(r0, z0) + I2 * d.controlBz(r0, z0))
    fb = loop(r1, I * m1 * N1, A1, src.br(r1, z1) + I * m0 * a.controlBr(r1, z1) + I2 * d.controlBr(r1, z1), src.bz(r1, z1) + I * m0 * a.controlBz(r1, z1) + I2 * d.controlBz(r1, z1))
    return fa[0], fa[1], fb[0], fb[1], I, m0 * I, m1 * I, I2, ["cir", "d"], ["a", "b"]
""", **KW)
    ctx.pair("Circuit:on-neighbour", ctx.at("machine", "Circuit", "Br"), RULE, HEAD + """
def code(r0, z0, N0, m0, r1, z1, N1, m1, I, r2, z2, I2, N2, Rs, Za, Zb, Ns, Is, src):
    a = Coil(r0, z0, turns=N0)
    b = Coil(r1, z1, turns=N1)
    d = Coil(r2, z2, current=I2, turns=N2)
    s = Solenoid(Rs, Za, Zb, Ns, current=Is)
    cir = Circuit([("a", a, m0), ("b", b, m1)], current=I)
    tok = Machine([("d", d), ("cir", cir), ("s", s)])
    f = tok.getForces()
    return f["d"][0], f["d"][1], list(f["s"].keys()), cir.current, a.current, b.current, d.current, s.current
def spec(r0, z0, N0, m0, r1, z1, N1, m1, I, r2, z2, I2, N2, Rs, Za, Zb, Ns, Is, src):
    a = Coil(r0, z0, turns=N0)
    b = Coil(r1, z1, turns=N1)
    s = Solenoid(Rs, Za, Zb, Ns)
    f = loop(r2, I2 * N2, abs(I2 * N2) / 3.5e9, I * m0 * a.controlBr(r2, z2) + I * m1 * b.controlBr(r2, z2) + Is * s.controlBr(r2, z2), I * m0 * a.controlBz(r2, z2) + I * m1 * b.controlBz(r2, z2) + Is * s.controlBz(r2, z2))
    return f[0], f[1], [], I, m0 * I, m1 * I, I2, Is
""", **KW)
    # an equilibrium reports the forces in its own field
    ctx.pair("Equilibrium", ctx.at("equilibrium", "Equilibrium", "getForces"), RULE, EQ_HEAD + """
class Tok:
    def __init__(self, src):
        self.src = src
    def getForces(self, eq=None):
        return self.src.forces("no equilibrium given" if eq is None else "in", eq.psi() if eq is not None else 0)
    def psi(self, R, Z):
        return self.src.p(R, Z)
    def createPsiGreens(self, R, Z):
        return (R, Z)
    def calcPsiFromGreens(self, pgreen):
        return self.src.p(pgreen[0], pgreen[1])
    def Br(self, R, Z):
        return self.src.br(R, Z)
    def Bz(self, R, Z):
        return self.src.bz(R, Z)
def code(src, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, Jt):
    eq = make(Tok(src), prof, Rmin, Rmax, Zmin, Zmax, nx, ny, freeBoundary, Jt, 2, False)
    return eq.getForces()
def spec(src, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, Jt):
    eq = make(Tok(src), prof, Rmin, Rmax, Zmin, Zmax, nx, ny, freeBoundary, Jt, 2, False)
    return src.forces("in", eq.psi())
""", opaque=EQ_OPAQUE + GREENS + ("freeBoundary",), pure=QUERIES + ("forces", "p") + GREENS, raises=False)
    ctx.pair("Equilibrium:field", ctx.at("equilibrium", "Equilibrium", "Br"), RULE, EQ_HEAD + """
from freegs.coil import Coil
from freegs.machine import Machine
def code(Rc, Zc, I, N, r2, z2, I2, N2, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, Jt):
    c = Coil(Rc, Zc, current=I, turns=N)
    d = Coil(r2, z2, current=I2, turns=N2)
    eq = make(Machine([("c", c), ("d", d)]), prof, Rmin, Rmax, Zmin, Zmax, nx, ny, freeBoundary, Jt, 2, False)
    f = eq.getForces()
    return f["c"][0], f["c"][1], c.current, d.current
def spec(Rc, Zc, I, N, r2, z2, I2, N2, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, Jt):
    c = Coil(Rc, Zc, current=I, turns=N)
    d = Coil(r2, z2, current=I2, turns=N2)
    eq = make(Machine([("c", c), ("d", d)]), prof, Rmin, Rmax, Zmin, Zmax, nx, ny, freeBoundary, Jt, 2, False)
    Br = eq.plasmaBr(Rc, Zc) + d.Br(Rc, Zc)
    Bz = eq.plasmaBz(Rc, Zc) + d.Bz(Rc, Zc)
    area = abs(I * N) / 3.5e9
    hoop = 4e-7 * np.pi * (I * N) * (I * N) / (4 * np.pi * Rc) * (np.log(8 * Rc / np.sqrt(area / np.pi)) - 0.75)
    return 2 * np.pi * Rc * (I * N * Bz + hoop), -2 * np.pi * Rc * I * N * Br, I, I2
""", opaque=EQ_OPAQUE + GREENS + ("freeBoundary",), pure=QUERIES + GREENS, raises=False)
