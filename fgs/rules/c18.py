"""Sensors: what each kind reads, and that reading changes nothing else."""
from .common import *
from .. import terms as T

ID = "C18"
RULE = "value number of the sensor's measurement equals the field component, flux or enclosed current stated"
HEAD = """
from freegs import polygons
from freegs.machine import Machine, Circuit, Solenoid, Coil, RogowskiSensor, PoloidalFieldSensor, FluxLoopSensor, Sensor
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from shapely.geometry import Point, Polygon
class Tok:
    def __init__(self, src):
        self.src = src
    def Br(self, R, Z):
        return self.src.br(R, Z)
    def Bz(self, R, Z):
        return self.src.bz(R, Z)
    def psi(self, R, Z):
        return self.src.ps(R, Z)
class Eq:
    def __init__(self, src):
        self.src = src
        self.tokamak = Tok(src)
    def getMachine(self):
        return self.tokamak
    def plasmaCurrent(self):
        return self.src.pc()
    def plasmaBr(self, R, Z):
        return self.src.pbr(R, Z)
    def plasmaBz(self, R, Z):
        return self.src.pbz(R, Z)
    def Br(self, R, Z):
        return self.src.pbr(R, Z) + self.src.br(R, Z)
    def Bz(self, R, Z):
        return self.src.pbz(R, Z) + self.src.bz(R, Z)
    def psiRZ(self, R, Z):
        return self.src.pps(R, Z) + self.src.ps(R, Z)
class Grid:
    def __init__(self, R, Z, J, dR, dZ):
        self.R = R
        self.Z = Z
        self.Jtor = J
        self.dR = dR
        self.dZ = dZ
"""
VALS = ("pc", "br", "bz", "ps", "pbr", "pbz", "pps")


def canon_shapes(t):
    """a polygon is the same from any corner in either direction; intersection is symmetric"""
    def go(x, memo={}):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "call" and r.args[0].split(".")[-1] == "Polygon" and len(r.args[1]) == 1 and r.args[1][0].op == "list":
                v = list(r.args[1][0].args)
                v = [mk("tuple", *p.args) if p.op in ("list", "arr", "tuple") else p for p in v]
                if len(v) > 1 and T.eqv(v[0], v[-1]):
                    v = v[:-1]
                ids = [T.ident(p) for p in v]
                k = ids.index(min(ids))
                f = v[k:] + v[:k]
                b = [f[0]] + f[1:][::-1]
                if [T.ident(p) for p in b] < [T.ident(p) for p in f]:
                    f = b
                r = mk("call", r.args[0], (mk("list", *f),), *r.args[2:])
            elif r.op == "mcall" and r.args[1] == "intersection" and len(r.args[2]) == 1:
                a, b = r.args[0], r.args[2][0]
                if T.ident(b) < T.ident(a):
                    r = mk("mcall", b, r.args[1], (a,), *r.args[3:])
            memo[x] = r
        return r

    return go(t)


def check(ctx):
    kw = dict(pure=VALS + ("contains", "intersection", "Point", "Polygon"), ranks={n + "()": 0 for n in VALS}, modulo=canon_shapes, raises=False)

    def two(key, at, args, pre, code, spec, **extra):
        k = dict(kw)
        k.update(extra)
        ctx.pair(key, at, RULE, HEAD + "def code(%s):\n%s\ndef spec(%s):\n%s\n" % (args, ind(pre + "\n" + code), args, ind(pre + "\n" + spec)), **k)

    wp = ctx.at("machine", "PoloidalFieldSensor", "get_measure")
    two("field:vacuum", wp, "R, Z, th, src", "", "s = PoloidalFieldSensor(R, Z, th)\ns.get_measure(Tok(src), None)\nreturn s.measurement", "return src.br(R, Z) * np.cos(th) + src.bz(R, Z) * np.sin(th)")
    two("field:plasma", wp, "R, Z, th, src", "", "s = PoloidalFieldSensor(R, Z, th)\ns.get_measure(Tok(src), Eq(src))\nreturn s.measurement", "return (src.br(R, Z) + src.pbr(R, Z)) * np.cos(th) + (src.bz(R, Z) + src.pbz(R, Z)) * np.sin(th)")
    wf = ctx.at("machine", "FluxLoopSensor", "get_measure")
    two("flux:vacuum", wf, "R, Z, src", "", "s = FluxLoopSensor(R, Z)\ns.get_measure(Tok(src), None)\nreturn s.measurement", "return src.ps(R, Z)")
    two("flux:plasma", wf, "R, Z, src", "", "s = FluxLoopSensor(R, Z)\ns.get_measure(Tok(src), Eq(src))\nreturn s.measurement", "return src.ps(R, Z) + src.pps(R, Z)")

    wr = ctx.at("machine", "RogowskiSensor", "get_measure")
    poly = "poly = Polygon([(r, z) for r, z in zip(Rs, Zs)])"
    A = "Rs, Zs, "
    def rog(key, args, pre, coil, inside, at=wr, **extra):
        two("rogowski:" + key, at, A + args, pre, "s = RogowskiSensor(Rs, Zs)\ntok = Machine([('c', %s)])\ns.get_measure(tok, None)\nreturn s.measurement" % coil, poly + "\nreturn %s" % inside, **extra)

    rog("Coil", "R0, Z0, I, N", "", "Coil(R0, Z0, current=I, turns=N)", "I * N if poly.contains(Point(R0, Z0)) else 0", ctx.at("coil", "Coil", "inShape"))
    sh = "assert len(shape) > 2"
    rog("ShapedCoil", "shape, I, N", sh, "ShapedCoil(shape, current=I, turns=N)", "I * N * poly.intersection(Polygon([p for p in shape])).area / abs(polygons.area(shape))", ctx.at("shaped_coil", "ShapedCoil", "inShape"), opaque=("polygon_quad", "polygons.area"))
    rog("FilamentCoil", "Rf, Zf, shape, I, N", sh + "\nassert Rf is not None\nassert shape is not None\nassert len(Rf) == len(Zf)", "FilamentCoil(Rf, Zf, shape, current=I, turns=N)", "I * N * sum((1 if poly.contains(Point(Rf[i], Zf[i])) else 0) for i in range(len(Rf))) / len(Rf)", ctx.at("filament_coil", "FilamentCoil", "inShape"), opaque=("polygon_quad", "polygons.area"), ranks={"Rf": 1, "Zf": 1})
    rog("MultiCoil:list", "Rf, Zf, I, mir, pol", "assert hasattr(Rf, '__len__')\nassert len(Rf) == len(Zf)", "MultiCoil(Rf, Zf, current=I, mirror=mir, polarity=pol)", "I * sum((pol[0] if poly.contains(Point(Rf[i], Zf[i])) else 0) + (pol[1] if mir and poly.contains(Point(Rf[i], -Zf[i])) else 0) for i in range(len(Rf)))", ctx.at("multi_coil", "MultiCoil", "inShape"))
    rog("MultiCoil:point", "R0, Z0, I, N, mir, pol", "assert not hasattr(R0, '__len__')", "MultiCoil(R0, Z0, current=I, turns=N, mirror=mir, polarity=pol)", "I * N * ((pol[0] if poly.contains(Point(R0, Z0)) else 0) + (pol[1] if mir and poly.contains(Point(R0, -Z0)) else 0))", ctx.at("multi_coil", "MultiCoil", "inShape"))
    rog("Solenoid", "R0, Za, Zb, Ns, I", "", "Solenoid(R0, Za, Zb, Ns, current=I)", "I * sum(1 for z in np.linspace(Za, Zb, int(Ns)) if poly.contains(Point(R0, z)))", ctx.at("machine", "Solenoid", "inShape"))
    rog("Circuit", "r0, z0, N0, m0, r1, z1, N1, m1, I", "", "Circuit([('a', Coil(r0, z0, turns=N0), m0), ('b', Coil(r1, z1, turns=N1), m1)], current=I)", "I * (m0 * N0 * (1 if poly.contains(Point(r0, z0)) else 0) + m1 * N1 * (1 if poly.contains(Point(r1, z1)) else 0))", ctx.at("machine", "Circuit", "inShape"))
    two("rogowski:all", wr, A + "r0, z0, N0, I0, r1, z1, N1, I1", "", "s = RogowskiSensor(Rs, Zs)\ntok = Machine([('a', Coil(r0, z0, I0, N0)), ('b', Coil(r1, z1, I1, N1))])\ns.get_measure(tok, None)\ns.get_measure(tok, None)\nreturn s.measurement, tok['a'].current, tok['b'].current",
        poly + "\nreturn I0 * N0 * (1 if poly.contains(Point(r0, z0)) else 0) + I1 * N1 * (1 if poly.contains(Point(r1, z1)) else 0), I0, I1")
    two("rogowski:plasma", wr, A + "R, Z, J, dR, dZ", "g = Grid(np.array([[R[i, j] for j in range(3)] for i in range(2)]), np.array([[Z[i, j] for j in range(3)] for i in range(2)]), np.array([[J[i, j] for j in range(3)] for i in range(2)]), dR, dZ)",
        "s = RogowskiSensor(Rs, Zs)\ns.get_measure(Machine([]), g)\nreturn s.measurement",
        poly + "\nt = 0.0\nfor i in range(2):\n    for j in range(3):\n        r, z = R[i, j], Z[i, j]\n        t = t + J[i, j] * poly.intersection(Polygon([(r - dR / 2, z + dZ / 2), (r + dR / 2, z + dZ / 2), (r + dR / 2, z - dZ / 2), (r - dR / 2, z - dZ / 2)])).area\nreturn t",
        dense=True, shapes={"R": (2, 3), "Z": (2, 3), "J": (2, 3)}, ranks={"dR": 0, "dZ": 0, "Rs": 1, "Zs": 1, ".area": 0})

    # the machine reads every sensor, switched-off sensors keep what they had
    wm = ctx.at("machine", "Machine", "takeMeasurements")
    two("machine", wm, "R, Z, th, r0, z0, I0, N0, src, old, nm, w", "", """
f = PoloidalFieldSensor(R, Z, th, name=nm, weight=w)
l = FluxLoopSensor(Z, R)
off = FluxLoopSensor(R, Z, status=False, measurement=old)
off2 = PoloidalFieldSensor(R, Z, th, status=False, measurement=old)
off3 = RogowskiSensor([R, R, Z], [Z, R, R], status=False, measurement=old)
c = Coil(r0, z0, current=I0, turns=N0)
tok = Machine([('c', c)], sensors=[f, off, l, off2, off3])
tok.takeMeasurements()
a = f.measurement, l.measurement
tok.takeMeasurements(Eq(src))
c.current = 2 * I0
b = l.measurement
tok.takeMeasurements()
return a, b, l.measurement, off.measurement, off2.measurement, off3.measurement, f.weight, f.name, c.current
""", """
c = Coil(r0, z0, turns=N0)
b = src.ps(Z, R) + src.pps(Z, R)
return (I0 * (c.controlBr(R, Z) * np.cos(th) + c.controlBz(R, Z) * np.sin(th)), I0 * c.controlPsi(Z, R)), b, 2 * I0 * c.controlPsi(Z, R), old, old, old, w, nm, 2 * I0
""", opaque=GREENS, pure=kw["pure"] + GREENS)
    two("machine:none", wm, "c", "", "Machine([]).takeMeasurements()\nreturn 1", "return 1", raises=True)


def ind(s):
    return "\n".join("    " + l for l in s.strip("\n").split("\n"))
