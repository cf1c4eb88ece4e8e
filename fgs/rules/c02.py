"""Unit response of every coil type is its turns times the normalised sum of loop responses."""
from .common import *

ID = "C02"
RULE = "value number of a freshly constructed coil's flux/field equals current * turns * (weighted) Green's function sum"
HEAD = """
from freegs.coil import Coil
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil, populate_with_fils
from freegs.multi_coil import MultiCoil
from freegs.pre_calc_coil import PreCalcCoil
from freegs.machine import Solenoid, MirroredCoil
from freegs.quadrature import polygon_quad
from freegs.gradshafranov import Greens, GreensBr, GreensBz
from scipy.interpolate import RectBivariateSpline
"""
QS = (("psi", "Greens"), ("Br", "GreensBr"), ("Bz", "GreensBz"))


def check(ctx):
    P = ctx.prog
    kw = dict(opaque=GREENS + ("polygon_quad", "populate_with_fils", "area"), pure=GREENS + ("polygon_quad", "populate_with_fils", "area"), ranks={"Rfil": 1, "Zfil": 1, "R0": 0, "Z0": 0, "populate_with_fils()": 2})

    def two(key, short, cname, meth, code, spec, args, pre="", **extra):
        k2 = dict(kw)
        k2.update(extra)
        w = ctx.at(short, cname, meth) if cname else "freegs/machine.py:MirroredCoil"
        ctx.pair(key, w, RULE, HEAD + "def code(%s):\n%s    return %s\ndef spec(%s):\n%s    return %s\n" % (args, pre, code, args, pre, spec), modulo=spline_points, **k2)

    for q, G in QS:
        u = {"psi": "controlPsi", "Br": "controlBr", "Bz": "controlBz"}[q]
        two("Coil.%s" % q, "coil", "Coil", u, "Coil(R0, Z0, current=I, turns=N).%s(R, Z)" % q, "I * N * %s(R0, Z0, R, Z)" % G, "R0, Z0, I, N, R, Z")
        two("Coil.%s:default" % q, "coil", "Coil", "__init__", "(Coil(R0, Z0, I).%s(R, Z), Coil(R0, Z0).%s(R, Z))" % (q, q), "(I * %s(R0, Z0, R, Z), 0.0)" % G, "R0, Z0, I, R, Z")
        two("ShapedCoil.%s" % q, "shaped_coil", "ShapedCoil", u,
            "ShapedCoil(shape, current=I, turns=N, npoints=n).%s(R, Z)" % q,
            "I * N * sum(w * %s(r, z, R, Z) for r, z, w in polygon_quad(shape, n=n))" % G,
            "shape, I, N, n, R, Z", pre="    assert len(shape) > 2\n")
        two("FilamentCoil.%s" % q, "filament_coil", "FilamentCoil", u,
            "FilamentCoil(Rfil, Zfil, shape, current=I, turns=N).%s(R, Z)" % q,
            "I * N * sum(%s(Rfil[i], Zfil[i], R, Z) for i in range(len(Rfil))) / len(Rfil)" % G,
            "Rfil, Zfil, shape, I, N, R, Z", pre="    assert len(shape) > 2\n    assert Rfil is not None\n    assert shape is not None\n    assert len(Rfil) == len(Zfil)\n")
        two("FilamentCoil.%s:point" % q, "filament_coil", "FilamentCoil", u,
            "FilamentCoil(R0, Z0, current=I, turns=N).%s(R, Z)" % q,
            "I * N * %s(R0, Z0, R, Z)" % G,
            "R0, Z0, I, N, R, Z", pre="    assert R0 is not None\n")
        two("FilamentCoil.%s:populated" % q, "filament_coil", "FilamentCoil", u,
            "FilamentCoil(shape=shape, Nfils=nf, current=I, turns=N).%s(R, Z)" % q,
            "I * N * sum(%s(populate_with_fils(shape, nf)[0][i], populate_with_fils(shape, nf)[1][i], R, Z) for i in range(len(populate_with_fils(shape, nf)[0]))) / len(populate_with_fils(shape, nf)[0])" % G,
            "shape, nf, I, N, R, Z", pre="    assert len(shape) > 2\n    assert shape is not None\n")
        two("MultiCoil.%s:list" % q, "multi_coil", "MultiCoil", u,
            "MultiCoil(Rfil, Zfil, current=I, mirror=mir, polarity=pol).%s(R, Z)" % q,
            "I * (sum(pol[0] * %s(Rfil[i], Zfil[i], R, Z) for i in range(len(Rfil))) + (sum(pol[1] * %s(Rfil[i], -Zfil[i], R, Z) for i in range(len(Rfil))) if mir else 0.0))" % (G, G),
            "Rfil, Zfil, I, mir, pol, R, Z", pre="    assert hasattr(Rfil, '__len__')\n    assert len(Rfil) == len(Zfil)\n")
        two("MultiCoil.%s:point" % q, "multi_coil", "MultiCoil", u,
            "MultiCoil(R0, Z0, current=I, turns=N, mirror=mir, polarity=pol).%s(R, Z)" % q,
            "I * N * (pol[0] * %s(R0, Z0, R, Z) + (pol[1] * %s(R0, -Z0, R, Z) if mir else 0.0))" % (G, G),
            "R0, Z0, I, N, mir, pol, R, Z", pre="    assert not hasattr(R0, '__len__')\n")
        two("MultiCoil.%s:default" % q, "multi_coil", "MultiCoil", "__init__",
            "MultiCoil(Rfil, Zfil, current=I).%s(R, Z)" % q,
            "I * sum(%s(Rfil[i], Zfil[i], R, Z) for i in range(len(Rfil)))" % G,
            "Rfil, Zfil, I, R, Z", pre="    assert hasattr(Rfil, '__len__')\n    assert len(Rfil) == len(Zfil)\n")
        m = {"psi": "mP", "Br": "mR", "Bz": "mZ"}[q]
        two("PreCalcCoil.%s" % q, "pre_calc_coil", "PreCalcCoil", u,
            "PreCalcCoil(shape, Rg, Zg, mR, mZ, mP, current=I, turns=N).%s(R, Z)" % q,
            "I * N * RectBivariateSpline(np.transpose(Rg)[:, 0], np.transpose(Zg)[0, :], np.transpose(%s))(R, Z, grid=False)" % m,
            "shape, Rg, Zg, mR, mZ, mP, I, N, R, Z", pre="    assert len(shape) > 2\n")
        two("Solenoid.%s" % q, "machine", "Solenoid", u,
            "Solenoid(Rs, Z1, Z2, Ns, current=I).%s(R, Z)" % q,
            "I * sum(%s(Rs, Zk, R, Z) for Zk in np.linspace(Z1, Z2, int(Ns)))" % G,
            "Rs, Z1, Z2, Ns, I, R, Z")
        two("MirroredCoil.%s" % q, "machine", None, "MirroredCoil",
            "MirroredCoil(R0, Z0, current=I, turns=N, symmetric=s).%s(R, Z)" % q,
            "I * N * (%s(R0, Z0, R, Z) + (1.0 if s else -1.0) * %s(R0, -Z0, R, Z))" % (G, G),
            "R0, Z0, I, N, s, R, Z")
    scenes(ctx)


def scenes(ctx):
    """given coils, points of every shape; repeated locations, locations in the midplane, one location"""
    N = "r0, z0, r1, z1, r2, I, N, R, Z, p0, p1"
    CASES = [
        ("coil", "coil", "Coil", "Coil(r0, z0, turns=N)", "N * {G}(r0, z0, R, Z)"),
        ("coil, midplane", "coil", "Coil", "Coil(r0, 0.0, turns=3)", "3 * {G}(r0, 0.0, R, Z)"),
        ("shaped", "shaped_coil", "ShapedCoil", "ShapedCoil([(1.0, 0.0), (1.5, 0.0), (1.5, 0.25), (1.0, 0.25)], turns=N, npoints=3)", "N * sum([w * {G}(r, z, R, Z) for r, z, w in quad(None, n=3)])"),
        ("filaments", "filament_coil", "FilamentCoil", "FilamentCoil([r0, r1, r0], [z0, z1, z0], shape=[(1.0, 0.0), (2.0, 0.0), (2.0, 1.0)], turns=N)", "N * (2 * {G}(r0, z0, R, Z) + {G}(r1, z1, R, Z)) / 3"),
        ("filaments, array", "filament_coil", "FilamentCoil", "FilamentCoil(np.array([r0, r1]), np.array([z0, z0]), turns=N)", "N * ({G}(r0, z0, R, Z) + {G}(r1, z0, R, Z)) / 2"),
        ("one filament", "filament_coil", "FilamentCoil", "FilamentCoil([r0], [z0], turns=N)", "N * {G}(r0, z0, R, Z)"),
        ("multi", "multi_coil", "MultiCoil", "MultiCoil([r0, r1, r0], [z0, z1, z0])", "2 * {G}(r0, z0, R, Z) + {G}(r1, z1, R, Z)"),
        ("multi, one", "multi_coil", "MultiCoil", "MultiCoil([r0], [z0], turns=7)", "{G}(r0, z0, R, Z)"),
        ("multi, point", "multi_coil", "MultiCoil", "MultiCoil(r0, z0, turns=N, polarity=[p0, p1])", "N * p0 * {G}(r0, z0, R, Z)"),
        ("multi, mirrored", "multi_coil", "MultiCoil", "MultiCoil([r0, r1], [z0, z1], mirror=True, polarity=[p0, p1])", "p0 * ({G}(r0, z0, R, Z) + {G}(r1, z1, R, Z)) + p1 * ({G}(r0, -z0, R, Z) + {G}(r1, -z1, R, Z))"),
        ("multi, mirrored in place", "multi_coil", "MultiCoil", "MultiCoil([r0, r1], [0.0, 0.0], mirror=True)", "2 * ({G}(r0, 0.0, R, Z) + {G}(r1, 0.0, R, Z))"),
        ("multi, mirrored array", "multi_coil", "MultiCoil", "MultiCoil(np.array([r0, r0]), np.array([z0, z1]), mirror=True, polarity=[1.0, -1.0])", "{G}(r0, z0, R, Z) + {G}(r0, z1, R, Z) - {G}(r0, -z0, R, Z) - {G}(r0, -z1, R, Z)"),
        ("solenoid, 2", "machine", "Solenoid", "Solenoid(r0, z0, z1, 2)", "{G}(r0, z0, R, Z) + {G}(r0, z1, R, Z)"),
        ("solenoid, 5", "machine", "Solenoid", "Solenoid(r0, z0, z1, 5)", "sum([{G}(r0, z0 + (z1 - z0) * k / 4, R, Z) for k in range(5)])"),
        ("solenoid, midplane", "machine", "Solenoid", "Solenoid(r0, -z1, z1, 3)", "{G}(r0, -z1, R, Z) + {G}(r0, 0.0, R, Z) + {G}(r0, z1, R, Z)"),
        ("mirrored", "machine", "Circuit", "MirroredCoil(r0, z0, turns=N)", "N * ({G}(r0, z0, R, Z) + {G}(r0, -z0, R, Z))"),
        ("mirrored, opposite", "machine", "Circuit", "MirroredCoil(r0, z0, turns=N, symmetric=False)", "N * ({G}(r0, z0, R, Z) - {G}(r0, -z0, R, Z))"),
    ]
    CASES += [
        ("multi, numbers", "multi_coil", "MultiCoil", "MultiCoil([1.5, 2.0, 1.5], [0.5, 0.25, -0.5], mirror=False)", "{G}(1.5, 0.5, R, Z) + {G}(2.0, 0.25, R, Z) + {G}(1.5, -0.5, R, Z)"),
        ("filaments, numbers", "filament_coil", "FilamentCoil", "FilamentCoil([1.5, 2.0, 1.5], [0.5, 0.25, 0.5], turns=2)", "2 * (2 * {G}(1.5, 0.5, R, Z) + {G}(2.0, 0.25, R, Z)) / 3"),
    ]
    head = HEAD + """
def quad(polygon, n=6):
    return [(1.125, 0.125, 0.25 * n), (1.25, 0.0625 * n, 0.5), (1.125, 0.125, 0.75)]
"""
    for tag, shapes in (("point", {}), ("line", {"R": (2,), "Z": (2,)}), ("grid", {"R": (2, 3), "Z": (2, 3)}), ("row", {"R": (2, 1), "Z": (1, 3)})):
        kw = dict(dense=True, raises=False, models={"freegs.quadrature.polygon_quad": "quad"}, opaque=GREENS, pure=GREENS, vectorised=GREENS, shapes=shapes, ranks=dict.fromkeys([x for x in N.split(", ") if x not in shapes], 0))
        for name, short, cname, make, want in CASES:
            for q, G in QS:
                u = {"psi": "controlPsi", "Br": "controlBr", "Bz": "controlBz"}[q]
                ctx.pair("scene[%s, %s].%s" % (name, tag, q), ctx.at(short, cname, u), RULE, head + """
def code(%s):
    c = %s
    a = c.%s(R, Z)
    c.current = I
    return a, c.%s(R, Z)
def spec(%s):
    u = %s
    return u, I * u
""" % (N, make, u, q, N, want.format(G=G)), **kw)
