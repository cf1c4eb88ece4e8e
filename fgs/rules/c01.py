"""Linear superposition of coil fields."""
from .common import *

ID = "C01"
RULE = "value numbers of flux/field queries equal the superposition formula"


def check(ctx):
    P = ctx.prog
    c = sym("c")
    for short, name in COILS:
        cls = P.cls(short, name)
        kw = dict(hints={c: cls}, opaque=GREENS, pure=QUERIES)
        for q, u in (("psi", "controlPsi"), ("Br", "controlBr"), ("Bz", "controlBz")):
            ctx.pair(
                "%s.%s=current*%s" % (name, q, u), ctx.at(short, name, q), RULE,
                """
                def code(c, R, Z):
                    return c.%s(R, Z)
                def spec(c, R, Z):
                    return c.current * c.%s(R, Z)
                """ % (q, u), **kw)
        ctx.pair(
            "%s.greens" % name, ctx.at(short, name, "calcPsiFromGreens"), RULE,
            """
            def code(c, R, Z):
                return c.calcPsiFromGreens(c.createPsiGreens(R, Z))
            def spec(c, R, Z):
                return c.psi(R, Z)
            """, **kw)
        # the cached response must not depend on the current at the time it was made
        ctx.pair(
            "%s.greens-later-current" % name, ctx.at(short, name, "createPsiGreens"), RULE,
            """
            def code(c, R, Z, I):
                g = c.createPsiGreens(R, Z)
                c.current = I
                return c.calcPsiFromGreens(g)
            def spec(c, R, Z, I):
                return I * c.controlPsi(R, Z)
            """, **kw)
    # circuits: every member class
    coils = sym("coils")
    self_coils = attr(sym("c"), "coils")
    circ = P.cls("machine", "Circuit")
    for short, name in COILS:
        if name == "Solenoid" and ctx.tier == "quick":
            continue
        member = P.cls(short, name)
        for q, u in (("psi", "controlPsi"), ("Br", "controlBr"), ("Bz", "controlBz")):
            kw = dict(hints={c: circ}, opaque=GREENS, pure=QUERIES, elem_class={(coils, 1): member, (self_coils, 1): member})
            w = ctx.at("machine", "Circuit", q)
            ctx.pair(
                "Circuit[%s].%s" % (name, q), w, RULE,
                """
                from freegs.machine import Circuit
                def code(coils, I, R, Z):
                    return Circuit(coils, current=I).%s(R, Z)
                def spec(coils, I, R, Z):
                    return sum(m * I * coil.%s(R, Z) for label, coil, m in coils)
                """ % (q, u), **kw)
            ctx.pair(
                "Circuit[%s].%s-after-change" % (name, q), w, RULE,
                """
                def code(c, I, R, Z):
                    c.current = I
                    return c.%s(R, Z)
                def spec(c, I, R, Z):
                    return sum(m * I * coil.%s(R, Z) for label, coil, m in c.coils)
                """ % (q, u), **kw)
            ctx.pair(
                "Circuit[%s].%s" % (name, u), ctx.at("machine", "Circuit", u), RULE,
                """
                def code(c, R, Z):
                    return c.%s(R, Z)
                def spec(c, R, Z):
                    return sum(m * coil.%s(R, Z) for label, coil, m in c.coils)
                """ % (u, u), **kw)
        ctx.pair(
            "Circuit[%s].greens" % name, ctx.at("machine", "Circuit", "calcPsiFromGreens"), RULE,
            """
            def code(c, I, R, Z):
                g = c.createPsiGreens(R, Z)
                c.current = I
                return c.calcPsiFromGreens(g)
            def spec(c, I, R, Z):
                return sum(m * I * coil.controlPsi(R, Z) for label, coil, m in c.coils)
            """, **kw)
        ctx.pair(
            "Circuit[%s].current" % name, ctx.where(circ.lookup("setters", "current") or circ.lookup("methods", "__init__")), RULE,
            """
            def code(c, I):
                c.current = I
                return ([coil.current for label, coil, m in c.coils], c.current)
            def spec(c, I):
                return ([m * I for label, coil, m in c.coils], I)
            """, **kw)
    mach = P.cls("machine", "Machine")
    m = sym("m")
    kw = dict(hints={m: mach}, pure=QUERIES)
    for q in ("psi", "Br", "Bz"):
        ctx.pair(
            "Machine.%s" % q, ctx.at("machine", "Machine", q), RULE,
            """
            def code(m, R, Z):
                return m.%s(R, Z)
            def spec(m, R, Z):
                return sum(coil.%s(R, Z) for label, coil in m.coils)
            """ % (q, q), **kw)
    ctx.pair(
        "Machine.greens", ctx.at("machine", "Machine", "calcPsiFromGreens"), RULE,
        """
        def code(m, R, Z):
            return m.calcPsiFromGreens(m.createPsiGreens(R, Z))
        def spec(m, R, Z):
            return sum(coil.calcPsiFromGreens(coil.createPsiGreens(R, Z)) for label, coil in m.coils)
        """, **kw)
    scenarios(ctx)


SCENE = """
from freegs.coil import Coil
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from freegs.machine import Machine, Circuit, Solenoid, MirroredCoil
from freegs.gradshafranov import Greens, GreensBr, GreensBz
def build(I0, Ic, Im, Is, If):
    return Machine([
        ("P", Coil(r0, z0, current=I0, turns=n0)),
        ("C", Circuit([("P", Coil(r1, z1, turns=n1), m1), ("B", FilamentCoil([r2, r3], [z2, z3], shape=[(1.0, 0.0), (2.0, 0.0), (2.0, 1.0)], turns=n2), m2)], current=Ic)),
        ("M", MirroredCoil(r4, z4, current=Im, turns=n4, symmetric=False)),
        ("S", Solenoid(rs, za, zb, 3, current=Is)),
        ("F", MultiCoil([r5, r6], [z5, z6], current=If, mirror=True, polarity=[1.0, -1.0])),
    ])
def total(G, R, Z, I0, Ic, Im, Is, If):
    return (I0 * n0 * G(r0, z0, R, Z)
        + Ic * m1 * n1 * G(r1, z1, R, Z) + Ic * m2 * n2 * (G(r2, z2, R, Z) + G(r3, z3, R, Z)) / 2
        + Im * n4 * (G(r4, z4, R, Z) - G(r4, -z4, R, Z))
        + Is * (G(rs, za, R, Z) + G(rs, (za + zb) / 2, R, Z) + G(rs, zb, R, Z))
        + If * (G(r5, z5, R, Z) + G(r6, z6, R, Z) - G(r5, -z5, R, Z) - G(r6, -z6, R, Z)))
"""
GEOM = "r0, z0, n0, r1, z1, n1, m1, r2, z2, r3, z3, n2, m2, r4, z4, n4, rs, za, zb, r5, z5, r6, z6"


def scenarios(ctx):
    """one machine with every kind of member: sequences of current changes, points of every shape"""
    names = GEOM.split(", ")
    cur = ("I0", "Ic", "Im", "Is", "If")
    head = SCENE.replace("def build(", "def build(" + GEOM + ", ").replace("def total(G, R, Z,", "def total(" + GEOM + ", G, R, Z,")
    a = GEOM + ", " + ", ".join(cur) + ", Jc, J0, R, Z, R2, Z2"
    for tag, shapes in (("point", {}), ("line", {"R": (3,), "Z": (3,), "R2": (2,), "Z2": (2,)}), ("grid", {"R": (3, 2), "Z": (3, 2), "R2": (2, 3), "Z2": (2, 3)}), ("row", {"R": (3, 1), "Z": (1, 2), "R2": (2, 1), "Z2": (1, 1)})):
        rk = dict.fromkeys(names + list(cur) + ["Jc", "J0"] + ([] if shapes else ["R", "Z", "R2", "Z2"]), 0)
        kw = dict(dense=True, raises=False, opaque=GREENS, pure=GREENS, vectorised=GREENS, shapes=shapes, ranks=rk)
        w = ctx.at("machine", "Machine", "psi")
        for zero in (False, True):
            jc = "0.0" if zero else "Jc"
            key = "scene[%s%s]" % (tag, ", circuit off" if zero else "")
            for q, G in (("psi", "Greens"), ("Br", "GreensBr"), ("Bz", "GreensBz")):
                ctx.pair(key + "." + q, ctx.at("machine", "Machine", q), RULE, head + """
def code(%s):
    m = build(%s, I0, Ic, Im, Is, If)
    first = m.%s(R, Z)
    m["C"].current = %s
    m["P"].current = J0
    second = m.%s(R, Z)
    m["C"].current = Ic
    return first, second, m.%s(R2, Z2), m["P"].current, m["C"].current, m["C"]["P"].current
def spec(%s):
    return (total(%s, %s, R, Z, I0, Ic, Im, Is, If), total(%s, %s, R, Z, J0, %s, Im, Is, If), total(%s, %s, R2, Z2, J0, Ic, Im, Is, If), J0, Ic, m1 * Ic)
""" % (a, GEOM, q, jc, q, q, a, GEOM, G, GEOM, G, jc, GEOM, G), **kw)
            ctx.pair(key + ".greens", ctx.at("machine", "Machine", "calcPsiFromGreens"), RULE, head + """
def code(%s):
    m = build(%s, I0, Ic, Im, Is, If)
    g = m.createPsiGreens(R, Z)
    h = m.createPsiGreens(R2, Z2)
    first = m.calcPsiFromGreens(g)
    m["C"].current = %s
    m["P"].current = J0
    second = m.calcPsiFromGreens(g)
    other = m.calcPsiFromGreens(h)
    m["C"].current = Ic
    return first, second, other, m.calcPsiFromGreens(g), m.psi(R, Z)
def spec(%s):
    return (total(%s, Greens, R, Z, I0, Ic, Im, Is, If), total(%s, Greens, R, Z, J0, %s, Im, Is, If), total(%s, Greens, R2, Z2, J0, %s, Im, Is, If), total(%s, Greens, R, Z, J0, Ic, Im, Is, If), total(%s, Greens, R, Z, J0, Ic, Im, Is, If))
""" % (a, GEOM, jc, a, GEOM, GEOM, jc, GEOM, jc, GEOM, GEOM), **kw)
