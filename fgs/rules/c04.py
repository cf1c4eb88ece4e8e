"""Assigning R or Z of a coil translates the whole coil rigidly."""
from .common import *
from .c02 import HEAD, QS
from .. import terms as T
from ..framework import drop_raises

ID = "C04"
RULE = "value numbers of position, outline, flux and field after assigning R / Z equal those of the translated coil"


def translated(ctx, key, where, ax, make, q, args, pre, kw):
    """the moved coil's value is the unmoved coil's with every source location displaced"""
    m = ctx.prog.spec_module("import numpy as np\n" + HEAD + "def code({a}, X, R, Z):\n{p}    c = {m}\n    c.{ax} = X\n    return c.{q}(R, Z)\ndef before({a}, X, R, Z):\n{p}    c = {m}\n    return (X - c.{ax}, c.{q}(R, Z))\n".format(a=args, p=pre, m=make, ax=ax, q=q))
    new = drop_raises(ctx.run(m.funcs["code"], **kw).result)
    old = drop_raises(ctx.run(m.funcs["before"], **kw).result)
    if new is None or old is None or old.op != "tuple":
        ctx.undecided(key, where, RULE, "construction or move always raises")
        return
    shift, base = old.args
    pname = ax + "c"
    seen = []

    def go(x, memo={}):
        r = memo.get((x, shift))
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "fcall" and str(r.args[0]).split(".")[-1] in GREENS:
                seen.append(r)
                r = mk("fcall", r.args[0], tuple((n, T.add(v, shift) if n == pname else v) for n, v in r.args[1]), *r.args[2:])
            memo[(x, shift)] = r
        return r

    go.__defaults__ = ({},)
    spec = go(base)
    if not seen:
        ctx.undecided(key, where, RULE, "no Green's function call found in the unmoved value")
        return
    ctx.compare(key, where, RULE, new, spec)


def check(ctx):
    P = ctx.prog
    kw = dict(opaque=GREENS + ("polygon_quad", "populate_with_fils", "area"), pure=GREENS + ("polygon_quad", "populate_with_fils", "area"),
              ranks={"Rfil": 1, "Zfil": 1, "R0": 0, "Z0": 0, "populate_with_fils()": 2})

    def two(key, short, cname, ax, make, code, spec, args, pre="", **extra):
        k2 = dict(kw)
        k2.update(extra)
        cls = P.cls(short, cname)
        w = ctx.where(cls.lookup("setters", ax) or cls.lookup("methods", "__init__"))
        mv = "    c.%s = X\n" % ax
        text = HEAD + "def code(%s):\n%s    c = %s\n%s    return %s\ndef spec(%s):\n%s    c = %s\n    return %s\n" % (args, pre, make, mv, code, args, pre, make, spec)
        ctx.pair(key, w, RULE, text, raises=False, modulo=spline_points, **k2)

    for ax, other in (("R", "Z"), ("Z", "R")):
        d = "(X - c.%s)" % ax

        def sh(r, z):
            return "%s + %s, %s" % (r, d, z) if ax == "R" else "%s, %s + %s" % (r, z, d)
        coils = [
            ("Coil", "coil", "Coil(R0, Z0, current=I, turns=N)", "R0, Z0, I, N", "", None),
            ("ShapedCoil", "shaped_coil", "ShapedCoil(shape, current=I, turns=N, npoints=n)", "shape, I, N, n", "    assert len(shape) > 2\n", "shape"),
            ("FilamentCoil", "filament_coil", "FilamentCoil(Rfil, Zfil, shape, current=I, turns=N)", "Rfil, Zfil, shape, I, N",
             "    assert len(shape) > 2\n    assert Rfil is not None\n    assert shape is not None\n    assert len(Rfil) == len(Zfil)\n", "shape"),
            ("FilamentCoil:populated", "filament_coil", "FilamentCoil(shape=shape, current=I, turns=N)", "shape, I, N", "    assert len(shape) > 2\n    assert shape is not None\n", "shape"),
            ("MultiCoil", "multi_coil", "MultiCoil(Rfil, Zfil, current=I)", "Rfil, Zfil, I", "    assert hasattr(Rfil, '__len__')\n    assert len(Rfil) == len(Zfil)\n", None),
            ("MultiCoil:point", "multi_coil", "MultiCoil(R0, Z0, current=I, turns=N)", "R0, Z0, I, N", "    assert not hasattr(R0, '__len__')\n", None),
        ]
        for nm, short, make, args, pre, outline in coils:
            cname = nm.split(":")[0]
            cls = P.cls(short, cname)
            w = ctx.where(cls.lookup("setters", ax) or cls.lookup("methods", "__init__"))
            for q, G in QS:
                translated(ctx, "%s.%s:%s" % (nm, ax, q), w, ax, make, q, args, pre, kw)
            two("%s.%s:position" % (nm, ax), short, cname, ax, make, "(c.%s, c.%s, c.current, c.control, c.turns)" % (ax, other), "(X, c.%s, c.current, c.control, c.turns)" % other, args + ", X", pre)
            if outline:
                two("%s.%s:outline" % (nm, ax), short, cname, ax, make, "[(p[0], p[1]) for p in c.shape]", "[(%s) for p in shape]" % sh("p[0]", "p[1]"), args + ", X", pre)
            # what the caller passed in stays as it was
            m = P.spec_module("import numpy as np\n" + HEAD + "def code(%s):\n%s    c = %s\n    c.%s = X\n    return c\n" % (args + ", X", pre, make, ax))
            s = ctx.run(m.funcs["code"], **kw)
            ctx.purity("%s.%s:caller" % (nm, ax), w, "no write reaches an object the caller passed in", s)
        # mirrored blocks: the same as a coil built at the new place
        args, pre = "Rfil, Zfil, I, pol", "    assert hasattr(Rfil, '__len__')\n    assert len(Rfil) == len(Zfil)\n"
        for q, G in QS:
            two("MultiCoil:mirror.%s:%s" % (ax, q), "multi_coil", "MultiCoil", ax, "MultiCoil(Rfil, Zfil, current=I, mirror=True, polarity=pol)", "c.%s(R, Z)" % q,
                "MultiCoil(%s, current=I, mirror=True, polarity=pol).%s(R, Z)" % ("[r + %s for r in Rfil], Zfil" % d if ax == "R" else "Rfil, [z + %s for z in Zfil]" % d, q), args + ", X, R, Z", pre)
        # two successive moves
        for nm, short, make, args, pre, outline in coils:
            cname = nm.split(":")[0]
            cls = P.cls(short, cname)
            w = ctx.where(cls.lookup("setters", ax) or cls.lookup("methods", "__init__"))
            text = HEAD + "def code(%s, Y, X, R, Z):\n%s    c = %s\n    c.%s = Y\n    c.%s = X\n    return (c.psi(R, Z), c.R, c.Z)\n" % (args, pre, make, ax, ax)
            text += "def spec(%s, Y, X, R, Z):\n%s    c = %s\n    c.%s = X\n    return (c.psi(R, Z), c.R, c.Z)\n" % (args, pre, make, ax)
            ctx.pair("%s.%s:moves-compose" % (nm, ax), w, RULE, text, raises=False, **kw)
        # precalculated maps
        make, args, pre = "PreCalcCoil(shape, Rg, Zg, mR, mZ, mP, current=I, turns=N)", "shape, Rg, Zg, mR, mZ, mP, I, N", "    assert len(shape) > 2\n"
        for q, m in (("psi", "mP"), ("Br", "mR"), ("Bz", "mZ")):
            if ax == "Z":
                two("PreCalcCoil.Z:%s" % q, "pre_calc_coil", "PreCalcCoil", ax, make, "c.%s(R, Z)" % q,
                    "I * N * RectBivariateSpline(np.transpose(Rg)[:, 0], np.transpose(Zg)[0, :] + %s, np.transpose(np.asarray(%s)))(R, Z, grid=False)" % (d, m),
                    args + ", X, R, Z", pre)
        if ax == "Z":
            two("PreCalcCoil.Z:outline", "pre_calc_coil", "PreCalcCoil", ax, make, "[(p[0], p[1]) for p in c.shape]", "[(%s) for p in shape]" % sh("p[0]", "p[1]"), args + ", X", pre)
            two("PreCalcCoil.Z:position", "pre_calc_coil", "PreCalcCoil", ax, make, "(c.Z, c.R)", "(X, c.R)", args + ", X", pre)
