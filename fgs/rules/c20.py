"""Field line tracing: direction, length, where lines stop, where they start."""
from .common import *
from . import c22 as C22
from fractions import Fraction as Fr

ID = "C20"
EQ = C22.HEAD + """
from freegs.fieldtracer import FieldTracer, traceFieldLines
def yy(k):
    return 0
def rm(p, q, r0, z0, r1, z1, v):
    return 0
def zm(p, q, r0, z0, r1, z1, v):
    return 0
def hh(c, k):
    return 0
class Ode:
    record = False
    calls = []
def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
    p, q = psifunc.z[0, 1], psifunc.z[2, 1]
    return rm(p, q, r0, z0, r1, z1, psival), zm(p, q, r0, z0, r1, z1, psival)
# first row: where the lines start; second: rate of change there; third: rate of change at later positions; fourth: angles
def ode(f, y0, t, args=(), Dfun=None, col_deriv=0, full_output=0, ml=None, mu=None, rtol=None, atol=None, tcrit=None, h0=0.0, hmax=0.0, hmin=0.0, ixpr=0, mxstep=0, mxhnil=0, mxordn=12, mxords=5, printmessg=0, tfirst=False):
    n = y0.shape[0]
    Ode.calls = Ode.calls + [[a for a in t]]
    if Ode.record:
        first = f(y0, t[0], *args)
        return np.array([[y0[k] for k in range(n)], [first[k] for k in range(n)], [hh(len(Ode.calls), k) for k in range(n)]])
    later = np.array([yy(k) for k in range(n)])
    first = f(y0, t[0], *args)
    second = f(later, t[1], *args)
    return np.array([[y0[k] for k in range(n)], [first[k] for k in range(n)], [second[k] for k in range(n)]])
def rate(eq, r, z, sign):
    bt = eq.Btor(r, z)
    b = np.sqrt(eq.Br(r, z) ** 2 + eq.Bz(r, z) ** 2 + bt ** 2)
    return [sign * r * eq.Br(r, z) / bt, sign * r * eq.Bz(r, z) / bt, r * b / LEN]
"""
OPAQUE = C22.OPAQUE + ("yy", "rm", "zm", "hh")


def numbers(pts, later, wall, extra):
    """where the lines start and are later; the domain is [1, 2] x [-0.5, 0.75]"""
    base = C22.numbers([(0, 0)], wall or [(0, 0)], None, None)

    def leaf(t, ev):
        if t.op == "elem" and t.args[0].op == "sym" and t.args[0].args[0] in ("Rs", "Zs"):
            i = int(t.args[1].args[0])
            return Fr(pts[i][0 if t.args[0].args[0] == "Rs" else 1])
        if t.op == "sym" and t.args[0] in ("Rs", "Zs"):
            return Fr(pts[0][0 if t.args[0] == "Rs" else 1])
        if t.op == "elem" and t.args[0].op == "sym" and t.args[0].args[0] == "T" and wall:
            return Fr(wall[int(t.args[1].args[0])][int(t.args[2].args[0])])
        if t.op == "fcall":
            n = str(t.args[0]).split(".")[-1]
            if n == "yy":
                k = int(dict(t.args[1])["k"].args[0])
                return Fr((later[k // 3] + (Fr(1, 3),))[k % 3])
            if n in extra:
                return Fr(extra[n])
        if t.op == "sym" and t.args[0] in extra:
            return Fr(extra[t.args[0]])
        return Fr(1 + C22.hash_of(t) % 977, 331) if t.op in ("sym", "elem", "fcall") and t.args[0] != "pi" else None

    return rep(leaf)


def pair(ctx, key, at, rule, code, spec, pts, later, wall=None, extra=None, scalar=False, args="Rs, Zs"):
    models = {k: v for k, v in C22.MODELS.items() if v != "sep"}
    models.update({"freegs.critical.find_psisurface": "surf", "scipy.integrate.odeint": "ode"})
    extra = dict({"fv": 5, "fp": 5, "mk": 1}, **(extra or {}))
    ln = "bt" if extra["fv"] > 0 else "(-bt)"
    a = C22.ARGS + ", " + args
    w = ", Wall([%s], [%s])" % tuple(", ".join("%s / %s" % (Fr(p[c]).numerator, Fr(p[c]).denominator) for p in wall) for c in (0, 1)) if wall else ""
    b = "    eq = build(%s%s)\n" % (C22.ARGS, w)
    n = len(pts)
    ctx.pair(key, at, rule, EQ.replace("LEN", ln) + "def code(%s):\n%s%s\ndef spec(%s):\n%s%s\n" % (a, b, C22._ind(code), a, b, C22._ind(spec)), dense=True, models=models, opaque=OPAQUE, pure=OPAQUE,
             shapes=dict({"tpsi": (3, 3), "ppsi": (3, 3), "S": (1, 2), "T": (len(wall) if wall else 1, 2)}, **({} if scalar else {"Rs": (n,), "Zs": (n,)})), ranks=dict({k + "()": 0 for k in OPAQUE}, Ip=0, **({x.strip(): 0 for x in args.split(",")} if scalar else {})),
             assume_atom=numbers(pts, later, wall, extra), lazy=40, unroll=100)


def want(n, live1, live2, sign, extra=""):
    return """
rows = [[], [], []]
for k in range(%d):
    rows[0] = rows[0] + [Rs[k], Zs[k], 0.0]
    rows[1] = rows[1] + (rate(eq, Rs[k], Zs[k], %d) if %r[k] else [0.0, 0.0, 0.0])
    rows[2] = rows[2] + (rate(eq, yy(3 * k), yy(3 * k + 1), %d) if %r[k] else [0.0, 0.0, 0.0])
return np.array([[[rows[a][3 * k + c] for c in range(3)] for k in range(%d)] for a in range(3)])""" % (n, sign, tuple(live1), sign, tuple(live2), n)


def check(ctx):
    at = ctx.at("fieldtracer", "FieldTracer", "fieldDirection")
    follow = ctx.at("fieldtracer", "FieldTracer", "follow")
    rule = "rate of change with toroidal angle along the field, reversed backwards, length growing by R B / |Bt|; zero for good once outside"
    call = "return FieldTracer(eq).follow(Rs, Zs, np.array([0.0, 1.0, 2.0])%s)"
    inn, inn2 = (Fr(14, 10), Fr(1, 10)), (Fr(16, 10), Fr(-2, 10))
    for fv in (5, -5):
        ex = {"fv": fv, "fp": fv}
        for opt, sign in (("", 1), (", backward=True", -1), (", rtol=1e-6", 1)):
            for n in (1, 2):
                pair(ctx, "rate:%+d:%s:%d" % (fv, opt.strip(", ") or "default", n), at, rule, call % opt, want(n, [True] * n, [True] * n, sign), [inn, inn2][:n], [inn2, inn][:n], extra=ex)
        # start positions as lists
        pair(ctx, "rate:%+d:lists" % fv, follow, rule, "return FieldTracer(eq).follow([Rs[0], Rs[1]], [Zs[0], Zs[1]], np.array([0.0, 1.0, 2.0]))", want(2, [True] * 2, [True] * 2, 1), [inn, inn2], [inn2, inn], extra=ex)
    # arrays of other shapes, one pair of numbers, and angles in any order
    for sh, st in (("(2, 2)", "np.array([[Rs[0], Rs[1]], [Rs[2], Rs[3]]]), np.array([[Zs[0], Zs[1]], [Zs[2], Zs[3]]])"), ("(1, 4)", "[[v for v in Rs]], [[v for v in Zs]]"), ("(4, 1)", "[[v] for v in Rs], [[v] for v in Zs]")):
        pts = [inn, inn2, (Fr(9), Fr(0)), (Fr(13, 10), Fr(0))]
        live = (True, True, False, True)
        pair(ctx, "shape:" + sh, follow, "lines may start from arrays of any shape", "r = FieldTracer(eq).follow(%s, np.array([0.0, 1.0, 2.0]))\nreturn r.shape, r.reshape((3, 4, 3))" % st,
             want(4, live, live, 1).replace("return np", "return (3,) + %s + (3,), np" % sh), pts, pts)
    pair(ctx, "shape:()", follow, "lines may start from one pair of numbers", "r = FieldTracer(eq).follow(Rs, Zs, np.array([0.0, 1.0, 2.0]))\nreturn r.shape, r.reshape((3, 1, 3))",
         want(1, [True], [True], 1).replace("return np", "return (3, 3), np").replace("[k]", ""), [inn], [inn2], scalar=True)
    for ang in ("0.0, 1.0, 2.0", "0.0, -1.5, -2.0", "3.0, 2.0, 1.5"):
        pair(ctx, "angles:" + ang, follow, "the angles given are those at which the line is wanted, from the first", "Ode.calls = []\nFieldTracer(eq).follow(Rs, Zs, np.array([%s]))\nreturn [[a - c[0] for a in c] for c in Ode.calls]" % ang,
             "c = [%s]\nreturn [[a - c[0] for a in c]]" % ang, [inn], [inn2])
    # domain edges: one line stays, the other is out at first or later
    d = ctx.at("fieldtracer", "FieldTracer", "eqDomain")
    drule = "without a wall lines stop within a centimetre of the edge of the domain, and stay stopped"
    e = Fr(9, 1000)
    for nm, p in (("Rmin", (1 + e, 0)), ("Rmax", (2 - e, 0)), ("Zmin", (Fr(3, 2), Fr(-1, 2) + e)), ("Zmax", (Fr(3, 2), Fr(3, 4) - e)), ("far", (9, 0)), ("below", (Fr(3, 2), -7))):
        p = (Fr(p[0]), Fr(p[1]))
        pair(ctx, "domain:%s:first" % nm, d, drule, call % "", want(2, (False, True), (False, True), 1), [p, inn], [inn, inn2])
        pair(ctx, "domain:%s:later" % nm, d, drule, call % "", want(2, (True, True), (True, False), 1), [inn2, inn], [inn, p])
    e = Fr(11, 1000)
    for nm, p in (("Rmin", (1 + e, 0)), ("Rmax", (2 - e, 0)), ("Zmin", (Fr(3, 2), Fr(-1, 2) + e)), ("Zmax", (Fr(3, 2), Fr(3, 4) - e))):
        p = (Fr(p[0]), Fr(p[1]))
        pair(ctx, "domain:%s:inside" % nm, d, drule, call % "", want(2, (True, True), (True, True), 1), [p, inn], [inn, p])
    # walls; the middle of the domain is (1.5, 0.125)
    w = ctx.at("fieldtracer", "FieldTracer", "wallDomain")
    wrule = "with a wall lines stop where the way to the middle of the domain crosses the closed wall an odd number of times, and stay stopped"
    tri = [(Fr(11, 10), Fr(-3, 10)), (Fr(19, 10), Fr(-2, 10)), (Fr(3, 2), Fr(6, 10))]
    cup = [(Fr(11, 10), Fr(-4, 10)), (Fr(19, 10), Fr(-4, 10)), (Fr(19, 10), Fr(6, 10)), (Fr(17, 10), Fr(6, 10)), (Fr(17, 10), Fr(-1, 10)), (Fr(16, 10), Fr(3, 10)), (Fr(11, 10), Fr(3, 10))]
    P = {"tri": (tri, {"in": (Fr(151, 100), Fr(2, 10), 1), "low": (Fr(14, 10), Fr(-35, 100), 0), "right": (Fr(185, 100), Fr(3, 10), 0), "left": (Fr(115, 100), Fr(3, 10), 0), "in-left": (Fr(13, 10), Fr(-1, 10), 1), "top": (Fr(149, 100), Fr(7, 10), 0), "far": (5, 4, 0), "out-of-domain": (Fr(152, 100), -3, 0)}),
         "cup": (cup, {"in": (Fr(14, 10), Fr(2, 10), 1), "gap": (Fr(168, 100), Fr(31, 100), 0), "arm": (Fr(18, 10), Fr(4, 10), 1), "beyond": (Fr(197, 100), Fr(5, 10), 0), "low": (Fr(13, 10), Fr(-45, 100), 0), "corner": (Fr(12, 10), Fr(-35, 100), 1), "above": (Fr(14, 10), Fr(4, 10), 0)})}
    for nm, (wl, ps) in P.items():
        for rev in (False, True):
            ww = wl[::-1] if rev else wl
            for pn, (r, z, ok) in ps.items():
                p = (Fr(r), Fr(z))
                if crossings(wl, p) % 2 == ok:
                    raise ValueError((nm, pn))
                if rev and pn not in ("in", "gap", "low", "arm"):
                    continue
                pair(ctx, "wall:%s:%s%s" % (nm, pn, ":reversed" if rev else ""), w, wrule, call % "", want(2, (ok, 1), (ok, 1), 1), [p, inn], [inn, inn], wall=ww)
    pair(ctx, "wall:later", w, wrule, call % ", backward=True", want(2, (1, 1), (0, 1), -1), [inn, inn], [(Fr(5), Fr(0)), inn], wall=tri)
    # where the traced lines start
    t = ctx.at("fieldtracer", "traceFieldLines")
    srule = "lines start at equal distances outside the outboard crossing of the boundary flux, up to the given width, forwards and backwards over the given turns"
    spec = """
f = (eq.psi() - po(*kk(eq))) / (BND - po(*kk(eq)))
r, z = rm(f[0, 1], f[2, 1], Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10, Zo(*kk(eq)), 1.0), zm(f[0, 1], f[2, 1], Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10, Zo(*kk(eq)), 1.0)
n = %d
st = [r + width * (k + 1) / n for k in range(n)]
out = []
for s in (1, -1):
    out.append([st[k] for k in range(n)])
    out.append([z for k in range(n)])
    out.append([0.0 for k in range(n)])
    d = [rate(eq, st[k], z, s) for k in range(n)]
    for c in range(3):
        out.append([d[k][c] for k in range(n)])
    for c in range(3):
        out.append([hh(1 if s == 1 else 2, 3 * k + c) for k in range(n)])
return out, [[0.0, 7 * np.pi, 14 * np.pi]] * 2"""
    got = "Ode.record = True\nOde.calls = []\nfw, bw = traceFieldLines(eq, solwidth=width, nlines=%d, nturns=7, npoints=3)\nreturn [[v for v in q[j, :]] for l in (fw, bw) for j in (0, 1, 2) for q in (l.R, l.Z, l.length)], Ode.calls"
    ex = {"rm": Fr(17, 10), "zm": Fr(1, 10)}
    for n in (1, 2, 3):
        pair(ctx, "start:%d" % n, t, srule, got % n, (spec % n).replace("BND", "px(*kk(eq))"), [(Fr(1, 10), 0)], [inn] * 3, extra=dict(ex, width=Fr(1, 10)), scalar=True, args="width, b")
    pair(ctx, "start:limited", t, srule, "eq.psi_bndry = b\n" + got % 2, "eq.psi_bndry = b" + (spec % 2).replace("BND", "b"), [(Fr(1, 10), 0)], [inn] * 3, extra=dict(ex, width=Fr(1, 10)), scalar=True, args="width, b")


def crossings(wall, p):
    m = (Fr(3, 2), Fr(1, 8))
    side = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    n = 0
    for a, b in zip(wall, wall[1:] + wall[:1]):
        u, v, x, y = side(m, p, a), side(m, p, b), side(a, b, m), side(a, b, p)
        if 0 in (u, v, x, y):
            raise ValueError(("degenerate", p))
        n += (u > 0) != (v > 0) and (x > 0) != (y > 0)
    return n
