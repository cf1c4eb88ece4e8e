"""Flux surface tracing: point on a ray, separatrix outline, safety factor."""
from .common import *
from . import c22 as C22
from fractions import Fraction as Fr

ID = "C19"
HEAD = """
from freegs import critical
from freegs.equilibrium import Equilibrium
def flux(r, z):
    return 0
class F:
    def __call__(self, r, z, grid=True):
        if np.ndim(r) == 0:
            return flux(r, z)
        return np.array([flux(r[i], z[i]) for i in range(r.shape[0])])
    def ev(self, r, z):
        return self(r, z, grid=False)
class Box:
    def __init__(self, Rmin, Rmax, Zmin, Zmax):
        self.Rmin, self.Rmax, self.Zmin, self.Zmax = Rmin, Rmax, Zmin, Zmax
"""


def rays(ctx):
    at = ctx.at("critical", "find_psisurface")
    rule = "linear interpolation at the first point on the line, cut at the domain edge, whose flux exceeds the wanted one"
    n = 6
    cases = []
    # start, end, and the fraction of the line that stays in the box [1, 2] x [-1, 1]
    ends = {"in": (Fr(18, 10), Fr(1, 2)), "R": (Fr(5), Fr(1, 2)), "R-low": (Fr(-2), Fr(-1, 2)), "Z": (Fr(17, 10), Fr(6)), "Z-low": (Fr(13, 10), Fr(-6)), "both": (Fr(7), Fr(8)), "both-Z": (Fr(19, 10) + 1, Fr(8)), "horizontal": (Fr(6), Fr(1, 8)), "vertical": (Fr(14, 10), Fr(7)), "down": (Fr(14, 10), Fr(-7)), "left": (Fr(-6), Fr(1, 8))}
    r0, z0 = Fr(14, 10), Fr(1, 8)
    for nm, (r1, z1) in ends.items():
        t = Fr(1)
        cut = "1"
        for lim, val, v0, v1 in (("Rmax", 2, r0, r1), ("Rmin", 1, r0, r1), ("Zmax", 1, z0, z1), ("Zmin", -1, z0, z1)):
            if v1 != v0 and (v1 > val if "max" in lim else v1 < val):
                f = (val - v0) / (v1 - v0)
                if f < t:
                    t, cut = f, "(%s - %s0) / (%s1 - %s0)" % (lim, *[lim[0].lower()] * 3)
        horizontal, vertical = z1 == z0, r1 == r0
        for k in (1, 3, 5) if nm in ("in", "both", "Z") else (2,):
            for shape in ("rising", "returning") if nm in ("in", "R") else ("rising",):
                cases.append((nm, r1, z1, t, cut, k, shape, horizontal, vertical, Fr(1, 2)))
                if nm in ("in", "R"):
                    cases.append((nm, r1, z1, t, cut, k, shape, horizontal, vertical, Fr(1, 5)))
    for nm, r1, z1, t, cut, k, shape, hor, ver, target in cases:
        d = "    c = %s\n    pt = lambda s: (r0 + (r1 - r0) * c * s, z0 + (z1 - z0) * c * s)\n" % cut
        args = "r0, z0, r1, z1, Rmin, Rmax, Zmin, Zmax, target"
        pre = ""
        if hor:
            pre = "    z1 = z0\n"
        if ver:
            pre = "    r1 = r0\n"
        num = {"r0": r0, "z0": z0, "r1": r1, "z1": z1, "Rmin": 1, "Rmax": 2, "Zmin": -1, "Zmax": 1, "target": target}

        def leaf(a, ev):
            if a.op == "sym" and a.args[0] in num:
                return Fr(num[a.args[0]])
            if a.op == "fcall" and str(a.args[0]).endswith("flux"):
                q = dict(a.args[1])
                r, z = ev(q["r"]), ev(q["z"])
                if r is None or z is None:
                    return None
                s = (r - r0) / ((r1 - r0) * t) if r1 != r0 else (z - z0) / ((z1 - z0) * t)
                j = s * (n - 1)
                if j < k:
                    return Fr(1, 10) + j / 60
                return Fr(6, 10) + j / 60 if shape == "rising" or j <= k else Fr(1, 10) + Fr(j, 70)
            return None
        if cut != "1" and not hor and not ver:
            # numbers instead of symbols for the line and the box
            pre = "".join("    %s = %s / %s\n" % (q, Fr(v).numerator, Fr(v).denominator) for q, v in num.items() if q != "target")
        spec = "    f = lambda s: flux(*pt(s))\n    lo, hi = f(Fraction_(%d)), f(Fraction_(%d))\n    s = Fraction_(%d) + (target - lo) / (hi - lo) / %d\n    return pt(s)\n" % (k - 1, k, k - 1, n - 1)
        spec = spec.replace("Fraction_(%d)" % (k - 1), "%d / %d" % (k - 1, n - 1)).replace("Fraction_(%d)" % k, "%d / %d" % (k, n - 1))
        ctx.pair("ray:%s:%d:%s%s" % (nm, k, shape, "" if target > Fr(1, 3) else ":low"), at, rule, HEAD + "def code(%s):\n%s    return tuple(critical.find_psisurface(Box(Rmin, Rmax, Zmin, Zmax), F(), r0, z0, r1, z1, psival=target, n=%d))\ndef spec(%s):\n%s%s%s" % (args, pre, n, args, pre, d, spec),
                 dense=True, opaque=("flux",), pure=("flux",), ranks=dict({a: 0 for a in args.split(", ")}, **{"flux()": 0}), assume_atom=rep(leaf), unroll=40)
    # already above at the start: the start
    num = {"r0": 2, "z0": 0, "r1": 3, "z1": 1, "Rmin": 1, "Rmax": 5, "Zmin": -5, "Zmax": 5, "target": Fr(1, 2)}
    ctx.pair("ray:start", at, "the start itself if the flux there exceeds the wanted one already", HEAD + "def code(%s):\n    return tuple(critical.find_psisurface(Box(Rmin, Rmax, Zmin, Zmax), F(), r0, z0, r1, z1, psival=target, n=6))\ndef spec(%s):\n    return r0, z0\n" % (args, args),
             dense=True, opaque=("flux",), pure=("flux",), ranks=dict({a: 0 for a in args.split(", ")}, **{"flux()": 0}), assume_atom=rep(lambda a, ev: Fr(num[a.args[0]]) if a.op == "sym" and a.args[0] in num else Fr(1) if a.op == "fcall" else None), unroll=40)


EQ = C22.HEAD + """
def hr(p, q, r0, z0, r1, z1, v):
    return 0
def hz(p, q, r0, z0, r1, z1, v):
    return 0
def surf(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
    p, q = psifunc.z[0, 1], psifunc.z[2, 1]
    return hr(p, q, r0, z0, r1, z1, psival), hz(p, q, r0, z0, r1, z1, psival)
def norm(eq, b=None):
    p = (eq.psi() - po(*kk(eq))) / ((px(*kk(eq)) if b is None else b) - po(*kk(eq)))
    return p[0, 1], p[2, 1]
def qq(x):
    return 0
def safety(eq, npsi=1, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None):
    x = np.asarray(psinorm)
    return np.array([qq(x[i]) for i in range(x.shape[0])]) if x.ndim else np.array([qq(psinorm)])
def quad(xs, ys, x):
    return 0
class Interp:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y, self.kind, self.fill = x, y, kind, fill_value
    def __call__(self, x):
        x = np.asarray(x)
        t = (self.kind, self.fill, [v for v in self.x], [v for v in self.y])
        return np.array([quad(t, 0, x[i]) for i in range(x.shape[0])]) if x.ndim else quad(t, 0, x)
def qint(eq, psis, n, shift, rx, rz, b=None):
    # sum over the surface of f/(R^2 Bp) dl / 2 pi
    p, s = norm(eq, b)
    out = []
    for v in psis:
        th = [2 * np.pi * (k + shift) / n for k in range(n)]
        r = [hr(p, s, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + rx * np.sin(t), Zo(*kk(eq)) + rz * np.cos(t), v) for t in th]
        z = [hz(p, s, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + rx * np.sin(t), Zo(*kk(eq)) + rz * np.cos(t), v) for t in th]
        q = 0
        for k in range(n):
            dl = np.sqrt(((r[(k + 1) % n] - r[k - 1]) / 2) ** 2 + ((z[(k + 1) % n] - z[k - 1]) / 2) ** 2)
            bp = np.sqrt(eq.Br(r[k], z[k]) ** 2 + eq.Bz(r[k], z[k]) ** 2)
            q = q + fp(v) / (r[k] ** 2 * bp) * dl
        out.append(q / (2 * np.pi))
    return np.array(out)
"""
OPAQUE = C22.OPAQUE + ("hr", "hz", "qq", "quad")


def eqpair(ctx, key, at, rule, code, spec, calls, args="", drop=(), extra=None):
    models = {k: v for k, v in C22.MODELS.items() if v != "sep"}
    models["freegs.critical.find_psisurface"] = "surf"
    models.update(extra or {})
    b = "    eq = build(%s)\n" % C22.ARGS
    a = C22.ARGS + (", " + args if args else "")
    S, T = C22.SHAPES["leaning"]
    ind = C22._ind
    ctx.pair(key, at, rule, EQ + "def code(%s):\n%s%s\ndef spec(%s):\n%s%s\n" % (a, b, ind(code), a, b, ind(spec)), dense=True, models=models, opaque=OPAQUE, pure=OPAQUE,
             shapes={"tpsi": (3, 3), "ppsi": (3, 3), "S": (len(S), 2), "T": (len(T), 2)}, ranks=dict({k + "()": 0 for k in OPAQUE}, Ip=0, **{x: 0 for x in args.replace(" ", "").split(",") if x}), assume_atom=C22.numbers(S, T, None, calls), lazy=40, unroll=150)


# where the X-point lies: axis at (1.5, 0.1); angle from the vertical
AXIS = {"Ro": Fr(3, 2), "Zo": Fr(1, 10), "po": 5, "px": 9}
PLACES = {"off": (Fr(14, 10), Fr(-1, 2)), "off-left": (Fr(11, 10), Fr(2, 10)), "under": (Fr(3, 2) + Fr(1, 10**5), Fr(-1, 2)), "over": (Fr(3, 2) + Fr(1, 10**5), Fr(7, 10)), "right": (Fr(19, 10), Fr(1, 10) - Fr(1, 10**5)),
          "left": (Fr(11, 10), Fr(1, 10) + Fr(1, 10**5)), "beside": (Fr(3, 2) + Fr(1, 100), Fr(-1, 2)), "slant": (Fr(18, 10) + Fr(1, 10**5), Fr(4, 10))}


def onray(rx, zx, n):
    import math
    t = math.atan2(rx - AXIS["Ro"], zx - AXIS["Zo"]) % (2 * math.pi)
    return any(abs(2 * math.pi * k / n - t) < 1e-3 for k in range(n))



def outline(ctx):
    at = ctx.at("critical", "find_separatrix")
    rule = "points at equally spaced angles around the axis, each found on its ray with the wanted normalised flux, half a step further if an X-point is on a ray"
    for nm, (rx, zx) in PLACES.items():
        calls = dict(AXIS, Rx=rx, Zx=zx)
        for n in {"off": (3, 4, 5), "over": (3, 4), "right": (3, 4), "slant": (4, 8)}.get(nm, (4,)):
            sh = onray(rx, zx, n)
            spec = """
p, q = norm(eq)
th = [2 * np.pi * (k + %s) / %d for k in range(%d)]
return [(hr(p, q, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10 * np.sin(t), Zo(*kk(eq)) + 10 * np.cos(t), 1.0), hz(p, q, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10 * np.sin(t), Zo(*kk(eq)) + 10 * np.cos(t), 1.0)) for t in th]""" % ("0.5" if sh else "0", n, n)
            eqpair(ctx, "outline:%s:%d" % (nm, n), at, rule, "return [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=%d)]" % n, spec, calls)
            eqpair(ctx, "outline:X:%s:%d" % (nm, n), at, rule, "return [(p[2], p[3]) for p in critical.find_separatrix(eq, ntheta=%d)]" % n, "return [(Rx(*kk(eq)), Zx(*kk(eq))) for k in range(%d)]" % n, calls)
    calls = dict(AXIS, Rx=Fr(14, 10), Zx=Fr(-1, 2))
    one = "return [(hr(p, q, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10 * np.sin(t), Zo(*kk(eq)) + 10 * np.cos(t), %s), hz(p, q, Ro(*kk(eq)), Zo(*kk(eq)), Ro(*kk(eq)) + 10 * np.sin(t), Zo(*kk(eq)) + 10 * np.cos(t), %s)) for t in [2 * np.pi * k / 3 for k in range(3)]]"
    eqpair(ctx, "outline:level", at, rule, "return [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3, psival=v)]", "p, q = norm(eq)\n" + one % ("v", "v"), calls, "v")
    eqpair(ctx, "outline:limited", at, "the boundary flux is that of the equilibrium, limiter or X-point", "eq.psi_bndry = b\nreturn [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3)]", "p, q = norm(eq, b)\n" + one % ("1.0", "1.0"), calls, "b")
    eqpair(ctx, "outline:no-X", at, "a plasma without X-point has an outline too", "eq.psi_bndry = b\nreturn [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3, opoint=[(Ro(*kk(eq)), Zo(*kk(eq)), po(*kk(eq)))], xpoint=[])]", "p, q = norm(eq, b)\n" + one % ("1.0", "1.0"), calls, "b")
    eqpair(ctx, "outline:given", at, "the points and flux given are used", "return [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3, opoint=[(Ro(*kk(eq)), Zo(*kk(eq)), po(*kk(eq)))], xpoint=[(Rx(*kk(eq)), Zx(*kk(eq)), px(*kk(eq)) * 3)], psi=eq.psi() * 2)]",
           "f = (eq.psi() * 2 - po(*kk(eq))) / (px(*kk(eq)) - po(*kk(eq)))\np, q = f[0, 1], f[2, 1]\n" + one % ("1.0", "1.0"), calls)


def safetyfactor(ctx):
    at = ctx.at("critical", "find_safety")
    rule = "sum over the surface of f / (R^2 Bpol) times the length between the neighbouring points, over 2 pi"
    for nm, (rx, zx) in PLACES.items():
        if nm not in ("off", "off-left", "under", "left", "over", "slant"):
            continue
        calls = dict(AXIS, Rx=rx, Zx=zx)
        for how, psis in (("[u]", "[u]"), ("[u, v]", "[u, v]"), ("np.array([u, v])", "[u, v]"), ("u", "[u]")):
            if how != "[u]" and nm != "off":
                continue
            for n in (4, 3) if how == "[u]" and nm == "off" else (3,) if nm == "over" else (8,) if nm == "slant" else (4,):
                sh = onray(rx, zx, n)
                eqpair(ctx, "safety:%s:%s:%d" % (nm, how, n), at, rule, "return critical.find_safety(eq, psinorm=%s, ntheta=%d)" % (how, n), "return qint(eq, %s, %d, %s, 1.0, 1.25)" % (psis, n, "0.5" if sh else "0"), calls, "u, v")
    calls = dict(AXIS, Rx=Fr(14, 10), Zx=Fr(-1, 2))
    eqpair(ctx, "safety:limited", at, "the boundary flux is that of the equilibrium, limiter or X-point", "eq.psi_bndry = b\nreturn critical.find_safety(eq, psinorm=[u], ntheta=4)", "return qint(eq, [u], 4, 0, 1.0, 1.25, b)", calls, "u, b")
    eqpair(ctx, "safety:unset", at, "without a boundary flux that of the first X-point is used", "eq.psi_bndry = None\nreturn critical.find_safety(eq, psinorm=[u], ntheta=4)", "return qint(eq, [u], 4, 0, 1.0, 1.25)", calls, "u")
    eqpair(ctx, "safety:no-X", at, "a plasma without X-point has a safety factor too", "eq.psi_bndry = b\nreturn critical.find_safety(eq, psinorm=[u], ntheta=4, opoint=[(Ro(*kk(eq)), Zo(*kk(eq)), po(*kk(eq)))], xpoint=[])", "return qint(eq, [u], 4, 0, 1.0, 1.25, b)", calls, "u, b")
    eqpair(ctx, "safety:negative-f", at, "the sign is that of f", "return critical.find_safety(eq, psinorm=[u, v], ntheta=4)", "return qint(eq, [u, v], 4, 0, 1.0, 1.25)", dict(calls, fp=-3, fv=-3), "u, v")
    eqpair(ctx, "safety:any-order", at, "values come in the order asked for", "return critical.find_safety(eq, psinorm=[0.7, 0.3, 0.5], ntheta=4)", "return qint(eq, [0.7, 0.3, 0.5], 4, 0, 1.0, 1.25)", calls)
    eqpair(ctx, "safety:zero-boundary", at, "the boundary flux is that of the equilibrium, limiter or X-point", "eq.psi_bndry = 0.0\nreturn critical.find_safety(eq, psinorm=[u], ntheta=4)", "return qint(eq, [u], 4, 0, 1.0, 1.25, 0.0)", calls, "u")
    for nm, giv in (("O", "opoint=[(Ro(*kk(eq)), Zo(*kk(eq)), po(*kk(eq)))]"), ("X", "xpoint=[(Rx(*kk(eq)), Zx(*kk(eq)), px(*kk(eq)))]")):
        eqpair(ctx, "safety:given-%s-only" % nm, at, "points not given are found", "return critical.find_safety(eq, psinorm=[u], ntheta=4, %s)" % giv, "return qint(eq, [u], 4, 0, 1.0, 1.25)", calls, "u")
        eqpair(ctx, "outline:given-%s-only" % nm, ctx.at("critical", "find_separatrix"), "points not given are found", "return [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3, %s)]" % giv,
               "return [(p[0], p[1]) for p in critical.find_separatrix(eq, ntheta=3)]", calls)
    # the equilibrium's q
    at = ctx.at("equilibrium", "Equilibrium", "q")
    rule = "the safety factor at the values asked for, extrapolated from 0.01 to 0.99 outside that range"
    ex = {"freegs.critical.find_safety": "safety", "scipy.interpolate.interp1d": "Interp"}
    in2 = dict(calls)
    eqpair(ctx, "q:list", at, rule, "return eq.q([0.2, 0.5, 0.9])", "return np.array([qq(0.2), qq(0.5), qq(0.9)])", in2, extra=ex)
    eqpair(ctx, "q:array", at, rule, "return eq.q(np.array([0.01, 0.5, 0.99]))", "return np.array([qq(0.01), qq(0.5), qq(0.99)])", in2, extra=ex)
    eqpair(ctx, "q:scalar", at, rule, "return eq.q(0.3)", "return qq(0.3)", in2, extra=ex)
    eqpair(ctx, "q:none", at, rule, "x, q = eq.q(npsi=4)\nreturn [v for v in x], q", "return [k / 5 for k in range(1, 5)], np.array([qq(k / 5) for k in range(1, 5)])", in2, extra=ex)
    eqpair(ctx, "q:none-default", at, rule, "x, q = eq.q()\nreturn x.shape[0], x[0], x[99]", "return 100, 1 / 101, 100 / 101", in2, extra=ex)
    for nm, how, want in (("axis", "0.0", "qz(0.0)"), ("edge", "1.0", "qz(1.0)"), ("some", "[0.5, 0.995]", "np.array([qz(0.5), qz(0.995)])"), ("low", "np.array([0.009, 0.3])", "np.array([qz(0.009), qz(0.3)])")):
        eqpair(ctx, "q:outside:" + nm, at, rule, "return eq.q(%s, npsi=5)" % how, "xs = [0.01 + k * (0.99 - 0.01) / 4 for k in range(5)]\nqz = lambda x: quad((\"quadratic\", \"extrapolate\", xs, [qq(v) for v in xs]), 0, x)\nreturn " + want, in2, extra=ex)


def check(ctx):
    rays(ctx)
    outline(ctx)
    safetyfactor(ctx)
