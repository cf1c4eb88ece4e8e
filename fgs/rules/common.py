from ..terms import mk
GREENS = ("Greens", "GreensBr", "GreensBz")
# field and flux queries: side effects of these are the subject of the purity property,
# every other rule treats them as functions of their arguments
QUERIES = (
    "psi", "psiRZ", "Br", "Bz", "Btor", "Bpol", "Btot", "plasmaBr", "plasmaBz", "controlPsi", "controlBr", "controlBz", "createPsiGreens",
    "calcPsiFromGreens", "psi_func", "cPsi", "cBr", "cBz", "f_spl", "mask_func", "inShape", "pprime", "ffprime", "pressure", "fpol",
)
COILS = [("coil", "Coil"), ("shaped_coil", "ShapedCoil"), ("filament_coil", "FilamentCoil"), ("multi_coil", "MultiCoil"), ("pre_calc_coil", "PreCalcCoil"), ("machine", "Solenoid")]


def sym(n):
    return mk("sym", n)


def attr(o, a):
    return mk("attr", o, a)


def spline_points(t):
    """spline(x, y)[0][0] (scalars), spline(x, y, grid=False) and spline.ev(x, y) are the same point values"""
    from .. import terms as T

    def go(x, memo={}):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "elem" and len(r.args) == 3 and r.args[1] is T.ZERO and r.args[2] is T.ZERO:
                a = r.args[0]
                if a.op == "apply" and a.args[0].op == "call" and a.args[0].args[0] == "RectBivariateSpline" and len(a.args[1]) == 2 and not a.args[2]:
                    r = mk("apply", a.args[0], a.args[1], (("grid", T.FALSE),), *a.args[3:])
            memo[x] = r
        return r

    return go(t)


# an equilibrium in an arbitrary state: built with arbitrary arguments and solved once
EQ_HEAD = """
from freegs.equilibrium import Equilibrium, refine, coarsen, newDomain
from freegs.boundary import freeBoundary, fixedBoundary
from freegs.gradshafranov import Greens, GreensBr, GreensBz
from freegs import critical, machine, multigrid
from scipy.interpolate import RectBivariateSpline
from scipy.integrate import romb
class Edges:
    def __init__(self, be):
        self.be = be
    def __call__(self, eq, Jtor, psi):
        psi[0, :] = self.be.left(Jtor)
        psi[-1, :] = self.be.right(Jtor)
        psi[:, 0] = self.be.down(Jtor)
        psi[:, -1] = self.be.up(Jtor)
def make(tok, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, bnd, Jt, order, lim):
    eq = Equilibrium(tok, Rmin, Rmax, Zmin, Zmax, nx, ny, boundary=bnd, order=order, check_limited=lim)
    eq.solve(prof, Jt)
    return eq
def psi_spline(eq):
    return RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], eq.plasma_psi)
"""
EQ_ARGS = "tok, prof, Rmin, Rmax, Zmin, Zmax, nx, ny, bnd, Jt, order, lim"
EQ_OPAQUE = ("find_critical", "core_mask", "createVcycle", "find_separatrix", "find_safety")


def emptiness(rules):
    """rules: list of (predicate on a sequence term, True if non-empty / False if empty) -> atom oracle"""
    from .. import terms as T

    def known(x):
        for p, v in rules:
            if p(x):
                return v
        return None

    def atom(a):
        if a.op == "truth":
            return known(a.args[0])
        if a.op == "isnone":
            return False if known(a.args[0]) is not None else None
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if y.op in ("list", "tuple") and not y.args and known(x) is not None:
                    return not known(x)
        if a.op in ("lt0", "eq0"):
            p = T.poly_of(a.args[0])
            const, lens = 0, []
            for m, c in p.items():
                if not m:
                    const = c
                elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
                    lens.append((m[0][0].args[0], c))
                else:
                    return None
            if len(lens) != 1:
                return None
            x, c = lens[0]
            v = known(x)
            if v is None:
                return None
            if v is False:
                return const < 0 if a.op == "lt0" else const == 0
            if a.op == "lt0":
                if c > 0 and const + c >= 0:
                    return False
                if c < 0 and const + c < 0:
                    return True
            elif (c > 0 and const + c > 0) or (c < 0 and const + c < 0):
                return False
        return None

    return atom


def _crit(i):
    def p(x):
        return x.op == "elem" and len(x.args) == 2 and x.args[1].op == "num" and x.args[1].args[0] == i and x.args[0].op == "fcall" and str(x.args[0].args[0]).endswith("critical.find_critical")
    return p


def _wall(x):
    return x.op == "attr" and x.args[1] == "wall"


# situations an equilibrium can be in: (name, arguments of make, what is known about the critical points and the wall)
VARIANTS = {
    "xpoint": (dict(order="4", lim="False", bnd="Edges(bnd)"), [(_crit(0), True), (_crit(1), True)]),
    "no-xpoint-free": (dict(order="4", lim="False", bnd="Edges(bnd)"), [(_crit(0), True), (_crit(1), False)]),
    "no-xpoint-fixed": (dict(order="2", lim="False", bnd="fixedBoundary"), [(_crit(0), True), (_crit(1), False)]),
    "xpoint-fixed": (dict(order="2", lim="False", bnd="fixedBoundary"), [(_crit(0), True), (_crit(1), True)]),
    "limiter+xpoint": (dict(order="4", lim="True", bnd="Edges(bnd)"), [(_crit(0), True), (_crit(1), True), (_wall, True)]),
    "limiter": (dict(order="4", lim="True", bnd="Edges(bnd)"), [(_crit(0), True), (_crit(1), False), (_wall, True)]),
}


def eq_kw(P, **extra):
    kw = dict(opaque=EQ_OPAQUE + GREENS, pure=QUERIES + EQ_OPAQUE + GREENS + ("Jtor", "_solver", "left", "right", "down", "up"), opaque_classes=("GSsparse", "GSsparse4thOrder"), hints={sym("tok"): P.cls("machine", "Machine")})
    kw.update(extra)
    return kw


def eq_pair(ctx, key, where, rule, code, spec, extra_args="", change=None, variants=("xpoint",), **kw):
    """code/spec: expressions over `eq`; change: statements applied before (with `code` evaluated once beforehand, so a stale cache shows)"""
    a = EQ_ARGS + (", " + extra_args if extra_args else "")
    for v in variants:
        fixed, rules = VARIANTS[v]
        pre = "".join("    %s = %s\n" % kv for kv in fixed.items()) + "    eq = make(%s)\n" % EQ_ARGS
        c = pre + ("    %s\n%s" % (code, _ind(change)) if change else "") + "    return %s\n" % code
        s = pre + (_ind(change) if change else "") + "    return %s\n" % spec
        k = eq_kw(ctx.prog, assume_atom=emptiness(rules))
        k.update(kw)
        k.setdefault("raises", False)
        ctx.pair("%s[%s]" % (key, v), where, rule, EQ_HEAD + "def code(%s):\n%sdef spec(%s):\n%s" % (a, c, a, s), **k)


def _ind(t):
    import textwrap
    return textwrap.indent(textwrap.dedent(t).strip("\n"), "    ") + "\n"


def greens_is_psi(t):
    """flux from a coil's own cached response is the coil's flux (established by C01)"""
    from .. import terms as T
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "mcall" and r.args[1] == "calcPsiFromGreens":
                a = [v for v in T._subtup(r.args[2:]) if v.op == "mcall" and v.args[1] == "createPsiGreens" and v.args[0] is r.args[0]]
                if len(a) == 1:
                    g = a[0]
                    r = mk("mcall", g.args[0], "psi", *g.args[2:])
            memo[x] = r
        return r

    return go(t)


def canon_boundary(t):
    """core_mask without a boundary value uses the first X-point; scalar and vector spline evaluation; a[argmax(a)] = max(a)"""
    from .. import terms as T
    from .. import binders as B
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "fcall" and str(r.args[0]).endswith("critical.core_mask"):
                d = dict(r.args[1])
                if d.get("psi_bndry") is T.NONE:
                    xp = d["xpoint"]
                    d["psi_bndry"] = mk("elem", *(xp.args if xp.op == "elem" else (xp,)), T.ZERO, T.num(2))
                    r = mk("fcall", r.args[0], tuple(sorted(d.items())), *r.args[2:])
            if r.op == "call" and r.args[0] in ("ravel", "flatten") and r.args[1] and r.args[1][0].op == "call" and r.args[1][0].args[0] == "argwhere":
                r = r.args[1][0].args[1][0]
            memo[x] = r
        return r

    return spline_points(go(t))


def given(*names):
    """atom oracle: these arguments are not None"""
    syms = {sym(n) for n in names}

    def atom(a):
        if a.op == "isnone" and a.args[0] in syms:
            return False
        return None

    return atom


def values(**vals):
    """atom oracle: comparisons between polynomials of the named symbols, decided by a representative of their order"""
    from fractions import Fraction
    v = {sym(k): Fraction(x) for k, x in vals.items()}
    return rep(lambda t, ev: v.get(t))


def rep(leaf):
    """atom oracle from representative values: leaf(term, ev) -> number or None, ev evaluates a term"""
    from fractions import Fraction
    import math
    from .. import terms as T
    memo = {}
    FN = {"sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log, "arctan2": math.atan2, "arctan": math.atan, "tan": math.tan}

    def one(a):
        x = leaf(a, ev)
        if x is not None:
            return x
        if a.op in ("num", "poly", "bool"):
            return ev(a)
        if a.op == "abs":
            x = ev(a.args[0])
            return None if x is None else abs(x)
        if a.op == "sym" and a.args[0] == "pi":
            return math.pi
        if a.op == "fn" and a.args[0] in ("max", "min"):
            xs = [ev(x) for x in a.args[1:]]
            return None if None in xs else (max if a.args[0] == "max" else min)(xs)
        if a.op == "fn" and a.args[0] in FN:
            xs = [ev(x) for x in a.args[1:]]
            return None if None in xs else FN[a.args[0]](*map(float, xs))
        if a.op == "pow":
            x, y = ev(a.args[0]), ev(a.args[1])
            return None if x is None or y is None or x <= 0 else float(x) ** float(y)
        return None

    def ev(t):
        if t in memo:
            return memo[t]
        r = Fraction(0)
        big = 0.0
        for m, c in T.poly_of(t).items():
            for a, e in m:
                x = one(a) if a is not t else leafy(a)
                if x is None or not isinstance(e, (int, Fraction)) or (e < 0 and x == 0) or (Fraction(e).denominator != 1 and x < 0):
                    memo[t] = None
                    return None
                e = Fraction(e)
                c = c * (x ** int(e) if e.denominator == 1 else float(x) ** float(e))
            r = r + c
            big = max(big, abs(float(c)))
        if isinstance(r, float) and abs(r) < 1e-9 * big:
            r = None
        memo[t] = r
        return r

    def leafy(a):
        memo[a] = None
        return one(a)

    def atom(a):
        if a.op in ("lt0", "eq0"):
            x = ev(a.args[0])
            if x is not None:
                return x < 0 if a.op == "lt0" else x == 0
        if a.op == "truth":
            x = one(a.args[0])
            if x is not None:
                return x != 0
        if a.op == "isnone" and one(a.args[0]) is not None:
            return False
        return None

    return atom
