"""Coil current control: the least-squares problem posed, and what is done with its solution."""
from .common import *

ID = "C13"
RULE = "least-squares problem handed to the optimiser (evaluated at an arbitrary point), and the currents set afterwards"
HEAD = """
from freegs.control import constrain, ConstrainPsi2D, ConstrainPsiNorm2D, ConstrainPsi2DAdvanced, ConstrainPsiNorm2DAdvanced
from freegs.machine import Machine
class Fake:
    def __init__(self, n, src, control, current):
        self.n = n
        self.src = src
        self.control = control
        self.current = current
    def controlBr(self, R, Z):
        return self.src.gr(self.n, R, Z)
    def controlBz(self, R, Z):
        return self.src.gz(self.n, R, Z)
    def controlPsi(self, R, Z):
        return self.src.gp(self.n, R, Z)
    def psi(self, R, Z):
        return self.current * self.src.gp(self.n, R, Z)
    def Br(self, R, Z):
        return self.current * self.src.gr(self.n, R, Z)
    def Bz(self, R, Z):
        return self.current * self.src.gz(self.n, R, Z)
class Eq:
    def __init__(self, tok, src):
        self.tok = tok
        self.src = src
        self._constraints = None
        self.psi_axis = src.oldaxis
        self.psi_bndry = src.oldbndry
        self.updates = []
    def getMachine(self):
        return self.tok
    def Br(self, R, Z):
        return self.src.br(R, Z)
    def Bz(self, R, Z):
        return self.src.bz(R, Z)
    def psiRZ(self, R, Z):
        return self.src.ps(R, Z)
    def plasmaBr(self, R, Z):
        return self.src.br(R, Z) - self.tok.Br(R, Z)
    def plasmaBz(self, R, Z):
        return self.src.bz(R, Z) - self.tok.Bz(R, Z)
    def state(self):
        return [c.current for l, c in self.tok.coils]
    def psi(self):
        a, b, c, d = self.state()
        s = self.src
        return np.array([[s.fl(0, 0, a, b, c, d), s.fl(0, 1, a, b, c, d), s.fl(0, 2, a, b, c, d)], [s.fl(1, 0, a, b, c, d), s.fl(1, 1, a, b, c, d), s.fl(1, 2, a, b, c, d)]])
    def _updateBoundaryPsi(self, psi=None):
        self.updates.append(psi)
        self.psi_axis = self.src.ax(psi[0, 0], psi[0, 1], psi[0, 2], psi[1, 0], psi[1, 1], psi[1, 2])
        self.psi_bndry = self.src.bd(psi[0, 0], psi[0, 1], psi[0, 2], psi[1, 0], psi[1, 1], psi[1, 2])
class Solution:
    def __init__(self, x):
        self.x = x
        self.success = True
class Log:
    items = []
def setup(src, c0, c1, c2, c3):
    Log.src = src
    Log.items = []
    tok = Machine([("A", Fake(0, src, True, c0)), ("B", Fake(1, src, False, c1)), ("C", Fake(2, src, True, c2)), ("D", Fake(3, src, True, c3))])
    return Eq(tok, src), tok
def probe():
    return np.array([Log.src.x0, Log.src.x1, Log.src.x2])
def answer():
    return np.array([Log.src.y0, Log.src.y1, Log.src.y2])
def report(what):
    Log.items = Log.items + what
def minimize(fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
    x = probe()
    report([("x0", [v for v in x0]), ("objective", fun(x, *args)), ("bounds", [(b[0], b[1]) for b in bounds] if bounds is not None else None), ("method", method)])
    for c in constraints:
        report([(c["type"], c["fun"](x))])
    return Solution(answer())
def leastsq(func, x0, args=(), **kw):
    x = probe()
    r = func(x, *args)
    report([("x0", [v for v in x0]), ("residual", [v for v in r])])
    return answer(), 1
def currents(tok):
    return [c.current for l, c in tok.coils]
"""
PAR = "src, c0, c1, c2, c3, p, q, g, lim, mx, tg, w"
VALS = ("gr", "gz", "gp", "br", "bz", "ps", "fl", "ax", "bd")
KW = dict(dense=True, pure=VALS, models={"scipy.optimize.minimize": "minimize", "scipy.optimize.leastsq": "leastsq"}, raises=False,
          ranks={n + "()": 0 for n in VALS} | {n: 0 for n in ("c0", "c1", "c2", "c3", "g", "mx", ".x0", ".x1", ".x2", ".y0", ".y1", ".y2")})



# the least-squares system of the constraints: each a list of (row over controlled coils, right-hand side)
SYSTEM = """
def system(src, xs, iso, vals):
    rows = []
    rhs = []
    for x in xs:
        rows.append([src.gr(n, x[0], x[1]) for n in (0, 2, 3)])
        rhs.append(-src.br(x[0], x[1]))
        rows.append([src.gz(n, x[0], x[1]) for n in (0, 2, 3)])
        rhs.append(-src.bz(x[0], x[1]))
    for x in iso:
        rows.append([src.gp(n, x[0], x[1]) - src.gp(n, x[2], x[3]) for n in (0, 2, 3)])
        rhs.append(src.ps(x[2], x[3]) - src.ps(x[0], x[1]))
    for x in vals:
        rows.append([src.gp(n, x[0], x[1]) for n in (0, 2, 3)])
        rhs.append(x[2] - src.ps(x[0], x[1]))
    return rows, rhs
def objective(rows, rhs, g, x):
    t = 0.0
    for r, b in zip(rows, rhs):
        t = t + (r[0] * x[0] + r[1] * x[1] + r[2] * x[2] - b) ** 2
    return t + g ** 2 * (x[0] ** 2 + x[1] ** 2 + x[2] ** 2)
def start(rows, rhs, g):
    M = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
    v = [0.0, 0.0, 0.0]
    for i in range(3):
        for j in range(3):
            for r in rows:
                M[i][j] = M[i][j] + r[i] * r[j]
        M[i][i] = M[i][i] + g ** 2
        for r, b in zip(rows, rhs):
            v[i] = v[i] + r[i] * b
    return [y for y in np.dot(np.linalg.inv(np.array(M)), np.array(v))]
def wanted(src, xs, iso, vals, g):
    rows, rhs = system(src, xs, iso, vals)
    return [("x0", start(rows, rhs, g)), ("objective", objective(rows, rhs, g, [src.x0, src.x1, src.x2]))]
"""
SETS = [
    ("xpoint", "[(p[0], p[1])]", "[]", "[]"),
    ("xpoints", "[(p[0], p[1]), (p[2], p[3])]", "[]", "[]"),
    ("isoflux", "[]", "[(p[0], p[1], p[2], p[3]), (q[0], q[1], q[2], q[3])]", "[]"),
    ("psivals", "[]", "[]", "[(p[0], p[1], p[2]), (q[0], q[1], q[2])]"),
    ("all", "[(p[0], p[1])]", "[(p[2], p[3], q[0], q[1])]", "[(q[2], q[3], q[4])]"),
]
INF = "float('inf')"


def check(ctx):
    at = ctx.at("control", "constrain", "__call__")

    def pair(key, code, spec, rule=RULE, where=at, **kk):
        ctx.pair(key, where, rule, HEAD + SYSTEM + "def code(%s):\n    eq, tok = setup(src, c0, c1, c2, c3)\n    %s\ndef spec(%s):\n    eq, tok = setup(src, c0, c1, c2, c3)\n    %s\n" % (PAR, code, PAR, spec), **dict(KW, **kk))

    free = "('bounds', [(-np.inf, np.inf), (-np.inf, np.inf), (-np.inf, np.inf)])"
    for name, xs, iso, vals in SETS:
        make = "con = constrain(xpoints=%s, gamma=g, isoflux=%s, psivals=%s)" % (xs, iso, vals)
        pair("problem:" + name, make + "\n    con(eq)\n    return Log.items[:3]", "return wanted(src, %s, %s, %s, g) + [%s]" % (xs, iso, vals, free))
        pair("currents:" + name, make + "\n    con(eq)\n    return currents(tok), con.current_change, eq._constraints is con, len(Log.items)", "return [c0 + src.y0, c1, c2 + src.y1, c3 + src.y2], answer(), True, 4", "the change found is added to the controlled coils only")
    xs, iso, vals = SETS[0][1:]
    lims = "[(lim[0], lim[1]), (lim[2], lim[3]), (lim[4], lim[5]), (lim[6], lim[7])]"
    bounds = "('bounds', [(lim[0] - c0, lim[1] - c0), (lim[4] - c2, lim[5] - c2), (lim[6] - c3, lim[7] - c3)])"
    pair("limits", "con = constrain(xpoints=%s, gamma=g, current_lims=%s)\n    con(eq)\n    return Log.items[:3], currents(tok)" % (xs, lims), "return wanted(src, %s, [], [], g) + [%s], [c0 + src.y0, c1, c2 + src.y1, c3 + src.y2]" % (xs, bounds), "current limits become bounds on the change of the same coil")
    pair("total", "con = constrain(xpoints=%s, gamma=g, max_total_current=mx)\n    con(eq)\n    return Log.items[:3], Log.items[4:]" % xs,
         "return wanted(src, %s, [], [], g) + [%s], [('ineq', mx - (abs(c0 + src.x0) + abs(c2 + src.x1) + abs(c3 + src.x2)))]" % (xs, free), "the sum of the absolute controlled currents is kept below the given total", assume_atom=given("mx"))
    pair("gamma", "con = constrain(xpoints=%s)\n    con(eq)\n    return Log.items[:3]" % xs, "return wanted(src, %s, [], [], 1e-12) + [%s]" % (xs, free), "default regularisation")
    pair("none", "constrain()(eq)\n    return 1", "raise ValueError('none')", "no constraint at all is refused", raises=True)
    pair("short", "constrain(xpoints=%s, current_lims=[(lim[0], lim[1])])(eq)\n    return 1" % xs, "raise AssertionError('limits')", "limits for some coils only are refused", raises=True)
    pair("twice", "con = constrain(xpoints=%s, gamma=g, current_lims=%s)\n    con(eq)\n    con(eq)\n    return currents(tok), Log.items[6]" % (xs, lims), "return [c0 + 2 * src.y0, c1, c2 + 2 * src.y1, c3 + 2 * src.y2], ('bounds', [(lim[0] - c0 - src.y0, lim[1] - c0 - src.y0), (lim[4] - c2 - src.y1, lim[5] - c2 - src.y1), (lim[6] - c3 - src.y2, lim[7] - c3 - src.y2)])", "each call starts from the present currents")

    one = """
def few(src, n, c0, c1):
    Log.src = src
    Log.items = []
    tok = Machine([("A", Fake(0, src, n > 0, c0)), ("B", Fake(1, src, False, c1))])
    return Eq(tok, src), tok
def minimize(fun, x0, args=(), method=None, bounds=None, constraints=(), **kw):
    x = np.array([Log.src.x0])
    report([("objective", fun(x, *args)), ("bounds", [(b[0], b[1]) for b in bounds])])
    return Solution(np.array([Log.src.y0]))
"""
    for n, items, cur in ((1, "[('objective', (src.gr(0, p, q) * src.x0 + src.br(p, q)) ** 2 + (src.gz(0, p, q) * src.x0 + src.bz(p, q)) ** 2 + g ** 2 * src.x0 ** 2), ('bounds', [(-np.inf, np.inf)])]", "[c0 + src.y0, c1]"), (0, "[]", "[c0, c1]")):
        ctx.pair("controls=%d" % n, at, "machines with %d controlled coils" % n, HEAD + one + "def code(src, c0, c1, p, q, g):\n    eq, tok = few(src, %d, c0, c1)\n    con = constrain(xpoints=[(p, q)], gamma=g)\n    con(eq)\n    return Log.items, currents(tok), eq._constraints is con\ndef spec(src, c0, c1, p, q, g):\n    return %s, %s, True\n" % (n, items, cur), **KW)
    # ---------------------------------------------------------------- machine's list of controls
    mach = lambda f: ctx.at("machine", "Machine", f)
    pair("responses", "return tok.controlBr(p, q), tok.controlBz(p, q), tok.controlPsi(p, q), tok.controlCurrents()", "return [src.gr(n, p, q) for n in (0, 2, 3)], [src.gz(n, p, q) for n in (0, 2, 3)], [src.gp(n, p, q) for n in (0, 2, 3)], [c0, c2, c3]", "responses and currents of the controlled coils in machine order", mach("controlPsi"))
    pair("set", "tok.setControlCurrents([lim, mx, g])\n    return currents(tok), tok.controlCurrents(), tok.getCurrents()", "return [lim, c1, mx, g], [lim, mx, g], {'A': lim, 'B': c1, 'C': mx, 'D': g}", "currents go to the controlled coils in machine order", mach("setControlCurrents"), ranks=dict(KW["ranks"], lim=0))
    pair("adjust", "tok.controlAdjust(np.array([lim, mx, g]))\n    return currents(tok)", "return [c0 + lim, c1, c2 + mx, c3 + g]", "changes go to the controlled coils in machine order", mach("controlAdjust"), ranks=dict(KW["ranks"], lim=0))
    pair("switch", "tok['B'].control = True\n    tok['A'].control = False\n    tok.setControlCurrents([lim, mx, g])\n    return currents(tok), tok.controlPsi(p, q)", "return [c0, lim, mx, g], [src.gp(n, p, q) for n in (1, 2, 3)]", "the control flag is looked up at each use", mach("setControlCurrents"), ranks=dict(KW["ranks"], lim=0))

    # ---------------------------------------------------------------- fits of a whole flux map
    two = dict(shapes={"tg": (2, 3), "w": (2, 3)}, assume_atom=given("w", "mx"))
    tools = """
def flux(src, a, b, c, d):
    return [[src.fl(i, j, a, b, c, d) for j in range(3)] for i in range(2)]
def mean(f, w):
    t = 0.0
    n = 0.0
    for i in range(2):
        for j in range(3):
            t = t + w[i][j] * f[i][j]
            n = n + w[i][j]
    return t / n
def residual(src, a, b, c, d, tg, w):
    f = flux(src, a, b, c, d)
    mf = mean(f, w)
    mt = mean(tg, w)
    return [(f[i][j] - mf - (tg[i][j] - mt)) * w[i][j] for i in range(2) for j in range(3)]
def normal(src, a, b, c, d, tg, w):
    f = flux(src, a, b, c, d)
    ax = src.ax(f[0][0], f[0][1], f[0][2], f[1][0], f[1][1], f[1][2])
    bd = src.bd(f[0][0], f[0][1], f[0][2], f[1][0], f[1][1], f[1][2])
    return [((f[i][j] - ax) / (bd - ax) - tg[i][j]) * w[i][j] for i in range(2) for j in range(3)]
def squares(xs):
    t = 0.0
    for x in xs:
        t = t + x ** 2
    return t
"""
    one = "[[1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]"
    mxs = "[[mx, mx, mx], [mx, mx, mx]]"
    point = "src, src.x0, c1, src.x1, src.x2, tg"
    end = "[src.y0, c1, src.y1, src.y2]"
    for cls, res in (("ConstrainPsi2D", "residual"), ("ConstrainPsiNorm2D", "normal")):
        for wn, w, ws in (("default", "", one), ("map", ", weights=w", "w"), ("number", ", weights=mx", mxs)):
            def pair2(key, cl, code, spec, rule, **kk):
                ctx.pair("%s:%s[%s]" % (key, cl, wn), ctx.at("control", cl, "__call__"), rule, HEAD + tools + "def code(%s):\n    eq, tok = setup(src, c0, c1, c2, c3)\n    %s\ndef spec(%s):\n    eq, tok = setup(src, c0, c1, c2, c3)\n    %s\n" % (PAR, code, PAR, spec), **dict(KW, **two, **kk))
            pair2("fit", cls, "con = %s(tg%s)\n    con(eq)\n    return Log.items, currents(tok), eq._constraints is con" % (cls, w),
                  "return [('x0', [c0, c2, c3]), ('residual', %s(%s, %s))], %s, True" % (res, point, ws, end), "weighted difference of the flux maps is minimised over the controlled currents, which are then set")
            adv = cls + "Advanced"
            if cls == "ConstrainPsi2D" or True:
                pair2("fit", adv, "con = %s(tg%s)\n    con(eq)\n    return Log.items[:3], currents(tok), eq._constraints is con" % (adv, w),
                      "return [('x0', [c0, c2, c3]), ('objective', squares(%s(%s, %s))), %s], %s, True" % (res, point, ws, free, end), "weighted squared difference of the flux maps is minimised over the controlled currents, which are then set")
            if wn == "map":
                pair2("bounded", adv, "con = %s(tg%s, current_lims=[(lim[0], lim[1]), (lim[2], lim[3]), (lim[4], lim[5])])\n    con(eq)\n    return Log.items[:3], currents(tok)" % (adv, w),
                      "lo = [min(lim[0], lim[1]), min(lim[2], lim[3]), min(lim[4], lim[5])]\n    hi = [max(lim[0], lim[1]), max(lim[2], lim[3]), max(lim[4], lim[5])]\n    return [('x0', [c if (l <= c and c <= h) else (l if c < l else h) for l, c, h in zip(lo, [c0, c2, c3], hi)]), ('objective', squares(%s(%s, %s))), ('bounds', [(lo[0], hi[0]), (lo[1], hi[1]), (lo[2], hi[2])])], %s" % (res, point, ws, end),
                      "limits bound the fitted currents and its start")
