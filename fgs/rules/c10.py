"""Picard iteration: order of operations, blending, convergence test, limits."""
from .common import *
from .. import terms as T

ID = "C10"
RULE = "sequence of solves, constraint calls, flux handed over and exit, on every path"
HEAD = """
from freegs.picard import solve
class Eq:
    def __init__(self, f, b, l, frozen, nobnd):
        self.f = f
        self.b = b
        self.l = l
        self.frozen = frozen
        self.nobnd = nobnd
        self.n = 0
        self.m = 0
        self.check_limited = None
        self.is_limited = False
        self.log = []
        self.psi_bndry = None if nobnd else b(0)
    def psi(self):
        n = min(self.n, self.frozen)
        m = min(self.m, self.frozen)
        return np.array([[self.f(n, m, 0), self.f(n, m, 1)]])
    def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
        self.log.append(("solve", profiles, Jtor, psi[0, 0], psi[0, 1], psi_bndry, self.check_limited))
        self.n = self.n + 1
        if not self.nobnd:
            self.psi_bndry = self.b(min(self.n, self.frozen))
        self.is_limited = self.l(self.n) > 0
class Fix:
    def __init__(self, eq):
        self.eq = eq
    def __call__(self, eq):
        eq.log.append(("constrain", eq is self.eq))
        eq.m = eq.m + 1
def want(eq, prof, con, rtol, atol, blend, pb, maxits, chk, wait, lit):
    changes = []
    rel = []
    if con:
        con(eq)
    psi = eq.psi()
    old_b = 0.0
    dbl = None
    limited = False
    failed = True
    for it in range(maxits + 1):
        watch = chk and (it >= lit or limited)
        eq.check_limited = watch
        if watch:
            eq.solve(prof, psi=psi, psi_bndry=eq.psi_bndry)
        else:
            eq.solve(prof, psi=psi, psi_bndry=pb)
        limited = limited or eq.is_limited
        new = eq.psi()
        d0 = abs(new[0, 0] - psi[0, 0])
        d1 = abs(new[0, 1] - psi[0, 1])
        big = np.max(np.array([d0, d1]))
        r = big / (np.max(new) - np.min(new))
        changes.append(big)
        rel.append(r)
        steady = False
        if eq.psi_bndry is None:
            steady = 2.0 * rtol < rtol
        else:
            steady = abs((old_b - eq.psi_bndry) / eq.psi_bndry) < rtol or abs(old_b - eq.psi_bndry) < atol
            old_b = eq.psi_bndry
        if (big < atol or r < rtol) and steady and (eq.is_limited or not wait):
            failed = False
            break
        if con:
            con(eq)
        p = eq.psi()
        psi = np.array([[(1 - blend) * p[0, 0] + blend * psi[0, 0], (1 - blend) * p[0, 1] + blend * psi[0, 1]]])
    return failed, changes, rel
"""
PAR = "f, b, l, prof, rtol, atol, blend, pb"
# name, options given to solve, equivalents for the reference: con, pb, maxits, chk, wait, lit
SC = [
    ("free", "maxits=1", "None", "None", 1, False, False, 0),
    ("constrained", "constrain=con, maxits=1", "con", "None", 1, False, False, 0),
    ("constrained3", "con, maxits=2", "con", "None", 2, False, False, 0),
    ("boundary", "psi_bndry=pb, maxits=1", "None", "pb", 1, False, False, 0),
    ("limited", "con, psi_bndry=pb, maxits=1, check_limited=True", "con", "pb", 1, True, False, 0),
    ("limited-later", "psi_bndry=pb, maxits=2, check_limited=True, limit_it=2", "None", "pb", 2, True, False, 2),
    ("limited-after-one", "psi_bndry=pb, maxits=1, check_limited=True, limit_it=1", "None", "pb", 1, True, False, 1),
    ("wait", "con, maxits=1, check_limited=True, wait_for_limited=True", "con", "None", 1, True, True, 0),
    ("wait-unchecked", "maxits=1, wait_for_limited=True", "None", "None", 1, False, True, 0),
]


def facts(a):
    """boundary values exist; tolerances are positive"""
    if a.op == "isnone" and a.args[0].op == "apply":
        return False
    if a.op == "lt0":
        # t < 0 for t = +-tolerance
        for n in ("rtol", "atol"):
            if a.args[0] is sym(n):
                return False
            if a.args[0] is T.neg(sym(n)):
                return True
    return None


def check(ctx):
    at = ctx.at("picard", None, "solve")
    kw = dict(dense=True, unroll=6, pure=(sym("f"), sym("b"), sym("l")), ranks={x: 0 for x in ("rtol", "atol", "blend", "pb", "f()", "b()", "l()")}, total=True, assume_atom=lambda a: facts(a) if facts(a) is not None else given("pb", "prof")(a))

    def pair(key, opts, con, pb, maxits, chk, wait, lit, frozen=99, nobnd=False, blend="blend", rule=RULE, **kk):
        make = "    eq = Eq(f, b, l, %d, %s)\n    con = Fix(eq)\n" % (frozen, nobnd)
        ctx.pair(key, at, rule, HEAD + "def code(%s):\n%s    failed = False\n    r = None\n    try:\n        r = solve(eq, prof, %s, rtol=rtol, atol=atol, blend=%s)\n    except RuntimeError:\n        failed = True\n    return failed, eq.log, r, eq.check_limited, eq.is_limited\n" % (PAR, make, opts, blend)
                 + "def spec(%s):\n%s    failed, c, r = want(eq, prof, %s, rtol, atol, %s, %s, %d, %s, %s, %d)\n    return failed, eq.log, None, eq.check_limited, eq.is_limited\n" % (PAR, make, con, blend, pb, maxits, chk, wait, lit), **dict(kw, **kk))

    for s in SC:
        pair(*s)
    for s in SC[:2] + SC[7:8]:
        pair(s[0] + "-no-boundary-flux", *s[1:], nobnd=True)
    for s in SC[:5]:
        pair(s[0] + "-4", s[1].replace("maxits=1", "maxits=3").replace("maxits=2", "maxits=3"), s[2], s[3], 3, *s[5:])
    # without limit: goes on until the change vanishes
    for m in ("None", "0"):
        for frozen in (1, 3):
            pair("unlimited[%s,%d]" % (m, frozen), "con, maxits=%s" % m, "con", "None", 12, False, False, 0, frozen=frozen, blend="0.0", rule="no iteration limit", unroll=8)
    # what is returned
    make = "    eq = Eq(f, b, l, 99, False)\n    con = Fix(eq)\n"
    for c in ("True", "False"):
        ctx.pair("info[%s]" % c, at, "returned convergence history", HEAD + "def code(%s):\n%s    return solve(eq, prof, con, rtol=rtol, atol=atol, blend=blend, maxits=2, convergenceInfo=%s)\n" % (PAR, make, c)
                 + "def spec(%s):\n%s    failed, c, r = want(eq, prof, con, rtol, atol, blend, None, 2, False, False, 0)\n    if failed:\n        raise RuntimeError('x')\n    return %s\n" % (PAR, make, "np.array(c), np.array(r)" if c == "True" else "None"), **kw)
    # defaults
    ctx.pair("defaults", at, "default tolerances, blending and options", HEAD + "def code(%s):\n    eq = Eq(f, b, l, 3, False)\n    solve(eq, prof)\n    return eq.log\ndef spec(%s):\n    eq = Eq(f, b, l, 3, False)\n    want(eq, prof, None, 1e-3, 1e-10, 0.0, None, 50, False, False, 0)\n    return eq.log\n" % (PAR, PAR), **dict(kw, unroll=8))
    ctx.pair("limit", at, "the default iteration limit is 50", HEAD + "def code(%s):\n    eq = Eq(f, b, l, 3, False)\n    solve(eq, prof, rtol=-1.0, atol=-1.0)\n    return 1\ndef spec(%s):\n    raise RuntimeError('x')\n" % (PAR, PAR), **dict(kw, unroll=60, assume_atom=lambda a: False if a.op in ("lt0", "isnone") else None))
    ctx.pair("limit-rounds", at, "the default iteration limit is 50", HEAD + "def code(%s):\n    eq = Eq(f, b, l, 1, False)\n    try:\n        solve(eq, prof, rtol=-1.0, atol=-1.0)\n    except RuntimeError:\n        pass\n    return eq.n\ndef spec(%s):\n    return 51\n" % (PAR, PAR), **dict(kw, unroll=60, assume_atom=lambda a: False if a.op in ("lt0", "isnone") else None))
