"""Optimiser: differential evolution keeps the best, never touches the start, obeys limits; measures and controls."""
from .common import *
from .. import terms as T

ID = "C15"
RULE = "facts about every scored candidate, population and monitor call, for symbolic control values and scores in any order"
HEAD = """
from freegs.optimiser import optimise, mutate, pickUnique
class Log:
    k = 0
class Obj:
    def __init__(self, a, b):
        self.vals = [a, b]
class Ctl:
    def __init__(self, i):
        self.i = i
    def set(self, o, v):
        o.vals[self.i] = v
    def get(self, o):
        return o.vals[self.i]
def random(size=None):
    Log.k = Log.k + 1
    return Log.src.u(Log.k)
def uniform(low=0.0, high=1.0, size=None):
    return low + (high - low) * random()
def normal(loc=0.0, scale=1.0, size=None):
    Log.k = Log.k + 1
    return loc + scale * Log.src.g(Log.k)
def randint(low, high=None, size=None):
    if high is None:
        low, high = 0, low
    if low >= high:
        raise ValueError("low >= high")
    Log.state = (Log.state * 1103515245 + 12345) % 2147483648
    v = low + (Log.state // 65536) % (high - low)
    Log.ints = Log.ints + [v]
    return v
def measure(o):
    s = Log.src.m(o.vals[0], o.vals[1])
    Log.tried = Log.tried + [(s, o.vals[0], o.vals[1])]
    return s
def monitor(generation, best, population):
    Log.seen = Log.seen + [(generation, best[0], best[1].vals[0], best[1].vals[1], [(p[0], p[1].vals[0], p[1].vals[1]) for p in population], len(Log.tried))]
def start(src, seed):
    Log.src = src
    Log.k = 0
    Log.state = seed
    Log.ints = []
    Log.tried = []
    Log.seen = []
def lowest(scores):
    r = scores[0]
    for s in scores:
        if s < r:
            r = s
    return r
def trial_ok(t, pop, F, CR, nc):
    # parent i, donors p, q, r: all different members of the population
    n = len(pop)
    for i in range(n):
        for p in range(n):
            for q in range(n):
                for r in range(n):
                    if i != p and i != q and i != r and p != q and p != r and q != r:
                        new = [pop[p][1 + c] + F * (pop[q][1 + c] - pop[r][1 + c]) for c in range(nc)]
                        changed = [t[1 + c] == new[c] for c in range(nc)]
                        if CR == 1 and not all(changed):
                            continue
                        if CR == 0 and len([c for c in changed if c]) != 1:
                            continue
                        if all([changed[c] or t[1 + c] == pop[i][1 + c] for c in range(nc)]) and any(changed):
                            if nc == 2 or t[2] == pop[i][2]:
                                return True
    return False
def varied(v, x, src):
    for k in range(1, Log.k + 1):
        y = v * (1.0 + 0.1 * (src.u(k) - 0.5))
        if abs(y) < 1e-10:
            for j in range(1, Log.k + 1):
                if x == y + src.g(j):
                    return True
        elif x == y:
            return True
    return False
def facts(src, a, b, F, CR, N, maxgen, nc, seed, mon):
    start(src, seed)
    o = Obj(a, b)
    res = optimise(o, [Ctl(i) for i in range(nc)], measure, maxgen=maxgen, N=N, CR=CR, F=F, monitor=monitor if mon else None)
    bad = []
    if not (o.vals[0] == a and o.vals[1] == b):
        bad.append("starting object was modified")
    if not (src.m(res.vals[0], res.vals[1]) == lowest([t[0] for t in Log.tried])):
        bad.append("the returned object does not have the lowest score of all that were scored")
    if len(Log.tried) != N * (1 + maxgen):
        bad.append("number of candidates scored is not the population size times one plus the number of generations")
    if not (Log.tried[0][1] == a and Log.tried[0][2] == b) and not any([t[1] == a and t[2] == b for t in Log.tried]):
        bad.append("the starting object is not a candidate")
    if not mon:
        return bad
    for t in Log.tried[1:N]:
        if not varied(a, t[1], src) or (nc == 2 and not varied(b, t[2], src)):
            bad.append("a member of the first population is not the start with every control varied by at most 5%, or by a normal amount from nothing")
        if nc == 1 and not (t[2] == b):
            bad.append("something other than the controls changed")
    if [s[0] for s in Log.seen] != [g for g in range(maxgen)]:
        bad.append("the monitor is not called once per generation, in order")
    prev = Log.tried[0:N]
    for s in Log.seen:
        if len(s[4]) != N:
            bad.append("population size changed")
        if not (s[1] == lowest([t[0] for t in Log.tried[0:s[5]]])):
            bad.append("best score given to the monitor is not the lowest so far")
        if not (s[1] == src.m(s[2], s[3])):
            bad.append("best object given to the monitor does not have the best score")
        for p in s[4]:
            if not (p[0] == src.m(p[1], p[2])):
                bad.append("a member's recorded score is not the score of that member")
        for i in range(N):
            if prev[i][0] < s[4][i][0]:
                bad.append("a member was replaced by a worse one")
            t = Log.tried[s[5] - N + i]
            if t[0] < prev[i][0] and not (s[4][i][0] == t[0]):
                bad.append("a trial better than its parent was not kept")
        for t in Log.tried[s[5] - N:s[5]]:
            if not trial_ok(t, prev, F, CR, nc):
                bad.append("a trial is not its parent with at least one control set from three other members")
        prev = s[4]
    return bad
"""
PAR = "src, a, b, F, CR"
MODELS = {"numpy.random." + n: n for n in ("random", "uniform", "normal", "randint")}
MODELS.update({"numpy.random.rand": "random", "numpy.random.random_sample": "random"})


def oracle(seed):
    """scores are totally ordered by a hash; values of different form are different; other comparisons by hash"""
    def score(t):
        return t.op == "mcall" and t.args[1] == "m"

    def atom(a):
        if a.op == "eq0":
            return False
        if a.op == "lt0":
            ms = list(T.poly_of(a.args[0]).items())
            if len(ms) == 2 and all(len(m) == 1 and m[0][1] == 1 and score(m[0][0]) for m, c in ms) and ms[0][1] == -ms[1][1]:
                r = [T.ident(m[0][0], 1000 + seed) for m, c in ms]
                return (r[0] < r[1]) if ms[0][1] > 0 else (r[1] < r[0])
            if len(ms) == 1 or (len(ms) == 2 and any(m == () for m, c in ms)):
                # u(k) against 0 or 1: random numbers lie in [0, 1)
                (m, c) = [x for x in ms if x[0] != ()][0]
                c0 = sum(k for q, k in ms if q == ())
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mcall" and m[0][0].args[1] == "u":
                    lo, hi = sorted((c0, c0 + c))
                    if hi <= 0:
                        return True
                    if lo >= 0:
                        return False
            h = T.ident(a.args[0], 1000 + seed)
            if any(t.op == "abs" for m, c in ms for t, e in m):
                return h % 5 == 0
            return h % 2 == 0
        if a.op == "isnone":
            return False
        return None

    return atom


KW = dict(pure=("m", "u", "g"), ranks={"m()": 0, "u()": 0, "g()": 0, "a": 0, "b": 0, "F": 0, "CR": 0}, models=MODELS, total=True)


def check(ctx):
    at = ctx.at("optimiser", None, "optimise")
    runs = [(4, 0, 2), (4, 1, 2), (5, 1, 2), (4, 2, 2), (4, 1, 1), (7, 0, 1)]
    n = 4 if ctx.tier == "quick" else 40
    for cr in (0, 1):
        for seed in range(2):
            ctx.pair("crossover:%d:order%d" % (cr, seed), at, RULE, HEAD + """
def code(src, a, b, F):
    return facts(src, a, b, F, %d, 4, 1, 2, %d, True)
def spec(src, a, b, F):
    return []
""" % (cr, 7919 * seed + 13), assume_atom=oracle(seed), **KW)
    for N, gen, nc in runs:
        for seed in range(n):
            ctx.pair("evolution:N%d:gen%d:controls%d:order%d" % (N, gen, nc, seed), at, RULE, HEAD + """
def code(%s):
    return facts(%s, %d, %d, %d, %d, True)
def spec(%s):
    return []
""" % (PAR, PAR, N, gen, nc, 7919 * seed + 13, PAR), assume_atom=oracle(seed), **KW)
    ctx.pair("defaults", at, "ten generations of ten members, weight 1", HEAD + """
def code(src, a, b):
    start(src, 5)
    optimise(Obj(a, b), [Ctl(0), Ctl(1)], measure)
    n = len(Log.tried)
    start(src, 5)
    optimise(Obj(a, b), [Ctl(0), Ctl(1)], measure, N=4, maxgen=1)
    return n, all([trial_ok(t, Log.tried[0:4], 1, 0.3, 2) for t in Log.tried[4:8]])
def spec(src, a, b):
    return 110, True
""", assume_atom=oracle(0), **KW)
    ctx.pair("refused", at, "populations of fewer than four are refused", HEAD + """
def code(src, a, b):
    start(src, 5)
    return optimise(Obj(a, b), [Ctl(0), Ctl(1)], measure, N=3)
def spec(src, a, b):
    assert False
""", assume_atom=oracle(0), **KW)

    # the part specific to equilibria
    opt = """
from freegs import optimise as opt
from freegs.machine import Machine
class Fake:
    def __init__(self, R, Z):
        self.R = R
        self.Z = Z
        self.turns = 1
        self.current = 0.0
class Eq:
    def __init__(self, tok, forces=None, wall=None):
        self.tokamak = tok
        self.forces = forces
        self.wall = wall
    def getForces(self):
        return self.forces
    def getMachine(self):
        return self.tokamak
    def intersectsWall(self):
        return self.wall
"""
    for cls, q, other in (("CoilRadius", "R", "Z"), ("CoilHeight", "Z", "R")):
        w = ctx.at("optimise", cls, "set")
        lo0 = 0.0 if q == "R" else None
        for tag, args, lo, hi in (("both", "minimum=lo, maximum=hi", "lo", "hi"), ("positional", "lo, hi", "lo", "hi"), ("maximum", "maximum=hi", lo0, "hi"), ("minimum", "minimum=lo", "lo", None),
                                  ("zero-max", "minimum=lo, maximum=0.0", "lo", 0.0), ("zero-min", "minimum=0.0, maximum=hi", 0.0, "hi"), ("none", "", lo0, None)):
            if tag == "zero-max":
                num = dict(lo=-2, hi=7)
            else:
                num = dict(lo=2, hi=5)
            for v in (-3, -1, 1, 3, 6):
                want, x = "v", v
                for lim, sgn in ((lo, 1), (hi, -1)):
                    y = num.get(lim, lim)
                    if lim is not None and sgn * x < sgn * y:
                        want, x = str(lim), y
                ctx.pair("%s:%s:%d" % (cls, tag, v), w, "coil coordinate set is the value clipped to the limits given; nothing else changes", opt + """
def code(r0, z0, r1, z1, v, lo, hi):
    a = Fake(r0, z0)
    b = Fake(r1, z1)
    eq = Eq(Machine([("A", a), ("B", b)]))
    c = opt.%s("A"%s)
    before = c.get(eq)
    c.set(eq, v)
    return before, c.get(eq), a.%s, a.%s, b.R, b.Z
def spec(r0, z0, r1, z1, v, lo, hi):
    x = %s
    return %s, x, x, %s, r1, z1
""" % (cls, ", " + args if args else "", q, other, want, q.lower() + "0", other.lower() + "0"), assume_atom=values(v=v, **num), raises=False)
    w = ctx.at("optimise", None, "optimise")
    ctx.pair("max_abs_coil_current", ctx.at("optimise", None, "max_abs_coil_current"), "largest magnitude", opt + """
def code(i0, i1, i2):
    m = Machine([("A", Fake(1, 1)), ("B", Fake(2, 2)), ("C", Fake(3, 3))])
    m["A"].current = i0
    m["B"].current = i1
    m["C"].current = i2
    return opt.max_abs_coil_current(Eq(m))
def spec(i0, i1, i2):
    return max(abs(i0), abs(i1), abs(i2))
""", raises=False)
    ctx.pair("max_coil_force", ctx.at("optimise", None, "max_coil_force"), "largest magnitude over all coils, circuit members included", opt + """
def code(a, b, c, d, e, f, tok):
    return opt.max_coil_force(Eq(tok, {"A": np.array([a, b]), "cir": {"x": np.array([c, d]), "y": np.array([e, f])}, "sol": {}}))
def spec(a, b, c, d, e, f, tok):
    return max(np.sqrt(a ** 2 + b ** 2), np.sqrt(c ** 2 + d ** 2), np.sqrt(e ** 2 + f ** 2), 0.0)
""", raises=False, ranks={x: 0 for x in "abcdef"}, modulo=drop_zero_max)
    ctx.pair("no_wall_intersection", ctx.at("optimise", None, "no_wall_intersection"), "infinite if the plasma boundary crosses the wall, else nothing", opt + """
def code(tok, w):
    return opt.no_wall_intersection(Eq(tok, None, True)), opt.no_wall_intersection(Eq(tok, None, False))
def spec(tok, w):
    return np.inf, 0.0
""", raises=False)
    ctx.pair("weighted_sum", ctx.at("optimise", None, "weighted_sum"), "sum of weight times measure, weight one by default", opt + """
def code(src, w1, w2, eq):
    def f(e):
        return src.f(e)
    def g(e):
        return src.g(e)
    def h(e):
        return src.h(e)
    m = opt.weighted_sum(f, (g, w1), (h, w2))
    n = opt.weighted_sum((h, w2))
    return m(eq), n(eq), m(src.other)
def spec(src, w1, w2, eq):
    return src.f(eq) + w1 * src.g(eq) + w2 * src.h(eq), w2 * src.h(eq), src.f(src.other) + w1 * src.g(src.other) + w2 * src.h(src.other)
""", pure=("f", "g", "h"), raises=False, ranks={"f()": 0, "g()": 0, "h()": 0})
    # scoring an equilibrium: cached coil responses renewed, re-solved with its own profiles and constraints, then measured
    ctx.pair("equilibrium-score", w, "a candidate's score is the measure after coil responses are renewed and the equilibrium re-solved; infinite if that fails", """
from freegs import optimise as opt
class Log:
    items = []
class Tok:
    def __init__(self, src):
        self.src = src
    def createPsiGreens(self, R, Z):
        return self.src.greens(R, Z)
class Eq:
    def __init__(self, src, fail):
        self.tokamak = Tok(src)
        self.R = src.R
        self.Z = src.Z
        self.fail = fail
        self._pgreen = src.stale
        self._profiles = src.profiles
        self._constraints = src.constraints
        self.src = src
def solve(eq, profiles, constrain=None, rtol=1e-3, atol=1e-10, blend=0.0, show=False, axis=None, pause=0.0001, psi_bndry=None, maxits=50, convergenceInfo=False, check_limited=False):
    Log.items = Log.items + [("solve", eq._pgreen, profiles, constrain, rtol, atol, blend, psi_bndry)]
    if eq.fail:
        raise RuntimeError("did not converge")
def measure(eq):
    Log.items = Log.items + ["measure"]
    return eq.src.score(len(Log.items))
def monitor(g, b, p):
    return g
def optimise(obj, controls, m, maxgen=10, N=10, CR=0.3, F=1.0, monitor=None):
    a = m(Eq(obj.src, False))
    b = m(Eq(obj.src, True))
    return obj, controls, a, b, maxgen, N, CR, F, monitor
def code(src, controls, n, N, CR, F):
    Log.items = []
    eq = Eq(src, False)
    r = opt.optimise(eq, controls, measure, maxgen=n, N=N, CR=CR, F=F, monitor=monitor)
    s = opt.optimise(eq, controls, measure)
    return r[0] is eq, r[1:8], r[8] is monitor, s[4:9], Log.items[0:3]
def spec(src, controls, n, N, CR, F):
    one = ("solve", src.greens(src.R, src.Z), src.profiles, src.constraints, 1e-3, 1e-10, 0.0, None)
    return True, (controls, src.score(2), np.inf, n, N, CR, F), True, (10, 10, 0.3, 1.0, None), [one, "measure", one]
""", pure=("greens", "score"), models={"freegs.picard.solve": "solve", "freegs.optimiser.optimise": "optimise"}, raises=False, ranks={"score()": 0}, total=True)


def drop_zero_max(t):
    """max(0, square roots) = max(square roots)"""
    def go(x, memo={}):
        r = memo.get(x)
        if r is None:
            r = T.rebuild_term(x, go)
            if r.op == "fn" and r.args[0] == "max" and T.ZERO in r.args and any(y.op == "pow" for y in r.args[1:]):
                ys = [y for y in r.args[1:] if y is not T.ZERO]
                r = ys[0] if len(ys) == 1 else mk("fn", "max", *ys)
            memo[x] = r
        return r

    return go(t)

