"""Obligations: each compares what the current source computes with what the property
demands, both as value numbers of the same engine (interp.py)."""
import ast
import os
import signal
import textwrap
import time
from . import terms as T
from .terms import mk, TRUE, FALSE, NONE
from . import binders as B
from .program import Program, AnalysisBroken, FuncInfo
from .interp import Interp, KNOWN_CALLS, State

UNDERSTOOD_FN = {
    "exp", "log", "sin", "cos", "tan", "arctan", "arctan2", "arcsin", "arccos", "sign", "floor", "ceil", "sqrt", "max", "min", "clip", "isnan",
    "floordiv", "mod", "int", "round", "float", "ellipk", "ellipe", "starred", "not",
}
UNDERSTOOD_CALL = {
    "zeros", "ones", "linspace", "len", "str", "transpose", "ravel", "reshape", "interp1d", "RectBivariateSpline", "quad",
    "eye", "tocsr", "diff", "cumsum", "insert", "append", "deepcopy", "romb", "meshgrid", "argmax", "argmin", "inv", "sorted",
    "float32", "float16",
}
UNDERSTOOD_RED = {"sum", "romb", "max", "min", "mean", "prod", "argmax", "argmin"}

PRELUDE = """
import numpy as np
import math
from numpy import pi
mu0 = 4e-7 * np.pi
"""


BUDGET = 600.0
PER_PAIR = 90.0
STRICT = False


class TooLong(Exception):
    pass


def _alarm(sig, frame):
    raise TooLong()


class Obligation:
    def __init__(self, key, where, rule, status, detail="", spec="", code=""):
        self.key = key
        self.where = where
        self.rule = rule
        self.status = status  # held | violated | undecided
        self.detail = detail
        self.spec = spec
        self.code = code

    def as_dict(self):
        return {k: getattr(self, k) for k in ("key", "where", "rule", "status", "detail", "spec", "code")}


class Ctx:
    def __init__(self, prog=None, tier="quick"):
        self.prog = prog or Program()
        self.tier = tier
        self.obs = []
        self.functions = set()
        self.sites = 0
        self.notes = []
        self.t0 = time.time()

    # ---------------------------------------------------------------- recording
    def held(self, key, where, rule, detail=""):
        self.obs.append(Obligation(key, where, rule, "held", detail))

    def violated(self, key, where, rule, detail="", spec="", code=""):
        self.obs.append(Obligation(key, where, rule, "violated", detail, spec, code))

    def undecided(self, key, where, rule, detail="", spec="", code=""):
        self.obs.append(Obligation(key, where, rule, "undecided", detail, spec, code))

    def require(self, key, where, rule, ok, detail=""):
        (self.held if ok else self.violated)(key, where, rule, detail)

    # ---------------------------------------------------------------- interpretation
    def interp(self, **kw):
        return Interp(self.prog, **kw)

    def where(self, f):
        if isinstance(f, FuncInfo):
            return "%s:%s" % (f.module.relpath, (f.cls.name + "." if f.cls else "") + f.name)
        return str(f)

    def at(self, short, cls=None, name=None):
        """where a public function is, by name (for reports only)"""
        return "freegs/%s.py:%s" % (short, ".".join(x for x in (cls, name) if x))

    def run(self, finfo, args=None, self_term=None, facts=None, setup=None, **kw):
        I = self.interp(**kw)
        st = State()
        if setup:
            setup(I, st)
        s = I.summarize(finfo, args, self_term, state=st, facts=facts)
        s.interp = I
        self.functions.add(finfo.qual)
        self.functions |= {q for q in I.inlined if not q.startswith("spec")}
        return s

    def spec_fn(self, text, name, cls=None):
        m = self.prog.spec_module(PRELUDE + textwrap.dedent(text))
        f = m.funcs.get(name)
        if f is None:
            raise AnalysisBroken("spec function %s missing" % name)
        return f

    # ---------------------------------------------------------------- comparison
    def vocabulary(self, t):
        out = set()
        for x in T.subterms(t):
            if x.op in ("call",):
                out.add(("call", x.args[0]))
            elif x.op == "fn":
                out.add(("fn", x.args[0]))
            elif x.op == "red":
                out.add(("red", x.args[1] if False else x.args[0]))
            elif x.op in ("mcall",):
                out.add(("mcall", x.args[1]))
            elif x.op == "apply":
                out.add(("apply", ""))
            elif x.op in ("fold", "foldsys", "foldret", "exits", "after", "noexc", "carried", "rank", "hnest", "strfmt"):
                out.add(("op", x.op))
            elif x.op in ("boolval",):
                out.add(("boolval", x.args[0]))
            elif x.op == "ext":
                out.add(("ext", x.args[0]))
        return out

    def not_understood(self, code, spec, extra=()):
        tp = T.find_top(code)
        if tp is not None:
            return "value not tracked: %s" % (tp.args[0] if tp.args else "?")
        vs = self.vocabulary(spec)
        methods = None
        for kind, nm in sorted(self.vocabulary(code) - vs, key=str):
            if (kind, nm) in extra or nm in extra:
                continue
            if kind == "fn" and nm in UNDERSTOOD_FN:
                continue
            if kind == "call" and nm in UNDERSTOOD_CALL:
                continue
            if kind == "red" and nm in UNDERSTOOD_RED:
                continue
            if kind == "boolval" and nm in ("isinstance",):
                continue
            if kind == "ext" and str(nm).startswith("builtins."):
                continue
            if kind == "mcall":
                if methods is None:
                    methods = {f.name for f in self.prog.all_functions()}
                if nm in methods:
                    continue
            return "uses %s %s, which the rule does not model" % (kind, nm)
        return None

    def compare(self, key, where, rule, code, spec, vocab=(), modulo=None):
        """code and spec are terms"""
        self.sites += 1
        if T.has_top(spec):
            self.undecided(key, where, rule, "reference not understood on this tree: %s" % (T.find_top(spec).args,))
            return False
        if modulo:
            code, spec = modulo(code), modulo(spec)
        try:
            ok = T.eqv(code, spec)
            if not ok and T.cond_atoms(code) and not self.not_understood(code, spec, vocab):
                code, spec = T.contextual(code), T.contextual(spec)
                ok = T.eqv(code, spec)
        except T.Budget:
            self.undecided(key, where, rule, "expression too large")
            return False
        if ok:
            self.held(key, where, rule)
            return True
        why = self.not_understood(code, spec, vocab)
        fc, fs = focus(code, spec)
        cs, ss = clip(T.pp(fc)), clip(T.pp(fs))
        if why:
            self.undecided(key, where, rule, why, ss, cs)
            return False
        self.violated(key, where, rule, "the source computes a different value", ss, cs)
        return False

    def pair(self, key, where, rule, text, vocab=(), args=None, code="code", spec="spec", raises=True, effects=False, modulo=None, **kw):
        """two driver functions in reference text; `code` uses the package, `spec` states the demand"""
        left = BUDGET - (time.time() - self.t0)
        if left < 1:
            self.undecided(key, where, rule, "not analysed: time budget of the check used up")
            return False
        n = len(self.obs); t1 = time.time()
        T.allow()
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, min(left, PER_PAIR))
        try:
            return self._pair(key, where, rule, text, vocab, args, code, spec, raises, effects, modulo, kw)
        except TooLong:
            why = "analysis of this obligation took too long"
        except (RecursionError, T.Budget):
            why = "value too large to analyse"
        except AnalysisBroken as e:
            why = str(e)
        except Exception as e:
            if STRICT:
                raise
            why = "construct not handled by the analysis (%s: %s)" % (type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if os.environ.get("FGS_TIMES"): print("%6.2f %s" % (time.time() - t1, key))
            signal.signal(signal.SIGALRM, old)
        del self.obs[n:]
        self.undecided(key, where, rule, why)
        return False

    def _pair(self, key, where, rule, text, vocab, args, code, spec, raises, effects, modulo, kw):
        m = self.prog.spec_module(PRELUDE + textwrap.dedent(text))
        fc, fs = m.funcs[code], m.funcs[spec]
        if "models" in kw:
            kw = dict(kw, models={q: m.funcs.get(n) or m.classes[n] for q, n in kw["models"].items()})
        T.LAZY[0] = kw.get("lazy", 0)
        kw = {k: v for k, v in kw.items() if k != "lazy"}
        sc = self.run(fc, args, **kw)
        ss = self.run(fs, args, **kw)
        a, b = sc.result, ss.result
        if not raises:
            a, b = drop_raises(a), drop_raises(b)
            if a is None or b is None:
                if a is b:
                    self.held(key, where, rule)
                else:
                    self.violated(key, where, rule, "always raises" if a is None else "never raises")
                return False
        r = self.compare(key, where, rule, a, b, vocab, modulo)
        if effects and r:
            self.purity(key + ":effects", where, rule, sc)
        return r

    def purity(self, key, where, rule, s, allow=()):
        bad = external_writes(s, allow)
        if bad:
            self.violated(key, where, rule, "modifies %s" % "; ".join(bad[:4]))
        else:
            self.held(key, where, rule)


def external_writes(s, allow=()):
    I = s.interp
    bad = []
    for (o, a), v in s.heap.items():
        if o.op == "obj" or a in allow:
            continue
        v0 = mk("attr", o, a)
        if v is v0:
            continue
        bad.append("%s.%s := %s" % (T.pp(o), a, clip(T.pp(v), 120)))
    for h in s.heach:
        tup = h.args[3]
        if tup.op == "tuple" and tup.args[1].args and tup.args[1].args[0] in allow:
            continue
        if tup.op == "tuple" and tup.args[0].op != "hnest":
            o, a, v = tup.args
            if v is mk("attr", o, a.args[0]):
                continue
        bad.append("each element: " + clip(T.pp(tup), 120))
    for k, v in s.content.items():
        if v.op == "dns" and v is I.sym_array(k, v.args[0]):
            continue
        if k.op in ("sym", "attr", "elem") and v is not k and not (k.op == "sym" and "#" in str(k.args[0])):
            bad.append("contents of %s" % T.pp(k))
    return bad


def drop_raises(t):
    lv = T.leafset(t)
    rl = [x for x in lv if x.op == "raise"]
    if not rl:
        return t
    if len(rl) == len(lv):
        return None
    keep = T.lift1(lambda x: FALSE if x.op == "raise" else TRUE, t)
    return under(t, keep)


def under(t, g):
    return Interp._under_cond(None, t, g)


def clip(s, n=1500):
    s = str(s)
    return s if len(s) <= n else s[: n - 3] + "..."


def focus(a, b, depth=60):
    """descend to the smallest differing pair of subterms"""
    while depth:
        depth -= 1
        if not isinstance(a, T.Term) or not isinstance(b, T.Term) or a.op != b.op or len(a.args) != len(b.args):
            break
        if a.op == "poly":
            sa, sb = set(a.args), set(b.args)
            da = [m for m in a.args if m not in sb]
            db = [m for m in b.args if m not in sa]
            if len(da) == 1 and len(db) == 1 and da[0][1] == db[0][1] and len(da[0][0]) == len(db[0][0]):
                xa = [x for x in da[0][0] if x not in db[0][0]]
                xb = [x for x in db[0][0] if x not in da[0][0]]
                if len(xa) == 1 and len(xb) == 1 and xa[0][1] == xb[0][1]:
                    a, b = xa[0][0], xb[0][0]
                    continue
            if da and db:
                return mk("poly", *da) if len(da) < len(a.args) else a, mk("poly", *db) if len(db) < len(b.args) else b
            break
        d = []
        for x, y in zip(_leaves(a.args), _leaves(b.args)):
            if x != y and not (isinstance(x, T.Term) and isinstance(y, T.Term) and T.ident(x) == T.ident(y)):
                d.append((x, y))
        if len(_leaves(a.args)) != len(_leaves(b.args)) or len(d) != 1 or not isinstance(d[0][0], T.Term) or not isinstance(d[0][1], T.Term):
            break
        a, b = d[0]
    return a, b


def _leaves(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            out += _leaves(y)
        else:
            out.append(y)
    return out
