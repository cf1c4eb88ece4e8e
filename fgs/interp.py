"""Gated value numbering of Python functions.

Flow-sensitive dataflow over the syntax tree: every variable, attribute and
container gets one canonical term (terms.py); branches are merged with decision
diagrams, loops are summarised (sums, maps, guarded array updates, folds),
package-internal helpers are inlined, everything else stays an uninterpreted but
named call. The code is never run."""
import ast
import itertools
import math
from fractions import Fraction
from . import terms as T
from .terms import mk, Term, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, top, num, string, Budget
from . import binders as B
from . import dense as D
from .program import FuncInfo, ClassInfo, import_bindings, AnalysisBroken

FALL = mk("flow", "fall")
RET = mk("flow", "ret")
BRK = mk("flow", "brk")
CONT = mk("flow", "cont")


def raise_flow(exc):
    return mk("flow", "raise", exc)


class State:
    __slots__ = ("frames", "cur", "heap", "heach", "content", "flow", "ret", "facts", "events", "epoch", "attr_epoch", "pend")

    def __init__(self):
        self.frames = {0: {}}
        self.cur = 0
        self.heap = {}
        self.heach = ()
        self.content = {}
        self.flow = FALL
        self.ret = NONE
        self.facts = {}
        self.events = ()
        self.epoch = None
        self.attr_epoch = {}
        self.pend = FALL

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.heach = self.heach
        s.content = dict(self.content)
        s.flow = self.flow
        s.ret = self.ret
        s.facts = dict(self.facts)
        s.events = self.events
        s.epoch = self.epoch
        s.attr_epoch = dict(self.attr_epoch)
        s.pend = self.pend
        return s

    def become(self, o):
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))

    @property
    def env(self):
        return self.frames[self.cur]


class Summary:
    def __init__(self, result, heap, heach, content, events, state, loops):
        self.result = result
        self.heap = heap
        self.heach = heach
        self.content = content
        self.events = events
        self.state = state
        self.loops = loops


class FuncVal:
    __slots__ = ("info", "node", "module", "cls", "frame", "bound")

    def __init__(self, node, module, cls=None, frame=None, info=None, bound=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.frame = frame
        self.info = info
        self.bound = bound


ELEMENTWISE1 = {
    "exp", "log", "sin", "cos", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "tanh", "sign", "floor", "ceil",
    "isnan", "isfinite", "isinf", "log10", "log2", "ellipk", "ellipe", "round", "rint", "conj", "real", "imag", "logical_not",
    "expm1", "log1p", "nan_to_num", "deg2rad", "rad2deg",
}
IDENT = {"asarray", "ascontiguousarray", "asanyarray", "float64", "asfarray"}
REDUCE = {"sum", "amax", "amin", "max", "min", "mean", "prod", "any", "all", "argmax", "argmin", "romb", "median", "std"}
RENAME = {"amax": "max", "amin": "min", "average": "average", "absolute": "abs", "fabs": "abs", "concatenate": "concatenate",
          "arctan2": "arctan2", "atan2": "arctan2", "atan": "arctan", "acos": "arccos", "asin": "arcsin", "transpose": "transpose"}
SIGS = {
    "linspace": (["start", "stop", "num", "endpoint", "retstep", "dtype"], {"num": num(50), "endpoint": TRUE, "retstep": FALSE, "dtype": NONE}),
    "RectBivariateSpline": (["x", "y", "z", "bbox", "kx", "ky", "s"], {"bbox": NONE, "kx": num(3), "ky": num(3), "s": ZERO}),
    "interp1d": (["x", "y", "kind", "axis"], {"kind": string("linear"), "axis": num(-1)}),
    "quad": (["func", "a", "b"], {}),
    "zeros": (["shape", "dtype"], {"dtype": NONE}),
    "ones": (["shape", "dtype"], {"dtype": NONE}),
    "full": (["shape", "fill_value", "dtype"], {"dtype": NONE}),
    "eye": (["N", "M", "k"], {"M": NONE, "k": ZERO}),
    "average": (["a", "axis", "weights"], {"axis": NONE, "weights": NONE}),
    "reshape": (["a", "newshape"], {}),
    "cumulative_trapezoid": (["y", "x", "dx", "axis", "initial"], {"x": NONE, "dx": ONE, "axis": num(-1), "initial": NONE}),
    "meshgrid": (None, {"indexing": string("xy")}),
    "diff": (["a", "n", "axis"], {"n": ONE, "axis": num(-1)}),
    "insert": (["arr", "obj", "values", "axis"], {"axis": NONE}),
    "append": (["arr", "values", "axis"], {"axis": NONE}),
    "cumsum": (["a", "axis"], {"axis": NONE}),
    "interp": (["x", "xp", "fp"], {}),
    "norm": (["x", "ord", "axis"], {"ord": NONE, "axis": NONE}),
    "arange": (None, {}),
    "allclose": (["a", "b"], {}),
}
# external functions the analysis regards as understood (distinct names = distinct functions)
KNOWN_CALLS = {
    "linspace", "meshgrid", "RectBivariateSpline", "interp1d", "quad", "zeros", "ones", "full", "eye", "average", "reshape",
    "cumulative_trapezoid", "diff", "insert", "append", "cumsum", "interp", "norm", "arange", "allclose", "romb", "sum", "max",
    "min", "mean", "prod", "any", "all", "argmax", "argmin", "argwhere", "ravel", "flatten", "concatenate", "dot", "inv",
    "transpose", "matmul", "size", "ndim", "shape", "argsort", "spsolve", "factorized", "minimize", "leastsq", "odeint",
    "zeros_like", "ones_like", "full_like", "lil_matrix", "dtype", "Polygon", "Point", "LinearRing", "LineString", "array",
    "str", "type", "id", "sorted", "dict", "set", "deepcopy", "splu", "bool", "int", "stack", "column_stack", "clip",
    "solve", "isclose", "count_nonzero", "outer", "kron", "vstack", "hstack", "tile", "repeat", "roll", "rot90", "flip",
    "float32", "float16", "randint", "random", "uniform", "isinstance", "hasattr", "len", "enumerate", "zip", "range", "list", "tuple", "reversed",
}
PURE_METHODS = {
    "copy": "copy", "sum": "sum", "max": "max", "min": "min", "mean": "mean", "ravel": "ravel", "flatten": "flatten",
    "reshape": "reshape", "transpose": "transpose", "dot": "dot", "any": "any", "all": "all", "argmax": "argmax",
    "argmin": "argmin", "item": "item", "tolist": "tolist", "astype": "astype", "prod": "prod", "cumsum": "cumsum",
    "conj": "conj", "clip": "clip", "round": "round", "squeeze": "squeeze", "tocsr": "tocsr", "tocsc": "tocsc",
    "std": "std", "diagonal": "diagonal", "toarray": "toarray",
}
BENIGN = {"print", "warn", "warnings.warn", "show", "pause", "figure", "close", "draw", "debug", "info"}
PLOT_PREFIX = ("matplotlib",)


class Interp:
    def __init__(self, prog, opaque=(), inline_only=None, hints=None, attr_class=None, ranks=None, depth=14, opaque_classes=(), pure=(), facts=None, consts=None, elem_class=None, assume_atom=None, dense=False, shapes=None, vectorised=(), models=None, unroll=0, total=False, integers=(), finite=False):
        self.unroll = unroll
        self.total = total
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_classes = set(opaque_classes)
        self.hints = dict(hints or {})
        self.attr_class = dict(attr_class or {})
        self.rank_cfg = ranks or {}
        self.maxdepth = depth
        self.pure_names = set(pure)
        self.effects = prog.effects()
        self.uid = 0
        self.certain = 0
        self.funcs = {}
        self.loops = []
        self.closure_frames = set()
        self.dict_phis = set()
        self.depth = 0
        self.inlined = set()
        self.modconst = {}
        self.consts = dict(consts or {})
        self.init_facts = dict(facts or {})
        self.elem_class = dict(elem_class or {})
        self.assume_atom = assume_atom
        self.dense = bool(dense or shapes)
        self.shapes = dict(shapes or {})
        self.vectorised = set(vectorised)
        self.models = dict(models or {})
        # locations of integer arrays: what is stored there loses its fraction
        self.intlocs = {mk("sym", n): "int" for n in integers}  # arrays of another kind than double
        self.finite = finite  # every value is a finite number

    # ------------------------------------------------------------------ utilities
    def new_uid(self):
        self.uid += 1
        return self.uid

    def _clonable(self, S, t):
        return t.op in ("ref", "obj", "list", "tuple", "dict") or (t.op == "ite" and all(self._clonable(S, x) for x in T.leafset(t)))

    def clone(self, S, t, memo):
        """copy.deepcopy (memo a dict) or copy.copy (memo None) of a tracked value"""
        if t.op == "ite":
            return T.ite(T.b_atom(t.args[0]), self.clone(S, t.args[1], memo), self.clone(S, t.args[2], memo))
        if memo is not None and t in memo:
            return memo[t]
        deep = (lambda x: self.clone(S, x, memo)) if memo is not None else (lambda x: x)
        if t.op == "ref":
            c = S.content[t]
            r = self.alloc(S, c)
            if memo is not None:
                memo[t] = r
                S.content[r] = self.clone(S, self.rd(S, t) if c.op == "view" else c, memo)
            elif c.op == "view":
                S.content[r] = self.rd(S, t)
            return r
        if t.op == "obj":
            m = t.args[0].lookup("methods", "__deepcopy__" if memo is not None else "__copy__")
            if m is not None:
                return top("copy by " + m.name)
            r = mk("obj", t.args[0], self.new_uid())
            if memo is not None:
                memo[t] = r
            for (o, a), v in list(S.heap.items()):
                if o is t:
                    S.heap[(r, a)] = deep(v)
            return r
        if t.op in ("list", "tuple", "set"):
            return mk(t.op, *[deep(x) for x in t.args])
        if t.op == "dict":
            return mk("dict", *[(k, deep(v)) for k, v in t.args])
        return t

    def order(self, S, items, key=None):
        """items in ascending order (stable), None when a comparison is not decided"""
        ks = [self.call(S, key, [x], {}) if key is not None else x for x in items]

        def less(a, b):
            a, b = self.deep(S, a), self.deep(S, b)
            if a.op in ("tuple", "list") and b.op == a.op:
                for x, y in zip(a.args, b.args):
                    e = self.under(S, T.cmp_eq(x, y))
                    if e is TRUE:
                        continue
                    return less(x, y) if e is FALSE else None
                return len(a.args) < len(b.args)
            if a.op == "str" and b.op == "str":
                return a.args[0] < b.args[0]
            if a.op in ("tuple", "list", "str", "obj", "none", "dict", "top") or b.op in ("tuple", "list", "str", "obj", "none", "dict", "top"):
                return None
            c = self.under(S, T.cmp_lt(a, b))
            return True if c is TRUE else False if c is FALSE else None

        out = []
        for i in range(len(items)):
            j = len(out)
            while j > 0:
                l = less(ks[i], out[j - 1][0])
                if l is None:
                    return None
                if not l:
                    break
                j -= 1
            out.insert(j, (ks[i], items[i]))
        return [x for _, x in out]

    def alloc(self, S, content):
        r = mk("ref", id(self), self.new_uid())
        S.content[r] = content
        return r

    # ---- views: an array location that shares the elements of another one
    VIEWERS = ("reshape", "ravel", "transpose", "squeeze", "swapaxes", "expand_dims", "atleast_1d", "atleast_2d")

    def view_value(self, S, c):
        b = self.rd(S, c.args[0])
        if b.op != "dns":
            return T.lift1(lambda x: D.make(c.args[1], [D.entries(x)[i] for i in c.args[2]]) if x.op == "dns" else top("view of " + x.op), b)
        es = D.entries(b)
        return D.make(c.args[1], [es[i] for i in c.args[2]])

    def view_of(self, S, loc, f):
        """location for f(content of loc) when f only selects elements, else None"""
        if not self.dense or loc.op not in ("ref", "sym", "attr"):
            return None
        v = self.rd(S, loc)
        if v.op != "dns":
            return None
        n = D.size(D.shape_of(v))
        r = f(D.make(D.shape_of(v), [num(i) for i in range(n)]))
        if r is None or r.op != "dns" or not all(e.op == "num" for e in D.entries(r)):
            return None
        pos = [int(e.args[0]) for e in D.entries(r)]
        c = S.content.get(loc)
        if c is not None and c.op == "view":
            loc, pos = c.args[0], [c.args[2][i] for i in pos]
        return self.alloc(S, mk("view", loc, D.shape_of(r), tuple(pos)))

    INTS = ("int", "int_", "int32", "int64", "intp", "i4", "i8", "uint8", "int8", "int16")

    def is_int_loc(self, S, loc):
        """kind of an array of integers or low precision, else None"""
        if not self.intlocs:
            return None
        c = S.content.get(loc)
        return self.intlocs.get(c.args[0] if c is not None and c.op == "view" else loc)

    def int_value(self, x, kind="int"):
        def one(y):
            if kind != "int":
                return self.rounded(kind, y)
            if y.op == "num":
                return num(int(y.args[0]))
            return y if y.op == "call" and y.args[0] in ("int_cast", "argmax", "argmin", "len") else mk("call", "int_cast", (y,), ())

        return D.emap(lambda y: T.lift1(one, y), x) if x.op == "dns" else T.lift1(one, x)

    def int_arrays(self, S, name, pos, kw):
        """constructors of arrays of integers or of low precision; None: nothing to do with these"""
        dt = kw.get("dtype")
        base = dt.args[0].split(".")[-1] if dt is not None and dt.op in ("ext", "str", "func", "builtin") and isinstance(dt.args[0], str) else None
        like = name in ("zeros_like", "ones_like", "empty_like", "full_like", "copy", "array", "asarray", "asanyarray")
        was = self.is_int_loc(S, pos[0]) if like and len(pos) >= 1 else None
        if base in self.INTS and (like or name in ("zeros", "ones", "empty", "full")):
            kind = "int"
        elif self.low_precision(dt) and (like or name in ("zeros", "ones", "empty", "full")):
            kind = self.low_precision(dt)
        elif dt is None and was and name not in ("asarray", "asanyarray"):
            kind = was
        else:
            return None
        rest = {k: x for k, x in kw.items() if k not in ("dtype", "copy")}
        v = self.numpy_call(S, "array" if name == "copy" else name, [self.deep(S, p) for p in pos], rest, "int")
        v = self.deep(S, v)
        if v.op != "dns":
            return None
        already = name in ("copy", "array", "asarray", "asanyarray") and was == kind
        r = self.alloc(S, v if already or name in ("zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like") else self.int_value(v, kind))
        self.intlocs[r] = kind
        return r

    def setc(self, S, loc, v):
        """replace the content of an array location in place"""
        c = S.content.get(loc)
        if self.intlocs and loc in self.intlocs and v.op == "dns":
            old = self.rd(S, loc)
            if old.op == "dns" and D.shape_of(old) == D.shape_of(v):
                v = D.make(D.shape_of(v), [b if a is b else self.int_value(b, self.intlocs[loc]) for a, b in zip(D.entries(old), D.entries(v))])
        if c is not None and c.op == "view":
            base, shape, pos = c.args

            def put(b, x):
                if b.op != "dns" or x.op == "top":
                    return x if x.op == "top" else top("store into a view")
                es = list(D.entries(b))
                if x.op == "dns" and D.shape_of(x) != shape:
                    return top("store into a view")
                for i, e in zip(pos, D.entries(x) if x.op == "dns" else [x] * len(pos)):
                    es[i] = e
                return D.make(D.shape_of(b), es)
            new = T.lift2(put, self.rd(S, base), v)
            if base in self.intlocs and (S.content.get(base) is None or S.content[base].op != "view"):
                return self.setc(S, base, new)
            S.content[base] = new
            return
        S.content[loc] = v

    def is_loc(self, t):
        return t.op in ("ref", "sym", "attr", "elem")

    def rd(self, S, t):
        """content of a location (one level)"""
        n = 0
        if self.shapes and t.op in ("sym", "attr") and t not in S.content:
            c = self.initial_content(t)
            if c is not t:
                S.content[t] = c
        while t in S.content and n < 5:
            c = S.content[t]
            if c.op == "view":
                return self.view_value(S, c)
            if c is t or (c.op == "upd" and True):
                return c
            t = c
            n += 1
        return t

    def initial_content(self, t):
        if self.shapes and t.op in ("sym", "attr"):
            sh = self.shapes.get(t.args[0] if t.op == "sym" else "." + str(t.args[1]))
            if sh is not None:
                return self.sym_array(t, sh)
        return t

    def sym_array(self, t, sh):
        import itertools
        return D.make(sh, [mk("elem", t, *[num(i) for i in ix]) for ix in itertools.product(*[range(x) for x in sh])])

    def deep(self, S, t, seen=None):
        t = self.rd(S, t)
        if t.op == "dns":
            return t
        if t.op in ("list", "tuple", "concat", "set"):
            na = tuple(self.deep(S, x) for x in t.args)
            return t if na == t.args else mk(t.op, *na)
        if t.op == "dict":
            na = tuple((self.deep(S, k), self.deep(S, v)) for k, v in t.args)
            return mk("dict", *na)
        if t.op == "ite":
            return T.ite(T.b_atom(t.args[0]), self.deep(S, t.args[1]), self.deep(S, t.args[2]))
        if t.op in ("map", "flatmap", "upd", "dmap", "dstore", "st", "each", "kw", "call", "fcall", "new", "apply", "mcall") and self._has_ref(t):
            return T.subst(t, {x: self.deep(S, x) for x in self._refs(t)})
        return t

    def _refs(self, t):
        return [x for x in T.subterms(t) if x.op == "ref"]

    def _has_ref(self, t):
        return any(x.op == "ref" for x in T.subterms(t))

    def rank(self, t):
        op = t.op
        if op in ("num", "len", "idx", "bool", "none"):
            return 0
        if op == "dns":
            return len(t.args[0])
        if op == "elem" and self.shapes and t.args[0].op in ("sym", "attr"):
            sh = self.shapes.get(t.args[0].args[0] if t.args[0].op == "sym" else "." + str(t.args[0].args[1]))
            if sh is not None and len(sh) == len(t.args) - 1 and all(x.op == "num" for x in t.args[1:]):
                return 0
        if op == "poly":
            r = 0
            for m, _ in t.args:
                for a, e in m:
                    k = self.rank(a)
                    if k is None:
                        return None
                    r = max(r, k)
            return r
        if op in ("abs", "pow"):
            r = 0
            for a in t.args:
                k = self.rank(a)
                if k is None:
                    return None
                r = max(r, k)
            return r
        if op == "fn":
            r = 0
            for a in t.args[1:]:
                k = self.rank(a)
                if k is None:
                    return None
                r = max(r, k)
            return r
        if op == "ite":
            a, b = self.rank(t.args[1]), self.rank(t.args[2])
            return a if a == b else (None if a is None or b is None else max(a, b))
        if op == "red":
            return t.args[2] if len(t.args) > 2 and isinstance(t.args[2], int) else None
        if op == "elem":
            k = self.rank(t.args[0])
            if k is None:
                return None
            for x in t.args[1:]:
                if x.op not in ("slice", "ellipsis"):
                    if self.rank(x) not in (0,):
                        return None
                    k -= 1
            return max(k, 0)
        if op == "sum":
            return self.rank(t.args[3])
        if op == "sym":
            if t.args[0] in ("pi", "mu0", "inf"):
                return 0
            return self.rank_cfg.get(t.args[0])
        if op == "attr":
            return self.rank_cfg.get("." + t.args[1])
        if op == "upd":
            return self.rank(t.args[0])
        if op == "fcall":
            k = self.rank_cfg.get(str(t.args[0]).split(".")[-1] + "()")
            if k is not None:
                return k
        return self.rank_cfg.get(t)

    def classof(self, S, t):
        if t.op == "obj":
            return self.hints.get(t) or t.args[0]
        c = self.hints.get(t)
        if c is not None:
            return c
        if t.op == "attr":
            base = self.classof(S, t.args[0])
            if base is not None:
                for k in base.mro():
                    h = self.attr_class.get((k.name, t.args[1]))
                    if h is not None:
                        return h
            h = self.attr_class.get(("*", t.args[1]))
            if h is not None:
                return h
        if t.op == "elem":
            # records of a list: (list term, position in the record) -> class
            h = self.elem_class.get((t.args[0], int(t.args[-1].args[0]) if t.args[-1].op == "num" and len(t.args) > 2 else None))
            if h is not None:
                return h
        if t.op == "new":
            return t.args[0] if isinstance(t.args[0], ClassInfo) else None
        return None

    # ------------------------------------------------------------------ entry points
    def summarize(self, finfo, args=None, self_term=None, state=None, facts=None):
        S = state or State()
        S.facts.update(self.init_facts)
        if facts:
            S.facts.update(facts)
        fv = FuncVal(finfo.node, finfo.module, finfo.cls, None, finfo)
        self.loops = []
        bind = {}
        a = finfo.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        pos = list(names)
        if finfo.cls is not None and not finfo.is_static:
            me = pos.pop(0)
            if finfo.is_classmethod:
                bind[me] = self.class_term(finfo.cls)
            else:
                st = self_term or mk("sym", "self")
                if st not in self.hints:
                    self.hints[st] = finfo.cls
                bind[me] = st
        args = args or {}
        for n in pos:
            if n in args:
                bind[n] = args[n]
            else:
                bind[n] = mk("sym", n)
        if a.vararg:
            bind[a.vararg.arg] = args.get(a.vararg.arg, mk("sym", "*" + a.vararg.arg))
        if a.kwarg:
            bind[a.kwarg.arg] = args.get(a.kwarg.arg, mk("sym", "**" + a.kwarg.arg))
        res = self.run_body(S, fv, bind)
        return Summary(self.deep(S, res) if res is not None else NONE, dict(S.heap), S.heach, dict(S.content), S.events, S, list(self.loops))

    def run_body(self, S, fv, bind):
        """executes abstractly in a new frame; returns result diagram (raise leaves kept)"""
        self.depth += 1
        try:
            caller = S.cur
            uid = self.new_uid()
            S.frames[uid] = dict(bind)
            S.frames[uid]["$parent"] = fv.frame
            S.frames[uid]["$fv"] = fv
            S.cur = uid
            oflow, oret, opend = S.flow, S.ret, S.pend
            S.flow, S.ret, S.pend = FALL, NONE, FALL
            if isinstance(fv.node, ast.Lambda):
                v = self.eval(fv.node.body, S)
                S.ret = v
                S.flow = RET
                self.apply_pend(S)
            else:
                self.block(fv.node.body, S)
            flow, ret = S.flow, S.ret
            S.cur = caller
            S.flow, S.ret, S.pend = oflow, oret, opend
            if uid not in self.closure_frames:
                S.frames.pop(uid, None)

            def comb(fl, rv):
                if fl.args[0] == "raise":
                    return mk("raise", fl.args[1])
                if fl is RET:
                    return rv
                return NONE

            return self._zipdiag(flow, ret, comb)
        finally:
            self.depth -= 1

    def _zipdiag(self, flow, ret, f):
        """flow diagram decides; ret value diagram restricted along the path"""

        def go(fl, rv):
            if fl.op == "ite":
                c = fl.args[0]
                return T.ite(T.b_atom(c), go(fl.args[1], T.restrict(rv, c, True)), go(fl.args[2], T.restrict(rv, c, False)))
            if fl.op == "top":
                return fl
            return f(fl, rv)

        return go(flow, ret)

    # ------------------------------------------------------------------ statements
    def apply_pend(self, S):
        if S.pend is not FALL:
            # raise leaves of pend override a fall flow
            p = S.pend
            S.pend = FALL

            def go(pd):
                if pd.op == "ite":
                    return T.ite(T.b_atom(pd.args[0]), go(pd.args[1]), go(pd.args[2]))
                return S.flow if pd is FALL else pd

            S.flow = go(p)

    def block(self, stmts, S):
        for i, st in enumerate(stmts):
            if S.flow is FALL:
                self.stmt(st, S)
                self.apply_pend(S)
                continue
            lv = T.leafset(S.flow)
            if FALL not in lv:
                return
            # part of the executions has left: run the rest for the others, then merge
            g = T.lift1(lambda x: TRUE if x is FALL else FALSE, S.flow)
            R = S.copy()
            R.flow = FALL
            self.narrow(R, g)
            self.block(stmts[i:], R)
            self.merge(S, g, R, S.copy())
            return

    def implied(self, g):
        out = {}
        atoms = {x.args[0] for x in B._ite_nodes(g)}
        for a in atoms:
            if T.restrict(g, a, False) is FALSE:
                out[a] = True
            elif T.restrict(g, a, True) is FALSE:
                out[a] = False
        return out

    def assume(self, S, g):
        if g.op == "ite":
            S.facts.update(self.implied(g))

    def narrow(self, S, g):
        """the rest is run only where g holds"""
        self.assume(S, g)
        if g.op != "ite" or not self.unroll:
            return
        memo = {}
        for uid, fr in list(S.frames.items()):
            new = {k: T.constrain(v, g, memo) if isinstance(v, Term) else v for k, v in fr.items()}
            if any(new[k] is not fr[k] for k in fr):
                S.frames[uid] = new
        for d in (S.heap, S.content):
            for k, v in d.items():
                if T.cond_atoms(v):
                    d[k] = T.constrain(v, g, memo)

    def under(self, S, c):
        """simplify condition by known facts"""
        if c.op == "ite" and self.assume_atom is not None:
            c = self._restrict_all(c)
        if c.op != "ite" or not S.facts:
            return c
        for a in {x.args[0] for x in B._ite_nodes(c)}:
            if a in S.facts:
                c = self._restrict_any(c, a, S.facts[a])
                if c.op != "ite":
                    return c
        return c

    def _restrict_any(self, t, a, v):
        return T.restrict(t, a, v)

    def merge_value(self, g, a, b):
        if a is b:
            return a
        ba = a.args[0] if a.op == "upd" else a
        bb = b.args[0] if b.op == "upd" else b
        if (a.op == "upd" or b.op == "upd") and ba is bb:
            oa = a.args[1:] if a.op == "upd" else ()
            ob = b.args[1:] if b.op == "upd" else ()
            n = 0
            while n < len(oa) and n < len(ob) and oa[n] is ob[n]:
                n += 1
            ng = T.b_not(g)
            ops = list(oa[:n]) + [B.guard_op(g, o) for o in oa[n:]] + [B.guard_op(ng, o) for o in ob[n:]]
            return B.upd(ba, *ops)
        if a.op == "dns" and b.op == "dns" and a.args[0] == b.args[0]:
            return D.emap(lambda x, y: T.ite(g, x, y), a, b)
        return T.ite(g, a, b)

    def merge(self, S, g, A, Bs):
        """S := g ? A : Bs"""
        frames = {}
        for uid in set(A.frames) | set(Bs.frames):
            fa, fb = A.frames.get(uid), Bs.frames.get(uid)
            if fa is None or fb is None:
                frames[uid] = fa or fb
                continue
            if fa is fb or fa == fb:
                frames[uid] = fa
                continue
            d = {}
            for n in set(fa) | set(fb):
                va, vb = fa.get(n, UNDEF), fb.get(n, UNDEF)
                if n.startswith("$"):
                    d[n] = va if va is not UNDEF else vb
                    continue
                d[n] = va if va is vb else self.merge_ref(S, g, va, vb, A, Bs)
            frames[uid] = d
        heap = {}
        for k in set(A.heap) | set(Bs.heap):
            va = A.heap[k] if k in A.heap else self.initial_attr(A, *k)
            vb = Bs.heap[k] if k in Bs.heap else self.initial_attr(Bs, *k)
            heap[k] = va if va is vb else self.merge_ref(S, g, va, vb, A, Bs)
        content = {}
        for k in set(A.content) | set(Bs.content):
            if k.op == "ref":
                va = A.content.get(k)
                vb = Bs.content.get(k)
                content[k] = vb if va is None else va if vb is None else self.merge_value(g, va, vb)
            else:
                content[k] = self.merge_value(g, *[X.content[k] if k in X.content else self.initial_content(k) for X in (A, Bs)])
        n = 0
        while n < len(A.events) and n < len(Bs.events) and A.events[n] is Bs.events[n]:
            n += 1
        ev = A.events[:n]
        if A.events[n:]:
            ev = ev + tuple(self._guard_event(g, e) for e in A.events[n:])
        if Bs.events[n:]:
            ng = T.b_not(g)
            ev = ev + tuple(self._guard_event(ng, e) for e in Bs.events[n:])
        n = 0
        while n < len(A.heach) and n < len(Bs.heach) and A.heach[n] is Bs.heach[n]:
            n += 1
        he = A.heach[:n] + tuple(self._guard_heach(g, h) for h in A.heach[n:])
        if Bs.heach[n:]:
            ng = T.b_not(g)
            he = he + tuple(self._guard_heach(ng, h) for h in Bs.heach[n:])
        S.frames = frames
        S.heap = heap
        S.content = content
        S.events = ev
        S.heach = he
        S.flow = T.ite(g, A.flow, Bs.flow)
        S.ret = A.ret if A.ret is Bs.ret else T.ite(g, A.ret, Bs.ret)
        if A.epoch is not Bs.epoch:
            S.epoch = T.ite(g, A.epoch or NONE, Bs.epoch or NONE)
        else:
            S.epoch = A.epoch
        ae = {}
        for k in set(A.attr_epoch) | set(Bs.attr_epoch):
            va, vb = A.attr_epoch.get(k, NONE), Bs.attr_epoch.get(k, NONE)
            ae[k] = va if va is vb else T.ite(g, va, vb)
        S.attr_epoch = ae
        S.facts = {k: v for k, v in A.facts.items() if Bs.facts.get(k) == v}
        # a branch that never continues teaches the negation
        S.cur = A.cur

    def merge_ref(self, S, g, va, vb, A, Bs):
        # two different array values: merge contents when one side is derived
        if va.op == "ref" and vb.op == "ref":
            ca, cb = A.content.get(va), Bs.content.get(vb)
            if ca is not None and cb is not None:
                # keep as a choice of references
                return T.ite(g, va, vb)
        return T.ite(g, va, vb)

    def _guard_event(self, g, e):
        if e.op == "ev":
            return mk("ev", T.b_and(g, e.args[0]), e.args[1])
        return mk("ev", g, e)

    def _guard_heach(self, g, h):
        dom, k, parts = B.open_(h)
        return B.close("map", dom, k, T.b_and(g, parts[0]), parts[1])

    def stmt(self, n, S):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            S.env["$unk"] = top("statement " + type(n).__name__)
            return
        m(n, S)

    def s_Pass(self, n, S):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, n, S):
        for name, b in import_bindings(n, self.prog.package).items():
            S.env[name] = self.resolved_term(self.prog.resolve_import(b), None)

    s_ImportFrom = s_Import

    def s_Expr(self, n, S):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, S)

    def s_Assert(self, n, S):
        c = self.cond(n.test, S)
        c = self.under(S, c)
        if c is TRUE:
            return
        # assertion failure is a raise; facts hold afterwards
        if c.op == "top":
            return
        self.add_pend(S, T.b_not(c), "AssertionError")
        self.assume(S, c)

    def add_pend(self, S, cond, exc):
        if cond is FALSE:
            return
        S.pend = self._pend_merge(S.pend, T.ite(cond, raise_flow(exc), FALL))

    def _pend_merge(self, p, q):
        return T.lift2(lambda a, b: a if a is not FALL else b, p, q)

    def s_Raise(self, n, S):
        exc = "Exception"
        if n.exc is not None:
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            exc = ast.unparse(e).split(".")[-1]
        S.flow = raise_flow(exc)

    def s_Return(self, n, S):
        v = NONE if n.value is None else self.eval(n.value, S)
        S.ret = self.frozen(S, v)
        S.flow = RET

    def frozen(self, S, v):
        return v

    def s_Break(self, n, S):
        S.flow = BRK

    def s_Continue(self, n, S):
        S.flow = CONT

    def s_Delete(self, n, S):
        for t in n.targets:
            if isinstance(t, ast.Name):
                S.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                S.heap[(self.eval(t.value, S), t.attr)] = top("deleted attribute")
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, S)
                v = self.rd(S, o)
                r = None
                if isinstance(t.slice, ast.Slice):
                    b = [NONE if x is None else self.eval(x, S) for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                    if v.op == "list" and all(x is NONE or x.op == "num" for x in b):
                        items = list(v.args)
                        del items[slice(*[None if x is NONE else int(x.args[0]) for x in b])]
                        r = mk("list", *items)
                else:
                    i = self.eval(t.slice, S)
                    if v.op == "list" and i.op == "num" and -len(v.args) <= i.args[0] < len(v.args):
                        items = list(v.args)
                        del items[int(i.args[0])]
                        r = mk("list", *items)
                    elif v.op == "dict" and i.op == "str" and all(k.op == "str" for k, _ in v.args):
                        r = mk("dict", *[kv for kv in v.args if kv[0] is not i])
                if r is None:
                    r = top("deleted item")
                if self.is_loc(o):
                    S.content[o] = r
                elif isinstance(t.value, ast.Name):
                    S.env[t.value.id] = r
                elif isinstance(t.value, ast.Attribute):
                    S.heap[(self.eval(t.value.value, S), t.value.attr)] = r
                else:
                    S.events = S.events + (top("deleted item"),)

    def s_FunctionDef(self, n, S):
        S.env[n.name] = self.func_term(FuncVal(n, self.cur_module(S), None, S.cur))

    def s_ClassDef(self, n, S):
        S.env[n.name] = top("local class")

    def cur_fv(self, S):
        return S.frames[S.cur]["$fv"]

    def cur_module(self, S):
        return self.cur_fv(S).module

    def func_term(self, fv):
        t = mk("func", id(self), self.new_uid())
        self.funcs[t] = fv
        if fv.frame is not None:
            self.closure_frames.add(fv.frame)
        return t

    def s_Assign(self, n, S):
        v = self.eval(n.value, S)
        if isinstance(n.value, ast.Name) and any(not isinstance(t, ast.Subscript) for t in n.targets):
            v = self.promote(n.value, v, S)
        if v.op == "dns" and any(isinstance(t, (ast.Name, ast.Attribute)) for t in n.targets):
            v = self.alloc(S, v)
        elif v.op == "dns" and any(isinstance(t, ast.Subscript) for t in n.targets):
            # kept in a dictionary or list: an array with identity
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    c = self.rd(S, self.eval(self._as_load(t.value), S))
                    if c.op == "dict" or (c.op == "list" and not isinstance(t.slice, ast.Slice)):
                        v = self.alloc(S, v)
                        break
        for t in n.targets:
            self.assign(t, v, S)

    def s_AnnAssign(self, n, S):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, S), S)

    def promote(self, node, v, S):
        """a named computed value that is about to be aliased becomes a location"""
        if v.op in ("poly", "call", "fcall", "mcall", "fn", "pow", "red", "upd", "abs", "apply") and isinstance(node, ast.Name) and node.id in S.env:
            if self.rank(v) == 0:
                return v
            r = self.alloc(S, v)
            S.env[node.id] = r
            return r
        return v

    def assign(self, tgt, v, S):
        if isinstance(tgt, ast.Name):
            fv = self.cur_fv(S)
            S.env[tgt.id] = v
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(tgt, v, S)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, S)
            self.setattr(S, o, tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            self.store(tgt, v, S)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, mk("fn", "starred", v), S)
        else:
            S.env["$unk"] = top("assign target")

    def unpack(self, tgt, v, S):
        if any(isinstance(e, ast.Starred) for e in tgt.elts):
            v = self.rd(S, v)
            if v.op in ("tuple", "list"):
                i = [isinstance(e, ast.Starred) for e in tgt.elts].index(True)
                after = len(tgt.elts) - i - 1
                items = list(v.args)
                parts = items[:i] + [mk("list", *items[i:len(items) - after])] + (items[len(items) - after:] if after else [])
                for e, x in zip(tgt.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, S)
                return
            for e in tgt.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, top("starred unpack"), S)
            return
        vals = [self.getitem(S, v, [num(i)]) for i in range(len(tgt.elts))]
        for e, x in zip(tgt.elts, vals):
            self.assign(e, x, S)

    def s_AugAssign(self, n, S):
        load = ast.copy_location(self._as_load(n.target), n.target)
        old = self.eval(load, S)
        rhs = self.eval(n.value, S)
        oldv = self.rd(S, old)
        v = self.binop(type(n.op).__name__, oldv, self.deep(S, rhs), S)
        if isinstance(n.target, ast.Name) or (self.dense and isinstance(n.target, ast.Attribute)):
            if old.op == "ref" and (oldv.op in ("list", "concat", "map", "flatmap") or self.rank(oldv) != 0):
                self.setc(S, old, v)
                return
            if self.is_loc(old) and old.op in ("sym", "attr", "elem") and ((self.rank(old) or 0) >= 1 or oldv.op == "dns"):
                self.setc(S, old, v)
                return
        self.assign(n.target, v, S)

    def _as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        return t2

    def store(self, tgt, v, S):
        base = self.eval(tgt.value, S)
        if base.op == "ite":
            # conditional reference
            def each(t, g):
                if t.op == "ite":
                    c = T.b_atom(t.args[0])
                    each(t.args[1], T.b_and(g, c))
                    each(t.args[2], T.b_and(g, T.b_not(c)))
                elif self.is_loc(t):
                    self.store_loc(S, t, self.index(tgt.slice, S, t), v, g)
                else:
                    S.env["$unk"] = top("store through choice")

            refs = T.leafset(base)
            if all(self.is_loc(x) for x in refs):
                each(base, TRUE)
                return
        cls = self.classof(S, base)
        if cls is not None and cls.lookup("methods", "__setitem__") is not None:
            idx = self.index(tgt.slice, S, base)
            self.call_finfo(S, cls.lookup("methods", "__setitem__"), [base, idx[0] if len(idx) == 1 else mk("tuple", *idx), v], {}, cls)
            return
        if not self.is_loc(base):
            r = self.alloc(S, base)
            if isinstance(tgt.value, (ast.Name, ast.Attribute)):
                self.assign(self._as_store(tgt.value), r, S)
            elif isinstance(tgt.value, ast.Subscript):
                # nested: x[i][j] = v
                inner = self.eval(tgt.value.value, S)
                idx = self.index(tgt.value.slice, S, inner) + self.index(tgt.slice, S, None)
                if self.is_loc(inner):
                    self.store_loc(S, inner, idx, v, TRUE)
                return
            base = r
        idx = self.index(tgt.slice, S, base)
        self.store_loc(S, base, idx, v, TRUE)

    def _as_store(self, t):
        t2 = ast.parse(ast.unparse(t) + " = 0").body[0].targets[0]
        return t2

    def store_loc(self, S, loc, idx, v, guard):
        if loc.op == "elem":
            # write through to the root array: a[i][j] = v
            root = loc
            pre = []
            while root.op == "elem" and root not in S.content:
                pre = list(root.args[1:]) + pre
                root = root.args[0]
            if root.op in ("sym", "attr", "ref"):
                loc, idx = root, pre + list(idx)
        c = self.rd(S, loc)
        if self.dense and (c.op == "dns" or (c.op == "ite" and any(x.op == "dns" for x in T.leafset(c)))):
            ix = [self.deep(S, i) for i in idx]
            vd = self.deep(S, v)
            if vd.op == "ite" and not self.has_dns(vd) and not any(y.op in ("list", "tuple", "arr") for y in T.leafset(vd)):
                put = lambda x: D.put(x, ix, vd, guard)
            else:
                put = lambda x: T.lift1(lambda y: D.put(x, ix, y, guard), vd)
            new = T.lift1(lambda x: put(x) if x.op == "dns" else top("store into choice of %s" % x.op), c)
            if new.op == "top" and guard is TRUE and not self.lifting and new.args[0] in ("store: index out of range", "stored shape"):
                self.add_pend(S, TRUE, "ValueError" if new.args[0] == "stored shape" else "IndexError")
            self.setc(S, loc, new)
            return
        if c.op in ("dict", "dmap", "dstore") or c in self.dict_phis or (len(idx) == 1 and idx[0].op == "str"):
            if c.op == "dict" and guard is TRUE and idx[0].op == "str":
                items = [kv for kv in c.args if kv[0] is not idx[0]]
                S.content[loc] = mk("dict", *(items + [(idx[0], v)]))
            else:
                new = mk("dstore", c, idx[0], self.deep(S, v))
                S.content[loc] = T.ite(guard, new, c)
            return
        if c.op == "list" and len(idx) == 1 and idx[0].op == "num" and guard is TRUE:
            i = int(idx[0].args[0])
            if -len(c.args) <= i < len(c.args):
                items = list(c.args)
                items[i] = v
                S.content[loc] = mk("list", *items)
                return
        vv = self.deep(S, v)

        def mkst(g, val):
            return mk("st", g, mk("tuple", *idx), val)

        if c.op == "ite":
            S.content[loc] = T.lift1(lambda x: B.upd(x, mkst(guard, vv)), c)
            return
        S.content[loc] = B.upd(c, mkst(guard, vv))

    def s_If(self, n, S):
        c = self.cond(n.test, S)
        c = self.under(S, c)
        if c is TRUE:
            self.block(n.body, S)
            return
        if c is FALSE:
            self.block(n.orelse, S)
            return
        if c.op == "top" or T.has_top(c):
            # unknown condition: use a fresh opaque boolean atom carrying the unknown
            c = T.b_atom(mk("truth", c if c.op == "top" else top("condition")))
        A, Bs = S.copy(), S.copy()
        self.assume(A, c)
        self.assume(Bs, T.b_not(c))
        self.block(n.body, A)
        self.block(n.orelse, Bs)
        base_facts = dict(S.facts)
        self.merge(S, c, A, Bs)
        # facts hold for every execution of the state; block() narrows to those that go on
        S.facts = base_facts

    def s_With(self, n, S):
        for it in n.items:
            v = self.eval(it.context_expr, S)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, S)
        self.block(n.body, S)

    def s_Try(self, n, S):
        if not n.handlers:
            self.block(n.body, S)
            self.block(n.finalbody, S)
            return
        A, Hs = S.copy(), S.copy()
        certain = self.certain
        self.block(n.body, A)
        # uncaught-by-name raises inside the body: treat as handled when types match
        self.block(n.orelse, A)
        names = "|".join(sorted(x for h in n.handlers for x in ([ast.unparse(t) for t in h.type.elts] if isinstance(h.type, ast.Tuple) else [ast.unparse(h.type)] if h.type else ["*"])))
        bodyfp = mk("excbody", names, string(ast.dump(ast.Module(body=n.body, type_ignores=[]))[:0]), num(len(A.events)))
        risky = sum(isinstance(x, ast.Call) or (isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)) for b in n.body for x in ast.walk(b))
        g = T.b_atom(mk("noexc", names)) if self.certain - certain < risky and not self.total else TRUE
        h = n.handlers[0]
        if h.name:
            Hs.env[h.name] = mk("sym", "exc:" + names)
        self.block(h.body, Hs)
        lvH = T.leafset(Hs.flow)
        # raises in A that the handlers catch go to the handler
        def caught(x):
            return x.op == "flow" and x.args[0] == "raise" and (x.args[1] in names.split("|") or "*" in names or "Exception" in names)
        if any(caught(x) for x in T.leafset(A.flow)):
            # the handler continues from the state at the raise
            ok = T.lift1(lambda x: FALSE if caught(x) else TRUE, A.flow)
            C = A.copy()
            self.assume(C, T.b_not(ok))
            excs = {x for x in T.leafset(A.flow) if caught(x)}
            hs = {next((h for h in n.handlers if h.type is None or set(ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])) & {x.args[1], "Exception", "BaseException"}), n.handlers[0]) for x in excs}
            C.flow = FALL
            if len(hs) > 1:
                C.flow = RET
                C.ret = top("several handlers")
            else:
                h, = hs
                if h.name:
                    C.env[h.name] = mk("sym", "exc:" + "|".join(sorted(x.args[1] for x in excs)))
                self.block(h.body, C)
            A.flow = T.lift1(lambda x: FALL if caught(x) else x, A.flow)
            if ok is FALSE:
                A.become(C)
            else:
                self.merge(A, ok, A.copy(), C)
        if g is TRUE:
            S.become(A)
        else:
            self.merge(S, g, A, Hs)
        self.block(n.finalbody, S)

    # ------------------------------------------------------------------ loops
    def s_For(self, n, S):
        it = self.eval(n.iter, S)
        self.for_over(n, it, S)

    def iter_desc(self, S, it):
        """-> ('const', [terms]) or ('dom', dom, guard, k, elem) or None"""
        cls = self.classof(S, it)
        m = cls.lookup("methods", "__iter__") if cls is not None else None
        if m is not None:
            it = self.call_finfo(S, m, [it], {}, cls)
        v = self.rd(S, it)
        if v.op == "ite":
            lv = T.leafset(v)
            if len(lv) > 1:
                return None
        if v.op in ("list", "tuple", "set"):
            return ("const", list(v.args))
        if v.op in ("rec", "recs"):
            return ("const", list(v.args[1:]))
        if v.op == "dns":
            rows = range(v.args[0][0])
            if len(v.args[0]) > 1:
                return ("const", [self.view_of(S, it, lambda x: D.get(x, [num(i)])) or D.get(v, [num(i)]) for i in rows])
            return ("const", [D.get(v, [num(i)]) for i in rows])
        if v.op == "dict":
            return ("const", [k for k, _ in v.args])
        if v.op == "str":
            return ("const", [string(ch) for ch in v.args[0]]) if len(v.args[0]) < 32 else None
        if v.op == "rng":
            c = B.dom_const(v)
            if c is not None:
                return ("const", c)
            k = B.fresh_idx()
            return ("dom", v, TRUE, k, k)
        if v.op == "zip":
            ds = [self.iter_desc(S, x) for x in v.args]
            if any(d is None for d in ds):
                return None
            if all(d[0] == "const" for d in ds):
                return ("const", [mk("tuple", *xs) for xs in zip(*[d[1] for d in ds])])
            # align on the first symbolic domain
            doms = [d for d in ds if d[0] == "dom"]
            lead = next((d for d in doms if d[2] is not TRUE), doms[0])
            dom, guard, k = lead[1], lead[2], lead[3]
            if guard is TRUE:
                if dom.op == "rng" and dom.args[2] is ONE:
                    posn = T.sub(k, dom.args[0])
                else:
                    posn = B.close("rank", dom, B.fresh_idx(), k)
            else:
                kk = B.fresh_idx()
                posn = B.close("rank", dom, kk, T.subst(guard, {k: kk}), k)
            el = []
            for x, d in zip(v.args, ds):
                if d is lead:
                    el.append(d[4])
                elif d[0] == "const":
                    return None
                elif d[2] is TRUE and d[1].op == "rng" and d[1].args[2] is ONE:
                    el.append(T.subst(d[4], {d[3]: T.add(d[1].args[0], posn)}))
                elif d[1] is dom and self._same_guard(d, lead):
                    el.append(T.subst(d[4], {d[3]: k}))
                else:
                    return None
            return ("dom", dom, guard, k, mk("tuple", *el))
        if v.op == "enum":
            d = self.iter_desc(S, v.args[0])
            start = v.args[1]
            if d is None:
                return None
            if d[0] == "const":
                return ("const", [mk("tuple", T.add(start, num(i)), x) for i, x in enumerate(d[1])])
            _, dom, guard, k, el = d
            if guard is TRUE and dom.op == "rng" and dom.args[2] is ONE:
                posn = T.sub(k, dom.args[0])
            elif guard is TRUE:
                posn = B.close("rank", dom, B.fresh_idx(), k)
            else:
                kk = B.fresh_idx()
                posn = B.close("rank", dom, kk, T.subst(guard, {k: kk}), k)
            return ("dom", dom, guard, k, mk("tuple", T.add(start, posn), el))
        if v.op == "map":
            dom, k, parts = B.open_(v)
            return ("dom", dom, parts[0], k, parts[1])
        if v.op == "items":
            d = v.args[0]
            if d.op == "dict":
                return ("const", [mk("tuple", a, b) for a, b in d.args])
        if v.op in ("concat", "top", "flatmap", "num", "none"):
            return None
        if v.op in ("upd",):
            k = B.fresh_idx()
            return ("dom", mk("rng", ZERO, self.length(S, v), ONE), TRUE, k, self.getitem(S, v, [k]))
        k = B.fresh_idx()
        return ("dom", mk("rng", ZERO, self.length(S, v), ONE), TRUE, k, self.getitem(S, v, [k]))

    def _same_guard(self, d, lead):
        return T.subst(d[2], {d[3]: lead[3]}) is lead[2]

    def for_over(self, n, it, S):
        d = self.iter_desc(S, it)
        if d is None:
            v = self.rd(S, it)
            if v.op == "concat" and all(p.op in ("list", "map") for p in v.args):
                # run the loop over each part in sequence
                if not any(isinstance(x, (ast.Break,)) for x in ast.walk(n)):
                    for p in v.args:
                        self.for_over(n, p, S)
                        if S.flow is not FALL:
                            return
                    return
            v = self.under(S, v)
            if v.op != "ite":
                if self.rd(S, it) is not v:
                    self.for_over(n, v, S)
                    return
            elif len(T.leafset(v)) <= 4 and not T.has_top(v):
                c = T.b_atom(v.args[0])
                A, Bs = S.copy(), S.copy()
                self.assume(A, c)
                self.assume(Bs, T.b_not(c))
                self.for_over(n, v.args[1], A)
                self.for_over(n, v.args[2], Bs)
                self.merge(S, c, A, Bs)
                return
            self.havoc_loop(n, S, "iterable")
            return
        if d[0] == "const":
            for nx, x in enumerate(d[1]):
                self.assign(n.target, x, S)
                self.block(n.body, S)
                lv = T.leafset(S.flow)
                if lv <= {FALL, CONT}:
                    S.flow = FALL
                    continue
                # some executions leave the loop: finish the rest for those that stay
                rest = d[1][nx + 1:]
                stay = T.lift1(lambda f: TRUE if f in (FALL, CONT) else FALSE, S.flow)
                gone = S.copy()
                gone.flow = T.lift1(lambda f: FALL if f in (BRK, CONT) else f, S.flow)
                if stay is FALSE:
                    S.become(gone)
                    return
                R = S.copy()
                R.flow = FALL
                self.narrow(R, stay)
                fake = ast.For(target=n.target, iter=n.iter, body=n.body, orelse=n.orelse)
                self.for_over(fake, mk("list", *rest), R)
                self.merge(S, stay, R, gone)
                return
            if n.orelse:
                self.block(n.orelse, S)
            return
        _, dom, guard, k, el = d
        self.sym_loop(n, S, dom, guard, k, el)

    def havoc_loop(self, n, S, why):
        t = top("loop over %s at line %d" % (why, getattr(n, "lineno", 0)))
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                S.env[x.id] = t
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                try:
                    o = self.eval(x.value, S.copy())
                except Exception:
                    o = t
                S.heap[(o, x.attr)] = t
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                try:
                    o = self.eval(x.value, S.copy())
                    for lf in T.leafset(o):
                        if self.is_loc(lf):
                            S.content[lf] = t
                        elif isinstance(x.value, ast.Name):
                            S.env[x.value.id] = t
                except Exception:
                    pass
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in self.MUTATORS:
                try:
                    o = self.eval(x.func.value, S.copy())
                    for lf in T.leafset(o):
                        if self.is_loc(lf):
                            S.content[lf] = t
                        elif isinstance(x.func.value, ast.Name):
                            S.env[x.func.value.id] = t
                except Exception:
                    pass
            elif isinstance(x, ast.Return):
                S.flow = T.ite(T.b_atom(mk("truth", t)), RET, FALL)
                S.ret = t
        S.events = S.events + (t,)

    def snapshot_changes(self, S0, S1):
        """changed keys between two states"""
        ch = []
        for uid in S1.frames:
            if uid not in S0.frames:
                continue
            f0, f1 = S0.frames[uid], S1.frames[uid]
            for nme, v in f1.items():
                if nme.startswith("$"):
                    continue
                v0 = f0.get(nme, UNDEF)
                if v0 is not v:
                    if v.op == "ref" and v not in S0.content and S1.content.get(v) is v0:
                        continue  # the value was only given a location
                    ch.append(("env", uid, nme))
        for k, v in S1.heap.items():
            v0 = S0.heap.get(k)
            if v0 is None:
                v0 = self.initial_attr(S0, *k)
            if v0 is not v:
                ch.append(("heap",) + k)
        for k, v in S1.content.items():
            if k.op == "ref" and k not in S0.content:
                continue
            if S0.content.get(k, k) is not v:
                ch.append(("content", k))
        return ch

    def get_key(self, S, key):
        if key[0] == "env":
            return S.frames.get(key[1], {}).get(key[2], UNDEF)
        if key[0] == "heap":
            v = S.heap.get((key[1], key[2]))
            return v if v is not None else self.initial_attr(S, key[1], key[2])
        return S.content.get(key[1], key[1])

    def set_key(self, S, key, v):
        if key[0] == "env":
            S.frames[key[1]][key[2]] = v
        elif key[0] == "heap":
            S.heap[(key[1], key[2])] = v
        else:
            S.content[key[1]] = v

    def loop_body(self, n, S, guard, el):
        """one abstract iteration on state S (modified)"""
        if guard is TRUE:
            if el is not None:
                self.assign(n.target, el, S)
            self.block(n.body, S)
            return
        A, Bs = S.copy(), S.copy()
        self.assume(A, guard)
        if el is not None:
            self.assign(n.target, el, A)
        self.block(n.body, A)
        self.merge(S, guard, A, Bs)

    MUTATORS = ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "update", "add", "clear", "fill", "setdefault", "popitem", "discard")

    def prepromote(self, n, S):
        """variables whose container is modified in a loop body become locations first"""
        names = []
        for st in n.body:
            for x in ast.walk(st):
                t = None
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    t = x.value
                    while isinstance(t, ast.Subscript):
                        t = t.value
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in self.MUTATORS:
                    t = x.func.value
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    v = S.env.get(x.target.id)
                    if v is not None and v is not UNDEF and (self.rank(v) or 0) >= 1:
                        t = x.target
                if isinstance(t, ast.Name) and t.id not in names:
                    names.append(t.id)
        for nm in names:
            v = S.env.get(nm)
            if v is None or v is UNDEF or v.op in ("top", "none", "ite"):
                continue
            if v.op == "sym" and v.args[0].startswith("phi#"):
                continue
            if not self.is_loc(v):
                S.env[nm] = self.alloc(S, v)

    def sym_loop(self, n, S, dom, guard, k, el, while_test=None):
        self.prepromote(n, S)
        S0 = S.copy()
        S0.flow = FALL
        known = []
        phis = {}
        nev = len(S0.events)
        nhe = len(S0.heach)
        P = None
        for rnd in range(6):
            P = S0.copy()
            for key in known:
                self.set_key(P, key, phis[key])
            # the epoch inside the loop may come from an earlier iteration
            wcond = None
            if while_test is not None:
                wcond = self.cond(while_test, P)
                if wcond is not TRUE and wcond.op == "ite":
                    self.assume(P, wcond)
            start = P.copy()
            try:
                self.loop_body(n, P, guard, el)
            except Budget:
                self.havoc_loop(n, S, "budget")
                return
            ch = [c for c in self.snapshot_changes(start, P)]
            new = []
            for c in ch:
                if c in phis:
                    continue
                if c[0] == "heap" and T.occurs(c[1], {k}):
                    continue  # per-iteration object
                if c[0] == "content" and T.occurs(c[1], {k}):
                    continue
                if c[0] in ("content", "heap") and any(x.op == "sym" and x.args[0].startswith("phi#") for x in T.subterms(c[1])):
                    # written through a loop-carried alias
                    self.havoc_loop(n, S, "alias")
                    return
                new.append(c)
            if not new:
                break
            for c in new:
                known.append(c)
                phis[c] = B.fresh_sym("phi")
                init = self.get_key(S0, c)
                if init in self.hints:
                    self.hints[phis[c]] = self.hints[init]
                if init.op in ("dict", "dmap", "dstore") or init in self.dict_phis:
                    self.dict_phis.add(phis[c])
                if init.op in ("upd", "poly", "call", "sym", "attr") and self.rank(init) is not None and init is not UNDEF:
                    self.rank_cfg = dict(self.rank_cfg)
                    self.rank_cfg[phis[c].args[0]] = self.rank(init)
        else:
            self.havoc_loop(n, S, "unstable")
            return
        outs = {key: self.get_key(P, key) for key in known}
        inits = {key: self.get_key(S0, key) for key in known}
        allphi = set(phis.values())
        # a variable whose every-iteration value is a reference to a container created
        # in the iteration: use its content
        for key in known:
            o = outs[key]
            if o.op == "ref" and o not in S0.content and o in P.content:
                outs[key] = self.deep(P, o)
        flow = P.flow
        lvflow = T.leafset(flow)
        self.loops.append(dict(node=n, dom=dom, k=k, guard=guard, phis=dict(phis), outs=dict(outs), inits=dict(inits), flow=flow, ret=P.ret, wcond=wcond, state=P, S0=S0, events=P.events[nev:]))
        res = {}
        exit_flow = FALL
        exit_ret = S.ret
        simple = lvflow <= {FALL, CONT} and while_test is None
        if simple:
            pending = list(known)
            for key in known:
                r = self.close_form(dom, guard, k, phis[key], outs[key], inits[key], allphi)
                res[key] = r
        else:
            done = False
            if while_test is None and not T.occurs(flow, allphi) and not T.has_top(flow):
                # search loop
                leave = T.lift1(lambda f: FALSE if f in (FALL, CONT) else TRUE, flow)
                ok = True
                vals = {}
                for key in known:
                    o = outs[key]
                    stay_v = self._under_cond(o, T.b_not(leave))
                    leave_v = self._under_cond(o, leave)
                    if stay_v is None or leave_v is None:
                        ok = False
                        break
                    if T.occurs(leave_v, allphi - {phis[key]}):
                        ok = False
                        break
                    if stay_v is not phis[key]:
                        # loop target variables: value irrelevant unless read later
                        if key[0] == "env" and not T.occurs(stay_v, allphi):
                            vals[key] = ("tmp", stay_v, leave_v)
                            continue
                        ok = False
                        break
                    vals[key] = ("keep", None, leave_v)
                if ok:
                    E = T.b_atom(B.close("exists", dom, k, leave))
                    for key, (kind, sv, lvv) in vals.items():
                        if lvv is phis[key]:
                            res[key] = inits[key]
                            continue
                        f = B.close("first", dom, k, leave, T.subst(lvv, {phis[key]: inits[key]}))
                        els = inits[key] if kind == "keep" else B.close("last", dom, k, sv)
                        res[key] = T.ite(E, f, els)
                    fl = self._under_cond(flow, leave)
                    rv = self._under_cond(P.ret, leave)
                    lf = T.leafset(fl)
                    if len(lf) == 1:
                        (f1,) = lf
                        exit_flow = T.ite(E, FALL if f1 is BRK else f1, FALL)
                        if f1 is RET:
                            exit_ret = T.ite(E, B.close("first", dom, k, leave, rv), S.ret)
                        done = True
                    else:
                        flc = B.close("first", dom, k, leave, fl)
                        exit_flow = T.ite(E, top("mixed exits"), FALL)
                        done = True
            if not done:
                for key in known:
                    res[key] = self.fold_term(dom, guard, k, key, phis, outs, inits, flow, wcond)
                if lvflow & {RET} or any(f.op == "flow" and f.args[0] == "raise" for f in lvflow):
                    # returns inside a general loop
                    sig = self.fold_system(dom, guard, k, phis, outs, inits, flow, wcond, [flow, P.ret])
                    ex = sorted({f for f in lvflow if f not in (FALL, CONT, BRK)}, key=lambda t: t.id)
                    fl = FALL
                    for f in ex:
                        at = T.b_atom(mk("exits", sig, f))
                        fl = T.ite(at, f, fl)
                    exit_flow = fl
                    if RET in lvflow:
                        exit_ret = mk("foldret", sig)
        for key in known:
            self.set_key(S, key, res[key])
        # new refs created in the loop body stay reachable
        for kx, v in P.content.items():
            if kx.op == "ref" and kx not in S.content:
                S.content[kx] = v
        # per-iteration attribute writes
        he = []
        for (o, a), v in P.heap.items():
            if T.occurs(o, {k}):
                v0 = S0.heap.get((o, a))
                if v0 is v:
                    continue
                if T.occurs(v, allphi):
                    v = top("loop-carried attribute")
                if guard is not TRUE and v.op == "ite":
                    v = self._under_cond(v, guard) or v
                he.append(B.close("map", dom, k, guard if T.leafset(flow) <= {FALL, CONT} else top("guard"), mk("tuple", o, string(a), v)))
        for h in P.heach[nhe:]:
            he.append(B.close("map", dom, k, guard, mk("tuple", mk("hnest", h), string("*"), NONE)))
        for kx, v in P.content.items():
            if kx.op != "ref" and T.occurs(kx, {k}) and S0.content.get(kx, kx) is not v:
                he.append(B.close("map", dom, k, guard, mk("tuple", kx, string("[]"), v)))
        S.heach = S.heach + tuple(he)
        evs = P.events[nev:]
        if evs:
            body = tuple(evs)
            if any(T.occurs(e, allphi) for e in evs):
                # canonical names for the carried values
                order = []
                for e in evs:
                    for x in T.subterms(e):
                        if x in allphi and x not in order:
                            order.append(x)
                m = {}
                inv = {v: kk for kk, v in phis.items()}
                for i, x in enumerate(order):
                    m[x] = mk("carried", i)
                body = tuple(T.subst(e, m) for e in evs)
            w = B.close("each", dom, k, *body)
            S.events = S.events + (w,)
            S.epoch = mk("epoch", w)
            for a in P.attr_epoch:
                if P.attr_epoch[a] is not S0.attr_epoch.get(a):
                    S.attr_epoch[a] = w
        S.flow = exit_flow
        S.ret = exit_ret
        if getattr(n, "orelse", None) and S.flow is FALL:
            self.block(n.orelse, S)

    def _under_cond(self, t, g):
        """value of diagram t on the set g; None if it is not expressible"""
        if g is TRUE:
            return t
        if g is FALSE:
            return t

        def go(x, c):
            if c is FALSE:
                return None
            if c is TRUE or x.op != "ite" and c.op != "ite":
                return x
            atoms = [u.args[0] for u in (x, c) if u.op == "ite"]
            a = min(atoms, key=lambda z: z.id)

            def s(u, v):
                if u.op == "ite" and u.args[0] is a:
                    return u.args[1] if v else u.args[2]
                return u

            p, q = go(s(x, 1), s(c, 1)), go(s(x, 0), s(c, 0))
            if p is None:
                return q
            if q is None:
                return p
            return T._ite_raw(a, p, q)

        return go(t, g)

    def close_form(self, dom, guard, k, phi, out, init, allphi):
        others = allphi - {phi}
        if out is phi:
            return init
        if not T.occurs(out, allphi):
            # value of the last iteration
            last = B.close("last", dom, k, guard, out)
            if init is UNDEF:
                return last
            return T.ite(T.cmp_lt(ZERO, B.dom_len(dom)), last, init) if guard is TRUE else T.ite(
                T.b_atom(B.close("exists", dom, k, guard)), last, init
            )
        # list append
        if init.op in ("list", "concat", "map", "flatmap") or out.op == "concat":
            parts = self._appended(out, phi)
            if parts is not None and not any(T.occurs(p, allphi) for g, p in parts):
                parts = [(T.b_and(guard, g), p) for g, p in parts]
                if len(parts) == 1:
                    g, p = parts[0]
                    if p.op == "list" and len(p.args) == 1:
                        new = B.make_map(dom, k, g, p.args[0])
                    else:
                        new = B.close("flatmap", dom, k, g, p)
                else:
                    e = mk("list")
                    for g, p in parts:
                        e = T.ite(g, p, e)
                    new = B.close("flatmap", dom, k, TRUE, e)
                return B.seq_concat(init, new)
        if out.op == "upd" and out.args[0] is phi:
            ops = out.args[1:]
            cur = mk("cur")
            ops2 = tuple(T.subst(o, {phi: cur}) for o in ops)
            if not any(T.occurs(o, allphi) for o in ops2):
                return B.upd(init, B.close("each", dom, k, *ops2))
        if out.op == "dstore" and out.args[0] is phi and not T.occurs(out.args[1], allphi) and not T.occurs(out.args[2], allphi):
            return B.close("dmap", dom, k, init, guard, out.args[1], out.args[2])
        if out.op == "ite":
            lv = T.leafset(out)
            if all(x is phi or (x.op == "dstore" and x.args[0] is phi) for x in lv) and any(x.op == "dstore" for x in lv):
                ds = [x for x in lv if x.op == "dstore"]
                if len(ds) == 1 and not T.occurs(ds[0].args[1], allphi) and not T.occurs(ds[0].args[2], allphi):
                    g = T.lift1(lambda x: FALSE if x is phi else TRUE, out)
                    if not T.occurs(g, allphi):
                        return B.close("dmap", dom, k, init, g, ds[0].args[1], ds[0].args[2])
        numeric = all(T.numeric_like(x) and x.op not in ("upd", "concat", "dstore") for x in T.leafset(out))
        if numeric:
            try:
                d = T.sub(out, phi)
                if not T.occurs(d, allphi):
                    return T.add(init, B.make_sum(dom, k, d)) if init is not UNDEF else top("undefined accumulator")
                q = T.mul(out, T.pow_q(phi, Fraction(-1))) if out.op != "ite" else None
                if q is not None and not T.occurs(q, allphi):
                    return T.mul(init, B.close("prod", dom, k, q))
                # max / min accumulation
                r = self._minmax(out, phi, allphi)
                if r is not None:
                    kind, e = r
                    return mk("fn", kind, *sorted([init, B.close("map", dom, k, guard, e)], key=lambda t: t.id))
            except Budget:
                return top("budget")
        return self.fold_term(dom, guard, k, "x", {"x": phi}, {"x": out}, {"x": init}, None, None) if not T.occurs(out, others) else mk(
            "foldx", dom, T.subst(out, {}), init) if False else self._fold_multi(dom, guard, k, phi, out, init, allphi)

    def _fold_multi(self, dom, guard, k, phi, out, init, allphi):
        # uses the recorded loop (last appended)
        L = self.loops[-1]
        key = next(kk for kk, p in L["phis"].items() if p is phi)
        return self.fold_term(dom, guard, k, key, L["phis"], L["outs"], L["inits"], None, None)

    def _minmax(self, out, phi, allphi):
        if out.op != "ite" or T.occurs(out.args[1], {phi}) == T.occurs(out.args[2], {phi}):
            return None
        c, a, b = out.args
        if c.op != "lt0":
            return None
        if a is phi:
            e, ephi = b, False
        elif b is phi:
            e, ephi = a, True
        else:
            return None
        if T.occurs(e, allphi):
            return None
        d = c.args[0]
        # condition d<0 ; d proportional to phi-e or e-phi with positive factor
        d1 = T.cmp_lt(phi, e)
        d2 = T.cmp_lt(e, phi)
        if d1.op == "ite" and d1.args[0] is c:
            return ("max", e) if ephi else ("min", e)
        if d2.op == "ite" and d2.args[0] is c:
            return ("min", e) if ephi else ("max", e)
        return None

    def _appended(self, out, phi):
        """list of (guard, appended sequence) if out = phi ++ ..., else None"""
        res = []

        def go(x, g):
            if x.op == "ite":
                c = T.b_atom(x.args[0])
                return go(x.args[1], T.b_and(g, c)) and go(x.args[2], T.b_and(g, T.b_not(c)))
            if x is phi:
                return True
            if x.op == "concat" and x.args[0] is phi:
                rest = x.args[1:]
                p = rest[0] if len(rest) == 1 else mk("concat", *rest)
                res.append((g, p))
                return True
            return False

        if not go(out, TRUE):
            return None
        # merge guards of equal parts
        m = {}
        for g, p in res:
            m[p] = T.b_or(m[p], g) if p in m else g
        return [(g, p) for p, g in m.items()]

    def fold_system(self, dom, guard, k, phis, outs, inits, flow, wcond, seeds):
        """canonical closed form of the recurrence reachable from the seed terms"""
        inv = {p: key for key, p in phis.items()}
        order = []

        def visit(t):
            # deterministic order: by structural traversal
            stack = [t]
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in inv and inv[x] not in order:
                    order.append(inv[x])
                stack.extend(reversed(list(T._subterms(x))))

        for s in seeds:
            visit(s)
        i = 0
        if flow is not None:
            visit(flow)
        if wcond is not None:
            visit(wcond)
        while i < len(order):
            visit(outs[order[i]])
            i += 1
        tt = [dom, guard] + list(seeds) + [outs[o] for o in order] + [inits[o] for o in order]
        if flow is not None:
            tt.append(flow)
        if wcond is not None:
            tt.append(wcond)
        h = 1 + max([B.height(t) for t in tt] + [0])
        m = {phis[o]: mk("phi", h, j) for j, o in enumerate(order)}
        c = mk("idx", "c", h)
        if k is not None:
            m[k] = c
        sb = lambda t: T.subst(t, m) if t is not None else NONE
        return mk(
            "foldsys", dom, c, sb(guard), tuple(sb(s) for s in seeds), tuple(inits[o] for o in order), tuple(sb(outs[o]) for o in order),
            sb(flow), sb(wcond),
        )

    def fold_term(self, dom, guard, k, key, phis, outs, inits, flow, wcond):
        if outs[key] is phis[key]:
            return inits[key]
        sysm = self.fold_system(dom, guard, k, phis, outs, inits, flow, wcond, [phis[key]])
        return mk("fold", sysm)

    def while_unroll(self, n, S, left):
        """bounded unrolling; executions that would go on are unknown"""
        c = self.under(S, self.cond(n.test, S))
        if S.pend is not FALL:
            return self.havoc_loop(n, S, "a condition that may fail")
        if c is FALSE:
            self.block(n.orelse, S)
            return
        if left == 0:
            self.havoc_loop(n, S, "more than %d rounds" % self.unroll)
            S.flow = RET
            S.ret = top("more than %d rounds of the loop at line %d" % (self.unroll, n.lineno))
            return
        A = S.copy()
        self.assume(A, c)
        self.block(n.body, A)
        stay = T.lift1(lambda f: TRUE if f in (FALL, CONT) else FALSE, A.flow)
        gone = A.copy()
        gone.flow = T.lift1(lambda f: FALL if f in (BRK, CONT) else f, A.flow)
        if stay is FALSE:
            A.become(gone)
        else:
            R = A.copy()
            R.flow = FALL
            self.narrow(R, stay)
            self.while_unroll(n, R, left - 1)
            if stay is TRUE:
                A.become(R)
            else:
                self.merge(A, stay, R, gone)
        if c is TRUE:
            S.become(A)
            return
        Bs = S.copy()
        self.assume(Bs, T.b_not(c))
        self.block(n.orelse, Bs)
        self.merge(S, c, A, Bs)

    def s_While(self, n, S):
        if self.unroll:
            return self.while_unroll(n, S, self.unroll)
        k = B.fresh_idx()
        dom = mk("while")
        self.sym_loop(n, S, dom, TRUE, k, None, while_test=n.test)

    # ------------------------------------------------------------------ attributes
    def initial_attr(self, S, o, a):
        for h in reversed(S.heach):
            v = self._heach_lookup(h, o, a, S)
            if v is not None:
                return v
        if o.op == "obj":
            return UNDEF
        ep = S.attr_epoch.get(a)
        if ep is None:
            ep = S.attr_epoch.get("*")
        return mk("attr", o, a) if ep is None or ep is NONE else mk("attr", o, a, ep)

    def _heach_lookup(self, h, o, a, S):
        guard, tup = h.args[2], h.args[3]
        if tup.args[0].op == "hnest":
            return None
        if tup.args[1].args[0] != a:
            return None
        pat = tup.args[0]
        c = h.args[1]
        val = self._match(pat, o, c)
        if val is None:
            return None
        m = {c: val}
        v = T.subst(tup.args[2], m)
        g = T.subst(guard, m)
        if g is TRUE:
            return v
        if g is FALSE:
            return None
        S2 = S.copy()
        S2.heach = S.heach[: S.heach.index(h)]
        return T.ite(g, v, self.initial_attr(S2, o, a))

    def _match(self, pat, t, c):
        """binding of index c such that pat == t, or None"""
        res = []

        def go(p, x):
            if p is x and not T.occurs(p, {c}):
                return True
            if p is c:
                if res and res[0] is not x:
                    return False
                if not res:
                    res.append(x)
                return True
            if p.op != x.op or len(p.args) != len(x.args):
                return False
            for a, b in zip(p.args, x.args):
                if isinstance(a, Term):
                    if not isinstance(b, Term) or not go(a, b):
                        return False
                elif a != b:
                    return False
            return True

        return res[0] if go(pat, t) and res else None

    def getattr(self, S, o, a):
        if o.op == "ite":
            return T.lift1(lambda x: self.getattr(S, x, a), o)
        if o.op == "top":
            return o
        if o.op == "none":
            return top("attribute of None")
        if o.op == "module":
            if a == "__dict__":
                return mk("moddict", o.args[0])
            return self.module_attr(o, a)
        if a == "__name__" and o.op in ("func", "bound", "class") and o in self.funcs:
            f = self.funcs[o]
            nm = f.name if isinstance(f, ClassInfo) else (f.info.name if f.info is not None else None)
            if nm:
                return string(nm)
        if a == "__class__" and self.classof(S, o) is not None:
            return self.class_term(self.classof(S, o))
        if o.op in ("rec", "recs") and a == "dtype":
            return o.args[0]
        if o.op == "ext":
            q = o.args[0] + "." + a
            return self.ext_term(q)
        if o.op == "class":
            return self.class_attr(S, o, a)
        if o.op == "super":
            cls, me = o.args
            for c in cls.mro()[1:] if not isinstance(cls, Term) else []:
                if a in c.methods:
                    return self.bound_term(c.methods[a], me)
                if a in c.getters:
                    return self.call_info(S, c.getters[a], [me], {})
            return mk("fn", "super." + a, me)
        cls = self.classof(S, o)
        if cls is not None:
            g = None
            for c in cls.mro():
                if a in c.getters:
                    g = ("getter", c.getters[a])
                    break
                if a in c.methods:
                    g = ("method", c.methods[a])
                    break
                if a in c.attrs:
                    g = ("cattr", c)
                    break
            if g is not None and (o, a) not in S.heap:
                if g[0] == "getter":
                    if a in self.opaque or (cls.name + "." + a) in self.opaque:
                        return self.heap_read(S, o, a)
                    return self.call_info(S, g[1], [o], {})
                if g[0] == "method":
                    return self.bound_term(g[1], o)
                if g[0] == "cattr" and not self._instance_assigns(cls, a):
                    return self.class_attr(S, self.class_term(g[1]), a)
        # numpy array style attributes
        v = self.rd(S, o)
        if self.dense and v.op == "dns":
            if a == "shape":
                return mk("tuple", *[num(x) for x in v.args[0]])
            if a == "T":
                return self.view_of(S, o, D.transpose) or D.transpose(v)
            if a == "size":
                return num(D.size(v.args[0]))
            if a == "ndim":
                return num(len(v.args[0]))
            if a == "dtype":
                return mk("ext", {None: "numpy.float64", "int": "numpy.int64"}.get(self.is_int_loc(S, o)) or "numpy." + self.is_int_loc(S, o))
        if cls is not None and self._instance_assigns(cls, a):
            return self.heap_read(S, o, a)
        if a == "T" and v.op not in ("obj",):
            return self.transpose(S, v)
        if self.dense and a in ("shape", "size") and cls is None and v.op in ("sym", "elem", "fcall", "poly") and self.rank(v) == 0:
            return mk("tuple") if a == "shape" else num(1)
        if a == "shape":
            return self.shape(S, v)
        if a == "size" and v.op not in ("obj",) and cls is None:
            return self.size(S, v)
        if a == "ndim" and cls is None and self.rank(v) is not None:
            return num(self.rank(v))
        return self.heap_read(S, o, a)

    def _instance_assigns(self, cls, a):
        for c in cls.mro():
            for m in list(c.methods.values()) + list(c.setters.values()):
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a and isinstance(x.value, ast.Name) and x.value.id == "self":
                        return True
        return False

    def heap_read(self, S, o, a):
        v = S.heap.get((o, a))
        if v is None:
            v = self.initial_attr(S, o, a)
            if v is UNDEF:
                v = top("attribute %s never set" % a)
        return self.under(S, v) if v.op == "ite" else v

    def setattr(self, S, o, a, v):
        if o.op == "ite":
            for path, leaf in T.leaves(o):
                g = TRUE
                for at, b in path:
                    g = T.b_and(g, T.b_atom(at) if b else T.b_not(T.b_atom(at)))
                old = self.heap_read(S, leaf, a)
                S.heap[(leaf, a)] = T.ite(g, v, old)
            return
        if o.op == "top":
            return
        cls = self.classof(S, o)
        if cls is not None:
            for c in cls.mro():
                if a in c.setters:
                    if "=" + a in self.opaque:
                        break
                    self.call_info(S, c.setters[a], [o, v], {})
                    return
                if a in c.getters and a not in c.setters:
                    self.add_pend(S, TRUE, "AttributeError")
                    return
        S.heap[(o, a)] = v
        if o.op not in ("obj",):
            # other property views of this attribute name on unknown objects are stale
            pass

    def bound_term(self, finfo, me):
        if finfo.is_static:
            t = mk("bound", finfo.qual, NONE)
        else:
            t = mk("bound", finfo.qual, me)
        self.funcs[t] = FuncVal(finfo.node, finfo.module, finfo.cls, None, finfo, None if finfo.is_static else me)
        return t

    def class_term(self, c):
        t = mk("class", c.qual)
        self.funcs[t] = c
        return t

    def class_attr(self, S, o, a):
        if (o, a) in S.heap:
            return S.heap[(o, a)]
        c = self.funcs.get(o)
        if c is None:
            return mk("attr", o, a)
        f = c.find(a)
        if f is None:
            return mk("attr", o, a)
        kind, thing, owner = f
        if kind == "methods":
            if thing.is_classmethod:
                return self.bound_term(thing, o)
            t = mk("func", thing.qual)
            self.funcs[t] = FuncVal(thing.node, thing.module, thing.cls, None, thing)
            return t
        if kind == "attrs":
            key = (owner.qual, a)
            if key not in self.modconst:
                self.modconst[key] = top("recursive")
                S2 = State()
                S2.frames[0] = {"$fv": FuncVal(None, owner.module, owner, None), "$parent": None, "$class": owner}
                try:
                    self.modconst[key] = self.deep(S2, self.eval(thing, S2))
                except Budget:
                    self.modconst[key] = top("class attribute")
            return self.modconst[key]
        return mk("attr", o, a)

    def module_attr(self, o, a):
        full = o.args[0]
        if full in self.prog.modules:
            r = self.prog.resolve_global(self.prog.modules[full], a)
            if r is not None:
                return self.resolved_term(r, self.prog.modules[full])
            if full + "." + a in self.prog.modules:
                return mk("module", full + "." + a)
            return top("no %s in %s" % (a, full))
        return self.ext_term(full + "." + a)

    def ext_term(self, q):
        last = q.split(".")[-1]
        if q.startswith(("numpy", "math", "scipy.constants", "scipy")):
            if last == "pi":
                return mk("sym", "pi")
            if last in ("inf", "Inf", "infty"):
                return mk("sym", "inf")
            if last == "nan":
                return mk("sym", "nan")
            if last == "newaxis":
                return NONE
            if last == "mu_0":
                return T.mul(num(Fraction("4e-7")), mk("sym", "pi"))
        return mk("ext", q)

    def resolved_term(self, r, module):
        if r is None:
            return None
        if r[0] == "func":
            t = mk("func", r[1].qual)
            self.funcs[t] = FuncVal(r[1].node, r[1].module, None, None, r[1])
            return t
        if r[0] == "class":
            return self.class_term(r[1])
        if r[0] == "mod":
            return mk("module", r[1])
        if r[0] == "ext":
            return self.ext_term(r[1])
        if r[0] == "assign":
            _, m, e = r
            key = (m.name, ast.dump(e))
            if key not in self.modconst:
                self.modconst[key] = top("recursive")
                S2 = State()
                S2.frames[0] = {"$fv": FuncVal(None, m, None, None), "$parent": None}
                try:
                    self.modconst[key] = self.deep(S2, self.eval(e, S2))
                except Budget:
                    self.modconst[key] = top("module constant")
            return self.modconst[key]
        return top("unresolved")

    # ------------------------------------------------------------------ expressions
    def cond(self, node, S):
        return T.truth(self.truthval(S, self.eval(node, S)))

    def truthval(self, S, v):
        v = self.rd(S, v)
        return v

    def eval(self, n, S):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return top("expression " + type(n).__name__)
        return m(n, S)

    def ev(self, n, S):
        """value with container contents resolved"""
        return self.deep(S, self.eval(n, S))

    def e_Constant(self, n, S):
        v = n.value
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return mk("ellipsis")
        return mk("const", repr(v))

    def e_JoinedStr(self, n, S):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(string(v.value))
            else:
                spec = ""
                if v.format_spec is not None:
                    fs = v.format_spec.values
                    spec = "".join(x.value for x in fs) if all(isinstance(x, ast.Constant) for x in fs) else ast.unparse(v.format_spec)
                if v.conversion not in (-1, None):
                    spec = "!" + chr(v.conversion) + ":" + spec
                parts.append(mk("fmt", self.deep(S, self.ev(v.value, S)), spec))
        return self.text(parts)

    @staticmethod
    def low_precision(dt):
        n = None
        if dt is not None:
            n = dt.args[0].split(".")[-1] if dt.op in ("ext", "str") and isinstance(dt.args[0], str) else None
        return {"float32": "float32", "single": "float32", "f4": "float32", "<f4": "float32", "f": "float32", "float16": "float16", "half": "float16", "f2": "float16"}.get(n)

    @staticmethod
    def rounded(low, x):
        """value rounded to 32 or 16 bits; small dyadic numbers are kept exactly"""
        if x.op == "num":
            d = T.val(x)
            try:
                q = d.denominator
                if q & (q - 1) == 0 and abs(d.numerator) < 1024 and q <= 1024:
                    return x
            except AttributeError:
                pass
        return mk("call", low, (x,), ())

    @staticmethod
    def text(parts):
        """formatted text: literal pieces merged; pieces which are texts themselves spliced in"""
        out = []
        for x in parts:
            if x.op == "fmt" and not x.args[1] and x.args[0].op in ("str", "fstr"):
                x = x.args[0]
            for y in x.args if x.op == "fstr" else (x,):
                if y.op == "str" and not y.args[0]:
                    continue
                if y.op == "str" and out and out[-1].op == "str":
                    out[-1] = string(out[-1].args[0] + y.args[0])
                else:
                    out.append(y)
        if not out:
            return string("")
        return out[0] if len(out) == 1 and out[0].op == "str" else mk("fstr", *out)

    def text_format(self, S, lit, pos, kw):
        """'...'.format(...) with plain fields, as formatted text; None if anything else"""
        import string as _s
        parts, auto = [], 0
        try:
            for txt, field, spec, conv in _s.Formatter().parse(lit):
                if txt:
                    parts.append(string(txt))
                if field is None:
                    continue
                if "{" in (spec or "") or "." in field or "[" in field:
                    return None
                if field == "" or field.isdigit():
                    i = int(field) if field else auto
                    auto += not field
                    if i >= len(pos) or any(p.op == "fn" and p.args[0] == "splat" for p in pos):
                        return None
                    v = pos[i]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                parts.append(mk("fmt", self.deep(S, v), ("!" + conv + ":" if conv else "") + (spec or "")))
        except ValueError:
            return None
        return self.text(parts)

    def text_percent(self, S, lit, arg):
        """'...' % values with plain conversions, as formatted text; None if anything else"""
        import re
        if arg.op == "dict" and all(k.op == "str" for k, _ in arg.args):
            names = {k.args[0]: v for k, v in arg.args}
            vals = None
        else:
            names, vals = {}, list(arg.args) if arg.op == "tuple" else [arg]
        parts, at = [], 0
        for m in re.finditer(r"%(?:\(([^)]*)\))?([-+ 0#]*\d*(?:\.\d+)?)([a-zA-Z%])", lit):
            parts.append(string(lit[at:m.start()]))
            at = m.end()
            if m[3] == "%":
                parts.append(string("%"))
                continue
            if m[3] not in "dieEfFgGs" or "%" in lit[at - 1:at]:
                return None
            if m[1] is not None:
                if m[1] not in names:
                    return None
                v = names[m[1]]
            else:
                if not vals:
                    return None
                v = vals.pop(0)
            f = m[2].replace("-", "<") if "-" in m[2] else m[2]
            parts.append(mk("fmt", self.deep(S, v), f + ("" if m[3] == "s" else "d" if m[3] == "i" else m[3])))
        if vals or "%" in lit[at:]:
            return None
        parts.append(string(lit[at:]))
        return self.text(parts)

    def text_fields(self, v):
        """[(label before the field, value)] of formatted text; the label is the last word before it"""
        import re
        if v.op == "str":
            v = mk("fstr", v)
        if v.op != "fstr":
            return None
        out, label = [], ""
        for x in v.args:
            if x.op == "str":
                w = re.findall(r"[A-Za-z_]\w*", x.args[0])
                label = w[-1] if w else ""
            elif x.op == "fmt":
                out.append(mk("tuple", string(label), x.args[0]))
                label = ""
            else:
                return None
        return mk("tuple", *out)

    def lookup(self, name, S):
        uid = S.cur
        first = True
        while uid is not None:
            fr = S.frames.get(uid)
            if fr is None:
                break
            if name in fr and not name.startswith("$"):
                v = fr[name]
                if v is not UNDEF:
                    return v
                return top("undefined " + name)
            if "$class" in fr and name in fr["$class"].attrs:
                return self.class_attr(S, self.class_term(fr["$class"]), name)
            uid = fr.get("$parent")
        if name in self.consts:
            return self.consts[name]
        mod = self.cur_module(S)
        r = self.prog.resolve_global(mod, name)
        if r is not None:
            return self.resolved_term(r, mod)
        return mk("ext", "builtins." + name)

    def e_Name(self, n, S):
        return self.lookup(n.id, S)

    def e_Attribute(self, n, S):
        return self.getattr(S, self.eval(n.value, S), n.attr)

    def e_Tuple(self, n, S):
        return mk("tuple", *self.elts(n.elts, S))

    def elts(self, es, S):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.rd(S, self.eval(e.value, S))
                if v.op in ("tuple", "list"):
                    out += list(v.args)
                else:
                    out.append(mk("fn", "splat", v))
            else:
                v = self.eval(e, S)
                out.append(self.alloc(S, v) if v.op == "dns" else v)
        return out

    def e_List(self, n, S):
        return self.alloc(S, mk("list", *self.elts(n.elts, S)))

    def e_Set(self, n, S):
        return mk("set", *sorted(self.elts(n.elts, S), key=lambda t: t.id))

    def e_Dict(self, n, S):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                w = self.rd(S, self.eval(v, S))
                if w.op == "dict":
                    items += list(w.args)
                    continue
                return self.alloc(S, top("dict splat"))
            v = self.eval(v, S)
            items.append((self.eval(k, S), self.alloc(S, v) if v.op == "dns" else v))
        return self.alloc(S, mk("dict", *items))

    def e_UnaryOp(self, n, S):
        v = self.ev(n.operand, S)
        if self.dense and v.op in ("dns", "ite") and self.has_dns(v):
            f = {ast.USub: T.neg, ast.UAdd: lambda x: x, ast.Invert: lambda x: T.b_not(T.truth(x))}.get(type(n.op))
            if f is None:
                return top("not of an array")
            return T.lift1(lambda x: D.emap(f, x), v)
        if isinstance(n.op, ast.USub):
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Not):
            return T.b_not(T.truth(v))
        if isinstance(n.op, ast.Invert):
            return T.b_not(T.truth(v)) if v.op in ("ite", "bool") else mk("fn", "invert", v)
        return top("unary")

    def e_BinOp(self, n, S):
        a, b = self.ev(n.left, S), self.ev(n.right, S)
        return self.binop(type(n.op).__name__, a, b, S)

    def has_dns(self, v):
        return v.op == "dns" or (v.op == "ite" and any(x.op == "dns" for x in T.leafset(v)))

    def as_dns(self, v):
        return D.from_list(v) if v.op in ("list", "tuple", "arr") else v

    DOPS = {"Add": T.add, "Sub": T.sub, "Mult": T.mul, "Div": T.div, "Pow": T.pw,
            "BitAnd": lambda x, y: T.b_and(T.truth(x), T.truth(y)), "BitOr": lambda x, y: T.b_or(T.truth(x), T.truth(y)),
            "BitXor": lambda x, y: T.ite(T.truth(x), T.b_not(T.truth(y)), T.truth(y))}

    def binop(self, op, a, b, S):
        if self.dense and (self.has_dns(a) or self.has_dns(b)):
            f = self.DOPS.get(op)
            if op == "MatMult":
                return T.lift2(D.dot, a, b)
            if op == "FloorDiv":
                f = self._floordiv
            if op == "Mod":
                f = self._mod
            if f is None:
                return top("array operator " + op)

            def go(x, y):
                x, y = self.as_dns(x), self.as_dns(y)
                if x is None or y is None:
                    return top("array with non-array")
                return D.emap(f, x, y)

            # a conditional scalar against an array stays conditional per entry
            if a.op == "dns" and b.op == "ite" and not self.has_dns(b):
                return D.emap(f, a, b)
            if b.op == "dns" and a.op == "ite" and not self.has_dns(a):
                return D.emap(f, a, b)
            return T.lift2(go, a, b)
        try:
            if op == "Add":
                seq = ("list", "tuple", "concat", "map", "flatmap")
                if a.op in seq and b.op in seq:
                    if a.op == "tuple" and b.op == "tuple":
                        return mk("tuple", *(a.args + b.args))
                    return self.alloc(S, B.seq_concat(a, b))
                if a.op in ("str", "fstr", "strcat") or b.op in ("str", "fstr", "strcat"):
                    if a.op == "str" and b.op == "str":
                        return string(a.args[0] + b.args[0])
                    if a.op in ("str", "fstr") and b.op in ("str", "fstr"):
                        return self.text([a, b])
                    return mk("strcat", a, b)
                return self.vec(T.add, a, b)
            if op == "Sub":
                return self.vec(T.sub, a, b)
            if op == "Mult":
                if a.op in ("list", "tuple") and b.op == "num" and not self.looks_array(a):
                    if b.args[0].denominator == 1 and b.args[0] * len(a.args) < 64:
                        return mk(a.op, *(a.args * int(b.args[0])))
                if b.op in ("list", "tuple") and a.op == "num" and False:
                    pass
                return self.vec(T.mul, a, b)
            if op == "Div":
                return self.vec(T.div, a, b)
            if op == "Pow":
                return self.vec(T.pw, a, b)
            if op == "MatMult":
                return mk("call", "dot", (a, b), ())
            if op in ("BitAnd", "BitOr", "BitXor"):
                if a.op == "num" and b.op == "num" and a.args[0].denominator == b.args[0].denominator == 1:
                    x, y = int(a.args[0]), int(b.args[0])
                    return num(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
                if a.op in ("ite", "bool") and b.op in ("ite", "bool"):
                    if op == "BitAnd":
                        return T.b_and(T.truth(a), T.truth(b))
                    if op == "BitOr":
                        return T.b_or(T.truth(a), T.truth(b))
                    return self.DOPS["BitXor"](a, b)
                return mk("fn", op, a, b)
            if op == "FloorDiv":
                return T.lift2(self._floordiv, a, b)
            if op == "Mod":
                if a.op in ("str", "fstr"):
                    r = self.text_percent(S, a.args[0], self.deep(S, b)) if a.op == "str" else None
                    return r if r is not None else mk("strfmt", a, b)
                return T.lift2(self._mod, a, b)
        except Budget:
            raise
        return mk("fn", op, a, b)

    def looks_array(self, a):
        return False

    def vec(self, f, a, b):
        """broadcast over known-length literal vectors (np.array([..]) results are 'arr')"""
        if a.op == "arr" and b.op == "arr" and len(a.args) == len(b.args):
            return mk("arr", *[self.vec(f, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "arr":
            return mk("arr", *[self.vec(f, x, b) for x in a.args])
        if b.op == "arr":
            return mk("arr", *[self.vec(f, a, x) for x in b.args])
        return f(a, b)

    def _floordiv(self, a, b):
        if a.op == "num" and b.op == "num" and b.args[0]:
            return num(a.args[0] // b.args[0])
        return mk("fn", "floordiv", a, b)

    def _mod(self, a, b):
        if a.op == "num" and b.op == "num" and b.args[0]:
            return num(a.args[0] % b.args[0])
        return mk("fn", "mod", a, b)

    def e_BoolOp(self, n, S):
        vals = []
        isand = isinstance(n.op, ast.And)
        # evaluated left to right; later operands under the earlier ones
        R = S
        acc = None
        for i, v in enumerate(n.values):
            x = self.ev(v, R)
            vals.append(x)
            if i + 1 < len(n.values) and x.op not in ("dns", "top"):
                c = self.under(S, T.truth(x))
                if c in (TRUE, FALSE) and T.truth(x) is not c:
                    if x.op == "ite" and T.leafset(x) <= {TRUE, FALSE}:
                        vals[-1] = c
                if c is (FALSE if isand else TRUE):
                    break
        r = vals[-1]
        for x in reversed(vals[:-1]):
            c = T.truth(x)
            if c.op == "top":
                return c
            boolean = x.op in ("bool",) or (x.op == "ite" and T.leafset(x) <= {TRUE, FALSE})
            if isand:
                r = T.ite(c, r, FALSE if boolean else x)
            else:
                r = T.ite(c, TRUE if boolean else x, r)
        return r

    def e_Compare(self, n, S):
        left = self.ev(n.left, S)
        res = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, S)
            c = self.compare(type(op).__name__, left, right, S)
            if c.op == "top":
                return c
            if self.assume_atom is not None and c.op == "ite":
                c = self.under(S, c)
            elif self.assume_atom is not None and c.op == "dns":
                c = D.emap(lambda e: self.under(S, e) if e.op == "ite" else e, c)
            res = T.b_and(res, c) if res is not TRUE else c
            left = right
        return res

    def compare(self, op, a, b, S):
        if a.op == "top":
            return a
        if b.op == "top":
            return b
        if self.dense and op not in ("Is", "IsNot", "In", "NotIn") and (self.has_dns(a) or self.has_dns(b)):
            f = {"Lt": T.cmp_lt, "Gt": lambda x, y: T.cmp_lt(y, x), "LtE": lambda x, y: T.b_not(T.cmp_lt(y, x)), "GtE": lambda x, y: T.b_not(T.cmp_lt(x, y)),
                 "Eq": self.boolcmp, "NotEq": lambda x, y: T.b_not(self.boolcmp(x, y))}[op]
            return T.lift2(lambda x, y: D.emap(f, self.as_dns(x), self.as_dns(y)), a, b)
        if op == "Lt":
            return T.cmp_lt(a, b)
        if op == "Gt":
            return T.cmp_lt(b, a)
        if op == "LtE":
            return T.b_not(T.cmp_lt(b, a))
        if op == "GtE":
            return T.b_not(T.cmp_lt(a, b))
        if op == "Eq":
            return self.boolcmp(a, b)
        if op == "NotEq":
            return T.b_not(self.boolcmp(a, b))
        if op in ("Is", "IsNot"):
            if b is NONE:
                r = T.is_none(a)
            elif a is NONE:
                r = T.is_none(b)
            elif a is b:
                r = TRUE
            elif a.op in ("func", "class", "obj") and b.op in ("func", "class", "obj"):
                r = FALSE
            else:
                r = self.boolcmp(a, b)
            return r if op == "Is" else T.b_not(r)
        if op in ("In", "NotIn"):
            cls = self.classof(S, b)
            m = cls.lookup("methods", "__contains__") if cls is not None else None
            if m is not None:
                r = T.truth(self.call_finfo(S, m, [b, a], {}, cls))
                return r if op == "In" else T.b_not(r)
            b = self.rd(S, b)
            if b.op in ("list", "tuple", "set"):
                r = FALSE
                for x in b.args:
                    r = T.b_or(r, self.boolcmp(a, x))
            elif b.op == "dict":
                r = FALSE
                for x, _ in b.args:
                    r = T.b_or(r, self.boolcmp(a, x))
            else:
                r = T.b_atom(mk("boolval", "in", a, b))
            return r if op == "In" else T.b_not(r)
        return top("comparison")

    def boolcmp(self, a, b):
        if a in (TRUE, FALSE) or b in (TRUE, FALSE):
            if b in (TRUE, FALSE):
                a, b = b, a
            if b in (TRUE, FALSE):
                return TRUE if a is b else FALSE
            t = T.truth(b)
            return t if a is TRUE else T.b_not(t)
        if a.op == "arr":
            a = mk("list", *a.args)
        if b.op == "arr":
            b = mk("list", *b.args)
        if a.op == "dtype" and b.op == "dtype":
            return TRUE if a is b else FALSE
        return T.cmp_eq(a, b)

    def e_IfExp(self, n, S):
        c = self.under(S, self.cond(n.test, S))
        if c is TRUE:
            return self.eval(n.body, S)
        if c is FALSE:
            return self.eval(n.orelse, S)
        if c.op == "top":
            c = T.b_atom(mk("truth", c))
        A, Bs = S.copy(), S.copy()
        self.assume(A, c)
        self.assume(Bs, T.b_not(c))
        a = self.eval(n.body, A)
        b = self.eval(n.orelse, Bs)
        a, b = self.deep(A, a), self.deep(Bs, b)
        self.merge(S, c, A, Bs)
        return T.ite(c, a, b)

    def e_NamedExpr(self, n, S):
        v = self.eval(n.value, S)
        S.env[n.target.id] = v
        return v

    def e_Lambda(self, n, S):
        return self.func_term(FuncVal(n, self.cur_module(S), None, S.cur))

    def e_Starred(self, n, S):
        return mk("fn", "splat", self.ev(n.value, S))

    def e_Slice(self, n, S):
        f = lambda x: NONE if x is None else self.ev(x, S)
        lo, hi, st = f(n.lower), f(n.upper), f(n.step)
        if lo is ZERO:
            lo = NONE
        if st is ONE:
            st = NONE
        return mk("slice", lo, hi, st)

    def index(self, node, S, base):
        if isinstance(node, ast.Tuple):
            out = []
            for e in node.elts:
                out.append(self.ev(e, S))
            return out
        v = self.ev(node, S)
        if v.op == "tuple":
            return list(v.args)
        return [v]

    def e_Subscript(self, n, S):
        b = self.eval(n.value, S)
        idx = self.index(n.slice, S, b)
        return self.getitem(S, b, idx)

    FULL = mk("slice", NONE, NONE, NONE)

    lifting = 0

    def _branching(self, f):
        self.lifting += 1
        try:
            return f()
        finally:
            self.lifting -= 1

    def getitem(self, S, b, idx):
        if b.op == "top":
            return b
        for i in idx:
            if i.op == "top":
                return i
        if b.op == "ite":
            return self._branching(lambda: T.lift1(lambda x: self.getitem(S, x, idx), b))
        if any(i.op == "ite" for i in idx) and len(idx) <= 3 and not any(T.leafset(i) <= {TRUE, FALSE} for i in idx if i.op == "ite"):
            return self._branching(lambda: T.liftn(lambda xs: self.getitem(S, b, xs), idx))
        cls = self.classof(S, b)
        if cls is not None and b.op != "class":
            m = cls.lookup("methods", "__getitem__")
            if m is not None:
                return self.call_finfo(S, m, [b, idx[0] if len(idx) == 1 else mk("tuple", *idx)], {}, cls)
        v = self.rd(S, b)
        if v.op == "ite":
            return self._branching(lambda: T.lift1(lambda x: self.getitem(S, x, idx), v))
        if v.op == "moddict" and len(idx) == 1 and idx[0].op == "str":
            return self.module_attr(mk("module", v.args[0]), idx[0].args[0])
        if v.op == "rec":
            if not idx:
                return mk("tuple", *v.args[1:])
            if len(idx) == 1 and idx[0].op in ("str", "num"):
                names = [x[0] for x in v.args[0].args]
                i = idx[0].args[0] if idx[0].op == "str" else int(idx[0].args[0])
                if i in names:
                    return v.args[1 + names.index(i)]
                if isinstance(i, int) and -len(names) <= i < len(names):
                    return v.args[1:][i]
                self.add_pend(S, TRUE, "ValueError")
                return top("no such field")
            return top("record index")
        if v.op == "recs":
            if not idx:
                return v
            if idx[0].op == "num" and -len(v.args) + 1 <= int(idx[0].args[0]) < len(v.args) - 1:
                x = v.args[1:][int(idx[0].args[0])]
                return self.getitem(S, x, idx[1:]) if len(idx) > 1 else x
            if idx[0].op == "str":
                return mk("list", *[self.getitem(S, x, idx[:1]) for x in v.args[1:]])
            return top("record index")
        if v.op == "dns":
            ix = [self.deep(S, i) for i in idx]
            r = D.get(v, ix)
            if r is not None and r.op == "top" and r.args[0] == "index out of range" and not self.lifting:
                self.add_pend(S, TRUE, "IndexError")
            if r is not None and r.op == "dns" and not any(i.op in ("dns", "list", "tuple", "arr") for i in ix):
                # basic slicing gives a view
                return self.view_of(S, b, lambda x: D.get(x, ix)) or r
            return r if r is not None else mk("elem", v, *idx)
        # trailing full slices are the identity
        while idx and idx[-1] is self.FULL:
            idx = idx[:-1]
        if not idx:
            return v
        i = idx[0]
        rest = idx[1:]
        if v.op in ("tuple", "list", "arr"):
            if i.op == "num" and i.args[0].denominator == 1:
                j = int(i.args[0])
                if -len(v.args) <= j < len(v.args):
                    x = v.args[j]
                    return self.getitem(S, x, rest) if rest else x
                if not self.lifting:
                    self.add_pend(S, TRUE, "IndexError")
                return top("index out of range")
            if i.op == "slice" and all(x.op in ("num", "none") for x in i.args):
                sl = slice(*[None if x.op == "none" else int(x.args[0]) for x in i.args])
                items = v.args[sl]
                if rest:
                    return mk(v.op, *[self.getitem(S, x, rest) for x in items])
                return self.alloc(S, mk(v.op, *items)) if v.op == "list" else mk(v.op, *items)
        if v.op == "dict" and len(idx) == 1:
            for k, x in v.args:
                if k is i:
                    self.certain += 1
                    return x
            if i.op in ("str", "dtype", "num") and all(k.op in ("str", "dtype", "num") for k, _ in v.args):
                self.certain += 1
                self.add_pend(S, TRUE, "KeyError")
                return top("key error")
        if v.op == "dstore" and len(idx) == 1:
            if v.args[1] is i:
                return v.args[2]
        if v.op == "map":
            dom, c, g, body = v.args
            if g is TRUE and dom.op == "rng" and dom.args[2] is ONE and i.op not in ("slice", "ellipsis"):
                if i.op == "num" and i.args[0] < 0:
                    ii = T.add(dom.args[1], i)
                else:
                    ii = T.add(dom.args[0], i)
                x = B.open_at(v, ii)[1]
                return self.getitem(S, x, rest) if rest else x
        if v.op == "dmap" and len(idx) == 1:
            # dictionary filled by a loop: key of the same iteration
            dom, c, init, g, key, val = v.args
            m = self._match(key, i, c)
            if m is not None:
                x = T.subst(val, {c: m})
                gg = T.subst(g, {c: m})
                if gg is TRUE:
                    return x
        if v.op == "upd":
            r = self.load_upd(v, idx)
            if r is not None:
                return r
        if v.op == "shape":
            return self.shape_item(v.args[0], i)
        if v.op == "poly" or v.op in ("pow", "abs", "fn"):
            r = self.elem_dist(S, v, idx)
            if r is not None:
                return r
        if v.op == "call" and v.args[0] == "meshgrid":
            pass
        if v.op == "elem":
            # x[i][j] == x[i, j] when the earlier indices are integers
            if all(x.op not in ("slice", "ellipsis", "none") for x in v.args[1:]):
                return mk("elem", v.args[0], *(v.args[1:] + tuple(idx)))
            # x[:, 0][i] == x[i, 0]
            if len(idx) == 1 and idx[0].op != "slice":
                pos = [p for p, x in enumerate(v.args[1:]) if x is self.FULL]
                if pos and pos[0] == [p for p, x in enumerate(v.args[1:]) if x.op == "slice"][0]:
                    na = list(v.args[1:])
                    na[pos[0]] = idx[0]
                    return self.getitem(S, v.args[0], na)
        base = b if (b.op in ("sym", "attr", "elem") and b not in S.content) else v
        return mk("elem", base, *idx)

    def elem_dist(self, S, v, idx):
        """(a*b)[i] = a[i]*b[i] when every rank is known"""
        r = self.rank(v)
        if r is None:
            return None
        nint = len(idx)
        if r < nint:
            return None

        def go(a):
            k = self.rank(a)
            if k == 0:
                return a
            if k != r:
                return None
            if a.op in ("pow", "abs", "fn"):
                args = [x if not isinstance(x, Term) else go(x) for x in a.args]
                if any(x is None for x in args):
                    return None
                return T.remake(a.op, tuple(args))
            if a.op == "poly":
                return self.elem_dist(S, a, idx)
            return self.getitem(S, a, idx)

        if v.op != "poly":
            return go(v)
        out = ZERO
        for m, c in v.args:
            t = num(c)
            for a, e in m:
                x = go(a)
                if x is None:
                    return None
                t = T.mul(t, T.pw(x, num(e)))
            out = T.add(out, t)
        return out

    def idx_differs(self, a, b):
        """provably (or generically) different index tuples"""
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x.op in ("slice", "ellipsis") or y.op in ("slice", "ellipsis"):
                continue
            if x is y:
                continue
            d = T.sub(x, y) if T.numeric_like(x) and T.numeric_like(y) else None
            if d is not None and d.op == "num" and d.args[0] != 0:
                # -1 against 0 etc: treat python negative indices as different from small naturals
                return True
            if d is not None and d.op in ("poly", "sym", "attr", "len") and not any(z.op == "idx" for z in T.subterms(d)):
                return True
        return False

    def load_upd(self, v, idx):
        idx = tuple(idx)
        it = mk("tuple", *idx)
        ops = v.args[1:]
        res = None
        pend = []
        for j in range(len(ops) - 1, -1, -1):
            o = ops[j]
            if o.op == "st":
                g, oi, val = o.args
                if oi is it:
                    if g is TRUE:
                        res = val
                        break
                    pend.append((g, val))
                    continue
                if self.idx_differs(oi.args, idx):
                    continue
                return None
            return None
        if res is None:
            base = v.args[0]
            if base.op == "call" and base.args[0] in ("zeros", "zeros_like"):
                res = ZERO
            elif base.op == "call" and base.args[0] == "ones":
                res = ONE
            else:
                res = mk("elem", base, *idx)
        for g, val in reversed(pend):
            res = T.ite(g, val, res)
        return res

    # ------------------------------------------------------------------ shapes
    def length(self, S, v):
        v = self.rd(S, v)
        if v.op in ("list", "tuple", "arr", "set"):
            return num(len(v.args))
        if v.op == "dns":
            return num(v.args[0][0])
        if v.op == "dict":
            return num(len(v.args))
        if v.op == "rng":
            return B.dom_len(v)
        if v.op == "map" and v.args[2] is TRUE:
            return B.dom_len(v.args[0])
        if v.op == "concat":
            r = ZERO
            for p in v.args:
                r = T.add(r, self.length(S, p))
            return r
        if v.op == "upd":
            return self.length(S, v.args[0])
        if v.op == "zip":
            return self.length(S, v.args[0])
        if v.op == "ite":
            return T.lift1(lambda x: self.length(S, x), v)
        if v.op == "str":
            return num(len(v.args[0]))
        if v.op == "call" and v.args[0] in ("linspace",):
            kw = dict(v.args[2])
            if "num" in kw:
                return kw["num"]
        if v.op == "top":
            return v
        return mk("len", v)

    def shape(self, S, v):
        if v.op == "upd":
            return self.shape(S, v.args[0])
        if v.op == "call" and v.args[0] in ("zeros", "ones", "full"):
            kw = dict(v.args[2])
            sh = kw.get("shape")
            if sh is not None and sh.op in ("tuple", "list"):
                return mk("tuple", *sh.args)
        if v.op == "ite":
            return T.lift1(lambda x: self.shape(S, x), v)
        # elementwise expressions have the shape of their arrays
        if v.op in ("poly", "fn", "pow", "abs"):
            full = [a for a in self._array_atoms(v)]
            if len(full) == 1:
                return mk("shape", full[0])
            ranks = {a: self.rank(a) for a in full}
            if full and all(r is not None for r in ranks.values()):
                best = sorted([a for a in full if ranks[a] == max(ranks.values())], key=lambda t: t.id)
                return mk("shape", best[0])
        return mk("shape", v)

    def _array_atoms(self, v):
        out = []

        def go(x):
            if self.rank(x) == 0:
                return
            if x.op == "poly":
                for m, _ in x.args:
                    for a, _ in m:
                        go(a)
            elif x.op in ("pow", "abs"):
                for a in x.args:
                    go(a)
            elif x.op == "fn":
                for a in x.args[1:]:
                    go(a)
            elif x not in out:
                out.append(x)

        go(v)
        return out

    def shape_item(self, v, i):
        return mk("dim", v, i)

    def size(self, S, v):
        return mk("size", v)

    def transpose(self, S, v):
        if v.op == "call" and v.args[0] == "transpose" and not v.args[2]:
            return v.args[1][0]
        return mk("call", "transpose", (v,), ())

    # ------------------------------------------------------------------ comprehension
    def comp(self, n, S, elt):
        """-> sequence term for a comprehension"""
        uid = self.new_uid()
        fr = {"$parent": S.cur, "$fv": self.cur_fv(S)}
        S.frames[uid] = fr
        old = S.cur
        S.cur = uid
        try:
            return self._comp(n.generators, 0, elt, S)
        finally:
            S.cur = old

    def _comp(self, gens, i, elt, S):
        g = gens[i]
        it = self.eval(g.iter, S)
        d = self.iter_desc(S, it)
        if d is None:
            v = self.rd(S, it)
            if v.op == "ite":
                return T.lift1(lambda x: self._comp_over(gens, i, elt, S, x), v)
            return self._comp_over(gens, i, elt, S, v)
        return self._comp_desc(gens, i, elt, S, d)

    def _comp_over(self, gens, i, elt, S, v):
        if v.op == "concat":
            r = mk("list")
            for p in v.args:
                r = B.seq_concat(r, self._comp_over(gens, i, elt, S, p))
            return r
        if v.op == "flatmap":
            dom, k, (gg, body) = B.open_(v)
            inner = self._comp_over(gens, i, elt, S, body)
            return B.close("flatmap", dom, k, gg, inner)
        d = self.iter_desc(S, v)
        if d is None:
            return top("comprehension over " + v.op)
        return self._comp_desc(gens, i, elt, S, d)

    def _comp_desc(self, gens, i, elt, S, d):
        g = gens[i]
        if d[0] == "const":
            r = mk("list")
            for x in d[1]:
                self.assign(g.target, x, S)
                c = TRUE
                for t in g.ifs:
                    c = T.b_and(c, self.cond(t, S))
                c = self.under(S, c)
                if c is FALSE:
                    continue
                sub = self._comp(gens, i + 1, elt, S) if i + 1 < len(gens) else mk("list", elt(S))
                if c is not TRUE:
                    sub = T.ite(c, sub, mk("list")) if c.op != "top" else c
                    if r.op == "list" and not r.args:
                        r = sub
                        continue
                    return top("conditional literal comprehension")
                r = B.seq_concat(r, sub)
            return r
        _, dom, guard, k, el = d
        self.assign(g.target, el, S)
        for t in g.ifs:
            c = self.cond(t, S)
            if c.op == "top":
                return c
            guard = T.b_and(guard, c)
        if i + 1 < len(gens):
            body = self._comp(gens, i + 1, elt, S)
            return B.close("flatmap", dom, k, guard, body)
        body = elt(S)
        return B.make_map(dom, k, guard, body)

    def e_ListComp(self, n, S):
        return self.alloc(S, self.comp(n, S, lambda s: self.ev(n.elt, s)))

    def e_GeneratorExp(self, n, S):
        return self.comp(n, S, lambda s: self.ev(n.elt, s))

    def e_SetComp(self, n, S):
        return mk("fn", "set", self.comp(n, S, lambda s: self.ev(n.elt, s)))

    def e_DictComp(self, n, S):
        r = self.comp(n, S, lambda s: mk("tuple", self.ev(n.key, s), self.ev(n.value, s)))
        return self.alloc(S, self.dict_from_pairs(r))

    def dict_from_pairs(self, r):
        if r.op in ("list", "tuple") and all(x.op == "tuple" and len(x.args) == 2 for x in r.args):
            return mk("dict", *[(x.args[0], x.args[1]) for x in r.args])
        if r.op == "map" and r.args[3].op == "tuple":
            dom, k, (g, body) = B.open_(r)
            return B.close("dmap", dom, k, mk("dict"), g, body.args[0], body.args[1])
        return mk("fn", "dict", r)

    # ------------------------------------------------------------------ calls
    def call_args(self, n, S):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.rd(S, self.eval(a.value, S))
                if v.op in ("tuple", "list"):
                    pos += list(v.args)
                elif v.op == "rec":
                    pos += list(v.args[1:])
                else:
                    pos.append(mk("fn", "splat", v))
            else:
                v = self.eval(a, S)
                v = self.promote(a, v, S)
                pos.append(v)
        for k in n.keywords:
            if k.arg is None:
                v = self.rd(S, self.eval(k.value, S))
                if v.op == "dict" and all(x.op == "str" for x, _ in v.args):
                    for x, y in v.args:
                        kw[x.args[0]] = y
                else:
                    kw["**"] = self.deep(S, v)
            else:
                v = self.eval(k.value, S)
                v = self.promote(k.value, v, S)
                kw[k.arg] = v
        return pos, kw

    def e_Call(self, n, S):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super":
            fv = self.cur_fv(S)
            cls = fv.cls
            me = S.env.get("self") or self.lookup("self", S)
            if n.args:
                c = self.eval(n.args[0], S)
                if c in self.funcs and isinstance(self.funcs[c], ClassInfo):
                    cls = self.funcs[c]
            return mk("super", cls, me) if cls is not None else top("super")
        if isinstance(f, ast.Attribute):
            o = self.eval(f.value, S)
            pos, kw = self.call_args(n, S)
            return self.call_method(S, o, f.attr, pos, kw, n)
        fn = self.eval(f, S)
        pos, kw = self.call_args(n, S)
        return self.call(S, fn, pos, kw, n)

    def call_method(self, S, o, name, pos, kw, n=None):
        if o.op == "ite":
            lv = T.leafset(o)
            if len(lv) <= 4:
                # dispatch per leaf, merging states
                def go(t):
                    if t.op == "ite":
                        c = T.b_atom(t.args[0])
                        A, Bs = S.copy(), S.copy()
                        saved = S.copy()
                        S.become(A)
                        a = go(t.args[1])
                        A2 = S.copy()
                        S.become(Bs)
                        b = go(t.args[2])
                        B2 = S.copy()
                        S.become(saved)
                        a, b = self.deep(A2, a), self.deep(B2, b)
                        self.merge(S, c, A2, B2)
                        S.flow = FALL
                        return T.ite(c, a, b)
                    return self.call_method(S, t, name, pos, kw, n)

                return go(o)
            return top("call on choice")
        if o.op == "top":
            return o
        if o.op in ("module", "ext", "class", "super"):
            return self.call(S, self.getattr(S, o, name), pos, kw, n)
        cls = self.classof(S, o)
        if cls is not None:
            f = cls.find(name)
            if f is not None and f[0] == "methods" and (o, name) not in S.heap:
                fi = f[1]
                return self.call_finfo(S, fi, ([] if fi.is_static else [o]) + pos, kw, cls)
            if f is not None and f[0] == "getters":
                return self.call(S, self.getattr(S, o, name), pos, kw, n)
        if cls is None:
            r = self.container_method(S, o, name, pos, kw, n)
            if r is not None:
                return r
        hv = S.heap.get((o, name))
        if hv is not None:
            return self.call(S, hv, pos, kw, n)
        if o.op == "obj" or (cls is not None and name.startswith("_") and False):
            return self.call(S, self.getattr(S, o, name), pos, kw, n)
        # data attribute holding a callable (e.g. self._solver(...))
        if cls is not None:
            if self._instance_assigns(cls, name):
                return self.call(S, self.getattr(S, o, name), pos, kw, n)
        return self.opaque_method(S, o, name, pos, kw)

    @staticmethod
    def str_method(text, name, pos):
        """methods of a known string with known arguments"""
        if name not in ("startswith", "endswith", "lower", "upper", "title", "capitalize", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "find", "rfind", "count", "index", "isdigit", "isalpha", "partition", "zfill"):
            return None
        args = []
        for p in pos:
            if p.op == "str":
                args.append(p.args[0])
            elif p.op == "num" and p.args[0] == int(p.args[0]):
                args.append(int(p.args[0]))
            elif p.op == "tuple" and all(q.op == "str" for q in p.args):
                args.append(tuple(q.args[0] for q in p.args))
            else:
                return None
        try:
            r = getattr(text, name)(*args)
        except Exception:
            return None
        if isinstance(r, bool):
            return TRUE if r else FALSE
        if isinstance(r, int):
            return num(r)
        if isinstance(r, str):
            return mk("str", r)
        if isinstance(r, (list, tuple)):
            return mk("list" if isinstance(r, list) else "tuple", *[mk("str", q) for q in r])
        return None

    def container_method(self, S, o, name, pos, kw, n):
        v = self.rd(S, o)
        seq = ("list", "concat", "map", "flatmap")
        isphi = o.op == "ref" and v.op == "sym"
        if name == "append" and len(pos) == 1 and (self.is_loc(o)):
            if v.op in seq or o.op == "ref" or v.op == "ite":
                x = self.deep(S, pos[0]) if self.rd(S, pos[0]).op not in ("obj",) else pos[0]
                S.content[o] = T.lift1(lambda c: B.seq_concat(c, mk("list", x)), v)
                return NONE
            S.content[o] = B.seq_concat(v, mk("list", self.deep(S, pos[0])))
            return NONE
        if name == "extend" and len(pos) == 1 and self.is_loc(o):
            w = self.deep(S, pos[0])
            if w.op == "tuple":
                w = mk("list", *w.args)
            S.content[o] = T.lift1(lambda c: B.seq_concat(c, w), v)
            return NONE
        if name in ("insert", "pop", "remove", "clear", "reverse", "sort", "fill", "update", "setdefault", "popitem", "add", "discard") and (
            v.op in seq + ("dict", "dmap", "dstore", "upd", "set") or o.op == "ref"
        ):
            if name == "sort":
                key = kw.get("key")
                if v.op == "list" and not set(kw) - {"key"}:
                    od = self.order(S, list(v.args), key)
                    if od is not None:
                        S.content[o] = mk("list", *od)
                        return NONE
                t = mk("call", "sorted", (self.deep(S, o),), tuple(sorted((k, self.canon_fn(S, x)) for k, x in kw.items())))
                S.content[o] = t
                return NONE
            if name == "reverse" and v.op == "list":
                S.content[o] = mk("list", *reversed(v.args))
                return NONE
            if name == "pop" and v.op == "list" and (not pos or pos[0].op == "num") and v.args:
                i = int(pos[0].args[0]) if pos else -1
                items = list(v.args)
                x = items.pop(i)
                S.content[o] = mk("list", *items)
                return x
            if name == "update" and v.op == "dict" and len(pos) == 1 and self.rd(S, pos[0]).op == "dict":
                w = self.rd(S, pos[0])
                items = [kv for kv in v.args if kv[0] not in [a for a, _ in w.args]] + list(w.args)
                S.content[o] = mk("dict", *items)
                return NONE
            if name == "remove" and v.op == "list" and len(pos) == 1:
                items = list(v.args)
                for i, x in enumerate(items):
                    c = TRUE if x is pos[0] else self.under(S, self.boolcmp(self.deep(S, x), self.deep(S, pos[0])))
                    if c is TRUE:
                        del items[i]
                        S.content[o] = mk("list", *items)
                        return NONE
                    if c is not FALSE:
                        break
            if name == "insert" and v.op == "list" and len(pos) == 2 and pos[0].op == "num":
                items = list(v.args)
                items.insert(int(pos[0].args[0]), pos[1])
                S.content[o] = mk("list", *items)
                return NONE
            r = mk("mcall", self.deep(S, v), name, tuple(self.deep(S, p) for p in pos), (), None)
            S.content[o] = mk("after", r)
            return r
        if name in ("items", "keys", "values") and not pos:
            if v.op == "dict":
                if name == "items":
                    return mk("list", *[mk("tuple", a, b) for a, b in v.args])
                return mk("list", *[a if name == "keys" else b for a, b in v.args])
            return mk("call", name, (self.deep(S, v),), ())
        if name == "get" and v.op == "dict" and pos and pos[0].op == "str":
            for a, b in v.args:
                if a is pos[0]:
                    return b
            return pos[1] if len(pos) > 1 else NONE
        if v.op == "bytes" and name == "decode":
            return v.args[0]
        if v.op == "str" and not kw:
            r = self.str_method(v.args[0], name, [self.deep(S, p) for p in pos])
            if r is not None:
                return r
        if v.op == "str" and name == "format":
            r = self.text_format(S, v.args[0], pos, kw)
            if r is not None:
                return r
        if v.op in ("str", "fstr", "strcat", "strfmt") or (name in ("format", "join", "split", "strip", "upper", "lower", "startswith", "endswith", "replace", "decode", "encode")):
            return mk("call", "str." + name, (self.deep(S, v),) + tuple(self.deep(S, p) for p in pos), tuple(sorted((k, self.deep(S, x)) for k, x in kw.items())))
        if self.dense and v.op == "dns":
            if name in ("fill",):
                self.setc(S, o, D.make(D.shape_of(v), [self.deep(S, pos[0])] * D.size(D.shape_of(v))))
                return NONE
            if name == "resize":
                return top("resize")
            if name == "astype" and (pos or "dtype" in kw) and not set(kw) - {"dtype", "copy"} and kw.get("copy", TRUE) is TRUE:
                r = self.int_arrays(S, "array", [o], {"dtype": kw.get("dtype", pos[0] if pos else None)})
                if r is not None:
                    return r
            if name in self.VIEWERS:
                r = self.viewer(S, name, [o] + pos, kw)
                if r is not None:
                    return r
            r = self.dense_call(S, RENAME.get(name, name), [v] + [self.canon_fn(S, p) for p in pos], {k: self.canon_fn(S, x) for k, x in kw.items()})
            return r if r is not None else top("array method " + name)
        if name in PURE_METHODS and not (o.op in ("func", "class")):
            if v.op in ("obj",):
                return None
            return self.numpy_call(S, PURE_METHODS[name], [o] + pos, kw, "method")
        return None

    def bind(self, finfo, pos, kw, S, defaults=True):
        """parameter name -> term (for package functions)"""
        a = finfo.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(pos):
            if v.op == "fn" and v.args[0] == "splat":
                # *value: fills the remaining positional parameters in order
                src = v.args[1]
                j = 0
                for nm in names[i:]:
                    if nm in kw:
                        break
                    out[nm] = mk("splatitem", src, num(j))
                    j += 1
                return out, "splat"
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kwx = {}
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in allowed:
                out[k] = v
            else:
                kwx[k] = v
        if extra and not a.vararg:
            return None, "too many arguments"
        if kwx and not a.kwarg:
            return None, "unexpected keyword " + ",".join(sorted(kwx))
        if a.vararg:
            out[a.vararg.arg] = mk("tuple", *extra)
        if a.kwarg:
            out[a.kwarg.arg] = mk("dict", *[(string(k), v) for k, v in sorted(kwx.items())])
        if defaults:
            ds = a.defaults
            for nm, dn in zip(names[len(names) - len(ds):], ds):
                if nm not in out:
                    out[nm] = self.eval_default(finfo, dn, S)
            for x, dn in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg not in out and dn is not None:
                    out[x.arg] = self.eval_default(finfo, dn, S)
            for nm in names:
                if nm not in out:
                    return None, "missing argument " + nm
        return out, None

    def eval_default(self, finfo, dn, S=None):
        S2 = State()
        S2.frames[0] = {"$fv": FuncVal(None, finfo.module, finfo.cls, None), "$parent": None}
        if finfo.cls is not None:
            S2.frames[0]["$class"] = finfo.cls
        key = ("def", finfo.qual, ast.dump(dn), dn.lineno, dn.col_offset)
        if key not in self.modconst:
            if isinstance(dn, ast.Call):
                fn = self.eval(dn.func, S2) if isinstance(dn.func, (ast.Name, ast.Attribute)) else NONE
                ci = self.funcs.get(fn)
                if isinstance(ci, ClassInfo) and S is not None and all(isinstance(x, ast.Constant) for x in dn.args) and all(isinstance(k.value, ast.Constant) for k in dn.keywords):
                    # an instance of a package class (a default made once; here made anew at each call)
                    pos = [self.eval(x, S2) for x in dn.args]
                    kw = {k.arg: self.eval(k.value, S2) for k in dn.keywords}
                    return self.call(S, fn, pos, kw)
                self.modconst[key] = mk("default", ast.unparse(dn))
            else:
                self.modconst[key] = self.deep(S2, self.eval(dn, S2))
        return self.modconst[key]

    def is_opaque(self, finfo, cls=None):
        names = {finfo.qual, finfo.name, finfo.qual.split(".", 1)[1]}
        if finfo.cls is not None:
            names.add(finfo.cls.name + "." + finfo.name)
        if cls is not None:
            names.add(cls.name + "." + finfo.name)
        return bool(names & self.opaque)

    def call_info(self, S, finfo, pos, kw):
        return self.call_finfo(S, finfo, pos, kw, None)

    def call_finfo(self, S, finfo, pos, kw, cls):
        if finfo.qual in self.models:
            m = self.models[finfo.qual]
            return self.instantiate(S, self.class_term(m), pos, kw) if hasattr(m, "mro") else self.call_finfo(S, m, pos, kw, None)
        if self.is_opaque(finfo, cls) or self.depth >= self.maxdepth:
            if finfo.cls is not None and not finfo.is_static and pos and not finfo.is_classmethod:
                return self.opaque_method(S, pos[0], finfo.name, pos[1:], kw, finfo)
            return self.opaque_func(S, finfo, pos, kw)
        b, err = self.bind(finfo, pos, kw, S)
        if b is None:
            self.add_pend(S, TRUE, "TypeError")
            return top("call %s: %s" % (finfo.qual, err))
        if err == "splat":
            ds = finfo.node.args.defaults
        for x in ast.walk(finfo.node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                return top("generator " + finfo.qual)
        self.inlined.add(finfo.qual)
        fv = FuncVal(finfo.node, finfo.module, finfo.cls, None, finfo)
        return self.finish(S, self.run_body(S, fv, b))

    def finish(self, S, res):
        """move raise leaves into the pending exception of the caller"""
        lv = T.leafset(res)
        rl = [x for x in lv if x.op == "raise"]
        if not rl:
            return res
        S.pend = self._pend_merge(S.pend, T.lift1(lambda x: raise_flow(x.args[0]) if x.op == "raise" else FALL, res))
        if len(rl) == len(lv):
            return NONE
        keep = T.lift1(lambda x: FALSE if x.op == "raise" else TRUE, res)
        v = self._under_cond(res, keep)
        return v if v is not None else NONE

    def call(self, S, fn, pos, kw, n=None):
        fn = self.under(S, fn)
        if fn.op == "ite":
            fn2 = fn
            lv = T.leafset(fn)
            if len(lv) <= 4:
                def go(t):
                    if t.op == "ite":
                        c = T.b_atom(t.args[0])
                        saved = S.copy()
                        a = go(t.args[1])
                        A2 = S.copy()
                        S.become(saved.copy())
                        b = go(t.args[2])
                        B2 = S.copy()
                        a, b = self.deep(A2, a), self.deep(B2, b)
                        S.become(saved)
                        self.merge(S, c, A2, B2)
                        S.flow = FALL
                        return T.ite(c, a, b)
                    return self.call(S, t, pos, kw, n)

                return go(fn)
            return top("call of choice")
        if fn.op == "top":
            return fn
        if fn.op in ("func", "bound"):
            fv = self.funcs.get(fn)
            if fv is None:
                return top("unknown function")
            if fv.info is not None:
                p = list(pos)
                if fv.bound is not None:
                    p = [fv.bound] + p
                return self.call_finfo(S, fv.info, p, kw, None)
            return self.call_closure(S, fv, pos, kw)
        if fn.op == "class":
            return self.instantiate(S, fn, pos, kw)
        if fn.op == "ext":
            return self.ext_call(S, fn.args[0], pos, kw, n)
        cls = self.classof(S, fn)
        if cls is not None:
            m = cls.lookup("methods", "__call__")
            if m is not None:
                return self.call_finfo(S, m, [fn] + pos, kw, cls)
        return self.opaque_apply(S, fn, pos, kw)

    def call_closure(self, S, fv, pos, kw):
        if self.depth >= self.maxdepth:
            return top("depth")
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        for nm, v in zip(names, pos):
            b[nm] = v
        if len(pos) > len(names):
            if a.vararg:
                b[a.vararg.arg] = mk("tuple", *pos[len(names):])
            else:
                self.add_pend(S, TRUE, "TypeError")
                return top("too many arguments")
        elif a.vararg:
            b[a.vararg.arg] = mk("tuple")
        for k, v in kw.items():
            b[k] = v
        ds = a.defaults
        for nm, dn in zip(names[len(names) - len(ds):], ds):
            if nm not in b:
                old = S.cur
                S.cur = fv.frame if fv.frame in S.frames else S.cur
                b[nm] = self.eval(dn, S)
                S.cur = old
        return self.finish(S, self.run_body(S, fv, b))

    def instantiate(self, S, ct, pos, kw):
        c = self.funcs[ct]
        if c.qual in self.models:
            c = self.models[c.qual]
            self.class_term(c)
        init = c.lookup("methods", "__init__")
        if c.name in self.opaque_classes or init is None or c.qual in self.opaque_classes or self.depth >= self.maxdepth:
            if init is None:
                ext = [x for x in c.node.bases if not (isinstance(x, ast.Name) and x.id == "object")]
                if not pos and not kw and len(c.mro()) == 1 + len(ext) and c.name not in self.opaque_classes:
                    return mk("obj", c, self.new_uid())
                return mk("new", c.qual, ())
            me = mk("sym", "$new")
            b, err = self.bind(init, [me] + pos, kw, S)
            if b is None:
                self.add_pend(S, TRUE, "TypeError")
                return top("constructor %s: %s" % (c.name, err))
            first = init.params()[0]
            items = tuple(sorted(((k, self.deep(S, v)) for k, v in b.items() if k != first), key=lambda x: x[0]))
            o = mk("new", c.qual, items)
            self.hints.setdefault(o, None)
            return o
        o = mk("obj", c, self.new_uid())
        b, err = self.bind(init, [o] + pos, kw, S)
        if b is None:
            self.add_pend(S, TRUE, "TypeError")
            return top("constructor %s: %s" % (c.name, err))
        self.inlined.add(init.qual)
        self.finish(S, self.run_body(S, FuncVal(init.node, init.module, init.cls, None, init), b))
        return o

    # opaque -----------------------------------------------------------
    def dirty(self, S):
        """external attribute writes so far, as a canonical tuple"""
        out = []
        for (o, a), v in S.heap.items():
            if o.op == "obj" or (o.op == "class" and str(o.args[0]).startswith("spec.")):
                continue
            if v is self.initial_attr(S, o, a):
                continue
            out.append((o, a, self.deep(S, v)))
        out.sort(key=lambda x: (x[0].id, x[1]))
        cont = []
        for k, v in S.content.items():
            if k.op in ("sym", "attr", "elem") and v is not k:
                if v.op == "dns" and v is self.sym_array(k, v.args[0]):
                    continue
                cont.append((k, "[]", v))
        cont.sort(key=lambda x: x[0].id)
        return tuple(out) + tuple(cont) + tuple((h, "each", NONE) for h in S.heach)

    def method_writes(self, name):
        if name in self.pure_names:
            return set()
        return self.effects.get(name, set())

    def args_term(self, S, pos, kw):
        return (
            tuple(self.canon_fn(S, p) for p in pos),
            tuple(sorted((k, self.canon_fn(S, v)) for k, v in kw.items())),
        )

    def bind_by_name(self, S, name, pos, kw, finfo=None):
        """normalise positional/keyword arguments of an opaque method by the unique
        signature that name has in the package"""
        cands = [finfo] if finfo is not None else [f for f in self.prog.all_functions() if f.name == name and f.cls is not None and not f.is_setter and not f.is_property]
        if len(cands) > 1:
            # only those this call could reach
            def fits(f):
                ps = f.params()[1:]
                nd = len(f.node.args.defaults)
                return len(pos) + len(kw) <= len(ps) and set(kw) <= set(ps) and set(ps[: len(ps) - nd]) <= set(ps[: len(pos)]) | set(kw)
            cands = [f for f in cands if f.node.args.vararg or f.node.args.kwarg or fits(f)]
        if cands:
            sig = {tuple(f.params()[1:]) for f in cands}
            defs = {tuple(ast.unparse(d) for d in f.node.args.defaults) for f in cands}
            if len(sig) == 1 and len(defs) == 1 and not cands[0].node.args.vararg:
                b, err = self.bind(cands[0], [mk("sym", "$self")] + pos, kw, S)
                if b is not None:
                    first = cands[0].params()[0]
                    return (), tuple(sorted((k, self.canon_fn(S, v)) for k, v in b.items() if k != first))
        return self.args_term(S, pos, kw)

    def opaque_method(self, S, o, name, pos, kw, finfo=None):
        p, k = self.bind_by_name(S, name, pos, kw, finfo)
        w = self.method_writes(name)
        d = self.dirty(S)
        if name in self.vectorised:
            vs = [self.canon_fn(S, v) for v in p] + [self.canon_fn(S, v) for _, v in k]
            if any(v.op == "dns" for v in vs):
                def one(*xs):
                    return mk("mcall", o, name, tuple(xs[:len(p)]), tuple((kv[0], x) for kv, x in zip(k, xs[len(p):])), S.epoch if S.epoch is not None else NONE, d)
                return D.emap(one, *vs)
        ov = o if o.op == "obj" else (o if o not in S.content or o.op != "ref" else self.deep(S, o))
        t = mk("mcall", ov, name, p, k, S.epoch if S.epoch is not None else NONE, d)
        if w:
            self.impure(S, t, w)
        return self.shaped(t, name)

    def shaped(self, t, name):
        """results of opaque calls declared to be arrays of constant shape"""
        sh = self.shapes.get(name + "()") if self.shapes else None
        if sh is None:
            return t
        import itertools
        return D.make(sh, [mk("elem", t, *[num(i) for i in ix]) for ix in itertools.product(*[range(x) for x in sh])])

    def opaque_func(self, S, finfo, pos, kw):
        b, err = self.bind(finfo, pos, kw, S)
        if b is None:
            self.add_pend(S, TRUE, "TypeError")
            return top("call %s: %s" % (finfo.qual, err))
        w = self.method_writes(finfo.name)
        if finfo.name in self.vectorised:
            ks = sorted(b)
            vs = [self.canon_fn(S, b[k]) for k in ks]
            if any(v.op == "dns" for v in vs):
                return D.emap(lambda *xs: mk("fcall", finfo.qual, tuple(zip(ks, xs)), NONE, ()), *vs)
        t = mk("fcall", finfo.qual, tuple(sorted((k, self.canon_fn(S, v)) for k, v in b.items())), S.epoch if w and S.epoch is not None else NONE, self.dirty(S) if w else ())
        if w:
            self.impure(S, t, w)
        return self.shaped(t, finfo.name)

    SPLINE1 = {"InterpolatedUnivariateSpline", "UnivariateSpline", "interp1d", "CubicSpline", "PchipInterpolator", "make_interp_spline"}
    SPLINE2 = {"RectBivariateSpline"}

    def spline_kind(self, fn):
        while fn.op == "mcall" and fn.args[1] in ("derivative", "antiderivative", "partial_derivative"):
            fn = fn.args[0]
        if fn.op == "call":
            return 1 if fn.args[0] in self.SPLINE1 else 2 if fn.args[0] in self.SPLINE2 else 0
        return 0

    def spline_apply(self, fn, p, k):
        """elementwise evaluation of scipy splines on arrays of constant shape; one canonical form"""
        kind = self.spline_kind(fn)
        d = dict(k)
        if kind == 1 and len(p) == 1 and not k and p[0].op == "dns":
            return D.emap(lambda x: mk("apply", fn, (x,), (), NONE, ()), p[0])
        if kind == 2 and len(p) == 2 and all(x.op in ("dns",) or self.rank(x) == 0 for x in p) and set(d) <= {"grid", "dx", "dy"}:
            grid = d.pop("grid", TRUE)
            kk = tuple(sorted((a, b) for a, b in d.items() if b is not ZERO))
            one = lambda x, y: mk("apply", fn, (x, y), kk, NONE, ())
            if grid is FALSE and any(x.op == "dns" for x in p):
                return D.emap(one, *p)
            if grid is TRUE:
                xs, ys = [list(D.entries(x)) if x.op == "dns" else [x] for x in p]
                if all(x.op != "dns" or len(x.args[0]) == 1 for x in p):
                    return D.make((len(xs), len(ys)), [one(x, y) for x in xs for y in ys])
        return None

    def opaque_apply(self, S, fn, pos, kw):
        p, k = self.args_term(S, pos, kw)
        if self.dense and self.spline_kind(fn):
            r = self.spline_apply(fn, p, k)
            if r is not None:
                return r
        if fn.op == "sym" and fn.args[0] in self.vectorised and not k and any(x.op == "dns" for x in p):
            return D.emap(lambda *xs: mk("apply", fn, tuple(xs), (), NONE, ()), *p)
        pure = fn in self.pure_names or (fn.op == "attr" and fn.args[1] in self.pure_names) or fn.op in ("new", "call", "mcall", "fcall", "elem")
        t = mk("apply", fn, p, k, NONE if pure else (S.epoch if S.epoch is not None else NONE), () if pure else self.dirty(S))
        if not pure:
            self.impure(S, t, {"*"})
        return self.shaped(t, fn.args[1] if fn.op == "attr" else str(fn.args[0]) if fn.op == "sym" else "") if self.shapes else t

    def impure(self, S, t, w):
        S.events = S.events + (mk("ev", TRUE, t),)
        S.epoch = t
        for a in w:
            S.attr_epoch[a] = t
        # cached writes to externals of those names are no longer known
        for (o, a) in list(S.heap):
            if o.op != "obj" and (a in w or "*" in w):
                S.heap[(o, a)] = mk("attr", o, a, t)

    def canon_fn(self, S, t):
        """function values become closed lambda terms so that they compare structurally"""
        t = self.deep(S, t)
        if t.op in ("func", "bound") and t in self.funcs:
            fv = self.funcs[t]
            if fv.info is not None:
                if fv.bound is not None:
                    return mk("boundm", fv.bound, fv.info.name)
                return mk("gfunc", fv.info.qual)
            a = fv.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if a.vararg or a.kwarg or self.depth >= self.maxdepth:
                return top("closure")
            S2 = S.copy()
            vs = [B.fresh_sym("lam") for _ in names]
            ndef = len(a.defaults)
            req = vs[: len(vs) - ndef] if ndef else vs
            r = self.call_closure(S2, fv, req, {})
            r = self.deep(S2, r)
            h = 1 + B.height(r)
            m = {v: mk("idx", "c", (h << 8) + i) for i, v in enumerate(req)}
            return mk("lamc", len(req), T.subst(r, m))
        return t

    # ------------------------------------------------------------------ externals
    def ext_call(self, S, q, pos, kw, n=None):
        last = q.split(".")[-1]
        if q in self.models:
            m = self.models[q]
            if hasattr(m, "mro"):
                return self.instantiate(S, self.class_term(m), pos, kw)
            return self.call_finfo(S, m, pos, kw, None)
        if q.startswith("builtins."):
            return self.builtin(S, last, pos, kw, n)
        if q in ("warnings.warn",) or q.startswith(("matplotlib", "logging")):
            return mk("sym", "plot:" + q) if q.startswith("matplotlib") else NONE
        root = q.split(".")[0]
        if root in ("numpy", "scipy", "math", "operator", "functools", "itertools"):
            if root == "numpy" and ".random" in q or root == "random":
                t = mk("call", "random." + last, tuple(self.deep(S, p) for p in pos), (("$n", num(len(S.events))),))
                self.impure(S, t, set())
                return t
            return self.numpy_call(S, last, pos, kw, q)
        if q == "copy.deepcopy":
            t = self.under(S, pos[0])
            if self._clonable(S, t):
                return self.clone(S, t, {})
            return mk("call", "deepcopy", (self.deep(S, pos[0]),), ())
        if q == "copy.copy":
            t = self.under(S, pos[0])
            if self._clonable(S, t):
                return self.clone(S, t, None)
            return self.deep(S, t)
        if q in ("bisect.insort", "bisect.insort_right", "bisect.insort_left") and len(pos) == 2 and not kw and pos[0].op == "ref":
            c = self.rd(S, pos[0])
            if c.op == "list":
                o = self.order(S, list(c.args) + [pos[1]] if q != "bisect.insort_left" else [pos[1]] + list(c.args))
                if o is not None:
                    S.content[pos[0]] = mk("list", *o)
                    return NONE
            S.content[pos[0]] = top("insort")
            return NONE
        if root == "random":
            t = mk("call", "random." + last, tuple(self.deep(S, p) for p in pos), (("$n", num(len(S.events))),))
            self.impure(S, t, set())
            return t
        return mk("call", q, tuple(self.canon_fn(S, p) for p in pos), tuple(sorted((k, self.canon_fn(S, v)) for k, v in kw.items())))

    def builtin(self, S, name, pos, kw, n):
        if name == "print":
            return NONE
        if name == "len" and pos:
            v = self.deep(S, pos[0]) if pos[0].op != "obj" else pos[0]
            if v.op in ("list", "tuple", "dict") or v.op == "dns":
                self.certain += 1
            elif self.dense and v.op != "obj" and self.rank(v) == 0:
                self.certain += 1
                self.add_pend(S, TRUE, "TypeError")
                return ZERO
            return self.length(S, pos[0])
        if name == "range":
            p = [self.deep(S, x) for x in pos]
            if len(p) == 1:
                p = [ZERO, p[0], ONE]
            elif len(p) == 2:
                p = p + [ONE]
            if any(x.op == "ite" for x in p):
                return T.liftn(lambda xs: mk("rng", *xs), p)
            return mk("rng", *p)
        if name == "zip":
            return mk("zip", *[self.deep(S, x) for x in pos])
        if name == "enumerate":
            st = pos[1] if len(pos) > 1 else kw.get("start", ZERO)
            return mk("enum", self.deep(S, pos[0]), st)
        if name in ("list", "tuple") and pos:
            v = self.deep(S, pos[0])
            if v.op == "dns":
                v = mk("list", *self.iter_desc(S, v)[1])
            if v.op in ("list", "tuple", "set"):
                return self.alloc(S, mk("list", *v.args)) if name == "list" else mk("tuple", *v.args)
            if v.op in ("zip", "enum", "rng"):
                d = self.iter_desc(S, v)
                if d is not None:
                    if d[0] == "const":
                        t = mk("list", *d[1])
                    else:
                        t = B.make_map(d[1], d[3], d[2], d[4])
                    return self.alloc(S, t) if name == "list" else t
            return self.alloc(S, v) if name == "list" else v
        if name in ("list",) and not pos:
            return self.alloc(S, mk("list"))
        if name == "dict":
            if not pos:
                return self.alloc(S, mk("dict", *[(string(k), v) for k, v in kw.items()]))
            v = self.deep(S, pos[0])
            d = v if v.op == "dict" else self.dict_from_pairs(v)
            if kw and d.op != "dict":
                return top("dict with keywords")
            for k, x in kw.items():
                k = string(k)
                d = mk("dict", *([(a, x if a is k else b) for a, b in d.args] + ([] if any(a is k for a, _ in d.args) else [(k, x)])))
            return self.alloc(S, d)
        if name in ("float",):
            v = self.deep(S, pos[0])
            if v.op == "str":
                return T.num(float(v.args[0])) if v.args[0].strip().lower() in ("inf", "-inf", "nan") else mk("fn", "float", v)
            if v.op == "dns" and D.size(D.shape_of(v)) == 1:
                return D.entries(v)[0]
            return v
        if name == "int":
            v = self.deep(S, pos[0])
            return T.lift1(lambda x: num(int(x.args[0])) if x.op == "num" else (x if x.op in ("len", "idx") else mk("fn", "int", x)), v)
        if name == "bool":
            return T.truth(self.deep(S, pos[0]))
        if name == "abs" and self.has_dns(self.deep(S, pos[0])):
            return self.numpy_call(S, "abs", pos, kw, "")
        if name == "abs":
            return self.elem1(self.absval, self.deep(S, pos[0]))
        if name == "round":
            if len(pos) == 1 and self.deep(S, pos[0]).op == "num":
                return num(round(self.deep(S, pos[0]).args[0]))
            return mk("fn", "round", *[self.deep(S, p) for p in pos])
        if name == "pow":
            return T.pw(self.deep(S, pos[0]), self.deep(S, pos[1]))
        if name in ("max", "min"):
            if len(pos) >= 2:
                return self.minmax(name, [self.deep(S, p) for p in pos])
            v = self.deep(S, pos[0])
            if v.op == "dns" and len(v.args[0]) == 1:
                return self.minmax(name, list(D.entries(v)))
            if v.op in ("list", "tuple") and not v.args:
                if "default" in kw:
                    return kw["default"]
                self.add_pend(S, TRUE, "ValueError")
                return NONE
            if v.op in ("list", "tuple") and v.args and ("key" in kw or any(x.op == "tuple" for x in v.args)):
                raw = self.rd(S, pos[0])
                raw = list(raw.args) if raw.op == v.op else list(v.args)
                o = self.order(S, raw if name == "min" else raw[::-1], kw.get("key"))
                return (o[0] if name == "min" else o[-1]) if o is not None else top("order not known")
            if v.op in ("list", "tuple") and not set(kw) - {"default"}:
                return self.minmax(name, list(v.args))
            return self.reduce(name, v, tuple(sorted((k, self.canon_fn(S, x)) for k, x in kw.items())))
        if name == "sum":
            v = self.deep(S, pos[0])
            st = self.deep(S, pos[1]) if len(pos) > 1 else kw.get("start", ZERO)
            return T.add(st, self.sum_seq(S, v))
        if name in ("any", "all"):
            v = self.deep(S, pos[0])
            if v.op in ("list", "tuple") or v.op == "dns" and len(D.shape_of(v)) == 1:
                r = FALSE if name == "any" else TRUE
                for x in v.args if v.op != "dns" else D.entries(v):
                    r = T.b_or(r, T.truth(x)) if name == "any" else T.b_and(r, T.truth(x))
                return r
            if v.op == "map":
                dom, k, (g, body) = B.open_(v)
                c = T.truth(body)
                if name == "any":
                    return T.b_atom(B.close("exists", dom, k, T.b_and(g, c)))
                return T.b_not(T.b_atom(B.close("exists", dom, k, T.b_and(g, T.b_not(c)))))
            return T.b_atom(mk("boolval", name, v, NONE))
        if name == "formatted_fields":
            r = self.text_fields(self.deep(S, pos[0]))
            return r if r is not None else top("formatted text")
        if name == "isinstance":
            v = self.deep(S, pos[0]) if pos[0].op != "obj" else pos[0]
            cl = pos[1]
            return self.isinstance_(S, v, cl)
        if name == "hasattr":
            v = self.deep(S, pos[0])
            a = pos[1].args[0] if pos[1].op == "str" else None
            if v.op == "obj" and a is not None:
                k = self.obj_has(S, v, a)
                if k is not None:
                    return k
            if a == "__len__" and v.op in ("list", "tuple", "dict", "map"):
                return TRUE
            if a == "decode" and v.op in ("bytes", "str"):
                return TRUE if v.op == "bytes" else FALSE
            if v.op in ("num",):
                return FALSE if a in ("__len__", "shape") else TRUE
            if a == "__len__" and self.rank(v) is not None:
                return TRUE if self.rank(v) else FALSE
            if a == "shape" and v.op == "dns":
                return TRUE
            if a == "shape" and self.rank(v) == 0:
                return FALSE
            if a == "shape" and self.rank(v) not in (None, 0):
                return TRUE
            return T.b_atom(mk("boolval", "hasattr", v, pos[1]))
        if name == "getattr" and len(pos) >= 2 and pos[1].op == "str":
            if len(pos) == 3:
                c = T.b_atom(mk("boolval", "hasattr", self.deep(S, pos[0]), pos[1]))
                if pos[0].op == "obj":
                    k = self.obj_has(S, pos[0], pos[1].args[0])
                    if k is TRUE:
                        return self.getattr(S, pos[0], pos[1].args[0])
                    if k is FALSE:
                        return pos[2]
                return T.ite(c, self.getattr(S, pos[0], pos[1].args[0]), pos[2])
            return self.getattr(S, pos[0], pos[1].args[0])
        if name == "setattr" and len(pos) == 3 and pos[1].op == "str":
            self.setattr(S, pos[0], pos[1].args[0], pos[2])
            return NONE
        if name == "sorted":
            v = self.deep(S, pos[0])
            raw = self.rd(S, pos[0])
            if raw.op in ("list", "tuple") and not set(kw) - {"key", "reverse"} and kw.get("reverse", FALSE) in (TRUE, FALSE):
                rev = kw.get("reverse", FALSE) is TRUE
                o = self.order(S, list(raw.args)[::-1] if rev else list(raw.args), kw.get("key"))
                if o is not None:
                    return self.alloc(S, mk("list", *(o[::-1] if rev else o)))
            return self.alloc(S, mk("call", "sorted", (v,), tuple(sorted((k, self.canon_fn(S, x)) for k, x in kw.items()))))
        if name == "set" and len(pos) == 1 and not kw:
            v = self.deep(S, pos[0])
            items = list(v.args) if v.op in ("list", "tuple", "set") else list(D.entries(v)) if v.op == "dns" and len(D.shape_of(v)) == 1 else None
            if items is not None and all(x.op in ("num", "str") for x in items):
                return mk("set", *sorted(set(items), key=lambda t: t.id))
        if name == "reversed":
            v = self.deep(S, pos[0])
            if v.op in ("list", "tuple"):
                return mk("list", *reversed(v.args))
            return mk("call", "reversed", (v,), ())
        if name == "map" and len(pos) == 2:
            d = self.iter_desc(S, pos[1])
            if d is not None:
                if d[0] == "const":
                    return mk("list", *[self.deep(S, self.call(S, pos[0], [x], {})) for x in d[1]])
                b = self.deep(S, self.call(S, pos[0], [d[4]], {}))
                return B.make_map(d[1], d[3], d[2], b)
            return top("map()")
        if name == "filter":
            d = self.iter_desc(S, pos[1])
            if d is not None and d[0] == "dom":
                c = T.truth(self.deep(S, self.call(S, pos[0], [d[4]], {})))
                if c.op == "top":
                    return c
                return B.make_map(d[1], d[3], T.b_and(d[2], c), d[4])
            return top("filter()")
        if name == "next" and pos:
            v = self.deep(S, pos[0])
            if v.op == "map":
                dom, k, (g, body) = B.open_(v)
                f = B.close("first", dom, k, g, body)
                E = T.b_atom(B.close("exists", dom, k, g))
                if len(pos) > 1:
                    return T.ite(E, f, pos[1])
                self.add_pend(S, T.b_not(E), "StopIteration")
                return f
            return top("next")
        if name == "__stored__":
            return self.stored(self.deep(S, pos[0]))
        if name == "str" and len(pos) == 2:
            v = self.rd(S, pos[0])
            if v.op in ("bytes", "str"):
                self.certain += 1
                if v.op == "bytes":
                    return v.args[0]
                self.add_pend(S, TRUE, "TypeError")
                return top("str of str with encoding")
        if name == "str" and pos and self.rd(S, pos[0]).op == "str":
            return self.rd(S, pos[0])
        if name in ("str", "repr"):
            return mk("call", "str", tuple(self.deep(S, p) for p in pos), ())
        if name == "type":
            v = pos[0]
            c = self.classof(S, v)
            if c is not None:
                return self.class_term(c)
            return mk("fn", "type", self.deep(S, v))
        if name == "callable":
            v = self.deep(S, pos[0])
            k = self.rd(S, v).op
            if k == "obj":
                return TRUE if v.args[0].lookup("methods", "__call__") is not None else FALSE
            if k in ("tuple", "list", "dict", "num", "str", "none", "bool", "arr", "dns"):
                return FALSE
            return TRUE if v.op in ("func", "bound", "class") else T.b_atom(mk("boolval", "callable", v, NONE))
        if name == "open":
            return mk("call", "open", tuple(self.deep(S, p) for p in pos), tuple(sorted((k, self.deep(S, v)) for k, v in kw.items())))
        if name == "iter":
            return pos[0]
        if name == "slice":
            p = [self.deep(S, x) for x in pos]
            if len(p) == 1:
                p = [NONE, p[0], NONE]
            while len(p) < 3:
                p.append(NONE)
            return mk("slice", NONE if p[0] is ZERO else p[0], p[1], NONE if p[2] is ONE else p[2])
        if name in ("id", "hash", "set", "frozenset", "divmod", "complex", "object", "vars", "input"):
            return mk("call", name, tuple(self.deep(S, p) for p in pos), ())
        if name.endswith("Error") or name.endswith("Exception"):
            return mk("sym", "exc:" + name)
        return mk("call", "builtins." + name, tuple(self.deep(S, p) for p in pos), tuple(sorted((k, self.deep(S, v)) for k, v in kw.items())))

    def stored(self, v):
        """what reading back from an HDF5 file gives: text comes back as bytes"""
        if v.op == "str":
            return mk("bytes", v)
        if v.op in ("rec", "recs"):
            return mk(v.op, v.args[0], *[self.stored(x) for x in v.args[1:]])
        if v.op in ("list", "tuple"):
            return mk(v.op, *[self.stored(x) for x in v.args])
        return v

    def record(self, S, v, dt):
        """np.array(values, dtype=compound)"""
        if v.op in ("rec", "recs"):
            return v
        if v.op == "list":
            return mk("recs", dt, *[self.record(S, x, dt) for x in v.args])
        if v.op != "tuple":
            return top("record from %s" % v.op)
        if len(v.args) != len(dt.args):
            self.add_pend(S, TRUE, "ValueError")
            return top("record with %d of %d fields" % (len(v.args), len(dt.args)))
        out = []
        for x, (nm, ty) in zip(v.args, dt.args):
            x = self.deep(S, x)
            if ty.op == "dtype":
                x = self.record(S, x, ty)
            elif ty.op == "ext" and ty.args[0].split(".")[-1] in ("bool", "bool_"):
                x = T.truth(x)
            elif ty.op == "tuple" and self.dense:
                x = self.as_dns(x)
            out.append(x)
        return mk("rec", dt, *out)

    def obj_has(self, S, o, a):
        """does an object made here have the attribute?"""
        c = o.args[0]
        if (o, a) in S.heap:
            return None if any(x.op == "top" for x in T.leafset(S.heap[(o, a)])) else TRUE
        for x in c.mro():
            if a in x.methods or a in x.getters or a in x.attrs:
                return TRUE
        if any(len(x.bases) != sum(ast.unparse(b) not in ("object", "ABC", "abc.ABC") for b in x.base_exprs) for x in c.mro()) or c.lookup("methods", "__getattr__") is not None or a.startswith("__"):
            return None
        return FALSE

    def isinstance_(self, S, v, cl):
        if cl.op == "tuple":
            r = FALSE
            for c in cl.args:
                r = T.b_or(r, self.isinstance_(S, v, c))
            return r
        c = self.classof(S, v)
        if cl in self.funcs and isinstance(self.funcs[cl], ClassInfo):
            if c is not None:
                return TRUE if self.funcs[cl] in c.mro() else T.b_atom(mk("boolval", "isinstance", v, cl)) if any(self.funcs[cl] in d.mro() for d in self.prog.subclasses(c)) and v.op != "obj" else FALSE
        if cl.op == "ext" and cl.args[0] in ("builtins.str", "builtins.list", "builtins.tuple", "builtins.dict"):
            k = self.rd(S, v).op
            if k in ("str", "list", "tuple", "dict"):
                return TRUE if cl.args[0] == "builtins." + k else FALSE
            if k in ("arr", "dns", "num"):
                return FALSE
        if cl.op == "ext" and cl.args[0] in ("numbers.Number", "builtins.float", "builtins.int", "builtins.str", "builtins.list", "builtins.tuple", "builtins.dict"):
            if v.op == "obj" and c is not None and all(len(x.bases) == sum(ast.unparse(b) != "object" for b in x.base_exprs) for x in c.mro()):
                return FALSE
        if v.op == "num" and cl.op == "ext" and cl.args[0] in ("numbers.Number", "builtins.float", "builtins.int"):
            return TRUE
        return T.b_atom(mk("boolval", "isinstance", v, cl))

    def elem1(self, f, v):
        if v.op == "arr":
            return mk("arr", *[self.elem1(f, x) for x in v.args])
        if v.op == "map" and v.args[3].op not in ("tuple", "list"):
            dom, k, (g, body) = B.open_(v)
            return B.make_map(dom, k, g, self.elem1(f, body))
        return f(v)

    def minmax(self, name, vs):
        def f(xs):
            flat = []
            for x in xs:
                if x.op == "fn" and x.args[0] == name:
                    flat += list(x.args[1:])
                else:
                    flat.append(x)
            nums = [x for x in flat if x.op == "num"]
            rest = sorted({x for x in flat if x.op != "num"}, key=lambda t: t.id)
            if nums:
                c = (max if name == "max" else min)(nums, key=lambda t: t.args[0])
                if not rest:
                    return c
                if name == "max" and len(rest) == 1 and rest[0].op == "fn" and rest[0].args[0] == "min" and rest[0].args[-1].op == "num" and rest[0].args[-1].args[0] >= c.args[0]:
                    return self.minmax("min", [self.minmax("max", list(rest[0].args[1:-1]) + [c]) if len(rest[0].args) == 3 else self.minmax("max", [mk("fn", "min", *rest[0].args[1:-1]), c]), rest[0].args[-1]])
                rest = rest + [c]
            if len(rest) > 1 and self.assume_atom is not None:
                # comparisons the rule decides
                best = rest[0]
                for x in rest[1:]:
                    c = T.cmp_lt(x, best)
                    if c.op == "ite" and c.args[1:] in ((TRUE, FALSE), (FALSE, TRUE)):
                        a = self.assume_atom(c.args[0])
                        c = None if a is None else TRUE if a == (c.args[1] is TRUE) else FALSE
                    if c is not TRUE and c is not FALSE:
                        best = None
                        break
                    if (c is TRUE) == (name == "min"):
                        best = x
                if best is not None:
                    return best
            if len(rest) == 1:
                return rest[0]
            for x in rest:
                if x.op == "top":
                    return x
            return mk("fn", name, *rest)

        return T.liftn(f, vs)

    def clip(self, x, lo, hi):
        if lo is not NONE:
            x = self.minmax("max", [x, lo])
        return x if hi is NONE else self.minmax("min", [x, hi])

    def sum_seq(self, S, v):
        if v.op == "dns":
            v = mk("list", *self.iter_desc(S, v)[1])
        if v.op in ("list", "tuple", "arr"):
            r = ZERO
            for x in v.args:
                x = self.deep(S, x) if S is not None else x
                r = self.binop("Add", r, x, S) if self.dense else T.add(r, x)
            return r
        if v.op == "map":
            dom, k, (g, body) = B.open_(v)
            return B.make_sum(dom, k, T.ite(g, body, ZERO))
        if v.op == "concat":
            r = ZERO
            for p in v.args:
                r = T.add(r, self.sum_seq(S, p))
            return r
        if v.op == "flatmap":
            dom, k, (g, body) = B.open_(v)
            return B.make_sum(dom, k, T.ite(g, self.sum_seq(S, body), ZERO))
        if v.op == "ite":
            return T.lift1(lambda x: self.sum_seq(S, x), v)
        if v.op == "top":
            return v
        d = self.iter_desc(S, v)
        if d is not None and d[0] == "dom":
            return B.make_sum(d[1], d[3], T.ite(d[2], d[4], ZERO))
        return mk("red", "sum", v, 0)

    def reduce(self, name, v, kw=()):
        """reductions over an array; 'romb' and 'sum' are linear"""
        if v.op == "top":
            return v
        if name in ("romb", "sum", "mean") :
            return self.linear_red(name, v, kw)
        r = self.rank(v)
        if v.op == "ite" and name not in ("any", "all"):
            return T.lift1(lambda x: self.reduce(name, x, kw), v)
        return mk("red", name, v, 0 if not kw else (None if r is None else max(r - 1, 0)), kw)

    def linear_red(self, name, v, kw):
        if v.op == "ite":
            # conditions on scalars can be hoisted, elementwise ones cannot be told apart:
            return T.lift1(lambda x: self.linear_red(name, x, kw), v)
        r = self.rank(v)
        if name == "romb":
            outr = None if r is None else max(r - 1, 0)
        else:
            outr = 0 if not kw else (None if r is None else max(r - 1, 0))
        if v.op == "num":
            return mk("red", name, v, 0, kw) if v.args[0] else ZERO
        out = ZERO
        for m, c in T.poly_of(v).items():
            free = [(a, e) for a, e in m if self.rank(a) == 0]
            dep = tuple((a, e) for a, e in m if self.rank(a) != 0)
            if not dep:
                body = ONE
            else:
                body = T.from_poly({dep: Fraction(1)})
            t = mk("red", name, body, outr, kw)
            for a, e in free:
                t = T.mul(t, T.pw(a, num(e)))
            out = T.add(out, T.scale(t, c))
        return out

    def quad(self, S, pos, kw):
        """definite integral: the integrand as a closed function, constant factors outside"""
        a = self.deep(S, pos[1] if len(pos) > 1 else kw["a"])
        b = self.deep(S, pos[2] if len(pos) > 2 else kw["b"])
        extra = self.deep(S, pos[3] if len(pos) > 3 else kw["args"]) if len(pos) > 3 or "args" in kw else mk("tuple")
        if extra.op != "tuple" or self.depth >= self.maxdepth - 1:
            return None
        S2 = S.copy()
        x = B.fresh_sym("lam")
        self.rank_cfg = {**self.rank_cfg, x.args[0]: 0}
        r = self.deep(S2, self.call(S2, pos[0], [x] + list(extra.args), {}))
        if r.op in ("top", "ite") or any(v is not S.heap.get(k) for k, v in S2.heap.items()):
            return None
        if a.op == "num" and b.op == "num" and 0 <= a.args[0] <= 1 and 0 <= b.args[0] <= 1:
            c = self.clip(x, ZERO, ONE)
            r = T.subst(r, {c: x})
        # linearity: the part of each term that depends on the variable stays inside
        groups = {}
        for m, c in (r.args if r.op == "poly" else ((((r, 1),), Fraction(1)),)):
            key = tuple((t, e) for t, e in m if T.occurs(t, {x}))
            groups.setdefault(key, {})[tuple(y for y in m if y not in key)] = c
        total, errors = ZERO, []
        for key, p in groups.items():
            if not key:
                total = T.add(total, T.mul(T.from_poly(p), T.sub(b, a)))
                continue
            g = T.from_poly({key: Fraction(1)})
            h = 1 + B.height(g)
            l = mk("lamc", 1, T.subst(g, {x: mk("idx", "c", h << 8)}))
            total = T.add(total, T.mul(T.from_poly(p), mk("call", "quad", (l, a, b), ())))
            errors.append(mk("call", "quad_error", (l, a, b), ()))
        return mk("tuple", total, errors[0] if len(errors) == 1 else mk("tuple", *errors) if errors else ZERO)

    def viewer(self, S, name, pos, kw):
        if not pos or pos[0].op not in ("ref", "sym", "attr"):
            return None
        rest = [self.canon_fn(S, p) for p in pos[1:]]
        kws = {k: self.canon_fn(S, x) for k, x in kw.items()}
        c = S.content.get(pos[0])
        if name in ("reshape", "ravel") and c is not None and c.op == "view" and list(c.args[2]) != list(range(min(c.args[2], default=0), min(c.args[2], default=0) + len(c.args[2]))):
            return None  # not contiguous: a copy
        return self.view_of(S, pos[0], lambda x: self.dense_call(S, name, [x] + rest, dict(kws)))

    def numpy_call(self, S, name, pos, kw, q):
        name0 = name
        name = RENAME.get(name, name)
        if self.dense and q != "int" and (self.intlocs or "dtype" in kw):
            r = self.int_arrays(S, name0, pos, kw)
            if r is not None:
                return r
        if self.dense and pos:
            if name in ("asarray", "asanyarray", "ascontiguousarray") and len(pos) == 1 and not kw and pos[0].op == "ref" and self.rd(S, pos[0]).op == "dns":
                return pos[0]
            if name in self.VIEWERS:
                r = self.viewer(S, name, pos, kw)
                if r is not None:
                    return r
        if name == "quad" and len(pos) + len(kw) >= 3 and set(kw) <= {"a", "b", "args"}:
            r = self.quad(S, pos, kw)
            if r is not None:
                return r
        pos = [self.canon_fn(S, p) for p in pos]
        kw = {k: self.canon_fn(S, v) for k, v in kw.items()}
        out = kw.pop("out", None) if name not in ("RectBivariateSpline",) else None
        if out is not None and out is not NONE:
            return top("out= argument")
        for p in pos:
            if p.op == "top":
                return p
        if self.finite and len(pos) == 1 and not kw and name in ("isnan", "isinf", "isfinite", "nan_to_num"):
            if name == "nan_to_num":
                return pos[0]
            r = TRUE if name == "isfinite" else FALSE
            return D.emap(lambda y: r, pos[0]) if pos[0].op == "dns" else r
        if name == "dtype" and len(pos) == 1 and not kw and pos[0].op == "list" and all(x.op == "tuple" and len(x.args) in (2, 3) and x.args[0].op == "str" for x in pos[0].args):
            return mk("dtype", *[(x.args[0].args[0], x.args[1] if len(x.args) == 2 else mk("tuple", *x.args[1:])) for x in pos[0].args])
        if pos and (name in IDENT or name in ("array", "astype")):
            dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
            low = self.low_precision(dt)
            if low:
                v = self.deep(S, pos[0])
                v = self.to_array(v) if v.op in ("list", "tuple") else v
                if v.op == "arr":
                    return mk("arr", *[self.rounded(low, x) for x in v.args])
                return D.emap(lambda x: self.rounded(low, x), v) if v.op == "dns" else self.rounded(low, v)
        elif self.low_precision(kw.get("dtype")):
            return top("array of low precision")
        if name == "array":
            dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
            if dt is not None and dt.op == "dtype":
                return self.record(S, pos[0], dt)
            if pos[0].op in ("rec", "recs"):
                return pos[0]
        if self.dense and self.shapes and (name + "()") in self.shapes and not (pos and pos[0].op == "dns"):
            return self.shaped(mk("call", name, tuple(pos), tuple(sorted(kw.items()))), name)
        if self.dense:
            r = self.dense_call(S, name, pos, kw)
            if r is not None:
                return r
        try:
            if name == "sqrt":
                return self.elem1(T.sqrt, pos[0])
            if name == "abs":
                return self.elem1(self.absval, pos[0])
            if name == "square":
                return self.elem1(lambda x: T.mul(x, x), pos[0])
            if name == "hypot":
                return T.sqrt(T.add(T.mul(pos[0], pos[0]), T.mul(pos[1], pos[1])))
            if name == "power":
                return T.pw(pos[0], pos[1])
            if name in ("multiply", "mul"):
                return self.vec(T.mul, pos[0], pos[1])
            if name == "add":
                return self.vec(T.add, pos[0], pos[1])
            if name in ("subtract", "sub"):
                return self.vec(T.sub, pos[0], pos[1])
            if name in ("divide", "true_divide", "truediv"):
                return self.vec(T.div, pos[0], pos[1])
            if name == "negative":
                return T.neg(pos[0])
            if name == "reciprocal":
                return T.pw(pos[0], num(-1))
            if name in ("maximum", "fmax", "minimum", "fmin"):
                return self.minmax("max" if "max" in name else "min", pos)
            if name == "clip":
                d = dict(zip(["a", "a_min", "a_max"], pos))
                d.update({{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()})
                return T.liftn(lambda xs: self.clip(*xs), [d["a"], d.get("a_min", NONE), d.get("a_max", NONE)])
            if name == "where" and len(pos) == 3:
                c = T.truth(pos[0])
                if c.op == "top":
                    return c
                return T.ite(c, pos[1], pos[2])
            if name in ("logical_and", "logical_or") and len(pos) == 2:
                return (T.b_and if name == "logical_and" else T.b_or)(T.truth(pos[0]), T.truth(pos[1]))
            if name in ELEMENTWISE1 and len(pos) >= 1 and name != "nan_to_num":
                return T.liftn(lambda xs: self.fn1(name, xs), pos)
            if name == "nan_to_num":
                return NONE if kw.get("copy") is FALSE else mk("fn", name, pos[0])
            if name == "arctan2":
                return T.liftn(lambda xs: mk("fn", "arctan2", *xs), pos)
            if name in IDENT or name in ("copy", "item", "tolist"):
                if "dtype" in kw and kw["dtype"].op not in ("none", "ext"):
                    return mk("call", "array", (pos[0],), (("dtype", kw["dtype"]),))
                return pos[0]
            if name == "array":
                dt = kw.get("dtype", pos[1] if len(pos) > 1 else None)
                v = pos[0]
                if dt is not None and dt.op not in ("none",) and not (dt.op == "ext" and dt.args[0].split(".")[-1] in ("float", "float64", "double")):
                    return mk("call", "array", (v,), (("dtype", dt),))
                return self.to_array(v)
            if name == "astype":
                return pos[0] if pos[1].op == "ext" and pos[1].args[0].split(".")[-1] in ("float", "float64") else mk("fn", "astype", *pos)
            if name in ("zeros", "ones", "full", "empty") and pos:
                pos[0] = self.deep(S, pos[0])
                if pos[0].op == "list":
                    pos[0] = mk("tuple", *pos[0].args)
                if name == "empty":
                    name = "zeros"
            if name in ("zeros_like",):
                sh = self.shape(S, pos[0])
                return mk("call", "zeros", (), (("dtype", NONE), ("shape", sh)))
            if name in ("ones_like",):
                sh = self.shape(S, pos[0])
                return mk("call", "ones", (), (("dtype", NONE), ("shape", sh)))
            if name == "sum":
                v = pos[0]
                if not kw and len(pos) == 1:
                    if v.op in ("map", "list", "tuple", "concat", "arr") :
                        return self.sum_seq(S, v)
                    return self.reduce("sum", v)
                return self.reduce("sum", v, self.kwt(kw, pos[1:]))
            if name in ("max", "min") and len(pos) == 1 and not kw and pos[0].op in ("list", "tuple", "arr"):
                return self.minmax(name, list(pos[0].args))
            if name in ("any", "all") and len(pos) == 1:
                v = pos[0]
                return T.b_atom(mk("boolval", name, v, NONE)) if v not in (TRUE, FALSE) else v
            if name == "mean" and len(pos) == 1 and not kw and pos[0].op in ("list", "tuple", "arr") and pos[0].args and all(T.numeric_like(x) for x in pos[0].args):
                return T.scale(self.sum_seq(S, pos[0]), Fraction(1, len(pos[0].args)))
            if name in REDUCE:
                if name == "romb" and len(pos) == 2:
                    kw["dx"] = pos[1]
                    pos = pos[:1]
                if name == "romb" and "dx" in kw:
                    dx = kw.pop("dx")
                    return T.mul(self.reduce("romb", pos[0], self.kwt(kw, [])), dx)
                return self.reduce(name, pos[0], self.kwt(kw, pos[1:]))
            if name == "transpose" and len(pos) == 1 and not kw:
                return self.transpose(S, pos[0])
            if name in ("dot", "matmul"):
                return mk("call", "dot", tuple(pos), ())
            if name == "shape":
                return self.shape(S, pos[0])
            if name == "size" and len(pos) == 1:
                return self.size(S, pos[0])
            if name == "ndim":
                r = self.rank(pos[0])
                return num(r) if r is not None else mk("fn", "ndim", pos[0])
            if name == "reshape" and len(pos) > 2:
                pos = [pos[0], mk("tuple", *pos[1:])]
            if name in ("ravel", "flatten"):
                if self.dense and pos[0].op in ("sym", "elem", "fcall", "poly") and self.rank(pos[0]) == 0:
                    return D.make((1,), [pos[0]])
                o = kw.get("order", pos[1] if len(pos) > 1 else string("C"))
                return mk("call", "ravel", (pos[0],), (("order", o),))
            if name in ("concatenate", "hstack") and len(pos) == 1 and (not kw or list(kw.items()) == [("axis", ZERO)]) and pos[0].op in ("list", "tuple", "arr"):
                if all(x.op in ("list", "map", "concat", "arr") for x in pos[0].args) and pos[0].args:
                    r = mk("list")
                    for x in pos[0].args:
                        r = B.seq_concat(r, mk("list", *x.args) if x.op == "arr" else x)
                    return self.to_array(r)
            if name in ("int", "round"):
                return mk("fn", name, *pos)
            if name == "deepcopy":
                return mk("call", "deepcopy", (pos[0],), ())
        except Budget:
            raise
        sig = SIGS.get(name)
        if sig is not None:
            names, defs = sig
            if names is None:
                d = dict(defs)
                d.update(kw)
                return mk("call", name, tuple(pos), tuple(sorted(d.items())))
            if len(pos) <= len(names):
                d = dict(defs)
                d.update(dict(zip(names, pos)))
                d.update(kw)
                return mk("call", name, (), tuple(sorted(d.items())))
        return mk("call", name, tuple(pos), tuple(sorted(kw.items())))

    D1 = {"sqrt": T.sqrt, "abs": T.absval, "square": lambda x: T.mul(x, x), "negative": T.neg, "reciprocal": lambda x: T.pw(x, num(-1))}
    D2 = {"multiply": T.mul, "mul": T.mul, "add": T.add, "subtract": T.sub, "sub": T.sub, "divide": T.div, "true_divide": T.div, "truediv": T.div,
          "power": T.pw, "hypot": lambda x, y: T.sqrt(T.add(T.mul(x, x), T.mul(y, y))),
          "logical_and": lambda x, y: T.b_and(T.truth(x), T.truth(y)), "logical_or": lambda x, y: T.b_or(T.truth(x), T.truth(y)),
          "greater": lambda x, y: T.cmp_lt(y, x), "less": lambda x, y: T.cmp_lt(x, y)}

    def absval(self, x):
        """absolute value, its sign settled where the situation analysed says which"""
        r = T.absval(x)
        if self.assume_atom is not None and r.op != "num":
            c = T.cmp_lt(x, ZERO)
            if c.op == "ite":
                c = self._restrict_all(c)
            if c is TRUE:
                return T.neg(x)
            if c is FALSE:
                return x
        return r

    def _restrict_all(self, c):
        for a in {x.args[0] for x in B._ite_nodes(c)}:
            v = self.assume_atom(a)
            if v is not None:
                c = self._restrict_any(c, a, v)
        return c

    def dense_true(self, S, x):
        """positions of the entries that are true, when that is decided for every entry"""
        out = []
        sh = D.shape_of(x)
        for ix, e in zip(itertools.product(*[range(k) for k in sh]), D.entries(x)):
            c = T.truth(e)
            c = self.under(S, c) if c.op == "ite" else c
            if c is TRUE:
                out.append(ix)
            elif c is not FALSE:
                return None
        return out

    def addall(self, xs):
        r = ZERO
        for x in xs:
            r = T.add(r, x)
        return r

    def inverse(self, x):
        sh = D.shape_of(x)
        if sh == (1, 1):
            return D.make(sh, [T.pw(D.entries(x)[0], num(-1))])
        if sh == (2, 2):
            a, b, c, d = D.entries(x)
            k = T.pw(T.sub(T.mul(a, d), T.mul(b, c)), num(-1))
            return D.make(sh, [T.mul(y, k) for y in (d, T.neg(b), T.neg(c), a)])
        t = mk("call", "inv", (x,), ())
        return D.make(sh, [mk("elem", t, num(i), num(j)) for i in range(sh[0]) for j in range(sh[1])])

    def dense_call(self, S, name, pos, kw):
        """numpy functions on arrays of constant shape; None: not applicable"""
        ints = lambda t: [D.const_int(x) for x in (t.args if t.op in ("tuple", "list") else D.entries(t) if t.op == "dns" else [t])]
        get = lambda i, k, d=None: pos[i] if len(pos) > i else kw.get(k, d)
        if name in ("zeros", "ones", "empty", "full", "lil_matrix", "csr_matrix", "csc_matrix", "dok_matrix", "lil_array"):
            sh = get(0, "shape") if get(0, "shape") is not None else get(0, "arg1")
            if sh is None or sh.op not in ("tuple", "list", "num", "dns"):
                return None
            if name.endswith(("_matrix", "_array")) and sh.op == "dns":
                return sh
            s = ints(sh)
            if any(x is None or x < 0 for x in s) or D.size(s) > D.LIMIT:
                return None
            fill = ONE if name == "ones" else (get(1, "fill_value", ZERO) if name == "full" else ZERO)
            return D.make(s, [fill] * D.size(s))
        if name in ("eye", "identity"):
            n = D.const_int(get(0, "N", get(0, "n", NONE)))
            m = get(1, "M", NONE)
            k = kw.get("k", pos[2] if len(pos) > 2 else ZERO)
            if n is None or m is not NONE or k is not ZERO or n * n > D.LIMIT:
                return None
            return D.make((n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)])
        if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray") and pos and pos[0].op in ("list", "tuple", "arr", "dns"):
            return D.from_list(pos[0])
        if name == "atleast_1d" and len(pos) == 1 and not kw:
            v = D.from_list(pos[0]) if pos[0].op in ("list", "tuple", "arr") else pos[0]
            if v is None or v.op == "dns":
                return v if v is None or D.shape_of(v) else D.reshape(v, (1,))
            return D.make((1,), [v]) if self.rank(v) == 0 else None
        if name == "linspace":
            a, b, n = get(0, "start"), get(1, "stop"), D.const_int(get(2, "num", num(50)))
            ep = kw.get("endpoint", pos[3] if len(pos) > 3 else TRUE)
            if n is None or n > 200 or ep not in (TRUE, FALSE) or kw.get("retstep", FALSE) is not FALSE or self.has_dns(a) or self.has_dns(b):
                return None
            d = n - 1 if ep is TRUE else n
            st = T.scale(T.sub(b, a), Fraction(1, d)) if d else ZERO
            return D.make((n,), [T.add(a, T.scale(st, Fraction(i))) for i in range(n)])
        if name == "arange":
            v = [D.const_int(p) for p in pos]
            if kw or not v or any(x is None for x in v):
                return None
            return D.make((len(range(*v)),), [num(i) for i in range(*v)])
        if pos and pos[0].op in ("list", "tuple") and name in ("clip", "sum", "max", "min", "amax", "amin", "argmin", "argmax", "abs", "absolute", "any", "all", "unique", "sort"):
            x = D.from_list(pos[0])
            if x is not None and x.op == "dns":
                pos = [x] + list(pos[1:])
        arrs = [p for p in list(pos) + list(kw.values()) if self.has_dns(p)]
        if name in ("concatenate", "hstack", "vstack", "stack", "column_stack") and pos and pos[0].op in ("list", "tuple"):
            parts = [self.as_dns(x) for x in pos[0].args]
            if not parts or any(x is None or x.op != "dns" for x in parts):
                return None
            ax = D.const_int(get(1, "axis", ZERO))
            if name == "hstack":
                ax = 0 if len(D.shape_of(parts[0])) == 1 else 1
            if name == "column_stack":
                parts = [D.reshape(p, (D.shape_of(p)[0], 1)) if len(D.shape_of(p)) == 1 else p for p in parts]
                ax = 1
            if name == "vstack":
                parts = [D.reshape(p, (1,) + D.shape_of(p)) if len(D.shape_of(p)) == 1 else p for p in parts]
            if name == "stack":
                if ax != 0:
                    return None
                parts = [D.reshape(p, (1,) + D.shape_of(p)) for p in parts]
            return D.concat(parts, ax)
        if name == "array_equal" and len(pos) == 2 and not kw:
            a, b = (self.as_dns(q) for q in pos)
            if a is not None and b is not None and a.op == "dns" and b.op == "dns":
                if D.shape_of(a) != D.shape_of(b):
                    return FALSE
                r = TRUE
                for x, y in zip(D.entries(a), D.entries(b)):
                    r = T.b_and(r, T.cmp_eq(x, y))
                return r
        if not arrs or not pos:
            return None
        if any(p.op == "ite" and self.has_dns(p) for p in pos):
            return T.liftn(lambda xs: self.numpy_call(S, name, list(xs), dict(kw), ""), pos)
        x = pos[0]
        if x.op in ("list", "tuple", "arr"):
            y = D.from_list(x)
            if y is not None:
                x = y
        axis = kw.get("axis", NONE)
        ax = None if axis is NONE else D.const_int(axis)
        if name in self.D1 and len(pos) == 1:
            return D.emap(self.absval if name == "abs" else self.D1[name], x)
        if name in self.D2 and len(pos) == 2:
            b = self.as_dns(pos[1])
            return D.emap(self.D2[name], x, b) if b is not None else None
        if name in ("maximum", "fmax", "minimum", "fmin"):
            return D.emap(lambda a, b: self.minmax("max" if "max" in name else "min", [a, b]), x, pos[1])
        if name == "clip":
            lo = kw.get("a_min", kw.get("min", pos[1] if len(pos) > 1 else NONE))
            hi = kw.get("a_max", kw.get("max", pos[2] if len(pos) > 2 else NONE))
            return D.emap(lambda a, l, h: T.liftn(lambda xs: self.clip(*xs), [a, l, h]), x, lo, hi)
        if name == "where" and len(pos) == 3:
            return D.emap(lambda c, a, b: T.ite(T.truth(c), a, b), *[self.as_dns(p) for p in pos])
        if name == "arctan2":
            return D.emap(lambda a, b: T.liftn(lambda xs: mk("fn", "arctan2", *xs), [a, b]), *pos)
        if name in ELEMENTWISE1 and name != "nan_to_num":
            if name == "logical_not":
                return D.emap(lambda a: T.b_not(T.truth(a)), x)
            return D.emap(lambda a: T.liftn(lambda xs: self.fn1(name, xs), [a]), x)
        if x.op != "dns" and not (name in ("dot", "matmul") and len(pos) == 2):
            return None
        sh = D.shape_of(x)
        if name in ("copy", "tocsr", "tocsc", "toarray", "todense", "tolil", "item", "squeeze", "tolist", "asformat", "tocoo", "todok"):
            if name == "item":
                return D.entries(x)[0] if len(D.entries(x)) == 1 else top("item")
            if name == "squeeze":
                return D.make([k for k in sh if k != 1], D.entries(x))
            return x
        if name in ("csr_matrix", "csc_matrix"):
            return x
        if name == "zeros_like":
            return D.make(sh, [ZERO] * D.size(sh))
        if name == "ones_like":
            return D.make(sh, [ONE] * D.size(sh))
        if name == "full_like":
            return D.make(sh, [pos[1]] * D.size(sh))
        if name == "reshape":
            ns = pos[1] if len(pos) == 2 else (mk("tuple", *pos[1:]) if len(pos) > 2 else kw.get("newshape", kw.get("shape")))
            ns = ints(ns)
            return D.reshape(x, ns) if all(k is not None for k in ns) and "order" not in kw else top("reshape")
        if name in ("ravel", "flatten"):
            o = kw.get("order", pos[1] if len(pos) > 1 else string("C"))
            if o.args[0] == "F":
                x = D.transpose(x)
            return D.reshape(x, (len(D.entries(x)),))
        if name == "transpose":
            return D.transpose(x) if len(pos) == 1 and not kw else None
        if name == "inv" and len(pos) == 1 and not kw and len(sh) == 2 and sh[0] == sh[1]:
            return self.inverse(x)
        if name == "solve" and len(pos) == 2 and not kw and len(sh) == 2 and sh[0] == sh[1]:
            b = self.as_dns(pos[1])
            return D.dot(self.inverse(x), b) if D.is_dns(b) else None
        if name == "norm":
            if len(pos) > 1 or set(kw) - {"ord", "axis"} or any(v is not NONE and not (k == "ord" and len(sh) == 1 and v is num(2)) for k, v in kw.items()):
                return None
            return T.sqrt(self.addall([T.mul(e, e) for e in D.entries(x)]))
        if name == "average":
            w = kw.get("weights", pos[2] if len(pos) > 2 else NONE)
            if set(kw) - {"weights", "axis"} or axis is not NONE or len(pos) > 1 and pos[1] is not NONE:
                return None
            if w is NONE:
                return T.scale(self.addall(D.entries(x)), Fraction(1, D.size(sh)))
            w = self.as_dns(w)
            if not D.is_dns(w) and self.rank(w) is None:
                return None
            if not D.is_dns(w) or D.shape_of(w) != sh:
                self.add_pend(S, TRUE, "TypeError")
                return top("average with weights of another shape")
            return T.div(self.addall([T.mul(a, b) for a, b in zip(D.entries(x), D.entries(w))]), self.addall(D.entries(w)))
        if name in ("dot", "matmul"):
            b = self.as_dns(pos[1])
            if b is not None and not (x.op == "dns" and D.is_dns(b)) and any(not D.is_dns(y) and self.rank(y) is None for y in (x, b)):
                return None
            return D.dot(x, b) if b is not None and x.op in ("dns",) + (() if not D.is_dns(b) else (x.op,)) else None
        if name == "outer":
            return D.emap(T.mul, D.reshape(x, (-1, 1)), D.reshape(pos[1], (1, -1)))
        if name == "shape":
            return mk("tuple", *[num(k) for k in sh])
        if name == "size":
            return num(D.size(sh))
        if name == "ndim":
            return num(len(sh))
        if name in ("argmin", "argmax") and axis is NONE and len(pos) == 1 and all(e.op == "num" for e in D.entries(x)):
            vs = [e.args[0] for e in D.entries(x)]
            return num(vs.index(min(vs) if name == "argmin" else max(vs)))
        if name in ("argmin", "argmax") and axis is NONE and len(pos) == 1 and not set(kw) and D.entries(x):
            # first extreme entry when every comparison is decided
            es = D.entries(x)
            best = 0
            for i in range(1, len(es)):
                p, q = (es[i], es[best]) if name == "argmin" else (es[best], es[i])
                if T.leafset(p) <= {TRUE, FALSE} and T.leafset(q) <= {TRUE, FALSE}:
                    p, q = self.under(S, p), self.under(S, q)
                    c = self.under(S, T.b_and(T.b_not(p), q))
                else:
                    c = self.under(S, T.cmp_lt(p, q))
                if c is TRUE:
                    best = i
                elif c is not FALSE:
                    best = None
                    break
            if best is not None:
                return num(best)
        if (name in ("argwhere", "nonzero", "flatnonzero") or name == "where") and len(pos) == 1 and not set(kw):
            w = self.dense_true(S, x)
            if w is not None:
                if name == "argwhere":
                    return D.make((len(w), len(sh)), [num(i) for ix in w for i in ix])
                if name == "flatnonzero":
                    return D.make((len(w),), [num(sum(a * b for a, b in zip(ix, D.strides(sh)))) for ix in w])
                return mk("tuple", *[D.make((len(w),), [num(ix[k]) for ix in w]) for k in range(len(sh))])
        if name == "count_nonzero" and len(pos) == 1 and not set(kw):
            w = self.dense_true(S, x)
            if w is not None:
                return num(len(w))
        if name == "ptp" and len(pos) == 1 and axis is NONE and not set(kw):
            return T.sub(self.minmax("max", list(D.entries(x))), self.minmax("min", list(D.entries(x))))
        if name in ("sum", "mean", "max", "min", "prod", "any", "all"):
            if len(pos) > 1:
                ax = D.const_int(pos[1])
                axis = pos[1]
            if axis is not NONE and ax is None:
                return top("axis")

            def f(xs):
                if name in ("sum", "mean"):
                    r = D.ssum(xs)
                    return T.scale(r, Fraction(1, len(xs))) if name == "mean" else r
                if name == "prod":
                    r = ONE
                    for y in xs:
                        r = T.mul(r, y)
                    return r
                if name in ("any", "all"):
                    r = FALSE if name == "any" else TRUE
                    for y in xs:
                        r = (T.b_or if name == "any" else T.b_and)(r, T.truth(y))
                    return r
                return self.minmax(name, xs)
            return D.reduce(x, f, ax)
        if name == "romb":
            dx = kw.get("dx", pos[1] if len(pos) > 1 else ONE)
            return self.binop("Mult", D.reduce(x, D.romb, -1 if ax is None else ax), dx, S)
        if name in ("trapz", "trapezoid"):
            xs = kw.get("x", pos[1] if len(pos) > 1 else NONE)
            dx = kw.get("dx", ONE)
            if len(sh) != 1:
                return None
            es = D.entries(x)
            ds = [T.sub(b, a) for a, b in zip(D.entries(xs), D.entries(xs)[1:])] if D.is_dns(xs) else [dx] * (len(es) - 1)
            return D.ssum([T.scale(T.mul(d, T.add(a, b)), Fraction(1, 2)) for d, a, b in zip(ds, es, es[1:])])
        if name in ("sort", "unique", "argsort") and len(pos) == 1 and len(sh) == 1 and all(y.op == "num" for y in D.entries(x)):
            if kw and not (name != "unique" and set(kw) <= {"axis", "kind"}):
                return None
            es = D.entries(x)
            ks = sorted(range(len(es)), key=lambda i: es[i].args[0])
            if name == "unique":
                ks = [k for i, k in enumerate(ks) if not i or es[ks[i - 1]] is not es[k]]
            return D.make((len(ks),), [num(k) if name == "argsort" else es[k] for k in ks])
        if name == "cumulative_trapezoid":
            xs = kw.get("x", pos[1] if len(pos) > 1 else NONE)
            ini = kw.get("initial", pos[4] if len(pos) > 4 else NONE)
            if len(sh) != 1 or set(kw) - {"x", "dx", "initial", "axis"} or len(pos) > 2 and pos[2] is not ONE:
                return None
            es = D.entries(x)
            if D.is_dns(xs) and len(D.entries(xs)) != len(es) or not D.is_dns(xs) and xs is not NONE:
                return None
            ds = [T.sub(b, a) for a, b in zip(D.entries(xs), D.entries(xs)[1:])] if D.is_dns(xs) else [kw.get("dx", ONE)] * (len(es) - 1)
            out, r = [], ZERO
            for d, a, b in zip(ds, es, es[1:]):
                r = T.add(r, T.scale(T.mul(d, T.add(a, b)), Fraction(1, 2)))
                out.append(r)
            if ini is not NONE:
                out = [ini] + out
            return D.make((len(out),), out)
        if name == "cumsum":
            def cs(xs):
                out, r = [], ZERO
                for y in xs:
                    r = T.add(r, y)
                    out.append(r)
                return out
            if ax is None and len(sh) > 1:
                return D.along(D.reshape(x, (-1,)), cs, 0)
            return D.along(x, cs, ax or 0)
        if name == "diff":
            if kw.get("n", ONE) is not ONE or len(pos) > 1:
                return None
            return D.along(x, lambda xs: [T.sub(b, a) for a, b in zip(xs, xs[1:])], -1 if ax is None else ax)
        if name == "diagonal":
            return D.make((min(sh),), [D.get(x, [num(i), num(i)]) for i in range(min(sh))])
        if name == "meshgrid" and len(pos) == 2:
            ij = kw.get("indexing", string("xy")) is string("ij")
            a, b = D.entries(pos[0]), D.entries(pos[1])
            if ij:
                return mk("tuple", D.make((len(a), len(b)), [p for p in a for _ in b]), D.make((len(a), len(b)), [q for _ in a for q in b]))
            return mk("tuple", D.make((len(b), len(a)), [p for _ in b for p in a]), D.make((len(b), len(a)), [q for q in b for _ in a]))
        if name in ("flip", "flipud", "fliplr"):
            k = {"flipud": 0, "fliplr": 1}.get(name, ax)
            if k is None:
                return None
            return D.along(x, lambda xs: xs[::-1], k)
        if name == "roll":
            k = D.const_int(pos[1]) if len(pos) > 1 else None
            a = ax if ax is not None else (D.const_int(pos[2]) if len(pos) > 2 else None)
            if k is None or (a is None and len(sh) > 1):
                return None
            return D.along(x, lambda xs: xs[-k % len(xs):] + xs[:-k % len(xs)], a or 0)
        if name == "append":
            b = self.as_dns(pos[1])
            if b is None:
                return None
            k = ax if axis is not NONE else (D.const_int(pos[2]) if len(pos) == 3 and pos[2] is not NONE else None)
            if k is None and (axis is not NONE or (len(pos) > 2 and pos[2] is not NONE)):
                return None
            if k is not None:
                return D.concat([x, b], k) if D.is_dns(b) else None
            return D.concat([D.reshape(x, (-1,)), D.reshape(b, (-1,)) if D.is_dns(b) else D.make((1,), [b])])
        if name == "insert" and len(sh) == 1 and len(pos) >= 3 and ax is None:
            k = D.const_int(pos[1])
            b = self.as_dns(pos[2])
            if k is None or b is None or not -sh[0] <= k <= sh[0]:
                return None
            k = k + sh[0] if k < 0 else k
            es = D.entries(x)
            return D.from_list(mk("list", *(list(es[:k]) + (list(D.entries(b)) if D.is_dns(b) else [b]) + list(es[k:]))))
        if name == "nan_to_num":
            return None
        return None

    def kwt(self, kw, extra):
        d = dict(kw)
        if extra:
            d["axis"] = extra[0]
        if d.get("axis") is NONE:
            d.pop("axis")
        return tuple(sorted(d.items()))

    def fn1(self, name, xs):
        x = xs[0]
        if x.op == "top":
            return x
        if name == "sin" or name == "cos" or name == "tan":
            p = T.poly_of(x)
            if x.op == "num" and x.args[0] == 0:
                return ZERO if name != "cos" else ONE
            if p and sorted(p.items(), key=lambda kv: T._mkey(kv[0]))[-1][1] < 0:
                y = mk("fn", name, T.neg(x))
                return y if name == "cos" else T.neg(y)
        if name == "exp" and x is ZERO:
            return ONE
        if x.op == "num" and len(xs) == 1:
            v = x.args[0]
            if name in ("ceil", "floor"):
                return num(math.ceil(v) if name == "ceil" else math.floor(v))
            if name == "log2" and v > 0:
                k = v.numerator.bit_length() - v.denominator.bit_length()
                if v == Fraction(2) ** k:
                    return num(k)
                return mk("fn", "log2", x)
        if name in ("ceil", "floor") and x.op == "fn" and x.args[0] == "log2" and x.args[1].op == "num":
            v = x.args[1].args[0]
            k = v.numerator.bit_length() - v.denominator.bit_length()
            while Fraction(2) ** k > v:
                k -= 1
            while Fraction(2) ** (k + 1) <= v:
                k += 1
            return num(k + 1 if name == "ceil" else k)
        if name == "log" and x is ONE:
            return ZERO
        return mk("fn", name, *xs)

    def to_array(self, v):
        if v.op in ("list", "tuple"):
            if all(T.numeric_like(x) for x in v.args):
                return mk("arr", *v.args)
            if all(x.op in ("list", "tuple", "arr") for x in v.args):
                return mk("arr", *[self.to_array(x) for x in v.args])
            return v
        return v
