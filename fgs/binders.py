"""Terms that bind an index: sums, maps, guarded array updates, folds."""
from fractions import Fraction
from . import terms as T
from .terms import mk, Term, TRUE, FALSE, ZERO, ONE, NONE

BINDERS = {"sum", "prod", "map", "flatmap", "each", "dmap", "exists", "first", "lam", "last", "rank", "sortedby", "red"}
BINDERS.discard("red")
_fresh = [0]


def fresh_idx():
    _fresh[0] += 1
    return mk("idx", "f", _fresh[0])


def fresh_sym(prefix):
    _fresh[0] += 1
    return mk("sym", "%s#%d" % (prefix, _fresh[0]))


def height(t):
    a = t.aux
    if a is not None:
        return a
    h = 0
    if t.op == "idx" and t.args[0] == "c":
        h = t.args[1]
    elif t.op == "phi":
        h = t.args[0]
    for x in T._subterms(t):
        k = height(x)
        if k > h:
            h = k
    t.aux = h
    return h


def _flat(parts):
    for p in parts:
        if isinstance(p, Term):
            yield p
        elif isinstance(p, tuple):
            yield from _flat(p)


def _mapt(p, f):
    if isinstance(p, Term):
        return f(p)
    if isinstance(p, tuple):
        return tuple(_mapt(x, f) for x in p)
    return p


def close(op, dom, k, *parts):
    """bind fresh index k"""
    h = 1 + max([height(dom)] + [height(p) for p in _flat(parts)] + [0])
    c = mk("idx", "c", h)
    parts = tuple(_mapt(p, lambda x: T.subst(x, {k: c})) for p in parts)
    return mk(op, dom, c, *parts)


def open_(t):
    """-> (dom, fresh k, parts)"""
    k = fresh_idx()
    c = t.args[1]
    parts = tuple(_mapt(p, lambda x: T.subst(x, {c: k})) for p in t.args[2:])
    return t.args[0], k, parts


def open_at(t, value):
    c = t.args[1]
    return tuple(_mapt(p, lambda x: T.subst(x, {c: value})) for p in t.args[2:])


_orig_rebuild = T.rebuild_term


def rebuild_term(x, go):
    if x.op in BINDERS:
        c = x.args[1]
        f = fresh_idx()
        body = tuple(_mapt(p, lambda y: _raw(y, c, f)) for p in x.args[2:])
        dom2 = go(x.args[0])
        body2 = tuple(_mapt(p, go) for p in body)
        if dom2 is x.args[0] and body2 == body:
            return x
        return reclose(x.op, dom2, f, *body2)
    return _orig_rebuild(x, go)


def _raw(t, c, f):
    memo = {}

    def go(x):
        if x is c:
            return f
        if height(x) < c.args[1]:
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild_term(x, go)
            memo[x] = r
        return r

    return go(t)


T.rebuild_term = rebuild_term


def subst(t, m):
    return T.subst(t, m)


def reclose(op, dom, k, *parts):
    if op == "sum":
        return make_sum(dom, k, T.ite(parts[0], parts[1], ZERO))
    if op == "map":
        return make_map(dom, k, parts[0], parts[1])
    if op == "each":
        return close("each", dom, k, *[p for p in parts])
    return close(op, dom, k, *parts)


def dom_len(dom):
    if dom.op == "rng":
        a, b, s = dom.args
        if s is ONE:
            return T.sub(b, a)
    return mk("len", dom)


def dom_const(dom):
    """list of index terms if the domain is a small constant range"""
    if dom.op == "rng":
        a, b, s = dom.args
        if a.op == "num" and b.op == "num" and s.op == "num" and s.args[0] != 0:
            r = range(int(a.args[0]), int(b.args[0]), int(s.args[0]))
            if len(r) <= 64:
                return [T.num(i) for i in r]
    return None


# ------------------------------------------------------------------ sums
def _split_mono(m, k):
    """(k-free, k-dependent) parts of a monomial"""
    free, dep = [], []
    for a, e in m:
        (dep if T.occurs(a, {k}) else free).append((a, e))
    return tuple(free), tuple(dep)


def make_sum(dom, k, body):
    c = dom_const(dom)
    if c is not None:
        r = ZERO
        for v in c:
            r = T.add(r, subst(body, {k: v}))
        return r
    if body.op == "top":
        return body
    if not T.occurs(body, {k}):
        return T.mul(dom_len(dom), body)
    if body.op == "ite" and not T.occurs(body.args[0], {k}):
        return T.ite(T.b_atom(body.args[0]), make_sum(dom, k, body.args[1]), make_sum(dom, k, body.args[2]))
    acc = {}  # (dep monomial) -> list of (free poly, guard)
    if body.op == "ite":
        # normalise: hoist k-free tests
        for a in sorted({x.args[0] for x in _ite_nodes(body)}, key=lambda t: t.id):
            if not T.occurs(a, {k}):
                return T.ite(
                    T.b_atom(a), make_sum(dom, k, T.restrict(body, a, True)), make_sum(dom, k, T.restrict(body, a, False))
                )
        lv = T.leaves(body)
    else:
        lv = [([], body)]
    for path, leaf in lv:
        if leaf.op == "top":
            return leaf
        g = TRUE
        for a, v in path:
            g = T.b_and(g, T.b_atom(a) if v else T.b_not(T.b_atom(a)))
        for m, cf in T.poly_of(leaf).items():
            free, dep = _split_mono(m, k)
            acc.setdefault(dep, {}).setdefault((free, cf), []).append(g)
    out = ZERO
    for dep, ent in acc.items():
        for (free, cf), gs in ent.items():
            g = gs[0]
            for g2 in gs[1:]:
                g = T.b_or(g, g2)
            coef = T.from_poly(T._expand_mono({free: cf}))
            if not dep and g is TRUE:
                s = dom_len(dom)
            else:
                body1 = T.from_poly({dep: Fraction(1)}) if dep else ONE
                s = close("sum", dom, k, g, body1)
            out = T.add(out, T.mul(coef, s))
    return out


def _ite_nodes(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        yield x
        st += [x.args[1], x.args[2]]


def make_map(dom, k, guard, body):
    c = dom_const(dom)
    if c is not None:
        gs = [subst(guard, {k: v}) for v in c]
        if all(g in (TRUE, FALSE) for g in gs):
            return mk("list", *[subst(body, {k: v}) for v, g in zip(c, gs) if g is TRUE])
    if dom.op == "rng" and dom.args[0] is ZERO and dom.args[2] is ONE and guard is TRUE and dom.args[1].op == "len":
        # identity map over a list is the list
        base = dom.args[1].args[0]
        if body is mk("elem", base, k):
            return base
    return close("map", dom, k, guard, body)


def seq_concat(a, b):
    """concatenation of two sequence terms"""
    pa = list(a.args) if a.op == "concat" else [a]
    pb = list(b.args) if b.op == "concat" else [b]
    out = []
    for p in pa + pb:
        if p.op in ("list", "tuple") and not p.args:
            continue
        if out and p.op == "list" and out[-1].op == "list":
            out[-1] = mk("list", *(out[-1].args + p.args))
        else:
            out.append(p)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def upd(base, *ops):
    ops = [o for o in ops if not (o.op == "st" and o.args[0] is FALSE)]
    if not ops:
        return base
    if base.op == "upd":
        return mk("upd", base.args[0], *(base.args[1:] + tuple(ops)))
    return mk("upd", base, *ops)


def guard_op(g, op):
    if g is TRUE:
        return op
    if op.op == "st":
        return mk("st", T.b_and(g, op.args[0]), op.args[1], op.args[2])
    if op.op == "each":
        dom, k, ops = open_(op)
        return close("each", dom, k, *[guard_op(g, o) for o in ops])
    return op
