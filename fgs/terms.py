"""Hash-consed value-number terms.

Numbers are kept in a canonical Laurent-polynomial form over atoms; values that
depend on a condition are kept as ordered decision diagrams ("ite" nodes) over
boolean atoms, so that a value number does not depend on how the source spells
the computation (order of operands, nesting of ifs, temporaries, helpers).
Nothing is executed and no path is enumerated: one value per program variable is
computed, branches are merged with ite nodes at joins.
"""
from fractions import Fraction
import sys
import hashlib

sys.setrecursionlimit(20000)


class Budget(Exception):
    """the term grew beyond what the analysis keeps"""


class Term:
    __slots__ = ("op", "args", "id", "aux", "fl")

    def __repr__(self):
        return pp(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_count = [0]
MAXTERMS = [3_000_000]


def allow(n=3_000_000, total=15_000_000):
    """room for n more terms"""
    MAXTERMS[0] = min(_count[0] + n, total)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        _count[0] += 1
        if _count[0] > MAXTERMS[0]:
            raise Budget("term table")
        t.id = _count[0]
        t.aux = None
        t.fl = None
        _tab[key] = t
    return t


NONE = mk("none")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNDEF = mk("undef")
_topn = [0]


def top(reason):
    _topn[0] += 1
    return mk("top", str(reason), _topn[0])


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("sym", "inf") if x > 0 else (neg(mk("sym", "inf")) if x < 0 else mk("sym", "nan"))
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


ZERO = num(0)
ONE = num(1)
TWO = num(2)
HALF = num(Fraction(1, 2))


def string(s):
    return mk("str", s)


def is_num(t):
    return t.op == "num"


def val(t):
    return t.args[0]


# ------------------------------------------------------------------ polynomials
MAXPOLY = 6000


def poly_of(t):
    """dict monomial -> Fraction; monomial = tuple of (atom, exponent) by atom id"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args)
    if t.op == "bool":
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, Fraction(1)),): Fraction(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) > MAXPOLY:
        raise Budget("polynomial")
    if len(d) == 1:
        ((m, c),) = d.items()
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", *sorted(d.items(), key=lambda kv: _mkey(kv[0])))


def _mono_mul(m1, m2):
    """returns (monomial, coefficient, [ (base, n) to expand ])"""
    if not m1:
        return m2, Fraction(1), ()
    if not m2:
        return m1, Fraction(1), ()
    d = {}
    for a, e in m1:
        d[a] = e
    coef = Fraction(1)
    exp = []
    for a, e in m2:
        if a in d:
            s = d[a] + e
            if s == 0:
                del d[a]
            elif a.op == "poly" and s.denominator == 1 and s > 0:
                del d[a]
                exp.append((a, int(s)))
            elif a.op == "num" and s.denominator == 1:
                del d[a]
                coef *= a.args[0] ** int(s)
            else:
                d[a] = s
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda x: x[0].id)), coef, exp


def _padd(p, q, k=Fraction(1)):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


LAZY = [0]  # products of sums larger than this stay factored (0: always expanded)


def _fac(p):
    """a sum kept as one factor"""
    c, mono, q = _content(p)
    f = mk("fac", from_poly(q))
    return {tuple(sorted(mono + ((f, Fraction(1)),), key=lambda x: x[0].id)): c}


def _pmul(p, q):
    r = {}
    extra = []
    if LAZY[0] and len(p) > 1 and len(q) > 1 and len(p) * len(q) > LAZY[0]:
        p, q = _fac(p), _fac(q)
    if len(p) * len(q) > 400000:
        raise Budget("product")
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, k, ex = _mono_mul(m1, m2)
            c = c1 * c2 * k
            if ex:
                extra.append((m, c, ex))
            else:
                r[m] = r.get(m, 0) + c
                if not r[m]:
                    del r[m]
    for m, c, ex in extra:
        t = {m: c}
        for b, n in ex:
            for _ in range(n):
                t = _pmul(t, poly_of(b))
        r = _padd(r, t)
    return r


MAXITE = 400


def lift2(f, a, b):
    """apply binary f under ite nodes"""
    if a.op == "ite" or b.op == "ite":
        memo = {}

        def go(x, y):
            k = (x, y)
            if k in memo:
                return memo[k]
            if len(memo) > 4000:
                raise Budget("ite product")
            cx = x.args[0] if x.op == "ite" else None
            cy = y.args[0] if y.op == "ite" else None
            if cx is None and cy is None:
                r = f(x, y)
            else:
                if cx is None or (cy is not None and cy.id < cx.id):
                    c = cy
                else:
                    c = cx
                x1, x0 = (x.args[1], x.args[2]) if cx is c else (x, x)
                y1, y0 = (y.args[1], y.args[2]) if cy is c else (y, y)
                r = _ite_raw(c, go(x1, y1), go(x0, y0))
            memo[k] = r
            return r

        return go(a, b)
    return f(a, b)


def lift1(f, a):
    if a.op == "ite":
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if x.op == "ite":
                r = _ite_raw(x.args[0], go(x.args[1]), go(x.args[2]))
            else:
                r = f(x)
            memo[x] = r
            return r

        return go(a)
    return f(a)


def liftn(f, args):
    """apply f(list) under ite nodes of all args"""
    args = list(args)
    if not any(a.op == "ite" for a in args):
        return f(args)
    memo = {}

    def go(xs):
        if xs in memo:
            return memo[xs]
        if len(memo) > 3000:
            raise Budget("ite product")
        cs = [x.args[0] for x in xs if x.op == "ite"]
        if not cs:
            r = f(list(xs))
        else:
            c = min(cs, key=lambda t: t.id)
            hi = tuple(x.args[1] if x.op == "ite" and x.args[0] is c else x for x in xs)
            lo = tuple(x.args[2] if x.op == "ite" and x.args[0] is c else x for x in xs)
            r = _ite_raw(c, go(hi), go(lo))
        memo[xs] = r
        return r

    return go(tuple(args))


def _ite_raw(c, a, b):
    """c is a boolean atom smaller than every test in a, b (or equal: restricted)"""
    if a is b:
        return a
    return mk("ite", c, a, b)


def has_top(t, seen=None):
    if t.fl is not None:
        return t.fl
    r = t.op == "top" or any(
        has_top(x) for x in _subterms(t)
    )
    t.fl = r
    return r


def _subterms(t):
    for x in t.args:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _subtup(x)


def _subtup(x):
    for y in x:
        if isinstance(y, Term):
            yield y
        elif isinstance(y, tuple):
            yield from _subtup(y)


def subterms(t):
    """all subterms, each once"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(_subterms(x))


def find_top(t):
    for x in subterms(t):
        if x.op == "top":
            return x
    return None


def numeric_like(t):
    return t.op not in ("none", "str", "tuple", "list", "dict", "undef", "func", "class", "module", "ext")


def add(a, b):
    def f(x, y):
        if x.op == "top":
            return x
        if y.op == "top":
            return y
        return from_poly(_padd(poly_of(x), poly_of(y)))

    return lift2(f, a, b)


def scale(a, k):
    return lift1(lambda x: x if x.op == "top" else from_poly({m: c * k for m, c in poly_of(x).items()}), a)


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    def f(x, y):
        if x.op == "top":
            return x
        if y.op == "top":
            return y
        return from_poly(_pmul(poly_of(x), poly_of(y)))

    return lift2(f, a, b)


def _content(p):
    """split poly dict into (coef, monomial, primitive dict) with primitive having
    coprime integer coefs, positive leading coef and no common monomial"""
    from math import gcd

    nume = 0
    den = 1
    for c in p.values():
        nume = gcd(nume, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    coef = Fraction(nume, den)
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for a in list(common):
                e = common[a]
                e2 = d.get(a, Fraction(0))
                if (e > 0) != (e2 > 0) or e2 == 0:
                    # different sign: take the minimum
                    k = min(e, e2)
                else:
                    k = min(e, e2)
                common[a] = k
            for a in d:
                if a not in common:
                    common[a] = min(Fraction(0), d[a])
            common = {a: e for a, e in common.items() if e != 0}
    common = common or {}
    # negative exponents anywhere: pull them out as well
    for m in p:
        for a, e in m:
            if e < 0 and common.get(a, 0) > e:
                common[a] = e
    mono = tuple(sorted(common.items(), key=lambda x: x[0].id))
    inv = tuple((a, -e) for a, e in mono)
    q = _pmul({m: c / coef for m, c in p.items()}, {inv: Fraction(1)}) if mono else {
        m: c / coef for m, c in p.items()
    }
    lead = sorted(q.items(), key=lambda kv: _mkey(kv[0]))[-1][1]
    if lead < 0:
        q = {m: -c for m, c in q.items()}
        coef = -coef
    return coef, mono, q


POSITIVE_SYMS = {"pi", "mu0"}


def is_positive(a):
    return (a.op == "sym" and a.args[0] in POSITIVE_SYMS) or a.op in ("len", "abs")


def _root(c, e):
    """exact c**e for Fraction c>0, fractional e, or None"""
    n, d = e.numerator, e.denominator

    def iroot(v):
        r = round(v ** (1.0 / d))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** d == v:
                return k
        return None

    if c < 0:
        return None
    a, b = iroot(c.numerator), iroot(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** n


def pw(a, e):
    def f(x, y):
        if x.op == "top":
            return x
        if y.op == "top":
            return y
        if y.op == "num":
            return pow_q(x, y.args[0])
        if x is ONE:
            return ONE
        # symbolic exponent
        return mk("pow", x, y)

    return lift2(f, a, e)


def pow_q(x, e):
    if e == 0:
        return ONE
    if e == 1:
        return x
    p = poly_of(x)
    if not p:
        return ZERO if e > 0 else mk("sym", "inf")
    if len(p) == 1:
        ((m, c),) = p.items()
        out = {}
        coef = Fraction(1)
        res = None
        if e.denominator == 1:
            coef = c ** int(e)
        else:
            r = _root(c, e)
            if r is not None:
                coef = r
            else:
                if c < 0:
                    return mk("pow", x, num(e))
                out[mk("num", c)] = e
        todo = []
        for a, k in m:
            if e.denominator != 1 and k.denominator == 1 and k % 2 == 0 and not is_positive(a):
                a = absval(a)
                if a.op == "poly":
                    todo.append((a, k * e))
                    continue
            out[a] = out.get(a, Fraction(0)) + k * e
        res = {tuple(sorted(((a, k) for a, k in out.items() if k), key=lambda z: z[0].id)): coef}
        # compound bases with natural exponent have to be expanded
        res = _expand_mono(res)
        t = from_poly(res)
        for a, k in todo:
            t = mul(t, pow_q(a, k))
        return t
    if LAZY[0] and e.denominator == 1 and len(p) > 1 and (len(p) ** abs(int(e)) > LAZY[0] if e > 0 else len(p) ** 2 > LAZY[0]):
        return pow_q(from_poly(_fac(p)), e)
    if e.denominator == 1 and e > 0:
        n = int(e)
        r = {(): Fraction(1)}
        for _ in range(n):
            r = _pmul(r, p)
        return from_poly(r)
    coef, mono, q = _content(p)
    if e.denominator != 1 and coef < 0:
        coef = -coef
        q = {m: -c for m, c in q.items()}
    base = from_poly(q)
    r = pow_q(from_poly({mono: Fraction(1)}), e) if mono else ONE
    r = mul(r, pow_q(num(coef), e))
    return from_poly(_pmul(poly_of(r), _expand_mono({((base, e),): Fraction(1)})))


def _expand_mono(p):
    r = {}
    for m, c in p.items():
        t = {(): c}
        rest = []
        for a, e in m:
            if a.op == "poly" and e.denominator == 1 and e > 0:
                for _ in range(int(e)):
                    t = _pmul(t, poly_of(a))
            elif a.op == "num" and e.denominator == 1:
                t = {mm: cc * a.args[0] ** int(e) for mm, cc in t.items()}
            else:
                rest.append((a, e))
        if rest:
            t = _pmul(t, {tuple(rest): Fraction(1)})
        r = _padd(r, t)
    return r


def div(a, b):
    return mul(a, pw(b, num(-1)))


def sqrt(a):
    return pw(a, HALF)


def absval(a):
    def f(x):
        if x.op == "top":
            return x
        if x.op == "num":
            return num(abs(x.args[0]))
        if x.op == "sym" and x.args[0] == "inf":
            return x
        p = poly_of(x)
        if len(p) == 1:
            ((m, c),) = p.items()
            r = {(): abs(c)}
            t = from_poly(r)
            for at, e in m:
                if e.denominator == 1 and e % 2 == 0:
                    t = mul(t, from_poly({((at, e),): Fraction(1)}))
                elif is_positive(at):
                    t = mul(t, from_poly({((at, e),): Fraction(1)}))
                else:
                    base = at
                    ab = mk("abs", base)
                    t = mul(t, pow_q(ab, e))
            return t
        coef, mono, q = _content(p)
        if mono:
            return mul(absval(from_poly({mono: coef})), absval(from_poly(q)))
        return mul(num(abs(coef)), mk("abs", from_poly(q)))

    return lift1(f, a)


# ------------------------------------------------------------------ rational zero test
def is_zero(t, rounds=12):
    """exact zero test of a rational expression by clearing compound denominators"""
    if t.op == "ite":
        return is_zero(t.args[1]) and is_zero(t.args[2])
    if t.op == "num":
        return t.args[0] == 0
    if t.op != "poly":
        return False
    p = poly_of(t)
    for _ in range(rounds):
        low = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    if a not in low or e < low[a]:
                        low[a] = e
        if not low:
            break
        # clear one denominator at a time, plain atoms first
        a = min(low, key=lambda z: (z.op == "poly", z.id))
        p = _pmul(p, {((a, -low[a]),): Fraction(1)})
        p = _expand_mono(p)
        if not p:
            return True
    # normal form inside fractional powers may hide zero: accept only exact
    return not p


_P = (1 << 61) - 1
_HMEMO = {}


def _h(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big") % _P


def ident(t, seed=0):
    """random interpretation of a value number: algebraically equal rational expressions over the same
    atoms get the same element of GF(p); choices are affine joins, everything else is uninterpreted"""
    memo = _HMEMO.setdefault(seed, {})

    def arg(x):
        if isinstance(x, Term):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x if isinstance(x, (str, int)) else repr(x)

    def go(x):
        v = memo.get(x)
        if v is not None:
            return v
        op = x.op
        if op == "num":
            f = x.args[0]
            v = f.numerator * pow(f.denominator, -1, _P) % _P
        elif op == "poly":
            v = 0
            for m, c in x.args:
                z = c.numerator * pow(c.denominator, -1, _P) % _P
                for a, e in m:
                    b = go(a)
                    if e.denominator != 1:
                        b = _h(seed, "root", e.denominator, b)
                    if e < 0 and b == 0:
                        z = z * _h(seed, "inv0") % _P
                    else:
                        z = z * pow(b, int(e.numerator), _P) % _P
                v = (v + z) % _P
        elif op == "ite":
            c, a, b = go(x.args[0]), go(x.args[1]), go(x.args[2])
            v = (c * a + (1 - c) * b) % _P
        elif op == "bool":
            v = 1 if x is TRUE else 0
        elif op == "fac":
            v = go(x.args[0])
        elif op == "fn" and x.args[0] in ("max", "min"):
            v = _h(seed, op, x.args[0], tuple(sorted(go(y) for y in x.args[1:])))
        elif op == "abs":
            w = go(x.args[0])
            v = _h(seed, op, min(w, _P - w))
        else:
            v = _h(seed, op, tuple(arg(y) for y in x.args))
        memo[x] = v
        return v

    return go(t)


def eqv(a, b):
    """equal value numbers (exact algebra modulo canonical forms)"""
    if a is b:
        return True
    if ident(a) == ident(b) and ident(a, 1) == ident(b, 1):
        return True
    try:
        if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
            return len(a.args) == len(b.args) and all(eqv(x, y) for x, y in zip(a.args, b.args))
        if a.op == "ite" or b.op == "ite":
            return _eqv_ite(a, b)
        if numeric_like(a) and numeric_like(b):
            if is_zero(sub(a, b)):
                return True
        if a.op == b.op and a.op not in ("poly", "num") and len(a.args) == len(b.args) and a.args:
            return all(_eqv_arg(x, y) for x, y in zip(a.args, b.args))
        if a.op == "poly" and b.op == "poly":
            # same shape with structurally equivalent atoms
            return _eqv_poly(a, b)
    except Budget:
        return False
    return False


def _eqv_ite(a, b):
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return eqv(a.args[1], b.args[1]) and eqv(a.args[2], b.args[2])
    t = a if a.op == "ite" else b
    if a.op == "ite" and b.op == "ite" and b.args[0].id < a.args[0].id:
        t = b
    c = t.args[0]
    return eqv(restrict(a, c, True), restrict(b, c, True)) and eqv(
        restrict(a, c, False), restrict(b, c, False)
    )


def _eqv_arg(x, y):
    if isinstance(x, Term) and isinstance(y, Term):
        return eqv(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_eqv_arg(p, q) for p, q in zip(x, y))
    return x == y


_unify_depth = [0]


def _eqv_poly(a, b):
    """identify atoms of a and b that are eqv although not identical, then compare"""
    if _unify_depth[0] > 4:
        return False
    A = {at for m, _ in a.args for at, _ in m}
    B = {at for m, _ in b.args for at, _ in m}
    oa = [x for x in A - B if x.op not in ("sym", "num", "attr", "idx")]
    ob = [x for x in B - A if x.op not in ("sym", "num", "attr", "idx")]
    if not oa or len(oa) * len(ob) > 100:
        return False
    _unify_depth[0] += 1
    try:
        sigma = {}
        for x in oa:
            for y in ob:
                if x.op == y.op and y not in sigma and eqv(x, y):
                    sigma[y] = x
                    break
        if not sigma:
            return False
        return is_zero(sub(a, subst(b, sigma)))
    finally:
        _unify_depth[0] -= 1


# ------------------------------------------------------------------ booleans / ite
def restrict(t, c, v):
    """value of t given boolean atom c == v (only at the decision-diagram level)"""
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        if x in memo:
            return memo[x]
        a = x.args[0]
        if a is c:
            r = go(x.args[1] if v else x.args[2])
        elif a.id > c.id:
            # c cannot occur above; it may not occur below either as order is by id
            r = x
        else:
            r = _ite_raw(a, go(x.args[1]), go(x.args[2]))
        memo[x] = r
        return r

    return go(t)


def ite(c, a, b):
    """c: boolean-valued decision diagram (leaves TRUE/FALSE) or boolean atom"""
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "top":
        return top("condition: " + c.args[0])
    if c.op != "ite":
        c = mk("ite", c, TRUE, FALSE)
    memo = {}

    def go(x, y, z):
        if x is TRUE:
            return y
        if x is FALSE:
            return z
        if y is z:
            return y
        k = (x, y, z)
        if k in memo:
            return memo[k]
        if len(memo) > 20000:
            raise Budget("ite")
        if x.op != "ite":
            return top("non-boolean condition")
        cs = [u.args[0] for u in (x, y, z) if u.op == "ite"]
        a0 = min(cs, key=lambda t: t.id)

        def s(u, v):
            if u.op == "ite" and u.args[0] is a0:
                return u.args[1] if v else u.args[2]
            return u

        r = _ite_raw(a0, go(s(x, 1), s(y, 1), s(z, 1)), go(s(x, 0), s(y, 0), s(z, 0)))
        memo[k] = r
        return r

    return go(c, a, b)


def b_atom(t):
    return mk("ite", t, TRUE, FALSE)


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def leaves(t):
    """list of (path, leaf) of a decision diagram; path = list of (atom, bool)"""
    out = []

    def go(x, path):
        if x.op == "ite":
            go(x.args[1], path + [(x.args[0], True)])
            go(x.args[2], path + [(x.args[0], False)])
        else:
            out.append((path, x))

    go(t, [])
    return out


def leafset(t):
    s = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            go(x.args[1])
            go(x.args[2])
        else:
            s.add(x)

    go(t)
    return s


def cmp_lt(a, b):
    """a < b"""

    def f(x, y):
        if x.op == "top" or y.op == "top":
            return x if x.op == "top" else y
        d = sub(x, y)
        if d.op == "num":
            return TRUE if d.args[0] < 0 else FALSE
        if d.op == "sym" and d.args[0] == "inf":
            return FALSE
        if d.op == "poly":
            k = [c for m, c in d.args if m == ((mk("sym", "inf"), 1),)]
            if k and not any(occurs(t, {mk("sym", "inf")}) for m, c in d.args if m != ((mk("sym", "inf"), 1),) for t, e in m):
                return TRUE if k[0] < 0 else FALSE
        coef, mono, q = _content(poly_of(d))
        # divide by positive content only; strip positive-known atoms
        d = from_poly(_pmul(q, {mono: Fraction(1) if coef > 0 else Fraction(-1)}))
        return b_atom(mk("lt0", d))

    return lift2(f, a, b)


def cmp_eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.op == "top" or y.op == "top":
            return x if x.op == "top" else y
        consts = ("none", "str", "bool", "class", "num")
        if x.op in ("str", "none", "class") or y.op in ("str", "none", "class"):
            if x.op in consts and y.op in consts:
                return FALSE
            a1, a2 = (x, y) if x.id < y.id else (y, x)
            return b_atom(mk("eq", a1, a2))
        if x.op in ("tuple", "list") or y.op in ("tuple", "list"):
            if x.op in ("tuple", "list") and y.op in ("tuple", "list"):
                if len(x.args) != len(y.args):
                    return FALSE
                r = TRUE
                for p, q in zip(x.args, y.args):
                    r = b_and(r, cmp_eq(p, q))
                return r
            a1, a2 = (x, y) if x.id < y.id else (y, x)
            return b_atom(mk("eq", a1, a2))
        d = sub(x, y)
        if d.op == "num":
            return TRUE if d.args[0] == 0 else FALSE
        if d.op == "top":
            return d
        coef, mono, q = _content(poly_of(d))
        pos = tuple((at, e) for at, e in mono if e > 0)
        return b_atom(mk("eq0", from_poly(_pmul(q, {pos: Fraction(1)}))))

    return lift2(f, a, b)


def truth(t):
    def f(x):
        if x.op == "bool":
            return x
        if x.op == "num":
            return TRUE if x.args[0] else FALSE
        if x.op == "none":
            return FALSE
        if x.op == "str":
            return TRUE if x.args[0] else FALSE
        if x.op in ("tuple", "list", "dict"):
            return TRUE if x.args else FALSE
        if x.op == "top":
            return x
        if x.op in ("func", "class", "module", "obj", "bound"):
            return TRUE
        if x.op == "boolval":
            return b_atom(x)
        return b_atom(mk("truth", x))

    return lift1(f, t)


def is_none(t):
    def f(x):
        if x.op == "none":
            return TRUE
        if x.op in ("num", "poly", "str", "bool", "tuple", "list", "dict", "func", "class", "obj", "bound",
                    "sum", "map", "new", "abs", "pow", "fn", "store", "concat", "scatter", "dns", "arr"):
            return FALSE
        if x.op == "top":
            return x
        return b_atom(mk("isnone", x))

    return lift1(f, t)


# ------------------------------------------------------------------ substitution
def subst(t, m, rebuild=None):
    """replace terms (atoms) by terms; rebuilds canonical forms"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild_term(x, go)
        memo[x] = r
        return r

    return go(t)


def rebuild_term(x, go):
    op = x.op
    if op in ("num", "str", "none", "bool", "sym", "undef", "top", "ref"):
        return x
    if op == "poly":
        r = ZERO
        ch = False
        parts = []
        for mono, c in x.args:
            nm = []
            for a, e in mono:
                b = go(a)
                if b is not a:
                    ch = True
                nm.append((b, e))
            parts.append((nm, c))
        if not ch:
            return x
        for nm, c in parts:
            t = num(c)
            for b, e in nm:
                t = mul(t, pw(b, num(e)))
            r = add(r, t)
        return r
    if op == "ite":
        c, a, b = x.args
        c2, a2, b2 = go(c), go(a), go(b)
        if c2 is c and a2 is a and b2 is b:
            return x
        if c2 is c:
            return ite(b_atom(c), a2, b2)
        return ite(truth(c2), a2, b2)

    def g(y):
        if isinstance(y, Term):
            return go(y)
        if isinstance(y, tuple):
            return tuple(g(z) for z in y)
        return y

    na = tuple(g(y) for y in x.args)
    if na == x.args:
        return x
    return remake(op, na)


_makers = {}


def maker(op):
    def d(f):
        _makers[op] = f
        return f

    return d


def remake(op, args):
    f = _makers.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


@maker("lt0")
def _m_lt0(d):
    return cmp_lt(d, ZERO)


@maker("eq0")
def _m_eq0(d):
    return cmp_eq(d, ZERO)


@maker("eq")
def _m_eq(a, b):
    return cmp_eq(a, b)


@maker("truth")
def _m_truth(a):
    return truth(a)


@maker("isnone")
def _m_isnone(a):
    return is_none(a)


@maker("abs")
def _m_abs(a):
    return absval(a)


@maker("pow")
def _m_pow(a, b):
    return pw(a, b)


def occurs(t, atoms):
    for x in subterms(t):
        if x in atoms:
            return True
    return False


# ------------------------------------------------------------------ printing
_PPN = [0]


def pp(t, depth=0):
    if depth == 0:
        _PPN[0] = 0
    _PPN[0] += 1
    if _PPN[0] > 3000:
        return "..."
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(pp(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "..."
    d = depth + 1
    op, a = t.op, t.args
    if op == "num":
        c = a[0]
        if c.denominator != 1 and (c.denominator > 1000):
            return repr(float(c))
        return str(c)
    if op == "str":
        return repr(a[0])
    if op == "none":
        return "None"
    if op == "bool":
        return str(a[0])
    if op == "sym":
        return str(a[0])
    if op == "attr":
        return pp(a[0], d) + "." + a[1] + ("'" if len(a) > 2 and a[2] is not None else "")
    if op == "poly":
        out = []
        for m, c in a:
            fs = []
            for at, e in m:
                s = pp(at, d)
                if at.op in ("poly", "ite"):
                    s = "(" + s + ")"
                if e != 1:
                    s += "^" + (str(e) if e.denominator == 1 and e > 0 else "(" + str(e) + ")")
                fs.append(s)
            if c == 1 and fs:
                out.append("*".join(fs))
            elif c == -1 and fs:
                out.append("-" + "*".join(fs))
            else:
                cs = str(c) if c.denominator < 1000 else repr(float(c))
                out.append("*".join([cs] + fs))
        return " + ".join(out).replace("+ -", "- ")
    if op == "ite":
        return "{" + pp(a[0], d) + " ? " + pp(a[1], d) + " : " + pp(a[2], d) + "}"
    if op in ("tuple", "list"):
        return ("[" if op == "list" else "(") + ", ".join(pp(x, d) for x in a) + ("]" if op == "list" else ")")
    if op == "elem":
        return pp(a[0], d) + "[" + ", ".join(pp(x, d) for x in a[1:]) + "]"
    if op == "lt0":
        return "(" + pp(a[0], d) + " < 0)"
    if op == "eq0":
        return "(" + pp(a[0], d) + " == 0)"
    if op == "fn":
        return a[0] + "(" + ", ".join(pp(x, d) for x in a[1:]) + ")"
    if op == "idx":
        return "k%s" % (a[1],)
    if op == "top":
        return "<unknown: %s>" % a[0]
    return op + "(" + ", ".join(pp(x, d) for x in a) + ")"


# ---------------------------------------------------------------- conditions known from the context
_catoms = {}


def cond_atoms(t):
    """atoms of all choices inside t"""
    r = _catoms.get(t)
    if r is not None:
        return r
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        if x in _catoms:
            continue
        ch = list(_children(x))
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c not in _catoms)
            continue
        s = set()
        for c in ch:
            s |= _catoms[c]
        if x.op == "ite":
            s.add(x.args[0])
        _catoms[x] = frozenset(s)
    return _catoms[t]


def _children(x):
    out = []

    def go(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                go(b)
    for a in x.args:
        go(a)
    return out


def contextual(t, limit=200000):
    """choices nested below a choice on the same condition are resolved"""
    memo = {}

    def go(x, facts):
        rel = cond_atoms(x)
        if not rel:
            return x
        f = frozenset(kv for kv in facts if kv[0] in rel)
        key = (x, f)
        r = memo.get(key)
        if r is not None:
            return r
        if len(memo) > limit:
            raise Budget("context")
        if x.op == "ite":
            a, d = x.args[0], dict(f)
            if a in d:
                r = go(x.args[1] if d[a] else x.args[2], f)
            else:
                p, q = go(x.args[1], f | {(a, True)}), go(x.args[2], f | {(a, False)})
                r = ite(b_atom(a), p, q)
        else:
            r = rebuild_term(x, lambda y: go(y, f))
        memo[key] = r
        return r

    return go(t, frozenset())


def constrain(t, g, memo):
    """t on the executions where g holds (elsewhere arbitrary)"""
    if g is TRUE or g is FALSE:
        return t
    atoms = cond_atoms(g)

    def go(x, c):
        if c is FALSE:
            return None
        if c is TRUE or not (cond_atoms(x) & atoms):
            return x
        k = (x, c)
        if k in memo:
            return memo[k]
        if x.op == "ite":
            a = x.args[0] if c.op != "ite" or x.args[0].id <= c.args[0].id else c.args[0]
            s = lambda u, v: (u.args[1] if v else u.args[2]) if u.op == "ite" and u.args[0] is a else u
            p, q = go(s(x, 1), s(c, 1)), go(s(x, 0), s(c, 0))
            if p is None or q is None:
                r = q if p is None else p
            else:
                r = _ite_raw(a, p, q) if p is not q else p
        elif x.op in ("dns", "list", "tuple", "dict", "set"):
            f = lambda y: go(y, c) if isinstance(y, Term) else tuple(f(z) for z in y) if isinstance(y, tuple) else y
            na = tuple(f(y) for y in x.args)
            r = x if na == x.args else mk(x.op, *na)
        else:
            r = x
        memo[k] = r
        return r

    r = go(t, g)
    return t if r is None else r
