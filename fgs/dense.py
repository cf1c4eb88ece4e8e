"""Arrays whose shape is a known constant: every entry is its own value number.

Used by rules that fix a (small) grid size and keep all the numbers on it symbolic;
loops and vectorised expressions over such a grid get the same canonical value."""
import itertools
from fractions import Fraction
from . import terms as T
from .terms import mk, Term, NONE, TRUE, FALSE, ZERO, ONE, num, top

LIMIT = 12000


def make(shape, entries):
    shape = tuple(int(s) for s in shape)
    entries = tuple(entries)
    if not shape:
        return entries[0]
    for e in entries:
        if e.op == "top":
            return e
    return mk("dns", shape, *entries)


def is_dns(t):
    return isinstance(t, Term) and t.op == "dns"


def shape_of(t):
    return t.args[0] if t.op == "dns" else ()


def entries(t):
    return t.args[1:] if t.op == "dns" else (t,)


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.append(n)
        n *= s
    return tuple(reversed(out))


def from_list(v):
    """nested list/tuple/arr/dns -> dns or None"""
    if v.op in ("list", "tuple", "arr"):
        if not v.args:
            return mk("dns", (0,))
        rows = [from_list(x) for x in v.args]
        if any(r is None for r in rows):
            return None
        sh = {shape_of(r) for r in rows}
        if len(sh) != 1:
            return None
        sh = sh.pop()
        return make((len(rows),) + sh, [e for r in rows for e in entries(r)])
    if v.op == "dns":
        return v
    if v.op == "rng":
        from . import binders as B
        c = B.dom_const(v)
        return None if c is None else make((len(c),), c)
    if T.numeric_like(v) or v.op in ("bool", "attr", "elem", "sym", "fcall", "mcall", "apply", "red", "sum"):
        return v
    if v.op == "ite":
        return v if not any(x.op in ("list", "tuple", "dns", "arr", "ref", "map", "concat") for x in T.leafset(v)) else None
    return None


def broadcast_shape(a, b):
    out = []
    for i in range(max(len(a), len(b))):
        x = a[len(a) - 1 - i] if i < len(a) else 1
        y = b[len(b) - 1 - i] if i < len(b) else 1
        if x != y and x != 1 and y != 1:
            return None
        out.append(y if x == 1 else x)
    return tuple(reversed(out))


def expand(t, shape):
    sh = shape_of(t)
    if sh == shape:
        return list(entries(t))
    st = strides(sh)
    off = len(shape) - len(sh)
    es = entries(t)
    out = []
    for ix in itertools.product(*[range(s) for s in shape]):
        k = 0
        for i, s in enumerate(sh):
            if s != 1:
                k += ix[off + i] * st[i]
        out.append(es[k])
    return out


def emap(f, *ts):
    """elementwise with broadcasting"""
    sh = ()
    for t in ts:
        sh = broadcast_shape(sh, shape_of(t))
        if sh is None:
            return top("shapes do not match")
    if size(sh) > LIMIT:
        return top("array too large")
    cols = [expand(t, sh) for t in ts]
    return make(sh, [f(*xs) for xs in zip(*cols)])


def const_int(t):
    return int(t.args[0]) if t.op == "num" and t.args[0].denominator == 1 else None


def resolve_index(shape, idx):
    """-> (result shape, list of flat positions) or a string saying why not"""
    idx = list(idx)
    used = sum(1 for i in idx if i is not NONE and i.op != "ellipsis" and not (is_dns(i) and _isbool(i)))
    used += sum(len(shape_of(i)) for i in idx if is_dns(i) and _isbool(i))
    if any(i.op == "ellipsis" for i in idx):
        p = [i.op for i in idx].index("ellipsis")
        idx[p:p + 1] = [mk("slice", NONE, NONE, NONE)] * (len(shape) - used)
    elif used < len(shape):
        idx += [mk("slice", NONE, NONE, NONE)] * (len(shape) - used)
    if used > len(shape):
        return "too many indices"
    ax = 0
    sel = []  # per axis group: ("int", [..]) ("slice", [...]) ("new",) ("adv", shape, [positions])
    for i in idx:
        if i is NONE:
            sel.append(("new", None, None))
            continue
        n = shape[ax]
        if i.op == "slice":
            vals = [None if x is NONE else const_int(x) for x in i.args]
            if any(x is not NONE and v is None for x, v in zip(i.args, vals)):
                return "slice bounds not constant"
            sel.append(("slice", ax, list(range(n))[slice(*vals)]))
            ax += 1
            continue
        if is_dns(i):
            if _isbool(i):
                sh = shape_of(i)
                if sh != shape[ax:ax + len(sh)]:
                    return "mask shape"
                es = entries(i)
                if not all(e in (TRUE, FALSE) for e in es):
                    return "mask not constant"
                pos = [ix for ix, e in zip(itertools.product(*[range(s) for s in sh]), es) if e is TRUE]
                for d in range(len(sh)):
                    sel.append(("adv", ax + d, ((len(pos),), [p[d] for p in pos])))
                ax += len(sh)
                continue
            es = [const_int(e) for e in entries(i)]
            if any(e is None for e in es):
                return "index array not constant"
            sel.append(("adv", ax, (shape_of(i), [e + n if e < 0 else e for e in es])))
            ax += 1
            continue
        if i.op in ("list", "tuple"):
            d = from_list(i)
            if d is None:
                return "index list"
            es = [const_int(e) for e in entries(d)]
            if any(e is None for e in es):
                return "index array not constant"
            sel.append(("adv", ax, (shape_of(d), [e + n if e < 0 else e for e in es])))
            ax += 1
            continue
        k = const_int(i)
        if k is None:
            return "index not constant"
        if not -n <= k < n:
            return "index out of range"
        sel.append(("int", ax, k % n))
        ax += 1
    for s in sel:
        if s[0] == "adv" and any(not 0 <= e < shape[s[1]] for e in s[2][1]):
            return "index out of range"
    adv = [s for s in sel if s[0] == "adv"]
    if adv and any(s[0] == "int" for s in sel):
        sel = [("adv", s[1], ((), [s[2]])) if s[0] == "int" else s for s in sel]
        adv = [s for s in sel if s[0] == "adv"]
    st = strides(shape)
    if adv:
        ash = ()
        for s in adv:
            ash = broadcast_shape(ash, s[2][0])
            if ash is None:
                return "index shapes"
        na = size(ash)
        apos = [[0] * na for _ in adv]
        for j, s in enumerate(adv):
            vals = s[2][1]
            if len(vals) == na:
                apos[j] = vals
            elif len(vals) == 1:
                apos[j] = vals * na
            else:
                return "index broadcast"
        ks = [i for i, s in enumerate(sel) if s[0] == "adv"]
        contiguous = ks == list(range(ks[0], ks[-1] + 1))
        dims, done = [], False
        if not contiguous:
            dims.append(("A", None))
        for s in sel:
            if s[0] == "adv":
                if contiguous and not done:
                    dims.append(("A", None))
                    done = True
            else:
                dims.append(s)
        ranges = []
        oshape = []
        for d in dims:
            if d[0] == "A":
                ranges.append([sum(apos[j][m] * st[adv[j][1]] for j in range(len(adv))) for m in range(na)])
                oshape += list(ash)
            elif d[0] == "slice":
                ranges.append([v * st[d[1]] for v in d[2]])
                oshape.append(len(d[2]))
            elif d[0] == "new":
                ranges.append([0])
                oshape.append(1)
        return tuple(oshape), [sum(c) for c in itertools.product(*ranges)]
    ranges, oshape = [], []
    for s in sel:
        if s[0] == "int":
            ranges.append([s[2] * st[s[1]]])
        elif s[0] == "slice":
            ranges.append([v * st[s[1]] for v in s[2]])
            oshape.append(len(s[2]))
        else:
            ranges.append([0])
            oshape.append(1)
    return tuple(oshape), [sum(c) for c in itertools.product(*ranges)]


def _isbool(t):
    es = entries(t)
    return bool(es) and all(e in (TRUE, FALSE) or (e.op == "ite" and T.leafset(e) <= {TRUE, FALSE}) for e in es)


def get(t, idx):
    r = resolve_index(shape_of(t), idx)
    if isinstance(r, str):
        return None if r == "index not constant" else top(r)
    sh, pos = r
    es = entries(t)
    if not sh:
        return es[pos[0]]
    return make(sh, [es[p] for p in pos])


def put(t, idx, v, guard=TRUE):
    sh0 = shape_of(t)
    es = list(entries(t))
    if len(idx) == 1 and is_dns(idx[0]) and _isbool(idx[0]) and shape_of(idx[0]) == sh0 and not all(e in (TRUE, FALSE) for e in entries(idx[0])):
        # a[mask] = scalar with a symbolic mask
        if is_dns(v):
            return top("masked assignment")
        return make(sh0, [T.ite(T.b_and(guard, m), v, e) for m, e in zip(entries(idx[0]), es)])
    r = resolve_index(sh0, idx)
    if isinstance(r, str):
        return top("store: " + r)
    sh, pos = r
    if v.op in ("list", "tuple", "arr"):
        v = from_list(v)
        if v is None:
            return top("stored list")
    vs = shape_of(v)
    while len(vs) > len(sh) and vs[0] == 1:
        vs = vs[1:]
        v = make(vs, entries(v))
    if broadcast_shape(vs, sh) != sh:
        return top("stored shape")
    for p, x in zip(pos, expand(v, sh) if sh else entries(v)):
        es[p] = x if guard is TRUE else T.ite(guard, x, es[p])
    return make(sh0, es)


def reshape(t, newshape):
    n = len(entries(t))
    ns = list(newshape)
    if -1 in ns:
        k = 1
        for s in ns:
            if s != -1:
                k *= s
        ns[ns.index(-1)] = n // k if k else 0
    if size(ns) != n:
        return top("reshape")
    return make(ns, entries(t))


def transpose(t, axes=None):
    sh = shape_of(t)
    if len(sh) < 2:
        return t
    axes = axes or tuple(reversed(range(len(sh))))
    st = strides(sh)
    ns = [sh[a] for a in axes]
    es = entries(t)
    return make(ns, [es[sum(i * st[a] for i, a in zip(ix, axes))] for ix in itertools.product(*[range(s) for s in ns])])


def reduce(t, f, axis=None, keepdims=False):
    """f: list of scalars -> scalar"""
    sh = shape_of(t)
    es = entries(t)
    if axis is None:
        return f(list(es))
    if axis < 0:
        axis += len(sh)
    if not 0 <= axis < len(sh):
        return top("axis")
    st = strides(sh)
    ns = sh[:axis] + sh[axis + 1:]
    out = []
    for ix in itertools.product(*[range(s) for s in ns]):
        full = ix[:axis] + (0,) + ix[axis:]
        base = sum(i * s for i, s in zip(full, st))
        out.append(f([es[base + k * st[axis]] for k in range(sh[axis])]))
    return make(ns, out)


def along(t, f, axis):
    """f: list -> list along one axis"""
    sh = shape_of(t)
    if axis < 0:
        axis += len(sh)
    perm = [a for a in range(len(sh)) if a != axis] + [axis]
    tt = transpose(t, tuple(perm)) if len(sh) > 1 else t
    n = sh[axis]
    es = entries(tt)
    rows = [f(list(es[i:i + n])) for i in range(0, len(es), n)]
    m = len(rows[0]) if rows else 0
    r = make([sh[a] for a in perm[:-1]] + [m], [x for row in rows for x in row])
    inv = [perm.index(a) for a in range(len(sh))]
    return transpose(r, tuple(inv)) if len(sh) > 1 else r


def ssum(xs):
    r = ZERO
    for x in xs:
        r = T.add(r, x)
    return r


def romb_weights(n):
    k = n - 1
    lv = 0
    while k > 1 and k % 2 == 0:
        k //= 2
        lv += 1
    if k != 1:
        return None
    N = n - 1
    # trapezoid rows then Richardson extrapolation, in exact weights
    R = []
    for i in range(lv + 1):
        h = N >> i
        w = [Fraction(0)] * n
        for j in range(0, n, h):
            w[j] = Fraction(h) * (Fraction(1, 2) if j in (0, N) else 1)
        R.append(w)
    for j in range(1, lv + 1):
        R = [[(Fraction(4) ** j * b - a) / (Fraction(4) ** j - 1) for a, b in zip(R[i], R[i + 1])] for i in range(len(R) - 1)]
    return R[0]


def romb(xs):
    w = romb_weights(len(xs))
    if w is None:
        return top("romb needs 2^k+1 samples")
    return ssum([T.scale(x, c) for x, c in zip(xs, w)])


def dot(a, b):
    sa, sb = shape_of(a), shape_of(b)
    if not sa or not sb:
        return emap(T.mul, a, b)
    if len(sa) > 2 or len(sb) > 2 or sa[-1] != sb[0]:
        return top("dot shapes")
    ea, eb = entries(a), entries(b)
    rows = [ea[i * sa[-1]:(i + 1) * sa[-1]] for i in range(size(sa[:-1]))]
    nb = size(sb[1:])
    cols = [[eb[k * nb + j] for k in range(sb[0])] for j in range(nb)]
    return make(sa[:-1] + sb[1:], [ssum([T.mul(x, y) for x, y in zip(r, c)]) for r in rows for c in cols]) if sa[:-1] + sb[1:] else ssum([T.mul(x, y) for x, y in zip(ea, eb)])


def concat(parts, axis=0):
    sh = shape_of(parts[0])
    if axis < 0:
        axis += len(sh)
    if any(len(shape_of(p)) != len(sh) for p in parts) or axis >= len(sh):
        return top("concatenate")
    if axis == 0:
        if any(shape_of(p)[1:] != sh[1:] for p in parts):
            return top("concatenate")
        return make((sum(shape_of(p)[0] for p in parts),) + sh[1:], [e for p in parts for e in entries(p)])
    perm = tuple([axis] + [a for a in range(len(sh)) if a != axis])
    inv = tuple(perm.index(a) for a in range(len(sh)))
    return transpose(concat([transpose(p, perm) for p in parts], 0), inv)
