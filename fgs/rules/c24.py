"""Linear solvers: the exact solution is left alone, grids transfer consistently, every level uses its own matrix."""
from .common import *

ID = "C24"
RULE = "value number of the solver step"
HEAD = """
from freegs.multigrid import MGDirect, MGJacobi, createVcycle, restrict, interpolate, smoothJacobi, smoothVcycle, smoothMG, LaplacianOp, LaplaceSparse
from scipy.sparse.linalg import factorized
def coarse(e, scale):
    nx, ny = (e.shape[0] - 1) // 2 + 1, (e.shape[1] - 1) // 2 + 1
    c = np.zeros((nx, ny))
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            c[i, j] = scale * e[2 * i, 2 * j]
    return c
def fine(c):
    nx, ny = c.shape
    f = np.zeros((2 * nx - 1, 2 * ny - 1))
    z = np.zeros((nx, ny))
    for i in range(1, nx - 1):
        for j in range(1, ny - 1):
            z[i, j] = c[i, j]
    for i in range(2 * nx - 1):
        for j in range(2 * ny - 1):
            i0, j0 = i // 2, j // 2
            i1, j1 = (i + 1) // 2, (j + 1) // 2
            f[i, j] = (z[i0, j0] + z[i0, j1] + z[i1, j0] + z[i1, j1]) / 4
    return f
class Sub:
    def __init__(self, s):
        self.s = s
    def __call__(self, x, b):
        return self.s.inner(x, b)
"""


def check(ctx):
    at = lambda *a: ctx.at("multigrid", *a)
    for nx, ny in ((5, 5), (7, 9)):
        c = ((nx - 1) // 2 + 1, (ny - 1) // 2 + 1)
        ctx.pair("restrict[%dx%d]" % (nx, ny), at(None, "restrict"), "coarse interior points take the fine value there (a quarter of it with avg); edges are zero", HEAD + """
def code(e):
    return restrict(e), restrict(e, avg=True)
def spec(e):
    return coarse(e, 1), coarse(e, 1 / 4)
""", shapes={"e": (nx, ny)})
        ctx.pair("interpolate[%dx%d]" % c, at(None, "interpolate"), "bilinear interpolation of the coarse interior", HEAD + """
def code(e):
    return interpolate(e)
def spec(e):
    return fine(e)
""", shapes={"e": c})
    ctx.pair("restrict:indivisible", at(None, "restrict"), RULE, HEAD + """
def code(e):
    return restrict(e)
def spec(e):
    return e
""", shapes={"e": (4, 5)})
    ctx.pair("MGDirect", at("MGDirect", "__call__"), RULE, HEAD + """
def code(A, x, b):
    return MGDirect(A)(x, b)
def spec(A, x, b):
    return np.reshape(factorized(A.tocsc())(np.reshape(b, -1)), (3, 4))
""", shapes={"b": (3, 4), "x": (3, 4), "A": (12, 12)}, pure=("factorized",), modulo=None)
    sz = {"x": (5, 5), "b": (5, 5), "dot()": (25,), "diagonal()": (25,), "inner()": (3, 3)}
    kw = dict(shapes=sz, pure=("inner", "dot", "diagonal"))
    ctx.pair("MGJacobi:fixed-point", at("MGJacobi", "__call__"), "the exact solution is a fixed point of a cycle", HEAD + """
class Lin:
    def __call__(self, x, b):
        return 3.0 * b
def code(A, x):
    y = 1 * x
    b = np.reshape(A.dot(np.reshape(x, -1)), (5, 5))
    return MGJacobi(A, ncycle=2, niter=2, subsolver=Lin())(y, b), MGJacobi(A, ncycle=1, niter=1)(y, b)
def spec(A, x):
    return x, x
""", **kw)
    ctx.pair("MGJacobi:cycle", at("MGJacobi", "__call__"), "smooth, add the interpolated solution of the restricted residual equation, smooth", HEAD + """
def code(A, x, b, s):
    return MGJacobi(A, ncycle=1, niter=1, subsolver=Sub(s))(1 * x, b)
def spec(A, x, b, s):
    d = A.diagonal()
    bb = np.reshape(b, -1)
    y = np.reshape(x, -1)
    y = y + (bb - A.dot(y)) / d
    r = coarse(np.reshape(bb - A.dot(y), (5, 5)), 1)
    y = y + np.reshape(fine(s.inner(np.zeros((3, 3)), r)), -1)
    return np.reshape(y + (bb - A.dot(y)) / d, (5, 5))
""", **kw)
    ctx.pair("MGJacobi:counts", at("MGJacobi", "__call__"), "number of cycles and smoothing steps as requested, call arguments override", HEAD + """
def code(A, x, b):
    return MGJacobi(A, ncycle=2, niter=1)(1 * x, b), MGJacobi(A, ncycle=3, niter=1)(1 * x, b, ncycle=1, niter=2), MGJacobi(A, ncycle=3, niter=1)(1 * x, b, ncycle=0), MGJacobi(A, ncycle=3, niter=1)(1 * x, b, niter=0), MGJacobi(A, ncycle=3, niter=2)(1 * x, b, ncycle=1)
def spec(A, x, b):
    d = A.diagonal()
    bb = np.reshape(b, -1)
    y = np.reshape(x, -1)
    for i in range(4):
        y = y + (bb - A.dot(y)) / d
    return np.reshape(y, (5, 5)), np.reshape(y, (5, 5)), np.reshape(x, (5, 5)), np.reshape(x, (5, 5)), np.reshape(y, (5, 5))
""", **kw)
    for nx, ny, n, direct in ((9, 17, 3, "True"), (9, 5, 5, "True"), (9, 9, 2, "False"), (8, 9, 3, "True")):
        lv = []
        a, b, k = nx, ny, n
        while k > 1 and a % 2 and b % 2:
            lv.append((a, b))
            a, b, k = (a - 1) // 2 + 1, (b - 1) // 2 + 1, k - 1
        spec, codev = [], []
        cur = "s"
        for i, (p, q) in enumerate(lv):
            codev.append("(%s.A, %s.niter, %s.ncycle)" % (cur, cur, cur))
            spec.append("(g(%d, %d), it, %s)" % (p, q, "nc" if i == 0 else "1"))
            cur += ".subsolver"
        if direct == "True":
            codev.append("%s.solve" % cur)
            spec.append("factorized(g(%d, %d).tocsc())" % (a, b))
        else:
            codev.append("(%s.A, %s.niter, %s.subsolver)" % (cur, cur, cur))
            spec.append("(g(%d, %d), it, None)" % (a, b))
        ctx.pair("createVcycle[%dx%d,%d levels,direct=%s]" % (nx, ny, n, direct), at(None, "createVcycle"), "each level holds the operator generated for its own grid", HEAD + """
def code(g, it, nc):
    s = createVcycle(%d, %d, g, nlevels=%d, ncycle=nc, niter=it, direct=%s)
    return %s
def spec(g, it, nc):
    return %s
""" % (nx, ny, n, direct, "[" + ", ".join(codev) + "]", "[" + ", ".join(spec) + "]"), pure=(sym("g"),))
    for direct in (True, False):
        ctx.pair("createVcycle:lowest,direct=%s" % direct, at(None, "createVcycle"), "the lowest level solves directly exactly if asked to", HEAD + """
def kind(s):
    return "direct" if isinstance(s, MGDirect) else "smoothing" if isinstance(s, MGJacobi) else "other"
def code(g, it):
    s, t, u = [createVcycle(9, 9, g, nlevels=n, niter=it, direct=%s) for n in (1, 2, 3)]
    return kind(s), kind(t), kind(t.subsolver), kind(u), kind(u.subsolver), kind(u.subsolver.subsolver)
def spec(g, it):
    a, b = "smoothing", "%s"
    return b, a, b, a, a, b
""" % (direct, "direct" if direct else "smoothing"), pure=(sym("g"),))
    ctx.pair("smoothJacobi", at(None, "smoothJacobi"), RULE, HEAD + """
def code(A, x, b, dx, dy):
    return smoothJacobi(A, x, b, dx, dy)
def spec(A, x, b, dx, dy):
    return x + (b - A(x, dx, dy)) / A.diag(dx, dy)
""", raises=False, pure=(sym("A"), "diag"), shapes={"A()": (5, 5), "x": (5, 5), "b": (5, 5)})
    ctx.pair("smoothVcycle", at(None, "smoothVcycle"), "smooth, add the interpolated solution of the restricted residual equation on the doubled spacing, smooth", HEAD + """
def J(A, x, b, dx, dy):
    return x + (b - A(x, dx, dy)) / A.diag(dx, dy)
def code(A, x, b, dx, dy):
    return smoothVcycle(A, x, b, dx, dy, niter=1, sublevels=0), smoothVcycle(A, x, b, dx, dy, niter=2, sublevels=0)
def spec(A, x, b, dx, dy):
    y = J(A, J(A, x, b, dx, dy), b, dx, dy)
    return y, J(A, J(A, y, b, dx, dy), b, dx, dy)
""", raises=False, pure=(sym("A"), "diag"), shapes={"A()": (5, 5), "x": (5, 5), "b": (5, 5)})
    for n in (1, 2, 3):
        ctx.pair("smoothVcycle:%dlevels" % n, at(None, "smoothVcycle"), "smooth, add the interpolated solution of the restricted residual equation on the doubled spacing, smooth", HEAD + """
def J(A, x, b, dx, dy):
    return x + (b - A(x, dx, dy)) / A.diag(dx, dy)
class Op:
    def __init__(self, q):
        self.q = q
    def __call__(self, x, dx, dy):
        Op.seen = Op.seen + [(x.shape, dx, dy)]
        return self.q * x
    def diag(self, dx, dy):
        return self.q * 2.0
def code(q, b, dx, dy):
    Op.seen = []
    smoothVcycle(Op(q), np.zeros((17, 17)), b, dx, dy, niter=1, sublevels=%d)
    return Op.seen
def spec(q, b, dx, dy):
    r = []
    for k in range(%d):
        s = (16 // 2 ** k + 1, 16 // 2 ** k + 1)
        r = r + [(s, dx * 2 ** k, dy * 2 ** k)] * (2 if k < %d else 1)
    s = (16 // 2 ** %d + 1, 16 // 2 ** %d + 1)
    r = r + [(s, dx * 2 ** %d, dy * 2 ** %d)]
    for k in range(%d):
        m = %d - k
        r = r + [((16 // 2 ** m + 1, 16 // 2 ** m + 1), dx * 2 ** m, dy * 2 ** m)]
    return r
""" % (n, n + 1, n, n, n, n, n, n, n - 1), shapes={"b": (17, 17)}, ranks={"q": 0, "dx": 0, "dy": 0}, unroll=200)
    ctx.pair("LaplacianOp", at("LaplacianOp", "__call__"), RULE, HEAD + """
def code(f, dx, dy):
    return LaplacianOp()(f, dx, dy), LaplacianOp().diag(dx, dy)
def spec(f, dx, dy):
    b = np.zeros((4, 5))
    for i in range(1, 3):
        for j in range(1, 4):
            b[i, j] = (f[i - 1, j] - 2 * f[i, j] + f[i + 1, j]) / dx**2 + (f[i, j - 1] - 2 * f[i, j] + f[i, j + 1]) / dy**2
    return b, -2 / dx**2 - 2 / dy**2
""", shapes={"f": (4, 5)})
    ctx.pair("LaplaceSparse", at("LaplaceSparse", "__call__"), RULE, HEAD + """
def code(Lx, Ly):
    return LaplaceSparse(Lx, Ly)(4, 5)
def spec(Lx, Ly):
    nx, ny = 4, 5
    A = np.zeros((nx * ny, nx * ny))
    dx, dy = Lx / (nx - 1), Ly / (ny - 1)
    for i in range(nx):
        for j in range(ny):
            r = i * ny + j
            if i == 0 or j == 0 or i == nx - 1 or j == ny - 1:
                A[r, r] = 1
            else:
                A[r, r] = -2 / dx**2 - 2 / dy**2
                A[r, r - 1] = 1 / dy**2
                A[r, r + 1] = 1 / dy**2
                A[r, r - ny] = 1 / dx**2
                A[r, r + ny] = 1 / dx**2
    return A
""", dense=True)
