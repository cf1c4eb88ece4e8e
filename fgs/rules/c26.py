"""DivGeo files: grid, flux and reference values handed to the low-level writer."""
from .common import *  # noqa

ID = "C26"
RULE = "sequence of blocks written to the file, value by value"
HEAD = """
import numpy as np
from freegs import _divgeo, divgeo
class File:
    def __init__(self):
        self.log = []
        self.text = []
    def write(self, text):
        self.text.append(text)
class Chunk:
    def __init__(self, fh, chunksize=5, extraspaces=0):
        self.fh = fh
    def newline(self):
        return None
    def endblock(self):
        return None
    def write(self, value):
        self.fh.log.append(("value", value))
    def __enter__(self):
        return self
    def __exit__(self, a, b, c):
        return None
def one(values, co):
    co.fh.log.append(("1d", list(values)))
def two(values, co):
    v = np.array(values)
    co.fh.log.append(("2d", v.shape, [e for row in v for e in row]))
class Geq:
    pass
def put(eq, fh, label=None, oxpoints=None, fileformat=None):
    fileformat(eq.data(oxpoints), fh, label=label)
class Eq:
    def __init__(self, d):
        self.d = d
    def data(self, ox):
        return dict(self.d, rcentr=self.d["rcentr"] if ox is None else ox)
"""
MODELS = {"freeqdsk._fileutils.ChunkOutput": "Chunk", "freeqdsk._fileutils.write_1d": "one", "freeqdsk._fileutils.write_2d": "two", "freegs.geqdsk.write": "put"}


def check(ctx):
    wl, wd = ctx.at("_divgeo", "write"), ctx.at("divgeo", "write")
    for nx, ny in ((3, 5), (5, 3), (4, 4)):
        kw = dict(dense=True, raises=False, models=MODELS, shapes={"psi": (nx, ny), "r": (nx,), "z": (ny,)}, ranks=dict.fromkeys(("rdim", "zdim", "rleft", "zmid", "sib", "bc", "rc", "ox"), 0))
        a = "psi, rdim, zdim, rleft, zmid, sib, bc, rc, r, z, ox"
        box = dict(rdim="rdim", rleft="rleft", zdim="zdim", zmid="zmid")
        for key, keys in (("box", "rdim=rdim, rleft=rleft, zdim=zdim, zmid=zmid"), ("axes", "r=r, z=z"), ("r-axis", "r=r, zdim=zdim, zmid=zmid"), ("z-axis", "z=z, rdim=rdim, rleft=rleft"), ("axes-first", "r=r, z=z, rdim=rdim, rleft=rleft, zdim=zdim, zmid=zmid")):
            data = "dict(nx=%d, ny=%d, rcentr=rc, bcentr=bc, sibdry=sib, psi=psi, %s)" % (nx, ny, keys)
            rr = "list(r)" if "r=r" in keys else "[rleft + rdim * i / %d for i in range(%d)]" % (nx - 1, nx)
            zz = "list(z)" if "z=z" in keys else "[zmid - zdim / 2 + zdim * i / %d for i in range(%d)]" % (ny - 1, ny)
            spec = """
def spec(%s):
    return [("1d", %s), ("1d", %s), ("2d", (%d, %d), [e - sib for row in psi for e in row])]
""" % (a, rr, zz, nx, ny)
            ctx.pair("blocks[%s, %dx%d]" % (key, nx, ny), wl, RULE, HEAD + "def code(%s):\n    f = File()\n    _divgeo.write(%s, f)\n    return f.log\n" % (a, data) + spec, **kw)
        data = "dict(nx=%d, ny=%d, rcentr=rc, bcentr=bc, sibdry=sib, psi=psi, rdim=rdim, rleft=rleft, zdim=zdim, zmid=zmid)" % (nx, ny)
        ctx.pair("header[%dx%d]" % (nx, ny), wl, "each number in the header stands behind its name", HEAD + """
def code(%s):
    f = File()
    _divgeo.write(%s, f)
    t = ""
    for x in f.text:
        t = t + x
    d = dict(formatted_fields(t))
    return d["jm"], d["km"], d["psib"], d["btf"], d["rtf"]
def spec(%s):
    return %d, %d, sib, bc, rc
""" % (a, data, a, nx, ny), **kw)
        ctx.pair("equilibrium[%dx%d]" % (nx, ny), wd, "the equilibrium's G-EQDSK entries, for the given critical points, are what is written", HEAD + """
def code(%s):
    f, g = File(), File()
    divgeo.write(Eq(%s), f, oxpoints=ox)
    divgeo.write(Eq(%s), g)
    return f.log, f.text, g.log, g.text
def spec(%s):
    f, g = File(), File()
    _divgeo.write(Eq(%s).data(ox), f)
    _divgeo.write(%s, g)
    return f.log, f.text, g.log, g.text
""" % (a, data, data, a, data, data), **kw)
