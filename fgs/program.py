"""Loads every module of the package from its current source and resolves names,
classes, method resolution order, properties, and a name-based effect summary."""
import ast
import re
import hashlib
import os


class AnalysisBroken(Exception):
    """an anchor of a rule vanished: the analysis cannot speak about this tree"""


class FuncInfo:
    def __init__(self, module, node, cls=None, qual=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = node.name
        self.qual = qual or (module.name + "." + (cls.name + "." if cls else "") + node.name)
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = any(d in ("property", "functools.cached_property", "cached_property") for d in self.decorators)
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)

    @property
    def where(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<%s>" % self.qual


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}  # class level assignments: name -> ast expr
        self.base_exprs = node.bases
        self.bases = []
        for st in node.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f = FuncInfo(self.module, st, self)
            if f.is_setter:
                self.setters[f.name] = f
            elif f.is_property:
                self.getters[f.name] = f
            else:
                self.methods[f.name] = f
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._scan(s)

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, kind, name):
        for c in self.mro():
            d = getattr(c, kind)
            if name in d:
                return d[name]
        return None

    def find(self, name):
        """first definition of name along the MRO: (kind, thing, class)"""
        for c in self.mro():
            for kind in ("methods", "getters", "attrs"):
                d = getattr(c, kind)
                if name in d:
                    return kind, d[name], c
        return None

    def __repr__(self):
        return "<class %s>" % self.qual


class Module:
    def __init__(self, prog, name, path, relpath, text=None):
        self.prog = prog
        self.name = name
        self.path = path
        self.relpath = relpath
        if text is None:
            with open(path, "rb") as f:
                raw = f.read()
        else:
            raw = text.encode("utf-8")
        self.digest = hashlib.sha256(raw).hexdigest()
        self.tree = ast.parse(raw.decode("utf-8"))
        self.funcs = {}
        self.classes = {}
        self.assigns = {}
        self.imports = {}  # local name -> ("mod", fullname) | ("from", fullmodule, name)
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = st.value
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                self.imports.update(import_bindings(st, self.prog.package))
            elif isinstance(st, ast.If):
                if isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == "__name__":
                    continue
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)


def import_bindings(st, package):
    out = {}
    if isinstance(st, ast.Import):
        for a in st.names:
            if a.asname:
                out[a.asname] = ("mod", a.name)
            else:
                out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
    else:
        mod = st.module or ""
        if st.level:
            mod = package + ("." + mod if mod else "")
        for a in st.names:
            out[a.asname or a.name] = ("from", mod, a.name)
    return out


class Program:
    def __init__(self, root="/repo", package="freegs", overlay=None):
        overlay = overlay or {}
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s not found" % base)
        for fn in sorted(os.listdir(base)):
            if not fn.endswith(".py") or fn.startswith("test_"):
                continue
            name = package if fn == "__init__.py" else package + "." + fn[:-3]
            try:
                self.modules[name] = Module(self, name, os.path.join(base, fn), package + "/" + fn, overlay.get(package + "/" + fn))
            except SyntaxError as e:
                raise AnalysisBroken("%s does not parse: %s" % (fn, e))
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.base_exprs:
                    r = self.resolve_class_expr(m, b)
                    if r is not None:
                        c.bases.append(r)
        self._effects = None

    def spec_module(self, text, name="spec"):
        """a module of reference code, resolved against the package"""
        m = Module(self, name, "<spec>", "<spec>", text)
        for c in m.classes.values():
            for b in c.base_exprs:
                r = self.resolve_class_expr(m, b)
                if r is not None:
                    c.bases.append(r)
        return m

    # -------------------------------------------------------------- lookups
    def mod(self, short):
        n = self.package + "." + short
        if n not in self.modules:
            raise AnalysisBroken("module %s vanished" % n)
        return self.modules[n]

    def cls(self, short, name):
        m = self.mod(short)
        c = self.resolve_global(m, name)
        if c is None or c[0] != "class":
            raise AnalysisBroken("class %s.%s vanished" % (short, name))
        return c[1]

    def func(self, short, name):
        m = self.mod(short)
        r = self.resolve_global(m, name)
        if r is None or r[0] != "func":
            raise AnalysisBroken("function %s.%s vanished" % (short, name))
        return r[1]

    def method(self, short, cls, name):
        c = self.cls(short, cls)
        f = c.lookup("methods", name)
        if f is None:
            raise AnalysisBroken("method %s.%s.%s vanished" % (short, cls, name))
        return f

    def resolve_global(self, module, name, depth=0):
        """('func',FuncInfo) ('class',ClassInfo) ('assign',Module,expr) ('mod',fullname) ('ext',qualified)"""
        if depth > 8:
            return None
        if name in module.funcs:
            return ("func", module.funcs[name])
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.assigns and name not in module.imports:
            return ("assign", module, module.assigns[name])
        if name in module.imports:
            return self.resolve_import(module.imports[name], depth)
        if name in module.assigns:
            return ("assign", module, module.assigns[name])
        return None

    def resolve_import(self, b, depth=0):
        if b[0] == "mod":
            return ("mod", b[1])
        _, mod, name = b
        full = mod + "." + name
        if full in self.modules:
            return ("mod", full)
        if mod in self.modules:
            return self.resolve_global(self.modules[mod], name, depth + 1)
        m = re.match(r"shapely\.(?:geometry\.)?(?:polygon\.|point\.|linestring\.|base\.)?([A-Z]\w*)$", full)
        if m:  # the same classes under several names
            full = "shapely.geometry." + m.group(1)
        return ("ext", full)

    def resolve_class_expr(self, module, e):
        if isinstance(e, ast.Name):
            r = self.resolve_global(module, e.id)
            if r and r[0] == "class":
                return r[1]
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.resolve_global(module, e.value.id)
            if r and r[0] == "mod" and r[1] in self.modules:
                r2 = self.resolve_global(self.modules[r[1]], e.attr)
                if r2 and r2[0] == "class":
                    return r2[1]
        return None

    def all_functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        yield f

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in c.mro()]

    # -------------------------------------------------------------- effects by name
    def effects(self):
        """name -> set of attribute names possibly written by a call to a method or
        function of that name ('*' = anything). Closed over calls by name."""
        if self._effects is not None:
            return self._effects
        direct, calls = {}, {}
        setter_names = {}
        for f in self.all_functions():
            w, c = _direct_effects(f.node)
            if f.is_setter:
                setter_names.setdefault(f.name, set()).update(w)
                key = "=" + f.name
            else:
                key = f.name
            if f.name == "__init__":
                key = f.cls.name if f.cls else f.name
            direct.setdefault(key, set()).update(w)
            calls.setdefault(key, set()).update(c)
        for c in self.all_classes():
            if c.name not in direct:
                init = c.lookup("methods", "__init__")
                if init is not None:
                    direct[c.name] = set()
                    calls[c.name] = {init.cls.name} if init.cls else set()
        for k in direct:
            for a in list(direct[k]):
                if a in setter_names:
                    calls[k].add("=" + a)
        changed = True
        while changed:
            changed = False
            for k in direct:
                for c in calls[k]:
                    for a in direct.get(c, ()):
                        if a not in direct[k]:
                            direct[k].add(a)
                            changed = True
        # constructors only write fields of the new object
        for c in self.all_classes():
            if c.name in direct:
                direct[c.name] = set()
        self._effects = direct
        return direct


def _direct_effects(node):
    """attribute names written on non-fresh objects, names called"""
    w, c = set(), set()
    fresh = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            w.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute):
                w.add(b.attr)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                c.add(f.attr)
                if f.attr in ("append", "extend", "insert", "sort", "reverse", "pop", "remove", "clear", "update", "fill") and isinstance(f.value, ast.Attribute):
                    w.add(f.value.attr)
            elif isinstance(f, ast.Name):
                c.add(f.id)
                if f.id == "setattr":
                    w.add("*")
    return w, c
