"""Checker sensitivity: small edits of the analysed functions are made in memory (the
source is never executed) and the same rule is run on each edited program."""
import ast
import copy
import multiprocessing as mp
import os
import random
import sys
import time

from .program import Program, AnalysisBroken

BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div}
CMP = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(fn):
    """-> list of (description, mutator(node-copy-path))"""
    out = []
    doc = fn.body[0] if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) and isinstance(fn.body[0].value.value, str) else None
    for n in ast.walk(fn):
        if n is doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod):
                continue
            out.append(("line %d: %s -> %s" % (ln, type(n.op).__name__, BIN[type(n.op)].__name__), n, "op"))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append(("line %d: augmented %s -> %s" % (ln, type(n.op).__name__, BIN[type(n.op)].__name__), n, "op"))
            out.append(("line %d: augmented assignment -> plain" % ln, n, "plain"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append(("line %d: sign dropped" % ln, n, "unsign"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append(("line %d: constant %r changed" % (ln, n.value), n, "const"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(("line %d: %r negated" % (ln, n.value), n, "bool"))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(("line %d: comparison %s -> %s" % (ln, type(n.ops[0]).__name__, CMP[type(n.ops[0])].__name__), n, "cmp"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append(("line %d: condition negated" % ln, n, "neg"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]):
                    out.append(("line %d: arguments %d and %d of %s swapped" % (ln, i, i + 1, ast.unparse(n.func)), n, ("swap", i)))
    for n in ast.walk(fn):
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, st in enumerate(b):
                    if isinstance(st, (ast.Assign, ast.AugAssign)) or (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
                        if isinstance(st, ast.Expr) and isinstance(st.value.func, ast.Name) and st.value.func.id == "print":
                            continue
                        tg = st.targets[0] if isinstance(st, ast.Assign) else getattr(st, "target", None)
                        if isinstance(tg, ast.Name) and isinstance(st, ast.Assign):
                            continue
                        out.append(("line %d: statement removed: %s" % (st.lineno, ast.unparse(st)[:60]), st, "drop"))
    return out


def apply(node, kind):
    """mutate in place, return an undo function"""
    if kind == "op":
        old = node.op
        node.op = BIN[type(old)]()
        return lambda: setattr(node, "op", old)
    if kind == "plain":
        old = node.op
        node.op = "plain"
        return lambda: setattr(node, "op", old)
    if kind == "unsign":
        old = node.op
        node.op = ast.UAdd()
        return lambda: setattr(node, "op", old)
    if kind == "const":
        old = node.value
        node.value = old + 1 if isinstance(old, int) else (old * 1.5 if old else 1.0)
        return lambda: setattr(node, "value", old)
    if kind == "bool":
        old = node.value
        node.value = not old
        return lambda: setattr(node, "value", old)
    if kind == "cmp":
        old = node.ops[0]
        node.ops[0] = CMP[type(old)]()

        def undo():
            node.ops[0] = old
        return undo
    if kind == "neg":
        old = node.test
        node.test = ast.UnaryOp(op=ast.Not(), operand=old)
        return lambda: setattr(node, "test", old)
    if isinstance(kind, tuple):
        i = kind[1]
        a = node.args
        a[i], a[i + 1] = a[i + 1], a[i]

        def undo():
            a[i], a[i + 1] = a[i + 1], a[i]
        return undo
    raise ValueError(kind)


class _Drop(ast.NodeTransformer):
    def __init__(self, target):
        self.target = target

    def visit(self, n):
        if n is self.target:
            return ast.copy_location(ast.Pass(), n)
        return super().visit(n)


def render(tree, node, kind):
    if kind == "drop":
        old = {}
        # replace in the parent list, unparse, restore
        for p in ast.walk(tree):
            for f in ("body", "orelse"):
                b = getattr(p, f, None)
                if isinstance(b, list) and node in b:
                    i = b.index(node)
                    b[i] = ast.copy_location(ast.Pass(), node)
                    try:
                        return ast.unparse(tree)
                    finally:
                        b[i] = node
        return None
    if kind == "plain":
        for p in ast.walk(tree):
            for f in ("body", "orelse"):
                b = getattr(p, f, None)
                if isinstance(b, list) and node in b:
                    i = b.index(node)
                    b[i] = ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node)
                    try:
                        return ast.unparse(ast.fix_missing_locations(tree))
                    finally:
                        b[i] = node
        return None
    undo = apply(node, kind)
    try:
        return ast.unparse(ast.fix_missing_locations(tree))
    finally:
        undo()


def _one(job):
    pid, repo, rel, desc, text = job
    import importlib
    from .framework import Ctx
    sys.setrecursionlimit(20000)
    try:
        prog = Program(repo, overlay={rel: text})
        ctx = Ctx(prog, "quick")
        mod = importlib.import_module("fgs.rules." + pid.lower())
        mod.check(ctx)
        st = [o.status for o in ctx.obs]
        if "violated" in st:
            r = "detected"
        elif "undecided" in st:
            r = "undecided"
        else:
            r = "silent"
    except AnalysisBroken:
        r = "broken"
    except Exception as e:  # an engine error on an edited program
        r = "error %s" % type(e).__name__
    return rel, desc, r


def jobs_for(pid, repo, functions, limit=None, seed=1):
    prog = Program(repo)
    jobs = []
    by_mod = {}
    for f in prog.all_functions():
        if f.qual in functions:
            by_mod.setdefault(f.module.relpath, []).append(f)
    for rel, fs in sorted(by_mod.items()):
        path = os.path.join(repo, rel)
        tree = ast.parse(open(path).read())
        spans = {(f.node.lineno, f.node.name): f for f in fs}
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and (n.lineno, n.name) in spans:
                f = spans[(n.lineno, n.name)]
                for desc, node, kind in sites(n):
                    jobs.append((rel, f.qual + " " + desc, tree, node, kind))
    if limit and len(jobs) > limit:
        random.Random(seed).shuffle(jobs)
        jobs = jobs[:limit]
    out = []
    for rel, desc, tree, node, kind in jobs:
        text = render(tree, node, kind)
        if text is not None:
            out.append((pid, repo, rel, desc, text))
    return out


def sensitivity(pid, repo, ctx, limit=400, budget=500, procs=8, keep=40):
    jobs = jobs_for(pid, repo, ctx.functions, limit)
    t0 = time.time()
    res = []
    with mp.Pool(procs, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(_one, jobs):
            res.append(r)
            if time.time() - t0 > budget:
                pool.terminate()
                break
    count = {}
    for _, _, r in res:
        k = r.split()[0]
        count[k] = count.get(k, 0) + 1
    return {
        "edits_generated": len(jobs),
        "edits_analysed": len(res),
        "outcome": count,
        "not_detected": sorted("%s: %s (%s)" % (rel, d, r) for rel, d, r in res if r != "detected")[:keep],
    }


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
