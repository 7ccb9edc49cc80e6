#!/usr/bin/env python3
"""refactor.py KIND SRC DST: copy the package SRC/pfrl to DST/pfrl with a mechanical rewrite which
keeps the behaviour, to confirm that the checks judge what the code does and not how it is written.
Kinds: invert (if/else swapped), temps (returned and assigned expressions through temporaries),
locals (local variables renamed), split (every function's body moved to a helper), private (private
names used in a single file renamed), loops (for loops over explicit iterators), comps (list
comprehensions written as loops in nested functions)."""
import ast
import collections
import os
import re
import shutil
import sys

kind, src, dst = sys.argv[1:]
shutil.copytree(os.path.join(src, "pfrl"), os.path.join(dst, "pfrl"))
FN = (ast.FunctionDef,)


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Temps(ast.NodeTransformer):
    k = 0

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        self.k += 1
        nm = "result_%d" % self.k
        return [ast.Assign([ast.Name(nm, ast.Store())], n.value), ast.Return(ast.Name(nm, ast.Load()))]

    def visit_Assign(self, n):
        if isinstance(n.value, (ast.Name, ast.Constant)) or not isinstance(n.targets[0], ast.Attribute):
            return n
        self.k += 1
        nm = "value_%d" % self.k
        return [ast.Assign([ast.Name(nm, ast.Store())], n.value), ast.Assign(n.targets, ast.Name(nm, ast.Load()))]

    def visit_ClassDef(self, n):
        for i, b in enumerate(n.body):
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                self.visit(b)
        return n

    def visit_Module(self, n):
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                self.visit(b)
        return n


def simple(f):
    """no nested scopes, globals, locals(), exec"""
    for x in ast.walk(f):
        if x is not f and isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Global, ast.Nonlocal)):
            return False
        if isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec"):
            return False
    return True


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        if not simple(f):
            self.generic_visit(f)
            return f
        args = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(f)
               if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        exc = {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler)}
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc - imp - exc:
                x.id = "local_" + x.id
        return f


class Split(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def body(self, b, incls):
        out = []
        for n in b:
            if isinstance(n, ast.ClassDef):
                n.body = self.body(n.body, True)
                out.append(n)
            elif (isinstance(n, ast.FunctionDef) and not n.name.startswith("__")
                  and not n.args.posonlyargs and len(n.body) > 1):
                deco = [ast.unparse(d) for d in n.decorator_list]
                if any(d not in ("property", "abc.abstractmethod", "abstractmethod") for d in deco) or \
                        any("abstract" in d for d in deco):
                    out.append(n)
                    continue
                helper = "_do_" + n.name.lstrip("_")
                inner = ast.FunctionDef(helper, n.args, n.body, [], None, None, type_params=[])
                a = n.args
                pos = [ast.Name(x.arg, ast.Load()) for x in a.args]
                call = ast.Call(
                    ast.Attribute(pos[0], helper, ast.Load()) if incls else ast.Name(helper, ast.Load()),
                    (pos[1:] if incls else pos) + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                    [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
                    + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                # a helper reached through self must not be shadowed by a subclass: call it on the class
                if incls:
                    call = ast.Call(ast.Name(self_name(n, helper), ast.Load()), pos + call.args[len(pos) - 1:],
                                    call.keywords)
                    top = ast.FunctionDef(self_name(n, helper), n.args, n.body, [], None, None, type_params=[])
                    if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n)) or \
                            any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(n)):
                        out.append(n)
                        continue
                    self.top.append(strip(top))
                    n.body = [ast.Return(call)]
                    out.append(n)
                else:
                    self.top.append(strip(inner))
                    n.body = [ast.Return(call)]
                    out.append(n)
            else:
                out.append(n)
        return out

    def run(self, m):
        self.top = []
        m.body = self.body(m.body, False)
        m.body += self.top
        return m


def strip(f):
    """a helper without annotations and without defaults that need class scope"""
    f = ast.parse(ast.unparse(ast.fix_missing_locations(f))).body[0]
    for a in ast.walk(f.args):
        if isinstance(a, ast.arg):
            a.annotation = None
    f.args.defaults = [ast.Constant(None) for _ in f.args.defaults]
    f.args.kw_defaults = [None if d is None else ast.Constant(None) for d in f.args.kw_defaults]
    return f


_ids = collections.Counter()


def self_name(n, helper):
    if not hasattr(n, "_h"):
        _ids[helper] += 1
        n._h = helper + str(_ids[helper])
    return n._h


class Loops(ast.NodeTransformer):
    """for x in it: body  ->  it_k = iter(it); while True: try: x = next(it_k) except StopIteration: break; body"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        self.k += 1
        it, end = "iter_%d" % self.k, "end_%d" % self.k
        x = "item_%d" % self.k
        return [
            ast.Assign([ast.Name(end, ast.Store())], ast.Call(ast.Name("object", ast.Load()), [], [])),
            ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [n.iter], [])),
            ast.While(ast.Constant(True), [
                ast.Assign([ast.Name(x, ast.Store())],
                           ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load()), ast.Name(end, ast.Load())], [])),
                ast.If(ast.Compare(ast.Name(x, ast.Load()), [ast.Is()], [ast.Name(end, ast.Load())]), [ast.Break()], []),
                ast.Assign([n.target], ast.Name(x, ast.Load())),
            ] + n.body, [])]


class Comps(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


trees = {}
for r, _, fs in os.walk(os.path.join(dst, "pfrl")):
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(r, f)
            trees[p] = open(p).read()
if kind == "private":
    users = collections.defaultdict(set)
    for p, s in trees.items():
        for nm in set(re.findall(r"\b_[a-z]\w*\b", s)):
            users[nm].add(p)
    for r, _, fs in os.walk(os.path.join(src, "tests")):
        for f in fs:
            if f.endswith(".py"):
                for nm in set(re.findall(r"\b_[a-z]\w*\b", open(os.path.join(r, f)).read())):
                    users[nm].add(f)
    for p, s in trees.items():
        if p.endswith(("monitor.py", "delta.py", "empirical_normalization.py")):      # override private names of other libraries
            continue
        defs = set(re.findall(r"def (_[a-z]\w*)\b", s)) | set(re.findall(r"self\.(_[a-z]\w*)\b", s))
        defs = {n for n in defs if len(users[n]) == 1 and not n.startswith("__")}
        for nm in defs:
            s = re.sub(r"\b%s\b" % nm, nm + "_renamed", s)
        open(p, "w").write(s)
else:
    T = dict(invert=Invert, temps=Temps, locals=Locals, loops=Loops, comps=Comps)
    for p, s in trees.items():
        t = ast.parse(s)
        t = Split().run(t) if kind == "split" else T[kind]().visit(t)
        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
