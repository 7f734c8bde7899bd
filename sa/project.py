"""Parsed program: modules, resolved names, classes, constants, annotations."""
from __future__ import annotations

import ast
import hashlib
import os

from .terms import ANY
from .terms import ty


class AnalysisBroken(Exception):
    """an anchor of the analysis is gone: nothing can be said"""


class Func:
    def __init__(self, qual, node, module, cls=None, decorators=()):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.decorators = decorators

    @property
    def is_generator(self):
        g = getattr(self, "_gen", None)
        if g is None:
            g = self._gen = has_yield(self.node)
        return g

    def __repr__(self):
        return f"<Func {self.qual}>"


def has_yield(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.methods = {}
        self.fields = {}      # name -> (annotation ast, default ast or None)  (own)
        self.consts = {}      # class level assignments
        self.base_exprs = node.bases
        self.dc = None        # dataclass options dict or None


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ("mod", name) | ("from", mod, attr)
        self.assigns = {}     # name -> value ast (last top level)
        self.assign_count = {}


class Project:
    def __init__(self, root="/repo", package="variantlib"):
        self.root = root
        self.package = package
        self.modules = {}
        self.lines = 0
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} not found")
        files = []
        for d, _, fs in os.walk(base):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        for p in sorted(files):
            rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[: -len(".__init__")]
            with open(p, encoding="utf8") as f:
                src = f.read()
            try:
                tree = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisBroken(f"{p}: {e}") from None
            m = Module(rel, p, tree, src)
            self.modules[rel] = m
            self.lines += src.count("\n")
            self._collect(m)
        self.classes = {}
        self.funcs = {}
        self.own = list(self.modules.values())
        for m in self.own:
            self._register(m)
        self._mro_cache = {}
        self._res_cache = {}
        self._ty_cache = {}

    def _register(self, m):
        for c in m.classes.values():
            self.classes[c.qual] = c
            for f in c.methods.values():
                self.funcs[f.qual] = f
        for f in m.funcs.values():
            self.funcs[f.qual] = f

    def add_source(self, name, path):
        """parse a reference module (never part of the analysed program) under `name`"""
        with open(path, encoding="utf8") as f:
            src = f.read()
        m = Module(name, path, ast.parse(src, path), src)
        self.modules[name] = m
        self._collect(m)
        self._register(m)
        self._res_cache.clear()

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.own, key=lambda m: m.name):
            h.update(m.src.encode())
        return h.hexdigest()[:16]

    # -------------------------------------------------------------- collect
    def _collect(self, m):
        def block(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[s.name] = Func(f"{m.name}.{s.name}", s, m, None, s.decorator_list)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = self._collect_class(m, s)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = ("mod", a.name)
                        else:
                            m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ""
                    if s.level:
                        pk = m.name.split(".")
                        is_pkg = m.path.endswith("__init__.py")
                        up = s.level - (1 if is_pkg else 0)
                        pk = pk[: len(pk) - up] if up else pk
                        mod = ".".join([*pk, mod]) if mod else ".".join(pk)
                    for a in s.names:
                        m.imports[a.asname or a.name] = ("from", mod, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.assigns[t.id] = s.value
                            m.assign_count[t.id] = m.assign_count.get(t.id, 0) + 1
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.assigns[s.target.id] = s.value
                        m.assign_count[s.target.id] = m.assign_count.get(s.target.id, 0) + 1
                elif isinstance(s, ast.If):
                    t = version_test(s.test)
                    if t is True:
                        block(s.body)
                    elif t is False:
                        block(s.orelse)
                    else:
                        block(s.body)
                        block(s.orelse)
                elif isinstance(s, ast.Try):
                    for h in s.handlers:
                        block(h.body)
                    block(s.body)
                    block(s.orelse)

        block(m.tree.body)

    def _collect_class(self, m, s, prefix=""):
        c = Class(f"{m.name}.{prefix}{s.name}", s, m)
        for d in s.decorator_list:
            name = d.func if isinstance(d, ast.Call) else d
            nm = name.id if isinstance(name, ast.Name) else name.attr if isinstance(name, ast.Attribute) else ""
            if nm == "dataclass":
                c.dc = {}
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if isinstance(k.value, ast.Constant):
                            c.dc[k.arg] = k.value.value
        for x in s.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{c.qual}.{x.name}", x, m, c, x.decorator_list)
                # property setters must not hide the getter
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in x.decorator_list):
                    c.methods[f"{x.name}.setter"] = f
                    f.qual += ".setter"
                else:
                    c.methods[x.name] = f
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.fields[x.target.id] = (x.annotation, x.value)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = x.value
            elif isinstance(x, ast.ClassDef):
                cc = self._collect_class(m, x, prefix=f"{prefix}{s.name}.")
                m.classes[f"{prefix}{s.name}.{x.name}"] = cc
        return c

    # -------------------------------------------------------------- resolve
    def resolve(self, modname, name):
        """resolve a global name in a module -> ("mod"|"cls"|"func"|"var"|"ext"|"builtin", ...)"""
        k = (modname, name)
        if k in self._res_cache:
            return self._res_cache[k]
        self._res_cache[k] = ("ext", f"?{modname}.{name}")
        r = self._resolve(modname, name)
        self._res_cache[k] = r
        return r

    def _resolve(self, modname, name):
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        if name in m.classes:
            return ("cls", m.classes[name].qual)
        if name in m.funcs:
            return ("func", m.funcs[name].qual)
        if name in m.assigns:
            return ("var", modname, name)
        if name in m.imports:
            i = m.imports[name]
            if i[0] == "mod":
                return self.module_ref(i[1])
            mod, attr = i[1], i[2]
            sub = f"{mod}.{attr}"
            if sub in self.modules and not (mod in self.modules and self._has(mod, attr)):
                return ("mod", sub)
            if mod in self.modules:
                return self.resolve(mod, attr)
            return ("ext", f"{mod}.{attr}")
        if f"{modname}.{name}" in self.modules:
            return ("mod", f"{modname}.{name}")
        if name in ("__name__", "__package__", "__file__"):
            return ("var", modname, name)
        return ("builtin", name)

    def _has(self, mod, attr):
        m = self.modules[mod]
        return attr in m.classes or attr in m.funcs or attr in m.assigns or attr in m.imports

    def module_ref(self, name):
        if name in self.modules:
            return ("mod", name)
        return ("ext", name)

    # -------------------------------------------------------------- classes
    def bases(self, cq):
        c = self.classes.get(cq)
        if c is None:
            return []
        out = []
        for b in c.base_exprs:
            r = self.static_ref(b, c.module.name)
            if r and r[0] in ("cls", "ext", "builtin"):
                out.append(r[1])
        return out

    def static_ref(self, node, modname):
        """resolve Name / Attribute expressions to a program entity"""
        if isinstance(node, ast.Name):
            return self.resolve(modname, node.id)
        if isinstance(node, ast.Attribute):
            b = self.static_ref(node.value, modname)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve(b[1], node.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "cls":
                q = f"{b[1]}.{node.attr}"
                if q in self.classes:
                    return ("cls", q)
                return ("clsattr", b[1], node.attr)
        if isinstance(node, ast.Subscript):
            return self.static_ref(node.value, modname)
        return None

    def mro(self, cq):
        if cq in self._mro_cache:
            return self._mro_cache[cq]
        out = [cq]
        for b in self.bases(cq):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        self._mro_cache[cq] = out
        return out

    def find_method(self, cq, name):
        for q in self.mro(cq):
            c = self.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def find_class_const(self, cq, name):
        for q in self.mro(cq):
            c = self.classes.get(q)
            if c is None:
                continue
            if name in c.consts:
                return c, c.consts[name]
            if name in c.fields and c.fields[name][1] is not None:
                return c, c.fields[name][1]
        return None

    def all_fields(self, cq):
        """dataclass-style fields in definition order: name -> (ann, default, Class)"""
        out = {}
        for q in reversed(self.mro(cq)):
            c = self.classes.get(q)
            if c is None:
                continue
            for n, (a, d) in c.fields.items():
                out[n] = (a, d, c)
        return out

    def is_subclass(self, a, b):
        return b in self.mro(a)

    # -------------------------------------------------------------- types
    def ann(self, node, modname, cls=None):
        """annotation expression -> type term"""
        if node is None:
            return ANY
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ty("None")
            if isinstance(node.value, str):
                try:
                    return self.ann(ast.parse(node.value, mode="eval").body, modname, cls)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return union(self.ann(node.left, modname, cls), self.ann(node.right, modname, cls))
        if isinstance(node, ast.Subscript):
            base = self.ann(node.value, modname, cls)
            sl = node.slice
            args = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            n = base.args[0]
            if n == "Literal":
                vals = {type(a.value).__name__ for a in args if isinstance(a, ast.Constant)}
                return ty(vals.pop()) if len(vals) == 1 else ANY
            if n == "Optional":
                return union(self.ann(args[0], modname, cls), ty("None"))
            if n in ("Union0",):
                r = self.ann(args[0], modname, cls)
                for a in args[1:]:
                    r = union(r, self.ann(a, modname, cls))
                return r
            if n == "Final" or n == "ClassVar" or n == "Annotated":
                return self.ann(args[0], modname, cls)
            if n == "type":
                return ty("type", self.ann(args[0], modname, cls))
            if n == "Callable":
                r = self.ann(args[-1], modname, cls) if len(args) > 1 else ANY
                return ty("Callable", r)
            targs = []
            for a in args:
                if isinstance(a, ast.Constant) and a.value is Ellipsis:
                    continue
                targs.append(self.ann(a, modname, cls))
            if n == "Generator":
                targs = targs[:1]
            if n == "re.Match" or n == "re.Pattern":
                return ty(n)
            return ty(n, *targs)
        ref = self.static_ref(node, modname)
        if ref is None:
            return ANY
        k = ref[0]
        if k == "cls":
            q = ref[1]
            c = self.classes[q]
            if any(self.static_ref(b, c.module.name) in (("ext", "typing.TypedDict"),) for b in c.base_exprs):
                return ty("dict", ty("str"), ANY)
            return ty(q)
        if k == "var":
            m = self.modules[ref[1]]
            v = m.assigns.get(ref[2])
            if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                return self.ann(v, ref[1])
            if isinstance(v, ast.Call):
                f = self.static_ref(v.func, ref[1])
                if f == ("ext", "typing.TypedDict"):
                    return ty("dict", ty("str"), ANY)
            return ANY
        if k == "builtin":
            n = ref[1]
            if n in ("object",):
                return ANY
            return ty(n)
        if k == "ext":
            n = ref[1]
            short = n.rsplit(".", 1)[-1]
            if n in ("typing.Any",):
                return ANY
            if n in ("typing.Self", "typing_extensions.Self"):
                return ty(cls.qual) if cls else ANY
            if n == "typing.Union":
                return ty("Union0")
            if n.startswith(("collections.abc.", "typing.", "collections.")):
                return ty(short)
            if n == "pathlib.Path":
                return ty("Path")
            if n in ("re.Match", "re.Pattern"):
                return ty(n)
            if n.startswith("typing") and short.isupper():
                return ANY
            return ty(n)
        return ANY


def union(a, b):
    parts = []
    for x in (a, b):
        for y in (x.args[1:] if x.args[0] == "Union" else [x]):
            if y not in parts:
                parts.append(y)
    if any(p.args[0] == "Any" for p in parts):
        return ANY
    if len(parts) == 1:
        return parts[0]
    parts.sort(key=lambda t: (t.args[0] == "None", t.key))
    return ty("Union", *parts)


def version_test(test):
    """True / False for  sys.version_info >= (...)  and TYPE_CHECKING tests, else None"""
    if isinstance(test, ast.Compare) and isinstance(test.left, ast.Attribute) and test.left.attr == "version_info":
        return isinstance(test.ops[0], (ast.Gt, ast.GtE))
    return None
