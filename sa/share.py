"""Ownership dataflow: which containers in a result are the caller's own, and which of the caller's containers are modified.

An abstract value is
  IMM                    cannot be modified (or: no container of interest)
  ANY                    unknown
  Ext(type)              an object the caller owns, with its annotated type; `path` says where it came from
  New(kind, elems, keys) a container made here: join of its elements, and the values under constant keys
  Obj(cls, fields)       an object of a class of the package made here
Functions of the package are followed with the abstract arguments they are given (bounded depth); loop bodies are joined.
"""
from __future__ import annotations

import ast
import os

MUTATE = {"append", "extend", "insert", "appendleft", "add", "update", "setdefault", "pop", "popitem", "remove", "discard", "clear", "sort", "reverse",
          "difference_update", "intersection_update", "symmetric_difference_update"}
IMMUTABLE = {"str", "int", "float", "bool", "bytes", "None", "NoneType", "Path", "PurePath", "Pattern", "Match", "frozenset", "Literal", "Version", "Requirement", "Specifier",
             "Callable", "type", "Enum", "EntryPoint", "complex", "range"}
CONTAINERS = {"list": "list", "List": "list", "Sequence": "list", "MutableSequence": "list", "dict": "dict", "Dict": "dict", "Mapping": "dict", "MutableMapping": "dict",
              "set": "set", "Set": "set", "AbstractSet": "set", "Iterable": "iter", "Iterator": "iter", "Generator": "iter", "Collection": "list", "tuple": "tuple", "Tuple": "tuple",
              "defaultdict": "dict", "deque": "list"}


class V:
    pass


class Const(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


IMM, ANY = Const("immutable"), Const("unknown")


class Ext(V):
    def __init__(self, typ, path):
        self.typ, self.path = typ, path

    def __repr__(self):
        return f"Ext({self.path})"


class New(V):
    def __init__(self, kind, elem=None, keys=None, at=None):
        self.kind, self.elem, self.keys, self.at = kind, elem, dict(keys or {}), at
        self.complete = keys is not None      # the constant keys are all there is

    def __repr__(self):
        return f"New({self.kind},{self.elem},{self.keys})"

    def all(self):
        return [x for x in (self.elem, *self.keys.values()) if x is not None]


class Obj(V):
    def __init__(self, cls):
        self.cls, self.fields = cls, {}

    def __repr__(self):
        return f"Obj({self.cls},{self.fields})"


class Pair(V):
    """fixed-length tuple"""

    def __init__(self, items):
        self.items = list(items)


class Fn(V):
    def __init__(self, node, module, env, qual):
        self.node, self.module, self.env, self.qual = node, module, env, qual


def join(*vs):
    vs = [v for v in vs if v is not None]
    out = None
    for v in vs:
        out = _join(out, v)
    return out


def _join(a, b):
    if a is None or a is b:
        return b
    if b is None:
        return a
    if isinstance(a, Union):
        return Union([*a.alts, *(b.alts if isinstance(b, Union) else [b])])
    if isinstance(b, Union):
        return Union([a, *b.alts])
    if a is IMM or b is IMM:
        return b if a is IMM else a
    return Union([a, b])


class Union(V):
    def __init__(self, alts):
        out = []
        for a in alts:
            if not any(a is o or (isinstance(a, Ext) and isinstance(o, Ext) and a.path == o.path) for o in out):
                out.append(a)
        self.alts = out

    def __repr__(self):
        return f"Union({self.alts})"


def alts(v):
    if v is None:
        return []
    return v.alts if isinstance(v, Union) else [v]


class Return(Exception):
    pass


class Share:
    KEPT = frozenset({"variantlib.configuration.VariantConfiguration.get_config"})

    def __init__(self, p, depth=6):
        self.p = p
        self.mutations = []      # (where, path)
        self.unknown = []
        self.depth = depth
        self.calls = 0
        self.functions = set()
        self.stack = []

    # ------------------------------------------------------------------ types
    def base(self, a, mod):
        """annotation -> (name, args) without None"""
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(a, ast.Constant) and a.value is None:
            return ("None", [])
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            xs = [x for x in (self.base(a.left, mod), self.base(a.right, mod)) if x is None or x[0] != "None"]
            if len(xs) == 1:
                return xs[0]
            if any(x is None for x in xs):
                return None
            return next((x for x in xs if self.mutable(x) is not False), xs[0] if xs else ("None", []))
        if isinstance(a, ast.Subscript):
            n = a.value.id if isinstance(a.value, ast.Name) else a.value.attr if isinstance(a.value, ast.Attribute) else ""
            args = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            if n in ("Optional", "Final", "ClassVar", "Annotated"):
                return self.base(args[0], mod)
            return (n, [(x, mod) for x in args])
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.p.static_ref(a, mod)
            if r and r[0] == "cls":
                return (r[1], [])
            if r and r[0] == "var":
                m = self.p.modules.get(r[1])
                v = m.assigns.get(r[2]) if m else None
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript, ast.BinOp)):
                    return self.base(v, r[1])
                return None
            n = a.id if isinstance(a, ast.Name) else a.attr
            return (n, [])
        return None

    def typ(self, a, mod):
        return self.base(a, mod)

    def mutable(self, t):
        """True / False / None (unknown)"""
        if t is None:
            return None
        n, args = t
        if n in IMMUTABLE:
            return False
        if n in ("tuple", "Tuple"):
            ks = [self.mutable(self.base(x, m)) for x, m in args if not (isinstance(x, ast.Constant) and x.value is Ellipsis)]
            return True if True in ks else None if None in ks else False
        if n in CONTAINERS:
            return True
        c = self.p.classes.get(n)
        if c is not None:
            for q in self.p.mro(n):
                k = self.p.classes.get(q)
                if k is not None and k.dc is not None and k.dc.get("frozen"):
                    return False
                if q in ("enum.Enum", "typing.Protocol"):
                    return False
            return True
        return None

    def ext(self, t, path):
        if self.mutable(t) is False and not self.holder(t):
            return IMM
        return Ext(t, path)

    def holder(self, t):
        """an unmodifiable object of the package with containers in its fields"""
        c = self.p.classes.get(t[0]) if t else None
        if c is None or not any(self.p.classes[q].dc is not None for q in self.p.mro(t[0]) if q in self.p.classes):
            return False
        return any(self.typ(a, k.module.name) and CONTAINERS.get(self.typ(a, k.module.name)[0]) for a, d, k in self.p.all_fields(t[0]).values())

    def elem_type(self, t, i=-1):
        if t is None or not t[1]:
            return None
        if i >= len(t[1]):
            return None
        x, m = t[1][i]
        return self.base(x, m)

    # ----------------------------------------------------------------- access
    def elements(self, v, n):
        """what iterating gives"""
        out = None
        for a in alts(v):
            if a is ANY or a is IMM:
                out = join(out, a)
            elif isinstance(a, Ext):
                if a.typ and CONTAINERS.get(a.typ[0]) == "dict":
                    out = join(out, self.ext(self.elem_type(a.typ, 0), a.path + "[key]"))
                elif a.typ and CONTAINERS.get(a.typ[0]):
                    out = join(out, self.ext(self.elem_type(a.typ, 0 if a.typ[0] in ("Generator", "tuple", "Tuple") else -1), a.path + "[…]"))
                else:
                    out = join(out, ANY)
            elif isinstance(a, New):
                if a.kind == "dict":
                    out = join(out, IMM)
                else:
                    out = join(out, *a.all()) if a.all() else join(out, IMM)
            elif isinstance(a, Pair):
                out = join(out, *a.items)
            else:
                out = join(out, ANY)
        return out

    def values(self, v):
        out = None
        for a in alts(v):
            if isinstance(a, Ext):
                out = join(out, self.ext(self.elem_type(a.typ), a.path + "[…]") if a.typ and CONTAINERS.get(a.typ[0]) == "dict" else ANY)
            elif isinstance(a, New):
                out = join(out, *a.all()) if a.all() else join(out, IMM)
            else:
                out = join(out, a if a is IMM else ANY)
        return out

    def item(self, v, key=None):
        out = None
        for a in alts(v):
            if isinstance(a, New):
                if isinstance(key, str) and key in a.keys:
                    out = join(out, a.keys[key])
                else:
                    out = join(out, *a.all()) if a.all() else join(out, IMM)
            elif isinstance(a, Ext):
                if a.typ and CONTAINERS.get(a.typ[0]):
                    out = join(out, self.ext(self.elem_type(a.typ), a.path + "[…]"))
                else:
                    out = join(out, ANY)
            elif isinstance(a, Pair):
                out = join(out, a.items[key] if isinstance(key, int) and -len(a.items) <= key < len(a.items) else join(*a.items))
            else:
                out = join(out, a)
        return out

    def attr(self, v, name, n):
        out = None
        for a in alts(v):
            if isinstance(a, Obj):
                if name in a.fields:
                    out = join(out, a.fields[name])
                    continue
                out = join(out, self.prop(a, a.cls, name, n))
            elif isinstance(a, Ext) and a.typ and a.typ[0] in self.p.classes:
                f = self.p.all_fields(a.typ[0]).get(name) if True else None
                if f is not None:
                    out = join(out, self.ext(self.typ(f[0], f[2].module.name), f"{a.path}.{name}"))
                else:
                    out = join(out, self.prop(a, a.typ[0], name, n))
            elif a is IMM:
                out = join(out, IMM)
            else:
                out = join(out, ANY)
        return out

    def prop(self, v, cls, name, n):
        for q in self.p.mro(cls):
            f = self.p.funcs.get(f"{q}.{name}")
            if f is not None:
                if any("property" in ast.unparse(d) for d in f.decorators):
                    return self.call_func(f, [v], {}, n)
                return ANY
        return ANY

    # ------------------------------------------------------------ mutation
    def mutate(self, v, n, where):
        for a in alts(v):
            if isinstance(a, Ext):
                self.mutations.append((self.at(n), a.path, where))

    def at(self, n):
        m, q = self.stack[-1] if self.stack else (None, "?")
        return f"{os.path.relpath(m.path, self.p.root)}:{getattr(n, 'lineno', 0)} ({q})"

    def put(self, v, x, key=None):
        for a in alts(v):
            if isinstance(a, New):
                if isinstance(key, str):
                    a.keys[key] = join(a.keys.get(key), x)
                else:
                    a.elem = join(a.elem, x)
                    a.complete = False

    # --------------------------------------------------------------- functions
    def call_func(self, f, args, kwargs, n, extra=None):
        if len(self.stack) >= self.depth or any(q == f.qual for _, q in self.stack):
            return ANY
        self.calls += 1
        self.functions.add(f.qual)
        if any(x in ast.unparse(d) for d in f.decorators for x in ("lru_cache", "functools.cache", "cached_property")) or f.qual in self.KEPT:
            # what is returned is kept and returned again
            return self.ext(self.typ(f.node.returns, f.module.name), f"{f.qual}()")
        env = self.bind(f.node, f.module.name, args, kwargs, f.cls)
        return self.body(f.node, f.module, f.qual, env, f.cls, f.is_generator)

    def bind(self, fn, mod, args, kwargs, cls=None):
        env = {}
        a = fn.args
        pos = [*a.posonlyargs, *a.args]
        args = list(args)
        for i, x in enumerate(pos):
            if i < len(args):
                env[x.arg] = args[i]
            elif x.arg in kwargs:
                env[x.arg] = kwargs[x.arg]
            else:
                env[x.arg] = kwargs.get("**", IMM)
        if a.vararg is not None:
            rest = args[len(pos):]
            env[a.vararg.arg] = New("tuple", join(*rest) if rest else None)
        for x in a.kwonlyargs:
            env[x.arg] = kwargs.get(x.arg, kwargs.get("**", IMM))
        if a.kwarg is not None:
            names = {x.arg for x in (*pos, *a.kwonlyargs)}
            env[a.kwarg.arg] = New("dict", None, {k: v for k, v in kwargs.items() if k not in names and k != "**"})
        return env

    def body(self, fn, module, qual, env, cls, gen):
        outer = getattr(self, "fr", None)
        self.stack.append((module, qual))
        self.fr = {"env": env, "ret": None, "yield": None, "mod": module.name, "module": module, "cls": cls, "qual": qual, "narrow": {}}
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(fn.body)
            self.block(fn.body)
            fr = self.fr
            if gen:
                return New("iter", fr["yield"])
            return fr["ret"] if fr["ret"] is not None else IMM
        finally:
            self.fr = outer
            self.stack.pop()

    # --------------------------------------------------------------- statements
    def block(self, stmts):
        """True when the end cannot be reached"""
        for s in stmts:
            if self.stmt(s):
                return True
        return False

    def merge(self, bodies):
        env = self.fr["env"]
        outs = []
        for b in bodies:
            self.fr["env"] = dict(env)
            if not self.block(b):
                outs.append(self.fr["env"])
        if not outs:
            return True
        keys = set().union(*outs)
        self.fr["env"] = {k: join(*[o[k] for o in outs if k in o]) for k in keys}
        return False

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.fr["env"][s.name] = Fn(s, self.fr["module"], self.fr["env"], f"{self.fr['qual']}.{s.name}")
        return False

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else IMM
        self.fr["ret"] = join(self.fr["ret"], v)
        return True

    def s_Raise(self, s):
        return True

    def s_Break(self, s):
        return False

    s_Continue = s_Break

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        v = self.ev(s.value)
        t = s.target
        old = self.ev(ast.Name(t.id, ast.Load())) if isinstance(t, ast.Name) else self.attr(self.ev(t.value), t.attr, s) if isinstance(t, ast.Attribute) else self.item(self.ev(t.value), self.key(t.slice))
        self.mutate(old, s, "modified in place")      # += on a list modifies it
        for a in alts(old):
            if isinstance(a, New):
                for x in alts(v):
                    a.elem = join(a.elem, self.values(x) if a.kind == "dict" else self.elements(x, s))
        if isinstance(t, ast.Subscript):
            self.mutate(self.ev(t.value), s, "modified in place") if not alts(old) or old is IMM else None

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value), s, "an item is deleted")

    def s_If(self, s):
        self.ev(s.test)
        took = self.test(s.test)
        if took is True:
            return self.block(s.body)
        if took is False:
            return self.block(s.orelse)
        return self.merge([s.body, s.orelse])

    def test(self, t):
        """isinstance and None tests on values of known shape"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2:
            v = self.ev(t.args[0])
            vs = alts(v)
            want = self.p.static_ref(t.args[1], self.fr["mod"])
            if want and want[0] == "cls" and vs and all(isinstance(a, (Ext, Obj)) for a in vs):
                cs = [a.cls if isinstance(a, Obj) else a.typ[0] if a.typ else None for a in vs]
                if all(c and want[1] in self.p.mro(c) for c in cs if c in self.p.classes) and all(c in self.p.classes for c in cs):
                    return True
        return None

    def s_For(self, s):
        it = self.ev(s.iter)
        start = dict(self.fr["env"])
        for _ in (0, 1):
            self.assign(s.target, self.elements(it, s))
            self.block(s.body)
            env = self.fr["env"]
            self.fr["env"] = {k: join(start.get(k), env.get(k)) for k in {*start, *env}}
        self.block(s.orelse)

    def s_While(self, s):
        start = dict(self.fr["env"])
        for _ in (0, 1):
            self.ev(s.test)
            self.block(s.body)
            env = self.fr["env"]
            self.fr["env"] = {k: join(start.get(k), env.get(k)) for k in {*start, *env}}
        self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        return self.block(s.body)

    def s_Try(self, s):
        if self.merge([[*s.body, *s.orelse], *[h.body for h in s.handlers]]):
            self.block(s.finalbody)
            return True
        return self.block(s.finalbody)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.fr["env"][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                star = isinstance(x, ast.Starred)
                self.assign(x.value if star else x, New("list", self.elements(v, t)) if star else self.item(v, i) if any(isinstance(a, Pair) for a in alts(v)) else self.elements(v, t))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            for a in alts(o):
                if isinstance(a, Obj):
                    setter = next((self.p.funcs[f"{q}.{t.attr}.setter"] for q in self.p.mro(a.cls) if f"{q}.{t.attr}.setter" in self.p.funcs), None)
                    if setter is not None:
                        self.call_func(setter, [a, v], {}, t)
                    else:
                        a.fields[t.attr] = join(v)
                elif isinstance(a, Ext):
                    self.mutations.append((self.at(t), f"{a.path}.{t.attr}", "assigned"))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.mutate(o, t, "an item is set")
            self.put(o, v, self.key(t.slice))

    def key(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and isinstance(n.operand.value, int):
            return -n.operand.value
        r = self.p.static_ref(n, self.fr["mod"]) if isinstance(n, (ast.Name, ast.Attribute)) and not (isinstance(n, ast.Name) and n.id in self.fr["env"]) else None
        if r and r[0] == "var":
            v = self.p.modules[r[1]].assigns.get(r[2]) if r[1] in self.p.modules else None
            if isinstance(v, ast.Constant):
                return v.value
        return None

    # -------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None:
            return IMM
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return IMM

    def e_Name(self, n):
        if n.id in self.fr["env"]:
            v = self.fr["env"][n.id]
            return v if v is not None else IMM
        r = self.p.resolve(self.fr["mod"], n.id)
        if r and r[0] == "var":
            v = self.p.modules[r[1]].assigns.get(r[2]) if r[1] in self.p.modules else None
            kind = {ast.Dict: "dict", ast.List: "list", ast.Set: "set", ast.DictComp: "dict", ast.ListComp: "list", ast.SetComp: "set"}.get(type(v))
            return Ext((kind, []), f"module variable {n.id}") if kind else IMM
        return ANY

    def e_Lambda(self, n):
        return Fn(n, self.fr["module"], self.fr["env"], self.fr["qual"])

    def e_Attribute(self, n):
        r = self.p.static_ref(n, self.fr["mod"]) if not self.is_local(n) else None
        if r is not None and r[0] in ("ext", "func", "cls", "var", "mod", "clsattr"):
            return IMM
        return self.attr(self.ev(n.value), n.attr, n)

    def is_local(self, n):
        while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
            n = n.func if isinstance(n, ast.Call) else n.value
        return not isinstance(n, ast.Name) or n.id in self.fr["env"]

    def e_Subscript(self, n):
        v = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return New("list", self.elements(v, n))
        self.ev(n.slice)
        return self.item(v, self.key(n.slice))

    def e_Tuple(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return New("tuple", join(*[self.elements(self.ev(x.value), n) if isinstance(x, ast.Starred) else self.ev(x) for x in n.elts]))
        return Pair([self.ev(x) for x in n.elts])

    def e_List(self, n, kind="list"):
        return New(kind, join(*[self.elements(self.ev(x.value), n) if isinstance(x, ast.Starred) else self.ev(x) for x in n.elts]))

    def e_Set(self, n):
        return self.e_List(n, "set")

    def e_Dict(self, n):
        out = New("dict", None, {})
        for k, v in zip(n.keys, n.values):
            x = self.ev(v)
            if k is None:
                for a in alts(x):
                    if isinstance(a, New):
                        out.elem = join(out.elem, a.elem)
                        for kk, vv in a.keys.items():
                            out.keys[kk] = vv
                        out.complete = out.complete and a.complete
                    else:
                        out.elem = join(out.elem, self.values(a))
                        out.complete = False
            else:
                c = self.key(k)
                if isinstance(c, str):
                    out.keys[c] = x
                else:
                    out.elem = join(out.elem, x)
                    out.complete = False
        return out

    def comp(self, n, make):
        saved = dict(self.fr["env"])
        for g in n.generators:
            self.assign(g.target, self.elements(self.ev(g.iter), n))
            for c in g.ifs:
                self.ev(c)
        r = make()
        self.fr["env"] = saved
        return r

    def e_ListComp(self, n, kind="list"):
        return self.comp(n, lambda: New(kind, self.ev(n.elt)))

    def e_SetComp(self, n):
        return self.e_ListComp(n, "set")

    def e_GeneratorExp(self, n):
        return self.e_ListComp(n, "iter")

    def e_DictComp(self, n):
        def make():
            self.ev(n.key)
            return New("dict", self.ev(n.value))
        return self.comp(n, make)

    def e_IfExp(self, n):
        self.ev(n.test)
        return join(self.ev(n.body), self.ev(n.orelse))

    def e_BoolOp(self, n):
        return join(*[self.ev(v) for v in n.values])

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if all(x is IMM for x in (*alts(a), *alts(b))):
            return IMM
        kind = next((x.kind for x in alts(a) if isinstance(x, New)), None) or next((CONTAINERS.get(x.typ[0]) for x in alts(a) if isinstance(x, Ext) and x.typ), None) or "list"
        if kind == "dict":
            out = New("dict", None)
            for x in (*alts(a), *alts(b)):
                if isinstance(x, New):
                    out.elem = join(out.elem, x.elem)
                    out.keys.update(x.keys)
                else:
                    out.elem = join(out.elem, self.values(x))
            return out
        return New(kind, join(self.elements(a, n), self.elements(b, n)))

    def e_Starred(self, n):
        return self.ev(n.value)

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else IMM
        self.fr["yield"] = join(self.fr["yield"], v)
        return IMM

    def e_YieldFrom(self, n):
        self.fr["yield"] = join(self.fr["yield"], self.elements(self.ev(n.value), n))
        return IMM

    # -------------------------------------------------------------------- calls
    def args(self, n):
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                pos.extend(v.items if isinstance(v, Pair) else [self.elements(v, n)])
            else:
                pos.append(self.ev(a))
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                for a in alts(v):
                    if isinstance(a, New):
                        kw.update(a.keys)
                        if a.elem is not None:
                            kw["**"] = join(kw.get("**"), a.elem)
                    else:
                        kw["**"] = join(kw.get("**"), self.values(a) if isinstance(a, Ext) else ANY)
        return pos, kw

    def deep(self, v):
        return New("list") if v is not IMM else IMM

    def shallow(self, v, kind, n):
        out = New(kind)
        for a in alts(v):
            if isinstance(a, New) and a.kind == kind:
                out.elem = join(out.elem, a.elem)
                out.keys.update(a.keys)
            elif kind == "dict":
                x = self.values(a) if not (isinstance(a, New) and a.kind != "dict") else self.item(self.elements(a, n), 1)
                out.elem = join(out.elem, x)
            else:
                out.elem = join(out.elem, self.elements(a, n))
        return out

    def e_Call(self, n):
        f = n.func
        local = self.is_local(f)
        ref = None if local else self.p.static_ref(f, self.fr["mod"])
        name = ref[1] if ref and ref[0] in ("ext", "builtin") else None
        # super().__init__(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            pos, kw = self.args(n)
            me = self.fr["env"].get("self") or self.fr["env"].get("cls")
            return self.super_call(f.attr, me, pos, kw, n)
        pos, kw = self.args(n)
        if name is not None:
            r = self.builtin(name, pos, kw, n)
            if r is not None:
                return r
            return ANY if name not in ("print",) else IMM
        if ref and ref[0] == "cls":
            return self.construct(ref[1], pos, kw, n)
        if ref and ref[0] == "func":
            return self.call_func(self.p.funcs[ref[1]], pos, kw, n)
        if ref and ref[0] == "clsattr":
            for q in self.p.mro(ref[1]):
                g = self.p.funcs.get(f"{q}.{ref[2]}")
                if g is not None:
                    deco = {d.id for d in g.decorators if isinstance(d, ast.Name)}
                    return self.call_func(g, pos if "staticmethod" in deco else [IMM, *pos] if "classmethod" in deco else pos, kw, n)
            return ANY
        if isinstance(f, ast.Name) and f.id in self.fr["env"]:
            out = None
            for a in alts(self.fr["env"][f.id]):
                out = join(out, self.call_value(a, pos, kw, n))
            return out
        if isinstance(f, ast.Attribute):
            return self.method(self.ev(f.value), f.attr, pos, kw, n)
        return ANY

    def call_value(self, a, pos, kw, n):
        if isinstance(a, Fn):
            if len(self.stack) >= self.depth:
                return ANY
            env = {**a.env, **self.bind(a.node, a.module.name, pos, kw)}
            from .project import has_yield
            return self.body(a.node, a.module, a.qual, env, None, has_yield(a.node) if not isinstance(a.node, ast.Lambda) else False)
        return ANY

    def super_call(self, meth, me, pos, kw, n):
        cls = self.fr["cls"]
        for a in alts(me):
            if not isinstance(a, Obj) or cls is None:
                continue
            mro = self.p.mro(a.cls)
            i = mro.index(cls.qual) if cls.qual in mro else -1
            for q in mro[i + 1:]:
                g = self.p.funcs.get(f"{q}.{meth}")
                if g is not None:
                    return self.call_func(g, [a, *pos], kw, n)
                c = self.p.classes.get(q)
                if meth == "__init__" and c is not None and c.dc is not None and c.dc.get("init", True):
                    self.fill(a, q, pos, kw, n)
                    return IMM
        return ANY

    def fill(self, o, cls, pos, kw, n):
        """generated initializer of a dataclass"""
        for i, name in enumerate(self.p.all_fields(cls)):
            if i < len(pos):
                o.fields[name] = pos[i]
            elif name in kw:
                o.fields[name] = kw[name]
            elif "**" in kw:
                o.fields[name] = kw["**"]
            else:
                o.fields[name] = New("list")

    def construct(self, cls, pos, kw, n):
        c = self.p.classes[cls]
        if self.mutable((cls, [])) is False and c.dc is not None:
            return IMM
        o = Obj(cls)
        for q in self.p.mro(cls):
            g = self.p.funcs.get(f"{q}.__init__")
            if g is not None:
                self.call_func(g, [o, *pos], kw, n)
                return o
            k = self.p.classes.get(q)
            if k is not None and k.dc is not None and k.dc.get("init", True):
                self.fill(o, q, pos, kw, n)
                return o
        return o

    def builtin(self, name, pos, kw, n):
        a = pos[0] if pos else None
        if name in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset", "collections.deque", "filter", "itertools.chain.from_iterable"):
            src = pos[1] if name == "filter" and len(pos) > 1 else a
            if src is None:
                return New("set" if "set" in name else "list")
            el = self.elements(src, n)
            if name == "itertools.chain.from_iterable":
                el = self.elements(el, n)
            return New("set" if "set" in name else "list" if name != "tuple" else "tuple", el)
        if name in ("dict", "collections.OrderedDict", "collections.defaultdict"):
            if name.endswith("defaultdict"):
                a = pos[1] if len(pos) > 1 else None
            out = self.shallow(a, "dict", n) if a is not None else New("dict", None, {})
            for k, v in kw.items():
                if k == "**":
                    out.elem = join(out.elem, v)
                else:
                    out.keys[k] = v
            return out
        if name == "copy.deepcopy":
            return New("list") if a is not IMM else IMM
        if name == "copy.copy":
            out = None
            for x in alts(a):
                if isinstance(x, Ext) and x.typ and x.typ[0] in self.p.classes:
                    out = join(out, self.replace(x, {}, n))
                elif isinstance(x, (Ext, New)):
                    kind = x.kind if isinstance(x, New) else CONTAINERS.get(x.typ[0]) if x.typ else None
                    out = join(out, self.shallow(x, kind, n) if kind else ANY)
                else:
                    out = join(out, x if x is IMM else ANY)
            return out
        if name == "dataclasses.asdict":
            return New("dict")
        if name == "dataclasses.replace":
            return join(*[self.replace(x, kw, n) for x in alts(a)])
        if name in ("enumerate",):
            return New("iter", Pair([IMM, self.elements(a, n)]))
        if name == "zip":
            return New("iter", Pair([self.elements(x, n) for x in pos]))
        if name in ("itertools.chain",):
            return New("iter", join(*[self.elements(x, n) for x in pos]))
        if name == "itertools.groupby":
            return New("iter", Pair([IMM, New("iter", self.elements(a, n))]))
        if name == "map" and len(pos) == 2:
            v = join(*[self.call_value(x, [self.elements(pos[1], n)], {}, n) for x in alts(a)])
            if a is ANY and isinstance(n.args[0], ast.Name) and n.args[0].id in ("list", "dict", "set", "sorted", "tuple"):
                v = self.builtin(n.args[0].id, [self.elements(pos[1], n)], {}, n)
            return New("iter", v)
        if name == "next":
            return join(self.elements(a, n), *pos[1:])
        if name in ("max", "min"):
            return self.elements(a, n) if len(pos) == 1 else join(*pos)
        if name == "getattr" and len(n.args) >= 2:
            k = self.key(n.args[1])
            if isinstance(k, str):
                return join(self.attr(a, k, n), *pos[2:])
            out = ANY
            for x in alts(a):
                if isinstance(x, Ext):
                    return Union([ANY, Ext(None, f"{x.path}.?")])
            return out
        if name in ("setattr", "object.__setattr__") and len(n.args) == 3:
            k = self.key(n.args[1])
            for x in alts(a):
                if isinstance(x, Obj):
                    if isinstance(k, str):
                        x.fields[k] = pos[2]
                    else:
                        x.fields["?"] = join(x.fields.get("?"), pos[2])
                elif isinstance(x, Ext):
                    self.mutations.append((self.at(n), f"{x.path}.{k}", "assigned"))
            return IMM
        if name == "vars" and a is not None:
            return join(*[New("dict", Ext(None, f"{x.path}.?")) if isinstance(x, Ext) else ANY for x in alts(a)])
        if name in ("len", "str", "repr", "int", "bool", "any", "all", "sum", "isinstance", "hash", "id", "type", "print", "issubclass", "callable", "hasattr", "json.dumps", "json.loads",
                    "range", "format", "ord", "chr", "bytes", "abs", "typing.TypeVar"):
            return IMM if name != "json.loads" else New("dict")
        if name == "typing.cast" and len(pos) == 2:
            return pos[1]
        return None

    def replace(self, x, kw, n):
        if isinstance(x, Ext) and x.typ and x.typ[0] in self.p.classes:
            o = Obj(x.typ[0])
            for name, (a, d, c) in self.p.all_fields(x.typ[0]).items():
                o.fields[name] = kw[name] if name in kw else self.ext(self.typ(a, c.module.name), f"{x.path}.{name}")
            return o
        if isinstance(x, Obj):
            o = Obj(x.cls)
            o.fields.update(x.fields)
            o.fields.update(kw)
            return o
        return x if x is IMM else ANY

    def method(self, v, name, pos, kw, n):
        out = None
        for a in alts(v):
            out = join(out, self.method1(a, name, pos, kw, n))
        return out if out is not None else IMM

    def method1(self, a, name, pos, kw, n):
        kind = a.kind if isinstance(a, New) else CONTAINERS.get(a.typ[0]) if isinstance(a, Ext) and a.typ else None
        if isinstance(a, Pair) and name in ("count", "index"):
            return IMM
        if kind is not None:
            if name == "copy":
                return self.shallow(a, kind, n)
            if name == "items":
                return New("iter", Pair([IMM, self.values(a)]))
            if name == "values":
                return New("iter", self.values(a))
            if name == "keys":
                return New("iter", IMM)
            if name in ("get", "pop", "setdefault", "popitem"):
                key = self.key(n.args[0]) if n.args else None
                if name != "get":
                    self.mutate(a, n, f".{name}()")
                if name == "setdefault":
                    d = pos[1] if len(pos) > 1 else IMM
                    got = self.item(a, key)
                    self.put(a, d, key)
                    return join(got, d)
                if kind in ("list", "set") and name == "pop":
                    return self.elements(a, n)
                return join(self.item(a, key), *pos[1:])
            if name in MUTATE:
                self.mutate(a, n, f".{name}()")
                if isinstance(a, New):
                    if name in ("append", "add", "appendleft"):
                        a.elem = join(a.elem, *pos)
                    elif name == "insert":
                        a.elem = join(a.elem, *pos[1:])
                    elif name in ("extend", "update", "difference_update", "intersection_update", "symmetric_difference_update"):
                        for x in pos:
                            if kind == "dict":
                                for y in alts(x):
                                    if isinstance(y, New) and y.kind == "dict":
                                        a.elem = join(a.elem, y.elem)
                                        for k, w in y.keys.items():
                                            a.keys[k] = join(a.keys.get(k), w)
                                    elif isinstance(y, New):
                                        a.elem = join(a.elem, self.item(self.elements(y, n), 1))
                                    else:
                                        a.elem = join(a.elem, self.values(y))
                            else:
                                a.elem = join(a.elem, self.elements(x, n))
                        for k, w in kw.items():
                            a.keys[k] = join(a.keys.get(k), w)
                return IMM
            if name in ("union", "intersection", "difference", "symmetric_difference"):
                return New("set", join(self.elements(a, n), *[self.elements(x, n) for x in pos]))
            if name == "fromkeys":
                return New("dict", pos[1] if len(pos) > 1 else IMM)
            return IMM
        cls = a.cls if isinstance(a, Obj) else a.typ[0] if isinstance(a, Ext) and a.typ else None
        if cls in self.p.classes:
            for q in self.p.mro(cls):
                g = self.p.funcs.get(f"{q}.{name}")
                if g is not None:
                    deco = {d.id for d in g.decorators if isinstance(d, ast.Name)}
                    return self.call_func(g, pos if "staticmethod" in deco else [IMM, *pos] if "classmethod" in deco else [a, *pos], kw, n)
            if name == "__init__":
                return IMM
            return ANY
        if a is IMM:
            return IMM
        return ANY


def reachable(v, what="", seen=None, depth=0):
    """(path inside the result, abstract leaf) of everything a result holds"""
    if depth > 12:
        return
    for a in alts(v):
        if isinstance(a, (Ext,)) or a is ANY:
            yield what, a
        elif isinstance(a, New):
            if a.elem is not None:
                yield from reachable(a.elem, what + "[…]", seen, depth + 1)
            for k, x in a.keys.items():
                yield from reachable(x, f"{what}[{k!r}]", seen, depth + 1)
        elif isinstance(a, Obj):
            for k, x in a.fields.items():
                yield from reachable(x, f"{what}.{k}", seen, depth + 1)
        elif isinstance(a, Pair):
            for i, x in enumerate(a.items):
                yield from reachable(x, f"{what}[{i}]", seen, depth + 1)
