"""Order-dependence dataflow: no result or output takes its order from a set, a directory listing or an object's identity.

Flow-sensitive inside a function (statement order, branches joined, loop bodies twice), with summaries for the package's own functions.
"""
import ast
import os

from sa.check import custom

SET, SEQ = "set", "order"      # an unordered container / something whose order (or choice) came from one
LISTING = {"os.listdir", "os.scandir", "os.walk", "os.fwalk", "glob.glob", "glob.iglob", "importlib.metadata.packages_distributions", "importlib.metadata.distributions"}
LISTING_METHODS = {"glob", "rglob", "iterdir"}
RANDOM = ("random.", "secrets.", "uuid.", "os.urandom", "time.time", "time.monotonic", "time.perf_counter", "os.getpid", "datetime.datetime.now", "datetime.datetime.utcnow",
          "datetime.datetime.today", "datetime.date.today")
CLEAN = {"sorted", "min", "max", "sum", "any", "all", "len", "bool", "isinstance", "hash", "id", "type", "hasattr", "callable"}
CARRY = {"list", "tuple", "iter", "enumerate", "reversed", "map", "filter", "zip", "next", "str", "repr", "dict", "bytes"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
KEEP_METHODS = {"copy", "items", "keys", "values", "format", "encode", "strip", "join", "replace", "split", "splitlines"}
OUT_METHODS = {"append", "extend", "insert", "appendleft", "setdefault", "update", "write", "writelines"}
QUIET = {"debug", "info", "warning", "error", "exception", "critical", "warn", "log"}
IDENTITY = {"hash", "id", "feature_hash", "property_hash", "provider_hash", "__hash__"}


def _set_annotation(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.BinOp):
        return _set_annotation(a.left) or _set_annotation(a.right)
    if isinstance(a, ast.Subscript):
        a = a.value
    n = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else ""
    return n in ("set", "frozenset", "Set", "FrozenSet", "AbstractSet", "MutableSet")


def join(a, b):
    return SEQ if SEQ in (a, b) else a or b


class Walk:
    def __init__(self, lint, f):
        self.l, self.f, self.mod = lint, f, f.module.name
        self.ret = None
        self.st = {}
        self.loops = []        # iterating something unordered: the loop's variables
        self.why = {}
        self.alias = {}        # local -> variable it is a part of
        a = f.node.args
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
            if x.annotation is not None and _set_annotation(x.annotation):
                self.st[x.arg] = SET

    # ------------------------------------------------------------ expressions
    def ref(self, n):
        if isinstance(n, ast.Name) and n.id in self.st:
            return None
        return self.l.p.static_ref(n, self.mod)

    def ev(self, n):
        if n is None or isinstance(n, (ast.Constant, ast.Lambda)):
            return None
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is not None:
            return m(n)
        k = None
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                k = join(k, SEQ if self.ev(c) == SEQ else None)
        return k

    def e_Name(self, n):
        return self.st.get(n.id)

    def e_Attribute(self, n):
        k = self.ev(n.value)
        if n.attr in self.l.set_fields:
            return SET
        if isinstance(n.value, ast.Name) and n.value.id in ("self", "cls") and n.attr in self.l.attrs:
            return self.l.attrs[n.attr]
        return SEQ if k == SEQ else None

    def e_Set(self, n):
        for x in n.elts:
            self.ev(x)
        return SET

    def comp(self, n, *outs):
        src = None
        saved = dict(self.st)
        for g in n.generators:
            src = join(src, self.ev(g.iter))
            self.bind(g.target, None)
            for c in g.ifs:
                self.ev(c)
        inner = None
        for o in outs:
            inner = join(inner, SEQ if self.ev(o) == SEQ else None)
        self.st = saved
        return SEQ if src else inner

    def e_SetComp(self, n):
        self.comp(n, n.elt)
        return SET

    def e_ListComp(self, n):
        return self.comp(n, n.elt)

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n):
        return self.comp(n, n.key, n.value)

    def e_Compare(self, n):
        self.ev(n.left)
        for c in n.comparators:
            self.ev(c)
        return None

    def e_BoolOp(self, n):
        k = None
        for v in n.values:
            k = join(k, self.ev(v))
        return k

    def e_IfExp(self, n):
        self.ev(n.test)
        return join(self.ev(n.body), self.ev(n.orelse))

    def e_UnaryOp(self, n):
        k = self.ev(n.operand)
        return None if isinstance(n.op, ast.Not) else k

    def e_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if SET in (a, b) or self.keys(n.left) or self.keys(n.right):
                return SET
        return join(SEQ if a == SEQ else None, SEQ if b == SEQ else None)

    @staticmethod
    def keys(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("keys", "items") and not n.args

    def e_NamedExpr(self, n):
        k = self.ev(n.value)
        self.bind(n.target, k, n.value)
        return k

    def e_Starred(self, n):
        return SEQ if self.ev(n.value) else None

    def e_FormattedValue(self, n):
        return SEQ if self.ev(n.value) else None

    def e_JoinedStr(self, n):
        k = None
        for v in n.values:
            k = join(k, self.ev(v))
        return k

    def e_Subscript(self, n):
        self.ev(n.slice)
        return SEQ if self.ev(n.value) == SEQ else None

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        k = self.ev(n.value) if n.value else None
        if k or self.loops:
            self.found(n, SEQ)
        return None

    def e_YieldFrom(self, n):
        if self.ev(n.value):
            self.found(n, SEQ)
        return None

    def e_Call(self, n):
        args = [*n.args, *(k.value for k in n.keywords)]
        ref = self.ref(n.func)
        name = ref[1] if ref and ref[0] in ("ext", "builtin") else None
        ks = [self.ev(a) for a in args]
        worst = SEQ if any(ks) else None
        self.l.facts += 1
        if ref and ref[0] == "builtin":
            if name in ("set", "frozenset"):
                return SET
            if name == "sorted":
                key = next((k.value for k in n.keywords if k.arg == "key"), None)
                return SEQ if key is not None and self.identity(key) else None
            if name in CLEAN:
                return None
            if name == "print":
                self.sink(n, worst, "printed")
                return None
            if name in CARRY:
                return worst
        if name in LISTING:
            return SEQ
        if name and name.startswith(RANDOM):
            return SEQ
        if name in ("json.dumps", "json.dump"):
            k = ks[0] if ks else None
            if name == "json.dump":
                self.sink(n, k, "written")
                return None
            return SEQ if k else None
        if ref and ref[0] == "func":
            return self.own(n, ref[1], ks)
        if ref and ref[0] == "cls":
            if SEQ in ks and not self.l.indifferent(ref[1] + ".__init__", self.given(n, ks, 1), ref[1]):
                if self.l.is_data(ref[1]):
                    self.l.bad.add((self.at(n), f"what is stored in {ref[1]} here takes its order from a set, a directory listing or an object's identity", f"{self.f.qual}:{ref[1]}"))
                else:
                    self.l.into.append((self.at(n), f"a value of unspecified order is given to {ref[1]}"))
            return None
        if len(n.args) == 3 and (name == "setattr" or ast.unparse(n.func) == "object.__setattr__"):
            if ks[2] == SEQ and isinstance(n.args[0], ast.Name):
                attr = n.args[1].value if isinstance(n.args[1], ast.Constant) else "?"
                self.into(ast.copy_location(ast.Attribute(n.args[0], attr, ast.Store()), n), n, "attribute")
            return None
        if isinstance(n.func, ast.Attribute):
            k = self.ev(n.func.value)
            a = n.func.attr
            if a in SET_METHODS and k == SET:
                return SET
            if a == "copy" and k == SET:
                return SET
            if a == "pop" and k == SET:
                return SEQ
            if a in LISTING_METHODS and ref is None and self.pathlike(n):
                return SEQ
            if a == "sort":
                if isinstance(n.func.value, ast.Name):
                    key = next((x.value for x in n.keywords if x.arg == "key"), None)
                    self.st[n.func.value.id] = SEQ if key is not None and self.identity(key) else None
                return None
            if a in QUIET and self.is_logger(n.func.value):
                return None
            if a in OUT_METHODS:
                taint = worst if a in ("extend", "write", "writelines") or a == "update" and k != SET else SEQ if SEQ in ks else None
                if self.loops and k != SET:
                    taint = SEQ
                if taint and k != SET:
                    self.into(n.func.value, n, a)
                return None
            if a in ("write_text", "write_bytes", "writestr"):
                self.sink(n, worst or (SEQ if self.loops else None), "written")
                return None
            if a in KEEP_METHODS or a in ("from_iterable",):
                return SEQ if worst or k == SEQ or (k == SET and a != "copy" and a not in ("keys", "items", "values")) else None
            # a method of this package?
            own = self.l.methods.get(a)
            if own and len(own) == 1:
                return self.own(n, own[0], ks)
            return SEQ if k == SEQ and a in ("pop", "get", "group") else None
        if name and name.startswith("itertools."):
            return worst
        return None

    def is_logger(self, n):
        return "log" in ast.unparse(n).lower() or "pars" in ast.unparse(n).lower()

    def pathlike(self, n):
        return True

    def identity(self, key):
        return any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) in IDENTITY for x in ast.walk(key))

    def own(self, n, qual, ks):
        f = self.l.p.funcs.get(qual)
        if f is None:
            return None
        if SEQ in ks:
            bound = f.cls is not None and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorators)
            if not self.l.indifferent(qual, self.given(n, ks, int(bound)), None):
                self.l.into.append((self.at(n), f"a value of unspecified order is given to {qual}"))
        return self.l.summary(qual)

    def given(self, n, ks, skip):
        """parameters (positions, names) that get a value of unspecified order"""
        return ([i + skip for i in range(len(n.args)) if ks[i] == SEQ], [k.arg for i, k in enumerate(n.keywords) if ks[len(n.args) + i] == SEQ])

    # -------------------------------------------------------------- reporting
    def at(self, n):
        return f"{os.path.relpath(self.f.module.path, self.l.p.root)}:{n.lineno} ({self.f.qual})"

    def found(self, n, k):
        self.ret = join(self.ret, k)
        self.why.setdefault("ret", self.at(n))

    def sink(self, n, k, how):
        if k or self.loops:
            self.l.bad.add((self.at(n), f"what is {how} here takes its order from a set, a directory listing or an object's identity", f"{self.f.qual}:{how}"))

    def into(self, target, n, how):
        if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == "self" and self.l.stored is not None:
            self.l.stored.add(target.attr)
            return
        if isinstance(target, ast.Name):
            if target.id in self.st or target.id in self.local:
                if self.st.get(target.id) != SET:
                    self.st[target.id] = SEQ
                if target.id not in self.alias:
                    return
        root = target
        while isinstance(root, ast.Name) and root.id in self.alias:
            root = self.alias[root.id]
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.func if isinstance(root, ast.Call) else root.value
        if isinstance(root, ast.Name) and root.id in self.local and root.id not in ("self", "cls") and root.id not in self.params:
            if self.st.get(root.id) != SET:
                self.st[root.id] = SEQ
            return
        if isinstance(target, ast.Attribute) and target.attr == "stdout" or how == "write":
            self.sink(n, SEQ, "written")
            return
        self.l.bad.add((self.at(n), "what is stored here takes its order from a set, a directory listing or an object's identity", f"{self.f.qual}:{how}"))

    # ------------------------------------------------------------- statements
    def bind(self, t, k, v=None):
        if isinstance(t, ast.Name):
            self.alias.pop(t.id, None)
            root = v
            while isinstance(root, (ast.Attribute, ast.Subscript)) or isinstance(root, ast.Call) and isinstance(root.func, ast.Attribute) and root.func.attr in ("setdefault", "get"):
                root = root.func.value if isinstance(root, ast.Call) else root.value
            if root is not v and isinstance(root, ast.Name) and root.id != t.id:
                self.alias[t.id] = self.alias.get(root.id, root)
            self.st[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, SEQ if k == SEQ else None)
        elif isinstance(t, ast.Subscript):
            if k == SEQ or self.loops:
                if not (isinstance(t.value, ast.Name) and self.st.get(t.value.id) == SET):
                    self.into(t.value, t, "item")
        elif isinstance(t, ast.Attribute):
            if k == SEQ:
                self.into(t, t, "attribute")

    def stmts(self, xs):
        for s in xs:
            self.stmt(s)

    def branch(self, *bodies):
        start = dict(self.st)
        outs = []
        for b in bodies:
            self.st = dict(start)
            self.stmts(b)
            outs.append(self.st)
        keys = set().union(*outs)
        self.st = {k: None for k in keys}
        for o in outs:
            for k in keys:
                self.st[k] = join(self.st[k], o.get(k))

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            k = self.ev(s.value)
            for t in s.targets:
                self.bind(t, k, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            k = self.ev(s.value)
            if isinstance(s.target, ast.Name):
                have = self.st.get(s.target.id)
                if have != SET and (k or self.loops and not isinstance(s.value, ast.Constant)):
                    self.st[s.target.id] = SEQ
            else:
                have = self.ev(s.target)
                if have != SET and k:
                    self.into(s.target, s, "item")
        elif isinstance(s, ast.Return):
            if s.value is not None:
                k = self.ev(s.value)
                if k:
                    self.found(s, k)
                elif any(isinstance(x, ast.Name) and x.id in v for v in self.loops for x in ast.walk(s.value)):
                    self.found(s, SEQ)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            k = self.ev(s.iter)
            names = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            if k:
                self.loops.append(names)
            for _ in (0, 1):
                start = dict(self.st)
                self.bind(s.target, None)
                self.stmts(s.body)
                for n, v in start.items():
                    self.st[n] = join(v, self.st.get(n))
            if k:
                self.loops.pop()
                if any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b)):
                    for n in names:
                        self.st[n] = SEQ
            self.stmts(s.orelse)
        elif isinstance(s, ast.While):
            for _ in (0, 1):
                start = dict(self.st)
                self.ev(s.test)
                self.stmts(s.body)
                for n, v in start.items():
                    self.st[n] = join(v, self.st.get(n))
            self.stmts(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.branch(s.body, s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                k = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, SEQ if k == SEQ else None)
            self.stmts(s.body)
        elif isinstance(s, ast.Try):
            self.stmts(s.body)
            self.branch(*([h.body for h in s.handlers] + [s.orelse or []]))
            self.stmts(s.finalbody)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.branch(*[c.body for c in s.cases], [])
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, (ast.Raise, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.Break, ast.Continue, ast.ClassDef)):
            pass
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            w = Walk(self.l, type(self.f)(f"{self.f.qual}.{s.name}", s, self.f.module, self.f.cls))
            w.st.update({k: v for k, v in self.st.items() if v and k not in w.st})
            w.run()
            self.st[s.name] = None

    def run(self):
        n = self.f.node
        self.params = {x.arg for x in (*n.args.posonlyargs, *n.args.args, *n.args.kwonlyargs)}
        self.local = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.stmts(n.body)
        return self.ret


class Lint:
    def __init__(self, p):
        self.p = p
        self.bad = set()
        self.into = []
        self.facts = 0
        self.memo = {}
        self.attrs = {}
        self.stored = None     # collected attributes, when asked for
        self.given_memo = {}
        sets, others = set(), set()
        for c in p.classes.values():
            if c.module.name.startswith("spec."):
                continue
            for n, (a, _) in c.fields.items():
                (sets if a is not None and _set_annotation(a) else others).add(n)
        self.set_fields = sets - others
        self.methods = {}
        for q, f in p.funcs.items():
            if f.cls is not None and not f.module.name.startswith("spec."):
                self.methods.setdefault(f.node.name, []).append(q)

    def is_data(self, cls):
        return any(self.p.classes[q].dc is not None for q in self.p.mro(cls) if q in self.p.classes) and not any(f"{q}.__init__" in self.p.funcs for q in self.p.mro(cls))

    def indifferent(self, qual, given, cls):
        """the function (constructor of cls) treats these parameters as sets: no order reaches a result, an output or a stored value that is used that way"""
        k = (qual, str(given))
        if k in self.given_memo:
            return self.given_memo[k]
        self.given_memo[k] = False
        self.given_memo[k] = r = self._indifferent(qual, given, cls)
        return r

    def _indifferent(self, qual, given, cls):
        f = self.p.funcs.get(qual)
        for q in self.p.mro(cls) if cls else ():
            f = f or self.p.funcs.get(f"{q}.__init__")
        if f is None:
            return cls is not None and self._sorts(cls, given)
        names = [x.arg for x in (*f.node.args.posonlyargs, *f.node.args.args)]
        if None in given[1] or any(i >= len(names) for i in given[0]):
            return False
        tainted = {*(names[i] for i in given[0]), *given[1]}
        sub = Lint(self.p)
        sub.given_memo = self.given_memo
        sub.stored = set()
        w = Walk(sub, f)
        for t in tainted:
            w.st[t] = SEQ
        if w.run() == SEQ or sub.bad or sub.into:
            return False
        if sub.stored:
            if cls is None:
                return False
            sub.attrs = dict.fromkeys(sub.stored, SEQ)
            known = set(sub.stored)
            family = [c for c in self.p.classes if cls in self.p.mro(c) or c in self.p.mro(cls)]
            for q, g in self.p.funcs.items():
                if g.cls is not None and g.cls.qual in family and q != qual:
                    w = Walk(sub, g)
                    if w.run() == SEQ or sub.bad or sub.into or sub.stored != known:
                        return False
        return True

    def _sorts(self, cls, given):
        """a dataclass that brings the field into an order of its own when it is made"""
        fields = list(self.p.all_fields(cls))
        try:
            names = {*(fields[i - 1] for i in given[0]), *given[1]}
        except IndexError:
            return False
        for q in self.p.mro(cls):
            f = self.p.funcs.get(f"{q}.__post_init__")
            for n in ast.walk(f.node) if f else ():
                if isinstance(n, ast.Call) and ast.unparse(n.func) == "object.__setattr__" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) \
                        and isinstance(n.args[2], ast.Call) and isinstance(n.args[2].func, ast.Name) and n.args[2].func.id == "sorted" and not n.args[2].keywords:
                    names.discard(n.args[1].value)
        return not names

    def summary(self, qual):
        if qual not in self.memo:
            self.memo[qual] = None
            f = self.p.funcs[qual]
            w = Walk(self, f)
            self.memo[qual] = w.run()
            if self.memo[qual] == SEQ and not f.node.name.startswith("_"):
                self.bad.add((w.why.get("ret", w.at(f.node)), "the result takes its order from a set, a directory listing or an object's identity", f"{qual}:result"))
        return self.memo[qual]


@custom("order.flow", "no result, stored value or output takes its order (or a choice among elements) from a set, a directory listing, a random or time source or an object's identity; error and log messages excepted")
def order_flow(p, r):
    lint = Lint(p)
    for q, f in sorted(p.funcs.items()):
        if not f.module.name.startswith("spec."):
            lint.summary(q)
            r.functions.add(q)
    r.facts += lint.facts
    for at, msg, key in sorted(lint.bad):
        r.violate(at, msg, key)
    for at, msg in sorted(set(lint.into)):
        r.unsure(f"{at}: {msg}")
