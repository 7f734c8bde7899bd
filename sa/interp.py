"""Abstract evaluation of functions into value-graph summaries.

There is no path enumeration and nothing is executed: a function body is
translated, statement by statement, into one value graph.  Branches are joined
immediately (decision tables), loops are summarised by a closed form
(comprehension, existential, first match, ...) or, failing that, by an explicit
`fold` node.  Calls to project functions are summarised in place.
"""
from __future__ import annotations

import ast
import builtins
import itertools

from . import terms as tm
from .project import Func
from .project import has_yield
from .terms import *  # noqa: F403
from .terms import ANY, BOOL, EMPTY, FALSE, INT, NONE, STR, TRUE, BYTES, T, mk


class Unsupported(Exception):
    def __init__(self, what, node=None, module=None):
        self.node = node
        loc = f" at {module}:{getattr(node, 'lineno', '?')}" if node is not None else ""
        super().__init__(f"{what}{loc}")


class State:
    __slots__ = ("env", "heap", "live")

    def __init__(self, env, heap, live=TRUE):
        self.env = env
        self.heap = heap
        self.live = live

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.live)


class Exit:
    __slots__ = ("guard", "kind", "value", "env", "heap", "node")

    def __init__(self, guard, kind, value, env, heap, node=None):
        self.guard = guard
        self.kind = kind
        self.value = value
        self.env = env
        self.heap = heap
        self.node = node


class Frame:
    def __init__(self, func, module, cls=None, selfv=None, parent_env=None, name=""):
        self.func = func
        self.module = module      # Module
        self.cls = cls            # Class (for super())
        self.selfv = selfv
        self.exits = []
        self.yield_loc = None
        self.yield_hook = None
        self.parent_env = parent_env or {}
        self.name = name


class Closure:
    def __init__(self, node, env, frame, defaults):
        self.node = node
        self.env = env
        self.frame = frame
        self.defaults = defaults


class Summary:
    """result of analysing one function"""

    def __init__(self):
        self.value = None
        self.raises = []      # [(guard, exception name, node, value)]
        self.live = TRUE      # condition of normal completion
        self.heap = {}
        self.heap0 = {}
        self.params = {}
        self.functions = set()

    def raise_guard(self, pred=None):
        return or_(*[g for g, e, *_ in self.raises if pred is None or pred(e)])

    def ok(self):
        return not_(self.raise_guard())


FX = mk("chan", "fx")

LOG_METHODS = {"debug", "info", "warning", "error", "exception", "critical", "log", "setLevel", "addHandler", "flush"}

EFFECT_METHODS = {
    "write", "writestr", "write_text", "write_bytes", "writelines", "unlink", "mkdir", "rename", "rmdir",
    "touch", "install", "open", "close", "extractall", "extract", "load", "dump", "setFormatter", "truncate",
}
EFFECT_FUNCS = {
    "subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.call",
    "shutil.copyfileobj", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.rmtree", "shutil.move",
    "os.remove", "os.unlink", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.system", "print",
    "json.dump", "tomlkit.dump", "sys.exit", "exit", "exec", "eval", "setattr", "delattr", "os.environ.update",
    "importlib.import_module", "__import__", "open", "zipfile.ZipFile",
}
TOTAL = {
    "len", "isinstance", "str", "repr", "bool", "list", "tuple", "dict", "set", "sorted", "hash", "type",
    "getattr", "m:strip", "m:lower", "m:encode", "m:startswith", "m:endswith", "m:to_str", "m:join", "m:replace",
    "m:items", "m:keys", "m:values", "m:get", "m:add_argument", "m:name", "pathlib.Path", "m:copy", "m:union",
    "m:difference", "m:partition", "m:rstrip", "m:lstrip", "m:exists", "m:is_file", "m:is_dir", "m:splitlines",
    "m:namelist", "m:infolist", "format", "cast", "typing.cast", "m:fullmatch", "m:match", "m:search", "m:group",
    "re.fullmatch", "m:split", "m:rsplit", "m:rpartition", "m:decode",
}


# operating system level calls: they raise OS or value errors, never a library's own classes
OS_CALLS = {
    "open", "m:open", "m:read_text", "m:read_bytes", "m:write_text", "m:write_bytes", "m:mkdir", "m:unlink",
    "m:iterdir", "m:glob", "m:rglob", "m:stat", "m:resolve", "m:touch", "m:rename", "os.getcwd", "os.environ",
    "pathlib.Path.cwd", "pathlib.Path.home",
}


class StopFolds:
    """a loop that may be left early, as a fold whose state has a mark saying at which exit it stopped"""

    def __init__(self, I, src, v, changed, phis, nxt, exits, pre_env, pre_heap, fz):
        self.I, self.src, self.v, self.changed, self.phis, self.nxt = I, src, v, changed, phis, nxt
        self.pre_env, self.pre_heap = pre_env, pre_heap
        self.guards = [e.guard for e in exits]
        self.snaps = [(dict(e.env), dict(e.heap)) for e in exits]
        self.fz = fz
        self.mark = fv(INT)

    def _cur(self, i, k):
        env, heap = self.snaps[i]
        c = env.get(k[1]) if k[0] == "env" else heap.get(k[1])
        return self.phis[k][1] if c is None else self.fz(c, State(env, heap))

    def _step(self, k):
        run = eq(self.mark, const(0))
        gE = or_(*self.guards)
        if k == "mark":
            stay, at, go = self.mark, [const(i + 1) for i in range(len(self.guards))], const(0)
        elif k[0] == "value":
            stay, go = k[3], k[3]
            at = [k[2] if i == k[1] else k[3] for i in range(len(self.guards))]
        else:
            stay, at, go = self.phis[k][1], [self._cur(i, k) for i in range(len(self.guards))], self.nxt[k]
        return cases([(not_(run), stay), *[(and_(run, g), a) for g, a in zip(self.guards, at)], (and_(run, not_(gE)), go)])

    def _fold(self, k):
        var = lambda q: self.mark if q == "mark" else q[3] if q[0] == "value" else self.phis[q][2]  # noqa: E731
        by_id = {self.phis[q][2].args[0]: q for q in self.changed}
        by_id[self.mark.args[0]] = "mark"
        steps = {}
        order = [k]
        i = 0
        while i < len(order):
            q = order[i]
            steps[q] = self._step(q)
            for f in sorted((f for f in steps[q].free if f in by_id), key=lambda f: (by_id[f] == "mark", list(by_id).index(f))):
                if by_id[f] not in order:
                    order.append(by_id[f])
            i += 1
        bodies = []
        for q in order:
            b = replace(steps[q], {})
            for z in reversed(order):
                b = lam(var(z), b)
            bodies.append(lam(self.v, b))
        init = lambda q: const(0) if q == "mark" else NONE if q[0] == "value" else self.I._init(self.pre_env, self.pre_heap, q) or NONE  # noqa: E731
        return tuple(init(q) for q in order), tuple(bodies)

    def stopped(self, i):
        return eq(mk("fold", INT, self.src, *self._fold("mark")), const(i + 1))

    def exit_value(self, i, val):
        p = fv(typeof(val))
        return mk("fold", typeof(val), self.src, *self._fold(("value", i, val, p)))

    def value(self, k):
        kind = self.phis[k][0]
        inits, bodies = self._fold(k)
        if kind == "list":
            return mk("list", iter_of(mk("fold", ty("list", ANY), self.src, inits, bodies)))
        if kind == "set":
            return mk_set(iter_of(mk("fold", ty("set", ANY), self.src, inits, bodies)))
        if kind == "dict":
            x = fv()
            return mk("dict", mk_b(mk("fold", ty("evlog"), self.src, inits, bodies), x, unit(x)))
        return mk("fold", typeof(inits[0]), self.src, inits, bodies)


class Config:
    def __init__(self, opaque=(), inline_ctor=(), models=None, ext_models=None, method_models=None,
                 opaque_attrs=(), inline_depth=12, keep_asserts=False, quiet_log=True, copies=False,
                 opaque_pred=None, effects=(), mutates=None, cm_models=None, soft=False):
        # soft: an uncaught exception is recorded as a rejection condition and does not end the path; only the
        # disjunction of all rejection conditions per class is observed, which does not depend on their order
        self.soft = soft
        self.cm_models = dict(cm_models or {})
        self.opaque = set(opaque) | set(effects) | set(mutates or ())
        self.effects = set(effects)           # opaque calls that are recorded as effects
        self.mutates = dict(mutates or {})    # opaque calls and the parameters whose content they change
        self.inline_ctor = set(inline_ctor)
        self.models = dict(models or {})
        self.ext_models = dict(ext_models or {})
        self.method_models = dict(method_models or {})
        self.opaque_attrs = set(opaque_attrs)
        self.inline_depth = inline_depth
        self.keep_asserts = keep_asserts
        self.copies = copies
        self.opaque_pred = opaque_pred


class Interp:
    def __init__(self, project, config=None):
        self.p = project
        self.cfg = config or Config()
        self.ids = itertools.count(1)
        self.tags = []
        self.closures = {}
        self.stack = []
        self.handlers = []       # dynamic stack of sets of caught exception names
        self.functions = set()
        self.gconst = {}
        self.defaultkind = {}    # ref -> factory closure / term for defaultdict
        self.trace_calls = []    # (qual, node, module)
        self.hashobjs = {}
        self.cli_args = []      # (parser or group, names, keywords, node) of add_argument
        self.cli_groups = 0
        self.outside = []         # path conditions outside the current loop or try body
        self.cli_ns = {}        # namespace object -> parsed command line
        self.trust_types = True
        self.pathkinds = {}      # (dict object, path length) -> kinds of the containers stored there
        tm.ATTR_TYPE = self.attr_type
        tm.TYPE_CB = self.call_type
        tm._ty_cache.clear()
        self._register_dataclasses()

    # ---------------------------------------------------------------- setup
    def _register_dataclasses(self):
        tm.DATACLASS_EQ.clear()
        for q, c in self.p.classes.items():
            if any(self.p.classes[x].dc is not None for x in self.p.mro(q) if x in self.p.classes):
                own = c
                while own is not None and own.dc is None:
                    nxt = [x for x in self.p.mro(own.qual)[1:] if x in self.p.classes]
                    own = self.p.classes[nxt[0]] if nxt else None
                if own is not None and own.dc.get("eq", True) and not self.p.find_method(q, "__eq__"):
                    tm.DATACLASS_EQ[q] = tuple(n for n, (a, d, _) in self.p.all_fields(q).items()
                                               if not self._is_classvar(a))
            if not self.p.find_method(q, "__len__") and not self.p.find_method(q, "__bool__"):
                tm.KNOWN_TRUTHY.add(q)

    @staticmethod
    def _is_classvar(a):
        return isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "ClassVar"

    EXT_ATTR = {
        ("Path", "name"): STR, ("Path", "parent"): ty("Path"), ("Path", "suffix"): STR, ("Path", "stem"): STR,
        ("zipfile.ZipInfo", "filename"): STR,
        ("importlib.metadata.EntryPoint", "name"): STR, ("importlib.metadata.EntryPoint", "value"): STR,
        ("importlib.metadata.EntryPoint", "dist"): optional(ty("importlib.metadata.Distribution")),
        ("importlib.metadata.Distribution", "name"): STR, ("importlib.metadata.Distribution", "version"): STR,
        ("packaging.version.Version", "major"): INT, ("packaging.version.Version", "minor"): INT,
        ("packaging.version.Version", "micro"): INT, ("packaging.version.Version", "release"): ty("tuple", INT),
        ("packaging.requirements.Requirement", "name"): STR,
        ("re.Pattern", "pattern"): STR,
    }

    def attr_type(self, typ, name):
        typ = strip_none(typ)
        q = typ.args[0]
        if (q, name) in self.EXT_ATTR:
            return self.EXT_ATTR[(q, name)]
        if q == "Union":
            rs = {self.attr_type(a, name) for a in typ.args[1:]}
            return rs.pop() if len(rs) == 1 else None
        if q in self.p.classes:
            for k in self.p.mro(q):
                c = self.p.classes.get(k)
                if c is None:
                    continue
                if name in c.fields:
                    return self.p.ann(c.fields[name][0], c.module.name, c)
                if name in c.methods:
                    f = c.methods[name]
                    if is_property(f):
                        return self.p.ann(f.node.returns, f.module.name, self.p.classes[q])
                    return ty("method")
            # attributes assigned in __init__
            f = self.p.find_method(q, "__init__")
            if f is not None:
                anns = {a.arg: a.annotation for a in f.node.args.args + f.node.args.kwonlyargs}
                for s in ast.walk(f.node):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) \
                            and s.targets[0].attr == name and isinstance(s.value, ast.Name) and s.value.id in anns:
                        return self.p.ann(anns[s.value.id], f.module.name, f.cls)
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and s.target.attr == name:
                        return self.p.ann(s.annotation, f.module.name, f.cls)
        return None

    def call_type(self, t):
        n = t.args[0]
        f = self.p.funcs.get(n)
        if f is not None:
            r = self.p.ann(f.node.returns, f.module.name, f.cls)
            if f.is_generator and r.args[0] in ("Generator", "Iterator", "Iterable"):
                return ty("list", *r.args[1:2])
            return r
        if n.startswith("new:"):
            return ty(n[4:])
        if n.startswith("m:"):
            m = n[2:]
            if m in ("strip", "lower", "upper", "lstrip", "rstrip", "replace", "format", "join", "removesuffix",
                     "removeprefix", "title", "casefold"):
                rt = strip_none(typeof(t.args[1][0])) if t.args[1] else ANY
                return BYTES if rt is BYTES else STR
            if m in ("decode", "read_text", "hexdigest"):
                return STR
            if m in ("encode", "read_bytes", "digest"):
                return BYTES
            if m in ("startswith", "endswith", "exists", "is_file", "is_dir", "isdigit", "issubset", "isdisjoint", "samefile"):
                return BOOL
            if m in ("split", "rsplit", "splitlines"):
                rt = strip_none(typeof(t.args[1][0])) if t.args[1] else ANY
                return ty("list", BYTES if rt is BYTES else STR)
            if m in ("partition", "rpartition"):
                rt = strip_none(typeof(t.args[1][0])) if t.args[1] else ANY
                e = BYTES if rt is BYTES else STR
                return ty("tuple", e, e, e)
            if m in ("fullmatch", "match", "search"):
                return optional(ty("re.Match"))
            if m == "namelist":
                return ty("list", STR)
            if m == "infolist":
                return ty("list", ty("zipfile.ZipInfo"))
            if m in ("group",):
                return optional(STR)
            if m == "index":
                return INT
        if n in ("re.fullmatch", "re.match", "re.search"):
            return optional(ty("re.Match"))
        return self.EXT_RET.get(n)

    EXT_RET = {
        "str": STR, "repr": STR, "int": INT, "json.dumps": STR, "format": STR,
        "pathlib.Path": ty("Path"), "packaging.utils.canonicalize_name": STR,
        "packaging.version.Version": ty("packaging.version.Version"),
        "packaging.requirements.Requirement": ty("packaging.requirements.Requirement"),
        "os.environ.get": optional(STR), "min": INT, "max": INT, "sum": INT,
        "sha256": BYTES, "encode": BYTES, "base64.urlsafe_b64encode": BYTES,
        "id": INT, "Path./": ty("Path"), "groupby": ty("list", ty("tuple", ANY, ty("list", ANY))),
        "importlib.metadata.distributions": ty("list", ty("importlib.metadata.Distribution")),
        "entry_points": ANY,
    }

    # ------------------------------------------------------------- entities
    def get_func(self, qual):
        f = self.p.funcs.get(qual)
        if f is None:
            # re-exported / inherited ?
            mod, _, name = qual.rpartition(".")
            if mod in self.p.modules:
                r = self.p.resolve(mod, name)
                if r[0] == "func":
                    return self.p.funcs[r[1]]
            if mod in self.p.classes:
                return self.p.find_method(mod, name)
        return f

    # --------------------------------------------------------- entry points
    def summarize(self, qual, args=None, heap=None, types=None, self_type=None):
        """summary of a function with symbolic parameters"""
        f = self.get_func(qual) if isinstance(qual, str) else qual
        if f is None:
            from .project import AnalysisBroken
            raise AnalysisBroken(f"anchor {qual} not found")
        env = {}
        params = {}
        a = f.node.args
        args = args or {}
        types = types or {}
        allp = a.posonlyargs + a.args + a.kwonlyargs
        static = any(dec_name(d) == "staticmethod" for d in f.decorators)
        for i, p in enumerate(allp):
            if p.arg in args:
                v = args[p.arg]
            elif f.cls is not None and i == 0 and not static:
                if any(dec_name(d) == "classmethod" for d in f.decorators):
                    v = mk("cls", self_type or f.cls.qual)
                else:
                    v = sym(p.arg, ty(self_type or f.cls.qual))
            else:
                typ = types.get(p.arg) or self.p.ann(p.annotation, f.module.name, f.cls)
                v = sym(p.arg, typ)
            env[p.arg] = v
            params[p.arg] = v
        if a.vararg:
            v = args.get(a.vararg.arg)
            if v is None:
                et = self.p.ann(a.vararg.annotation, f.module.name, f.cls)
                v = sym(a.vararg.arg, ty("list", et))
            env[a.vararg.arg] = v
            params[a.vararg.arg] = v
        if a.kwarg:
            v = args.get(a.kwarg.arg)
            if v is None:
                v = sym(a.kwarg.arg, ty("dict", STR, ANY))
            env[a.kwarg.arg] = v
            params[a.kwarg.arg] = v
        st = State({}, dict(heap or {}))
        st.heap.setdefault(FX, mk("list", EMPTY))
        s = Summary()
        s.heap0 = dict(st.heap)
        top = Frame(None, f.module, None, None)
        target = self.decorated(f, st, f.node)
        if target is not None:
            if a.vararg or a.kwarg or a.kwonlyargs:
                raise Unsupported("decorated function with a variadic signature", f.node, f.module.name)
            val = self.apply(target, [params[x.arg] for x in allp], {}, st, top, f.node)
        else:
            val = self.run_function(f, env, st, top, f.node, selfv=params.get(allp[0].arg) if f.cls and allp else None)
        s.value = self.freeze(st, val)
        s.raises = [(e.guard, self.exc_name(e.value), e.node, e.value, e.heap) for e in top.exits if e.kind == "raise"]
        for k, v in list(st.heap.items()):
            if k.op == "chan" and k.args[0].startswith("rejects:"):
                c = self.freeze(st, v)
                c = anyof(*tm.disjuncts(iter_of(c)))
                if c is not FALSE:
                    s.raises.append((c, k.args[0][8:], f.node, mk("exc", k.args[0][8:], ()), st.heap))
        s.live = st.live
        s.heap = st.heap
        s.params = params
        s.functions = set(self.functions)
        s.interp = self
        s.state = st
        return s

    def fx(self, summary):
        return self.freeze(summary.state, summary.heap.get(FX, mk("list", EMPTY)))

    def exc_name(self, v):
        if v.op == "exc":
            return v.args[0]
        return "?"

    # ---------------------------------------------------------- run function
    def run_function(self, f, env, st, caller, node, selfv=None, closure_env=None, name=None):
        """run the body of f with parameters env; st is the caller's state"""
        if isinstance(f, Func):
            self.functions.add(f.qual)
            fr = Frame(f, f.module, f.cls, selfv, name=f.qual)
            body = f.node.body
            gen = f.is_generator
        else:
            fr = Frame(None, f.frame.module, f.frame.cls, f.frame.selfv, parent_env=closure_env, name=f.frame.name + ".<local>")
            body = f.node.body if isinstance(f.node.body, list) else [ast.copy_location(ast.Return(value=f.node.body), f.node)]
            gen = has_yield(f.node)
        inner = State(env, dict(st.heap), TRUE)
        if gen:
            loc = mk("ref", next(self.ids), ANY)
            inner.heap[loc] = mk("list", EMPTY)
            fr.yield_loc = loc
        self.exec_block(body, inner, fr)
        rets = [(e.guard, e.value, e.heap) for e in fr.exits if e.kind == "return"]
        if inner.live is not FALSE:
            rets.append((inner.live, NONE, inner.heap))
        raises = [e for e in fr.exits if e.kind == "raise"]
        through = [e for e in fr.exits if e.kind == "through"]
        live0 = st.live
        callenv = st.env
        for e in raises:
            caller.exits.append(Exit(and_(live0, e.guard), "raise", e.value, dict(callenv), e.heap, e.node or node))
        for e in through:
            caller.exits.append(Exit(and_(live0, e.guard), "through", e.value, dict(callenv), e.heap, e.node or node))
        rg = or_(*[e.guard for e in raises], *[e.guard for e in through])
        if rg is not FALSE:
            st.live = and_(live0, not_(rg))
        if not rets:
            st.live = FALSE
            return mk("undef")
        st.heap = self.merge_heaps([(g, h) for g, v, h in rets])
        if gen:
            v = st.heap.get(fr.yield_loc)
            out = mk("ref", next(self.ids), ANY)
            st.heap[out] = v
            return out
        vals = [(g, v) for g, v, h in rets]
        return self.merge_values(vals)

    def merge_values(self, vals):
        if all(v is vals[0][1] for _, v in vals):
            return vals[0][1]
        return cases(vals)

    def merge_heaps(self, hs):
        if len(hs) == 1:
            return hs[0][1]
        first_h = hs[0][1]
        keys = set()
        for _, h in hs:
            keys.update(h)
        out = {}
        for k in keys:
            vals = []
            for g, h in hs:
                if k in h:
                    vals.append((g, h[k]))
                else:
                    d = self.initial(k)
                    if d is not None:
                        vals.append((g, d))
            if all(v is vals[0][1] for _, v in vals):
                out[k] = vals[0][1]
            else:
                out[k] = cases(vals)
        return out

    def initial(self, loc):
        """content of a location that has not been written"""
        if loc.op == "fld":
            return attr(loc.args[0], loc.args[1])
        if loc.op == "ref":
            return None
        if loc.op == "chan":
            return mk("list", EMPTY)
        return self.symbolic_content(loc)

    def symbolic_content(self, v):
        """container content of a symbolic value as an updatable normal form"""
        n = strip_none(typeof(v)).args[0]
        if n in ("list", "Sequence", "Collection", "Iterable"):
            return mk("list", iter_of(v)) if v.op != "list" else v
        if n in ("set", "frozenset"):
            return mk("set", iter_of(v))
        if n in ("dict", "defaultdict", "Mapping"):
            kt, vt = kv_types(typeof(v))
            x = fv(kt, origin=mk("keys", v))
            return mk("dict", mk_b(mk("keys", v), x, unit(ev("set", (x,), getitem(v, x)))))
        return v

    def merge_states(self, states, outer_live):
        """states: list of State with disjoint relative lives -> single state"""
        states = [s for s in states if s.live is not FALSE]
        if not states:
            return State({}, {}, FALSE)
        if len(states) == 1:
            return states[0]
        heap = self.merge_heaps([(s.live, s.heap) for s in states])
        env = {}
        names = set()
        for s in states:
            names.update(s.env)
        for n in names:
            vals = [(s.live, s.env[n]) for s in states if n in s.env]
            env[n] = self.merge_values(vals)
        return State(env, heap, or_(*[s.live for s in states]))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st.live is FALSE:
                return
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(s).__name__}", s, fr.module.name)
            m(s, st, fr)

    def adopt(self, st, other):
        st.env = other.env
        st.heap = other.heap
        st.live = other.live

    def x_Pass(self, s, st, fr):
        pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            st.env[nm] = self.entity(self.p.module_ref(full))

    def x_ImportFrom(self, s, st, fr):
        for a in s.names:
            mod = s.module or ""
            if s.level:
                pk = fr.module.name.split(".")
                pk = pk[: len(pk) - s.level + (1 if fr.module.path.endswith("__init__.py") else 0)]
                mod = ".".join([*pk, mod]) if mod else ".".join(pk)
            if mod in self.p.modules:
                st.env[a.asname or a.name] = self.entity(self.p.resolve(mod, a.name))
            else:
                st.env[a.asname or a.name] = ext_entity(f"{mod}.{a.name}")

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value, st, fr)
            return
        self.eval(s.value, st, fr, discard=True)

    def do_yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        if fr.yield_hook is not None:
            fr.yield_hook(v, st)
            return NONE
        if isinstance(n, ast.YieldFrom):
            self.extend_loc(fr.yield_loc, self.iter_seq(v, st), st)
        else:
            self.append_loc(fr.yield_loc, v, st)
        return NONE

    def append_loc(self, loc, v, st):
        c = st.heap[loc]
        st.heap[loc] = self.list_extend(c, unit_value(v))

    def extend_loc(self, loc, s, st):
        st.heap[loc] = self.list_extend(st.heap[loc], s)

    def list_extend(self, content, s):
        if content.op == "list":
            return mk("list", cat(content.args[0], s))
        if content.op == "set":
            return mk_set(cat(content.args[0], s))
        return mk("list", cat(iter_of(content), s))

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.eval(s.value, st, fr)
            self.assign(s.target, v, st, fr)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.op == "tuple" and len(v.args) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for e, x in zip(t.elts, v.args):      # the very objects, not copies of what they hold
                    self.assign(e, x, st, fr)
                return
            vv = self.val(st, v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                for j, e in enumerate(t.elts[:i]):
                    self.assign(e, getitem(vv, const(j)), st, fr)
                after = len(t.elts) - i - 1
                self.assign(t.elts[i].value, mk_slice(vv, const(i), const(-after) if after else NONE, NONE), st, fr)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], getitem(vv, const(j - after)), st, fr)
                return
            if vv.op == "call" and vv.args[0] in ("m:split", "m:rsplit") or vv.op in ("list", "tup", "slice"):
                self.partial("ValueError", not_(eq(length(vv), const(len(t.elts)))), st, fr, t)
                if vv.op == "call" and all(x.op == "const" for x in vv.args[1][1:]):
                    tm.UNPACKED.setdefault((vv.args[0], tuple(x.args[1] for x in vv.args[1][1:])), set()).add(len(t.elts))
            for i, e in enumerate(t.elts):
                self.assign(e, self.unpack_item(vv, i), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.set_attr(o, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
            o = self.obj(st, self.eval(t.value, st, fr))
            self.set_slice(o, t.slice, iter_of(self.val(st, v)), st, fr, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.val(st, self.eval(t.slice, st, fr))
            self.set_item(o, k, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported("assignment target", t, fr.module.name)

    def unpack_item(self, v, i):
        return getitem(v, const(i))

    def set_attr(self, o, name, v, st, fr, node):
        o = self.obj(st, o)
        typ = strip_none(typeof(o)).args[0]
        if typ in self.p.classes:
            f = self.p.find_method(typ, f"{name}.setter")
            if f is not None:
                self.call_func(f, [o, v], {}, st, fr, node)
                return
        st.heap[mk("fld", o, name)] = v

    def set_slice(self, o, sl, new, st, fr, node):
        cur = self.content(st, o)
        if sl.step is not None or self.kind_of(st, o) != "list":
            raise Unsupported("slice assignment", node, fr.module.name)
        lo = self.val(st, self.eval(sl.lower, st, fr)) if sl.lower is not None else NONE
        hi = self.val(st, self.eval(sl.upper, st, fr)) if sl.upper is not None else NONE
        if lo is const(0):
            lo = NONE
        if lo is not NONE and hi is not NONE and not (lo.op == hi.op == "const"):
            raise Unsupported("slice assignment", node, fr.module.name)
        head = iter_of(mk_slice(cur, NONE, lo, NONE)) if lo is not NONE else EMPTY
        tail = iter_of(mk_slice(cur, hi, NONE, NONE)) if hi is not NONE else EMPTY
        self.write_content(o, mk("list", cat(head, new, tail)), st)

    def set_item(self, o, k, v, st, fr, node):
        self.update_at(o, (k,), "set", v, st, fr, node)

    def x_AugAssign(self, s, st, fr):
        cur = self.eval(s.target_load if hasattr(s, "target_load") else _load(s.target), st, fr)
        if isinstance(s.op, (ast.Add, ast.BitOr)) and self.is_container(st, cur):
            v = self.eval(s.value, st, fr)
            kind = self.kind_of(st, cur)
            if isinstance(s.op, ast.Add) and kind == "list":
                self.method(cur, "extend", [v], {}, st, fr, s)
                return
            if isinstance(s.op, ast.BitOr) and kind in ("set", "dict"):
                self.method(cur, "update", [v], {}, st, fr, s)
                return
        v = self.eval(s.value, st, fr)
        r = self.binop(s.op, self.val(st, cur), self.val(st, v), st, fr, s)
        self.assign(s.target, r, st, fr)

    def alloc_value(self, v, st):
        """fresh list object holding the value v"""
        return self.alloc(mk("list", iter_of(v)), st)

    def raw_target(self, st, o):
        """follow a path reference to the object actually stored there"""
        if o.op != "pref":
            return o
        base, path = o.args
        c = st.heap.get(base) if base.op == "ref" else self.content(st, base)
        for i, k in enumerate(path):
            if c is None or c.op != "dict":
                return o
            if not c.args[0].args:
                return o
            kinds = tm.ev_kinds(c.args[0])
            if not all(kd in ("set",) and n == 1 for kd, n in kinds):
                return o
            r = dict_lookup(c, k)
            if r.op in ("ref",):
                if i == len(path) - 1:
                    return r
                if self.kind_of(st, r) == "dict":
                    return self.raw_target(st, mk("pref", r, path[i + 1:]))
                return o
            if r.op == "dict":
                c = r
                continue
            return o
        return o

    def dict_item(self, o, k, st):
        """o[k] for a dictionary, keeping a reference into locally built ones"""
        if o.op == "ref":
            return mk("pref", o, (k,))
        if o.op == "pref":
            return mk("pref", o.args[0], o.args[1] + (k,))
        ov = self.val(st, o)
        if o in st.heap and st.heap[o].op == "dict":
            return mk("pref", o, (k,))
        return getitem(ov, k)

    def is_container(self, st, v):
        return self.kind_of(st, v) in ("list", "set", "dict")

    def kind_of(self, st, v):
        if v.op == "pref" and v.args[0] in self.defaultkind:
            d = self.default_value(*v.args)
            if d.op in ("list", "set"):
                return d.op
        if v.op == "pref":
            k = self.pref_kind(st, v)
            if k is not None:
                return k
        if v.op in ("ref", "pref") or v in st.heap:
            c = self.content(st, v)
            if c is not None and c.op in ("list", "set", "dict"):
                return c.op
            if c is not None:
                v = c
        if v.op == "cases":
            ks = {self.kind_of(st, x) for _, x in v.args}
            return ks.pop() if len(ks) == 1 else "?"
        n = strip_none(typeof(v)).args[0]
        if n in ("list", "Sequence"):
            return "list"
        if n in ("set", "frozenset"):
            return "set"
        if n in ("dict", "defaultdict", "Mapping"):
            return "dict"
        return n

    def pref_kind(self, st, v):
        """kind of the container stored under a path of a locally built dict"""
        c = self.content(st, v.args[0])
        n = len(v.args[1])
        known = self.pathkinds.get((v.args[0], n), ())
        if c is None or c.op != "dict":
            return None

        def same(path):
            """may the path lead to the same place?"""
            return not any(a is not b and a.op == "const" and b.op == "const" for a, b in zip(path, v.args[1]))

        found = {k for p, k in known if same(p)}

        def go(s):
            for seg in s.args:
                if seg.op == "b":
                    go(seg.args[1].args[1])
                    continue
                e = seg.args[1]
                if e.op != "ev":
                    continue
                kind, path, val = e.args
                if not same(path):
                    continue
                if len(path) > n:
                    found.add("dict")
                elif len(path) == n:
                    if kind in ("append", "extend"):
                        found.add("list")
                    elif kind == "add":
                        found.add("set")
                    elif kind == "ensure":
                        found.add(val.op)
                    elif kind == "set":
                        found.add(self.kind_of(st, val))

        go(c.args[0])
        if len(found) == 1 and found <= {"list", "set", "dict"}:
            return found.pop()
        return None

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice):
                self.set_slice(self.obj(st, self.eval(t.value, st, fr)), t.slice, EMPTY, st, fr, t)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.val(st, self.eval(t.slice, st, fr))
                self.update_at(o, (k,), "del", NONE, st, fr, t)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported("del", t, fr.module.name)

    def x_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        if st.live is FALSE:
            return
        fr.exits.append(Exit(st.live, "return", v, dict(st.env), dict(st.heap), s))
        st.live = FALSE

    def x_Raise(self, s, st, fr):
        if s.exc is None:
            v = st.env.get("$exc", mk("exc", "?", ()))
        else:
            v = self.eval(s.exc, st, fr)
        v = self.as_exc(v, st)
        if st.live is FALSE:
            return
        self.throw(v, TRUE, st, fr, s)

    def throw(self, v, g, st, fr, node):
        """raise exception v when g holds"""
        g2 = and_(st.live, g)
        if g2 is FALSE:
            return
        if self.cfg.soft and not self.handlers:
            c = mk("chan", "rejects:" + self.exc_name(v))
            cur = st.heap.get(c)
            st.heap[c] = mk("list", cat(cur.args[0] if cur is not None else EMPTY, unit(mk("tag", len(self.tags)), g2)))
            self.tags.append(1)
            return
        fr.exits.append(Exit(g2, "raise", v, dict(st.env), dict(st.heap), node))
        st.live = and_(st.live, not_(g))

    def as_exc(self, v, st):
        v = self.val(st, v)
        if v.op == "exc":
            return v
        if v.op == "cls":
            return mk("exc", v.args[0], ())
        if v.op in ("ext", "builtin"):
            return mk("exc", v.args[0], ())
        if v.op == "new":
            return mk("exc", v.args[0], tuple(x for _, x in v.args[1]))
        if v.op == "call":
            n = v.args[0]
            return mk("exc", n[4:] if n.startswith("new:") else n, v.args[1])
        t = strip_none(typeof(v))
        return mk("exc", t.args[0], ())

    def x_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return
        if self.cfg.keep_asserts:
            g = and_(st.live, not_(c))
            if g is not FALSE:
                fr.exits.append(Exit(g, "raise", mk("exc", "AssertionError", ()), dict(st.env), dict(st.heap), s))
                st.live = and_(st.live, c)

    def x_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.live is FALSE:
            return
        c = self.known(st, c)
        if c is TRUE:
            self.exec_block(s.body, st, fr)
            return
        if c is FALSE:
            self.exec_block(s.orelse, st, fr)
            return
        a = st.copy()
        b = st.copy()
        a.live = and_(st.live, c)
        b.live = and_(st.live, not_(c))
        self.exec_block(s.body, a, fr)
        self.exec_block(s.orelse, b, fr)
        self.join(st, c, a, b)

    def known(self, st, c):
        if c is TRUE or c is FALSE or st.live is TRUE:
            return c
        r = and_(st.live, c)
        if r is FALSE:
            return FALSE
        if r is st.live:
            return TRUE
        return assume(c, st.live) if boolean(c) else c

    def join(self, st, c, a, b):
        if a.live is FALSE:
            self.adopt(st, b)
            return
        if b.live is FALSE:
            self.adopt(st, a)
            return
        st.heap = self.merge_heaps([(c, a.heap), (not_(c), b.heap)])
        env = {}
        for n in set(a.env) | set(b.env):
            if n in a.env and n in b.env:
                x, y = a.env[n], b.env[n]
                env[n] = x if x is y else cases([(c, x), (not_(c), y)])
            else:
                env[n] = a.env.get(n) or b.env.get(n)
        st.env = env
        st.live = or_(a.live, b.live)

    def x_FunctionDef(self, s, st, fr):
        i = next(self.ids)
        defaults = self.eval_defaults(s.args, st, fr)
        t = mk("clo", i)
        env = dict(st.env)
        env[s.name] = t
        self.closures[i] = Closure(s, env, fr, defaults)
        v = t
        for d in reversed(s.decorator_list):
            nm = dec_name(d)
            if nm in ("wraps", "cache", "lru_cache", "contextmanager"):
                continue
            raise Unsupported(f"decorator {nm} on local function", s, fr.module.name)
        st.env[s.name] = v

    def x_ClassDef(self, s, st, fr):
        st.env[s.name] = mk("localcls", s.name)

    def x_Nonlocal(self, s, st, fr):
        raise Unsupported("nonlocal", s, fr.module.name)

    def x_Global(self, s, st, fr):
        raise Unsupported("global", s, fr.module.name)

    def x_Break(self, s, st, fr):
        fr.exits.append(Exit(st.live, "break", NONE, dict(st.env), dict(st.heap), s))
        st.live = FALSE

    def x_Continue(self, s, st, fr):
        fr.exits.append(Exit(st.live, "continue", NONE, dict(st.env), dict(st.heap), s))
        st.live = FALSE

    # ----------------------------------------------------------------- loops
    def x_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        if st.live is FALSE:
            return
        seq = self.iter_seq(it, st)

        def body(bst, x, bfr):
            self.assign(s.target, x, bst, bfr)
            self.exec_block(s.body, bst, bfr)

        self.loop(seq, body, st, fr, s.orelse, s)

    def loop(self, seq, body, st, fr, orelse=(), node=None):
        """run `body` for every element of seq; joins everything into st"""
        saved = fr.exits
        fr.exits = []
        live0 = st.live
        work = State(st.env, st.heap, TRUE)
        self.outside.append(live0)
        try:
            self.run_segs(seq, body, work, fr, node)
        finally:
            self.outside.pop()
        exits = fr.exits
        fr.exits = saved
        breaks = [e for e in exits if e.kind == "break"]
        others = [e for e in exits if e.kind != "break"]
        for e in others:
            e.guard = and_(live0, e.guard)
            if e.guard is not FALSE:
                fr.exits.append(e)
        if orelse and work.live is not FALSE:
            saved2 = fr.exits
            fr.exits = []
            self.exec_block(list(orelse), work, fr)
            for e in fr.exits:
                e.guard = and_(live0, e.guard)
                saved2.append(e)
            fr.exits = saved2
        states = [work] + [State(e.env, e.heap, e.guard) for e in breaks]
        m = self.merge_states(states, TRUE)
        st.env, st.heap, st.live = m.env, m.heap, and_(live0, m.live)

    def run_segs(self, seq, body, st, fr, node):
        for seg in seq.args:
            if st.live is FALSE:
                return
            if seg.op == "u":
                g, e = seg.args
                if g is TRUE:
                    self.step(body, st, e, fr)
                else:
                    a = st.copy()
                    b = st.copy()
                    a.live = and_(st.live, g)
                    b.live = and_(st.live, not_(g))
                    if a.live is not FALSE:
                        self.step(body, a, e, fr)
                    self.join(st, g, a, b)
            else:
                src, l = seg.args

                def inner(bst, x, bfr, l=l):
                    w = subst(l.args[1], {l.args[0]: x}) if ("b", l.args[0].args[0]) in l.args[1].free else l.args[1]
                    if len(w.args) == 1 and w.args[0].op == "u" and w.args[0].args[0] is TRUE:
                        body(bst, w.args[0].args[1], bfr)
                    else:
                        self.run_segs(w, body, bst, bfr, node)

                self.summarize_loop(src, lam_type(l), inner, st, fr, node)

    def step(self, body, st, x, fr):
        """one unrolled iteration"""
        saved = fr.exits
        fr.exits = []
        live0 = st.live
        w = State(dict(st.env), dict(st.heap), TRUE)
        body(w, x, fr)
        conts = [State(e.env, e.heap, e.guard) for e in fr.exits if e.kind == "continue"]
        rest = [e for e in fr.exits if e.kind != "continue"]
        fr.exits = saved
        for e in rest:
            e.guard = and_(live0, e.guard)
            if e.guard is not FALSE:
                fr.exits.append(e)
        m = self.merge_states([w, *conts], TRUE)
        st.env, st.heap, st.live = m.env, m.heap, and_(live0, m.live)

    # -- summarising one symbolic loop
    def summarize_loop(self, src, etype, body, st, fr, node):
        pre_env, pre_heap = dict(st.env), dict(st.heap)
        changed = []   # list of ("env", name) / ("heap", loc)
        phis: dict = {}
        for _ in range(8):
            v = fv(etype, origin=src)
            env = dict(pre_env)
            heap = dict(pre_heap)
            phis = {}
            for k in changed:
                init = self._init(pre_env, pre_heap, k)
                ph = self.placeholder(k, init, st)
                phis[k] = ph
                if k[0] == "env":
                    env[k[1]] = ph[1]
                else:
                    heap[k[1]] = ph[1]
            start_env, start_heap = dict(env), dict(heap)
            saved = fr.exits
            fr.exits = []
            w = State(env, heap, TRUE)
            body(w, v, fr)
            exits = fr.exits
            fr.exits = saved
            conts = [State(e.env, e.heap, e.guard) for e in exits if e.kind == "continue"]
            exits = [e for e in exits if e.kind != "continue" and e.guard is not FALSE]
            m = self.merge_states([w, *conts], TRUE)
            new = []
            for snap in [m] + [State(e.env, e.heap, e.guard) for e in exits if e.kind in ("break", "return", "through")]:
                if snap.live is FALSE:
                    continue
                for n, val in snap.env.items():
                    if n in pre_env and start_env.get(n) is not val:
                        new.append(("env", n))
                for loc, val in snap.heap.items():
                    if loc in pre_heap:
                        if start_heap.get(loc) is not val:
                            new.append(("heap", loc))
                    elif loc.op != "ref" and not (loc.op == "fld" and loc.args[0].op == "ref" and loc.args[0] not in pre_heap and not self._pre_obj(loc.args[0], pre_heap, pre_env)):
                        ini = self.initial(loc)
                        if ini is not val or loc in start_heap:
                            if start_heap.get(loc, ini) is not val:
                                new.append(("heap", loc))
            new = [k for k in dict.fromkeys(new)]
            add = [k for k in new if k not in changed]
            # a variable that is (re)defined in every iteration before use needs no placeholder,
            # but keeping one is harmless
            if not add:
                break
            changed = changed + add
        else:
            raise Unsupported("loop does not stabilise", node, fr.module.name)
        self.close_loop(src, v, changed, phis, pre_env, pre_heap, m, exits, st, fr, node)

    def _pre_obj(self, ref, heap, env):
        return any(k.op == "fld" and k.args[0] is ref for k in heap) or any(x is ref for x in env.values())

    def _get(self, env, heap, k):
        if k[0] == "env":
            return env[k[1]]
        if k[1] in heap:
            return heap[k[1]]
        return self.initial(k[1])

    def _init(self, env, heap, k):
        """the value before the loop; an object the loop only replaces counts as its content"""
        i = self._get(env, heap, k)
        if k[0] == "env" and i is not None and i.op == "ref" and i in heap and heap[i].op in ("list", "set", "dict"):
            return self.freeze(State(env, heap), i)
        return i

    def placeholder(self, k, init, st):
        """(kind, placeholder value, phi variable)"""
        i = init
        if k[0] == "heap" and i is not None:
            if i.op == "list" or (i.op not in ("set", "dict") and k[1].op != "fld" and strip_none(typeof(i)).args[0] == "list"):
                p = fv(ty("list", ANY))
                x = fv(ANY, origin=p)
                return ("list", mk("list", mk("seq", mk("b", p, lam(x, unit(x))))), p)
            if i.op == "set":
                p = fv(ty("set", ANY))
                x = fv(ANY, origin=p)
                return ("set", mk("set", mk("seq", mk("b", p, lam(x, unit(x))))), p)
            if i.op == "dict":
                p = fv(ty("evlog"))
                x = fv(ANY, origin=p)
                return ("dict", mk("dict", mk("seq", mk("b", p, lam(x, unit(x))))), p)
        p = fv(typeof(init) if init is not None else ANY)
        return ("val", p, p)

    def close_loop(self, src, v, changed, phis, pre_env, pre_heap, m, exits, st, fr, node):
        vid = v.args[0]
        nxt = {}
        for k in changed:
            if m.live is FALSE:
                nxt[k] = phis[k][1]
            elif k[0] == "env":
                nxt[k] = m.env.get(k[1], phis[k][1])
            else:
                nxt[k] = m.heap.get(k[1], phis[k][1])
        # freeze objects allocated inside the body
        fz = lambda t, s: self.freeze_new(t, s, pre_heap)  # noqa: E731
        for k in changed:
            nxt[k] = fz(nxt[k], m)
        for e in exits:
            e.value = fz(e.value, State(e.env, e.heap))
        stops = StopFolds(self, src, v, changed, phis, dict(nxt), exits, pre_env, pre_heap, fz)
        phi_ids = {phis[k][2].args[0] for k in changed}
        deltas = {}
        for k in changed:
            kind, pv, p = phis[k]
            if kind in ("list", "set", "dict"):
                deltas[k] = self.delta(kind, nxt[k], p)
        final0 = {}
        # ---- seen-set idiom
        repl = {}
        drop_in_set = {}
        for k in changed:
            kind, pv, p = phis[k]
            d = deltas.get(k)
            if kind == "list" and d is not None and not (len(d.args) == 1 and d.args[0].op == "u"):
                nd = self.nested_seen(d, k, p, phi_ids, src, v, pre_env, pre_heap)
                if nd is not None:
                    deltas[k] = nd
                    continue
            if kind == "dict" and d is not None and len(d.args) == 1 and d.args[0].op == "u" and tm.unique_src(src):
                # values entered so far, one per key
                e = d.args[0].args[1]
                init = self._get(pre_env, pre_heap, k)
                if e.op == "ev" and e.args[0] == "set" and len(e.args[1]) == 1 and e.args[1][0] is v and not e.args[2].free & phi_ids \
                        and init is not None and init.op == "dict" and not init.args[0].args:
                    val = e.args[2]
                    z = fv(ANY)
                    atom = exists(tm.dict_values(pv), z, eq(z, val))
                    base = unit(val, replace(d.args[0].args[0], {atom: FALSE}))
                    if atom.op == "ex" and not base.free & phi_ids:
                        repl[atom] = mk("earlier", src, lam(v, base), v, val)
                continue
            if kind not in ("list", "set") or d is None or not d.args or any(x.op != "u" for x in d.args):
                continue
            if any(x.args[1].free & phi_ids for x in d.args) or (len(d.args) > 1 and not self._exclusive(d)):
                continue
            atoms = {}
            for x in d.args:
                w, z = fv(ANY), fv(ANY)
                atom = exists(mk("seq", mk("b", p, lam(w, unit(w)))), z, eq(z, x.args[1]))
                if atom.op == "ex":
                    atoms[atom] = x.args[1]
            none = {q: FALSE for q in atoms}
            base = cat(*[unit(x.args[1], replace(x.args[0], none)) for x in d.args])
            if not atoms or base.free & phi_ids:
                continue
            init = self._get(pre_env, pre_heap, k)
            for atom, key in atoms.items():
                earlier = mk("earlier", src, lam(v, base), v, key)
                repl[atom] = or_(member(key, init), earlier) if init is not None else earlier
            drop_in_set[k] = (none, kind)
        if repl:
            for k in changed:
                if k in drop_in_set and drop_in_set[k][1] == "set" and deltas.get(k) is not None:
                    deltas[k] = replace(deltas[k], drop_in_set[k][0])
                if deltas.get(k) is not None:
                    deltas[k] = replace(deltas[k], repl)
                elif phis[k][0] == "val":
                    nxt[k] = replace(nxt[k], repl)
            for e in exits:
                e.guard = replace(e.guard, repl)
                e.value = replace(e.value, repl)
        # ---- dictionaries built entry by entry
        for k in changed:
            kind, pv, p = phis[k]
            d = deltas.get(k)
            if kind == "dict" and d is not None and d.args:
                init = self._get(pre_env, pre_heap, k)
                if init is not None and init.op == "dict":
                    go = self.per_entry(d, p, init, src, v)
                    if go is not None:
                        for e in exits:
                            e.guard = go(e.guard)
                            e.value = go(e.value)
                        for q in changed:
                            if q != k:
                                nxt[q] = go(nxt[q])
                                if deltas.get(q) is not None:
                                    deltas[q] = go(deltas[q])
                    if d.free & phi_ids != {p.args[0]}:
                        if go is not None:
                            deltas[k] = self.ensured(go(d), init)
                        continue
                    nd = self.ensured(go(d), init) if go is not None else None
                    if nd is not None and p.args[0] in nd.free:
                        nd = None
                    if nd is None:
                        r = self.one_entry(d, p, init, src, v, pre_env, pre_heap)
                        if r is not None:
                            nxt[k] = NONE
                            deltas[k] = None
                            final0[k] = ("val", r)
                    else:
                        deltas[k] = nd
        # ---- boolean flags etc. (scalar closed forms)
        gE = or_(*[e.guard for e in exits])
        final = {}
        temp = set()
        for k in changed:
            if k in final0:
                final[k] = final0[k]
                continue
            kind, pv, p = phis[k]
            init = self._get(pre_env, pre_heap, k)
            pid = p.args[0]
            if kind in ("list", "set", "dict"):
                d = deltas.get(k)
                if d is not None and not (d.free & phi_ids):
                    final[k] = ("app", kind, init, d)
            else:
                n = nxt[k]
                if n is p:
                    final[k] = ("same", init)
                elif not (n.free & phi_ids):
                    final[k] = ("last", init, n)
                elif n.free & phi_ids == {pid}:
                    r = self.scalar_form(n, p, init, src, v)
                    if r is not None:
                        final[k] = r
        # resolve phis of `same` values and closed forms inside others
        sub = {}
        for k, f in final.items():
            if f[0] == "same":
                sub[phis[k][2]] = f[1]
        unresolved = [k for k in changed if k not in final]
        used_phis = set()
        for e in exits:
            used_phis |= (e.guard.free | e.value.free) & phi_ids
        if sub and used_phis:
            for e in exits:
                e.guard = subst(e.guard, sub)
                e.value = subst(e.value, sub)
            used_phis = set()
            for e in exits:
                used_phis |= (e.guard.free | e.value.free) & phi_ids
        folds = {}
        if unresolved or used_phis:
            folds = self.make_folds(src, v, changed, phis, nxt, deltas, pre_env, pre_heap, gE, exits)
        if used_phis:
            # early exits that depend on loop-carried values: the loop with a stop mark
            for i, e in enumerate(exits):
                e.guard = stops.stopped(i)
                if e.value.free & phi_ids or vid in e.value.free:
                    e.value = stops.exit_value(i, e.value)
            gE = or_(*[e.guard for e in exits])
        # ---- after-loop state (normal completion)
        anyexit = mk_ex(src, v, gE) if vid in gE.free or exits else FALSE
        if exits and vid not in gE.free:
            ne = mk_ex(src, v, TRUE)
            anyexit = and_(ne, gE)
        env, heap = dict(pre_env), dict(pre_heap)

        def put(env, heap, k, val):
            if k[0] == "env":
                env[k[1]] = val
            else:
                heap[k[1]] = val

        for k in changed:
            put(env, heap, k, self.final_value(k, final, folds, src, v, src))
        for n, val in (m.env.items() if m.live is not FALSE else ()):
            if n not in pre_env:
                val = fz(val, m)
                if not (val.free & phi_ids):
                    env[n] = last(bind_src(src, v, unit_value(val))) if vid in val.free else val
        # new locations written (fields of pre-existing objects appear in `changed`)
        # ---- exits
        merged = []
        which = {id(e): i for i, e in enumerate(exits)}
        for e in exits:
            for q in merged:
                if q.kind == e.kind and q.value is e.value and e.kind in ("raise", "return") and \
                        (e.kind == "raise" or self._same_snap(q, e)):
                    q.guard = or_(q.guard, e.guard)
                    break
            else:
                merged.append(e)
        out = []
        usrc = None
        single = len(merged) == 1
        firstel = None
        for e in merged:
            if used_phis:
                g = e.guard
            elif single:
                g = mk_ex(src, v, e.guard) if vid in e.guard.free else and_(mk_ex(src, v, TRUE), e.guard)
            else:
                if firstel is None:
                    firstel = first(bind_src(src, v, unit(v, gE)))
                others_x = [q for q in merged if q is not e]
                g = and_(anyexit, subst(e.guard, {v: firstel}))
            val = e.value
            if vid in val.free:
                if single:
                    val = first(bind_src(src, v, unit_value(val, e.guard)))
                else:
                    val = subst(val, {v: firstel if firstel is not None else first(bind_src(src, v, unit(v, gE)))})
            ee, eh = dict(pre_env), dict(pre_heap)
            if e.kind in ("break", "return", "through"):
                if usrc is None:
                    usrc = mk("until", src, lam(v, gE))
                for k in changed:
                    cur = e.env.get(k[1]) if k[0] == "env" else e.heap.get(k[1], phis[k][1])
                    if cur is None:
                        continue
                    if used_phis or final.get(k, ("",))[0] not in ("same", "app", "last"):
                        put(ee, eh, k, stops.value(k))
                        continue
                    cur = fz(cur, State(e.env, e.heap))
                    if repl:
                        cur = replace(cur, repl)
                    base = self.final_value(k, final, folds, usrc, v, src)
                    if cur is phis[k][1] or cur is phis[k][2]:
                        put(ee, eh, k, base)
                        continue
                    kind, pv, p = phis[k]
                    if kind in ("list", "set", "dict"):
                        d = self.delta(kind, cur, p)
                        if d is not None:
                            fe = first(bind_src(src, v, unit(v, gE)))
                            d2 = subst(d, {v: fe}) if vid in d.free else d
                            if not (d2.free & phi_ids):
                                b = iter_of(base) if kind != "dict" else base.args[0] if base.op == "dict" else None
                                if b is not None:
                                    new = mk("list", cat(b, d2)) if kind == "list" else mk_set(cat(b, d2)) if kind == "set" else mk_dict(cat(b, d2))
                                    put(ee, eh, k, new)
                                    continue
                        put(ee, eh, k, stops.value(k))
                    else:
                        if cur.free & phi_ids:
                            if cur.free & phi_ids == {p.args[0]}:
                                cur = subst(cur, {p: base})
                            if cur.free & phi_ids:
                                put(ee, eh, k, stops.value(k))
                                continue
                        if vid in cur.free:
                            cur = first(bind_src(src, v, unit_value(cur, gE if not single else e.guard)))
                        put(ee, eh, k, cur)
                for n, val2 in e.env.items():
                    if n not in pre_env:
                        val2 = fz(val2, State(e.env, e.heap))
                        if val2.free & phi_ids or used_phis and vid in val2.free:
                            ee[n] = stops.exit_value(which[id(e)], val2)
                            continue
                        if vid in val2.free:
                            val2 = first(bind_src(src, v, unit_value(val2, gE)))
                        ee[n] = val2
            else:
                # raise: keep writes of changed locations opaque except effects
                for k in changed:
                    if k[0] == "heap" and (k[1].op == "chan" or k[1].op == "fld" or k[1].op not in ("ref",)):
                        if used_phis or final.get(k, ("",))[0] not in ("same", "app", "last"):
                            put(ee, eh, k, stops.value(k))
                            continue
                        if usrc is None:
                            usrc = mk("until", src, lam(v, gE))
                        put(ee, eh, k, self.final_value(k, final, folds, usrc, v, src))
            out.append(Exit(and_(st.live, g), e.kind, val, ee, eh, e.node))
        fr.exits.extend(x for x in out if x.guard is not FALSE)
        st.env, st.heap = env, heap
        st.live = and_(st.live, not_(anyexit)) if exits else st.live

    @staticmethod
    def _exclusive(d):
        g = [x.args[0] for x in d.args]
        return all(and_(a, b) is FALSE for i, a in enumerate(g) for b in g[i + 1:])

    def _same_snap(self, a, b):
        return True

    def chain(self, x, p):
        """(dictionary, path) of a chain of item reads on the dictionary whose log starts with the placeholder p"""
        path = []
        y = x
        while y.op == "getitem":
            path.append(y.args[1])
            y = y.args[0]
        if path and y.op == "dict" and y.args[0].args and y.args[0].args[0].op == "b" and y.args[0].args[0].args[0] is p:
            return y, tuple(reversed(path))
        return None

    def events(self, d):
        for seg in d.args:
            if seg.op == "u":
                yield seg.args[1]
            else:
                _, b = tm.open_lam(seg.args[1], origin=seg.args[0])
                yield from self.events(b)

    def per_entry(self, d, p, init, src, v):
        """a loop over distinct keys in which every step touches its own entry only: steps do not see each other"""
        if not tm.unique_src(src):
            return None
        pos = None
        for e in self.events(d):
            if e.op != "ev" or v not in e.args[1]:
                return None
            i = e.args[1].index(v)
            q = (i, e.args[1][:i])
            if pos is not None and q != pos or any(v.args[0] in x.free for x in q[1]):
                return None
            pos = q
        if pos is None:
            return None
        i, prefix = pos
        v2 = fv()
        there = exists(mk("seq", mk("b", p, lam(v2, unit(mk("evkey", v2))))), (z := fv()), eq(z, v))
        memo = {}

        def go(x):
            if p.args[0] not in x.free:
                return x
            r = memo.get(x)
            if r is None:
                if x is there and i == 0:
                    r = dict_contains(init, v)
                else:
                    c = self.chain(x, p)
                    if c is not None and c[1][:i] == prefix and len(c[1]) > i and c[1][i] is v:
                        r = self.rebase(x, p, init)
                    else:
                        r = tm.map_children(x, go)
                memo[x] = r
            return r

        return go

    def ensured(self, d, init):
        n = len(init.args[0].args)
        r = tm.ensure_form([*init.args[0].args, *d.args])
        return mk("seq", *r[n:]) if tuple(r[:n]) == init.args[0].args else d

    def rebase(self, t, p, init):
        """the log placeholder p stands for the log of init"""
        memo = {}

        def go(x):
            if p.args[0] not in x.free:
                return x
            r = memo.get(x)
            if r is None:
                if x.op == "dict":
                    segs = x.args[0].args
                    if segs and segs[0].op == "b" and segs[0].args[0] is p:
                        rest = tm.map_children(mk("seq", *segs[1:]), go) if len(segs) > 1 else EMPTY
                        memo[x] = r = mk_dict(cat(init.args[0], rest))
                        return r
                r = tm.map_children(x, go)
                memo[x] = r
            return r
        return go(t)

    def one_entry(self, d, p, init, src, v, pre_env, pre_heap):
        """a loop that appends to one entry only: a list accumulator at that place"""
        path = None
        for e in self.events(d):
            if e.op != "ev" or e.args[0] not in ("append", "extend") or path is not None and e.args[1] != path:
                return None
            path = e.args[1]
        if path is None or any(v.args[0] in x.free for x in path):
            return None
        q = fv(ty("list", ANY))
        w = fv(ANY, origin=q)
        local = mk("list", mk("seq", mk("b", q, lam(w, unit(w)))))
        memo = {}

        def go(x):
            if p.args[0] not in x.free:
                return x
            r = memo.get(x)
            if r is None:
                c = self.chain(x, p)
                r = local if c is not None and c[1] == path and len(c[0].args[0].args) == 1 else tm.map_children(x, go)
                memo[x] = r
            return r

        d2 = go(d)
        if p.args[0] in d2.free:
            return None

        def flat(s):
            out = []
            for seg in s.args:
                if seg.op == "u":
                    g, e = seg.args
                    out.append(unit(e.args[2], g) if e.args[0] == "append" else guard_seq(g, e.args[2]))
                else:
                    x, b = tm.open_lam(seg.args[1], origin=seg.args[0])
                    out.append(tm.mk_b(seg.args[0], x, flat(b)))
            return cat(*out)

        ls = flat(d2)
        start = init
        for x in path:
            start = getitem(start, x)
        if len(ls.args) == 1 and ls.args[0].op == "u" and q.args[0] not in ls.args[0].args[1].free:
            g, e = ls.args[0].args
            z, y = fv(ANY), fv(ANY)
            atom = exists(mk("seq", mk("b", q, lam(y, unit(y)))), z, eq(z, e))
            base = unit(e, replace(g, {atom: FALSE}))
            if q.args[0] in base.free:
                return None
            ls = unit(e, replace(g, {atom: or_(member(e, start), mk("earlier", src, lam(v, base), v, e))}))
        if q.args[0] in ls.free:
            return None
        return mk_dict(cat(init.args[0], unit(tm.ev("extend", path, tm.bind_val(src, v, ls)))))

    def nested_seen(self, d, k, p, phi_ids, src, v, pre_env, pre_heap):
        """append-if-absent inside nested loops: closed form of the outer loop"""
        if not (d.free & phi_ids):
            return None
        hit = []

        def strip(q, repl):
            out = []
            for seg in q.args:
                if seg.op == "b":
                    x, b = tm.open_lam(seg.args[1], origin=seg.args[0])
                    out.append(tm.mk_b(seg.args[0], x, strip(b, repl)))
                    continue
                g, e = seg.args
                w, z = fv(ANY), fv(ANY)
                atom = exists(mk("seq", mk("b", p, lam(w, unit(w)))), z, eq(z, e))
                if atom.op == "ex" and tm._mentions(g, atom):
                    hit.append(1)
                    g = replace(g, {atom: repl(e)})
                out.append(unit(e, g))
            return cat(*out)

        base = strip(d, lambda e: FALSE)
        if not hit or base.free & phi_ids:
            return None
        init = self._get(pre_env, pre_heap, k)

        def was(e):
            t = mk("earlier", src, lam(v, base), v, e)
            return or_(member(e, init), t) if init is not None else t
        return strip(d, was)

    def delta(self, kind, content, p):
        """content == phi ++ delta  ->  delta"""
        if content.op != kind:
            return None
        segs = list(content.args[0].args)
        for i, seg in enumerate(segs):
            if seg.op == "b" and seg.args[0] is p:
                l = seg.args[1]
                b = l.args[1]
                if len(b.args) == 1 and b.args[0].op == "u" and b.args[0].args[0] is TRUE and b.args[0].args[1] is l.args[0]:
                    if kind != "set" and i != 0:
                        return None
                    if kind == "dict":
                        segs = tm.ensure_form(segs)
                    rest = segs[:i] + segs[i + 1:]
                    if any(x.op == "b" and x.args[0] is p for x in rest):
                        return None
                    return mk("seq", *rest)
                return None
        return None

    def scalar_form(self, n, p, init, src, v):
        typ = typeof(n)
        vid = v.args[0]
        if typ is BOOL or strip_none(typeof(init)) is BOOL:
            n1 = subst(n, {p: TRUE})
            n0 = subst(n, {p: FALSE})
            if typeof(n1) is BOOL and typeof(n0) is BOOL:
                if n1 is TRUE:
                    return ("val", or_(truthy(init), mk_ex(src, v, n0)))
                if n0 is FALSE:
                    return ("val", and_(truthy(init), not_(mk_ex(src, v, not_(n1)))))
        if n.op == "fstr" and n.args[0] is p and not any(p.args[0] in a.free for a in n.args[1:]):
            return ("val", fstr(init, join(const(""), bind_src(src, v, unit(fstr(*n.args[1:]))))))
        if n.op == "call" and n.args[0] == "+" and n.args[1][0] is p and p.args[0] not in n.args[1][1].free:
            tot = mk("sum", bind_src(src, v, unit(n.args[1][1])))
            return ("val", tot if init is const(0) else call("+", (init, tot)))
        if n.op == "cases" and len(n.args) == 2:
            # v = e if c else v
            keep = [c for c, x in n.args if x is p]
            setv = [(c, x) for c, x in n.args if x is not p]
            if keep and setv and p.args[0] not in setv[0][0].free and p.args[0] not in setv[0][1].free:
                c, x = setv[0]
                s = bind_src(src, v, unit_value(x, c))
                g = mk_ex(src, v, c) if vid in c.free else and_(mk_ex(src, v, TRUE), c)
                return ("val", ite(g, last(s), init))
        return None

    def final_value(self, k, final, folds, src, v, orig):
        f = final.get(k)
        if f is None:
            return folds[k]
        if f[0] == "same":
            return f[1]
        if f[0] == "app":
            kind, init, d = f[1], f[2], f[3]
            b = bind_src(src, v, d)
            if kind == "list":
                return mk("list", cat(iter_of(init), b))
            if kind == "set":
                return mk_set(cat(iter_of(init), b))
            return mk_dict(cat(init.args[0], b)) if init.op == "dict" else mk("dictupd", init, b)
        if f[0] == "last":
            init, n = f[1], f[2]
            ne = mk_ex(src, v, TRUE)
            return ite(ne, last(bind_src(src, v, unit_value(n))), init)
        return f[1]

    def close_over(self, v, t, changed, phis):
        for k in reversed(changed):
            t = lam(phis[k][2], t)
        return lam(v, t)

    def make_folds(self, src, v, changed, phis, nxt, deltas, pre_env, pre_heap, gE, exits):
        out = {}
        pid2k = {phis[k][2].args[0]: k for k in changed}
        for k in changed:
            # dependency closure, deterministic order: own variable first
            order = [k]
            i = 0
            while i < len(order):
                fs = sorted((f for f in nxt[order[i]].free if f in pid2k), key=lambda f: nxt[pid2k[f]].size)
                for f in fs:
                    if pid2k[f] not in order:
                        order.append(pid2k[f])
                i += 1
            bodies = []
            for kk in order:
                b = replace(nxt[kk], {})
                for q in reversed(order):
                    b = lam(phis[q][2], b)
                bodies.append(lam(v, b))
            inits = tuple(self._init(pre_env, pre_heap, q) or NONE for q in order)
            typ = typeof(inits[0])
            kind = phis[k][0]
            if kind == "list":
                typ = ty("list", ANY)
            out[k] = mk("fold", typ, src, inits, tuple(bodies))
            if kind == "list":
                out[k] = mk("list", iter_of(out[k]))
            elif kind == "set":
                out[k] = mk_set(iter_of(mk("fold", ty("set", ANY), src, inits, tuple(bodies))))
            elif kind == "dict":
                x = fv()
                out[k] = mk("dict", mk_b(mk("fold", ty("evlog"), src, inits, tuple(bodies)), x, unit(x)))
        return out

    def x_While(self, s, st, fr):
        # while K in L: L.remove(K)
        if isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.In) \
                and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) \
                and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "remove" \
                and ast.dump(s.body[0].value.func.value) == ast.dump(s.test.comparators[0]) \
                and len(s.body[0].value.args) == 1 and ast.dump(s.body[0].value.args[0]) == ast.dump(s.test.left) and not s.orelse:
            o = self.eval(s.test.comparators[0], st, fr)
            k = self.val(st, self.eval(s.test.left, st, fr))
            self.remove_all(o, k, st, fr, s)
            return
        raise Unsupported("while loop", s, fr.module.name)

    def remove_all(self, o, k, st, fr, node):
        c = self.content(st, o)
        x = fv()
        new = bind(iter_of(c), x, unit(x, not_(eq(x, k))))
        self.write_content(o, mk("list", new), st)

    # ------------------------------------------------------------------- try
    def x_Try(self, s, st, fr):
        live0 = st.live
        names = []
        for h in s.handlers:
            names.append(self.handler_names(h, st, fr))
        saved = fr.exits
        fr.exits = []
        w = State(dict(st.env), dict(st.heap), TRUE)
        self.handlers.append([n for ns in names for n in ns])
        self.outside.append(live0)
        try:
            self.exec_block(s.body, w, fr)
        finally:
            self.handlers.pop()
            self.outside.pop()
        exits = fr.exits
        fr.exits = []
        states = []
        rest = []
        caught = [[] for _ in s.handlers]
        for e in exits:
            if e.kind == "raise":
                for i, ns in enumerate(names):
                    if any(self.exc_matches(self.exc_name(e.value), n) for n in ns):
                        caught[i].append(e)
                        break
                else:
                    rest.append(e)
            else:
                rest.append(e)
        if s.orelse and w.live is not FALSE:
            self.exec_block(s.orelse, w, fr)
        states.append(w)
        for h, cs in zip(s.handlers, caught):
            if not cs:
                continue
            hs = self.merge_states([State(e.env, e.heap, e.guard) for e in cs], TRUE)
            if len(cs) == 1:
                hs = State(dict(cs[0].env), dict(cs[0].heap), cs[0].guard)
            ex = cs[0].value if len({e.value for e in cs}) == 1 else mk("exc", self.exc_name(cs[0].value), ())
            old = hs.env.get("$exc")
            hs.env = dict(hs.env)
            hs.env["$exc"] = ex
            if h.name:
                hs.env[h.name] = ex
            self.exec_block(h.body, hs, fr)
            hs.env.pop("$exc", None)
            if old is not None:
                hs.env["$exc"] = old
            states.append(hs)
        out_exits = rest + fr.exits
        fr.exits = []
        m = self.merge_states(states, TRUE)
        if s.finalbody:
            if m.live is not FALSE:
                self.exec_block(s.finalbody, m, fr)
            fin = []
            for e in out_exits:
                fs = State(dict(e.env), dict(e.heap), e.guard)
                self.exec_block(s.finalbody, fs, fr)
                if fs.live is FALSE:
                    continue
                e.env, e.heap, e.guard = fs.env, fs.heap, fs.live
                fin.append(e)
            out_exits = fin + fr.exits
        fr.exits = saved
        for e in out_exits:
            e.guard = and_(live0, e.guard)
            if e.guard is not FALSE:
                fr.exits.append(e)
        st.env, st.heap, st.live = m.env, m.heap, and_(live0, m.live)

    def handler_names(self, h, st, fr):
        if h.type is None:
            return ["BaseException"]
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [self.exc_class_name(self.eval(e, st, fr)) for e in els]

    def exc_class_name(self, v):
        if v.op in ("cls", "ext", "builtin"):
            return v.args[0]
        return "?"

    def exc_matches(self, name, handler):
        if name == handler or handler == "BaseException":
            return True
        if handler == "Exception":
            return name not in ("KeyboardInterrupt", "SystemExit", "GeneratorExit", "BaseException")
        return handler in self.exc_supers(name)

    def exc_supers(self, name):
        out = []
        if name in self.p.classes:
            for q in self.p.mro(name):
                out.append(q)
                if q not in self.p.classes:
                    out += self.exc_supers(q)
            return out
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [c.__name__ for c in b.__mro__]
        known = {
            "json.JSONDecodeError": ["ValueError"], "json.decoder.JSONDecodeError": ["ValueError"],
            "tomllib.TOMLDecodeError": ["ValueError"], "subprocess.CalledProcessError": [],
            "packaging.requirements.InvalidRequirement": ["ValueError"],
            "packaging.version.InvalidVersion": ["ValueError"],
        }
        return [name, *known.get(name, []), "Exception", "BaseException"]

    def caught_here(self, exc):
        """is exception `exc` interesting, i.e. caught by an active handler?"""
        for hs in reversed(self.handlers):
            for h in hs:
                if self.exc_matches(exc, h):
                    return True
        return False

    def partial(self, exc, cond_fail, st, fr, node):
        """an operation that raises `exc` when cond_fail holds"""
        if cond_fail is FALSE or not self.caught_here(exc):
            return
        g = and_(st.live, cond_fail)
        if g is FALSE:
            return
        fr.exits.append(Exit(g, "raise", mk("exc", exc, ()), dict(st.env), dict(st.heap), node))
        st.live = and_(st.live, not_(cond_fail))

    def may_raise(self, t, st, fr, node, when=TRUE):
        """opaque call inside a try: an uninterpreted failure condition per handler"""
        if self.handlers and t.op == "cases":
            for c, v in t.args:
                self.may_raise(v, st, fr, node, c)
            return
        if not self.handlers or t.op != "call" or t.args[0] in TOTAL:
            return
        hs = self.handlers[-1]
        for h in hs:
            if t.args[0] in OS_CALLS and not self.os_error(h):
                continue
            fails = and_(when, mk("raises", h, t))
            g = and_(st.live, fails)
            if g is FALSE:
                continue
            fr.exits.append(Exit(g, "raise", mk("exc", h, ()), dict(st.env), dict(st.heap), node))
            st.live = and_(st.live, not_(fails))

    def os_error(self, h):
        """can a plain operating system call raise an exception caught by handler `h`?
        (library specific error classes and the project's own cannot)"""
        if h in self.p.classes:
            return False
        return "." not in h or h.split(".")[0] in ("builtins", "os", "io")

    # ------------------------------------------------------------------ with
    def x_With(self, s, st, fr):
        self.with_items(list(s.items), s.body, st, fr, s)

    def with_items(self, items, body, st, fr, node):
        if not items:
            self.exec_block(body, st, fr)
            return
        it = items[0]

        def inner(v, ist):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, ist, fr)
            self.with_items(items[1:], body, ist, fr, node)

        ctx = it.context_expr
        # context manager function
        if isinstance(ctx, ast.Call):
            target = self.callee(ctx, st, fr)
            if target is not None and target[0] == "suppress":
                names = [self.exc_class_name(self.eval(a, st, fr)) for a in ctx.args]
                self.suppress(names, lambda ist: inner(NONE, ist), st, fr, node)
                return
            if target is not None and target[0] == "cmmodel":
                self.cfg.cm_models[target[1].qual](self, target[1], target[2], inner, st, fr, ctx)
                return
            if target is not None and target[0] == "cmfunc":
                self.run_cm(target[1], target[2], inner, st, fr, ctx)
                return
        v = self.eval(ctx, st, fr)
        if st.live is FALSE:
            return
        v = self.obj(st, v)
        q = strip_none(typeof(v)).args[0]
        if v.op == "cases":
            # e.g. isolated environment or nullcontext(): the entered value is a choice
            ent = lift(self.enter_value, v)
            inner(ent, st)
            return
        if q in self.p.classes and q not in self.cfg.opaque and self.p.find_method(q, "__enter__") is not None \
                and f"{q}.__enter__" not in self.cfg.opaque:
            en = self.p.find_method(q, "__enter__")
            if not self.is_opaque(en):
                r = self.call_func(en, [v], {}, st, fr, node)
                self.with_exit(lambda ist: inner(r, ist), v, q, st, fr, node)
                return
        inner(self.enter_value(v), st)

    def enter_value(self, v):
        if v.op == "call" and v.args[0] in ("contextlib.nullcontext",):
            return v.args[1][0] if v.args[1] else NONE
        q = strip_none(typeof(v)).args[0]
        if q in self.p.classes:
            return v
        if v.op == "call" and v.args[0] in ("zipfile.ZipFile", "m:open", "open", "m:open_r", "new:" + q):
            return v
        return call("enter", (v,))

    def with_exit(self, run, v, q, st, fr, node):
        saved = fr.exits
        fr.exits = []
        live0 = st.live
        w = State(dict(st.env), dict(st.heap), TRUE)
        run(w)
        exits = fr.exits
        fr.exits = []
        ex = self.p.find_method(q, "__exit__")
        states = []
        if w.live is not FALSE:
            if ex is not None:
                self.call_func(ex, [v, NONE, NONE, NONE], {}, w, fr, node)
            states.append(w)
        outs = []
        for e in exits:
            fs = State(dict(e.env), dict(e.heap), e.guard)
            if ex is not None:
                self.call_func(ex, [v, NONE, NONE, NONE], {}, fs, fr, node)
            e.env, e.heap, e.guard = fs.env, fs.heap, fs.live
            if e.guard is not FALSE:
                outs.append(e)
        outs += fr.exits
        fr.exits = saved
        for e in outs:
            e.guard = and_(live0, e.guard)
            fr.exits.append(e)
        m = self.merge_states(states, TRUE)
        st.env, st.heap, st.live = m.env, m.heap, and_(live0, m.live)

    def suppress(self, names, run, st, fr, node):
        saved = fr.exits
        fr.exits = []
        live0 = st.live
        w = State(dict(st.env), dict(st.heap), TRUE)
        self.handlers.append(names)
        try:
            run(w)
        finally:
            self.handlers.pop()
        exits = fr.exits
        fr.exits = saved
        states = [w]
        for e in exits:
            if e.kind == "raise" and any(self.exc_matches(self.exc_name(e.value), n) for n in names):
                states.append(State(e.env, e.heap, e.guard))
            else:
                e.guard = and_(live0, e.guard)
                fr.exits.append(e)
        m = self.merge_states(states, TRUE)
        st.env, st.heap, st.live = m.env, m.heap, and_(live0, m.live)

    def run_cm(self, f, env, inner, st, fr, node):
        """inline a @contextmanager generator, running the with-body at its yield"""
        cf = Frame(f, f.module, f.cls, env.get("self"), name=f.qual)
        self.functions.add(f.qual)
        outer_env = st.env
        ran = [0]

        def hook(v, gst):
            ran[0] += 1
            if ran[0] > 1:
                raise Unsupported("context manager yields twice", node, f.module.name)
            genv = gst.env
            bst = State(dict(outer_env), gst.heap, gst.live)
            saved = fr.exits
            fr.exits = []
            inner(v, bst)
            ex = fr.exits
            fr.exits = saved
            for e in ex:
                # pass through the generator frame (finally blocks apply)
                if e.kind == "raise":
                    cf.exits.append(Exit(e.guard, "raise", e.value, dict(genv), e.heap, e.node))
                    cf.exits[-1].guard = e.guard
                else:
                    cf.exits.append(Exit(e.guard, "through", mk("thru", next(self.ids)), dict(genv), e.heap, e.node))
                    self._thru = getattr(self, "_thru", {})
                    self._thru[cf.exits[-1].value] = e
            gst.heap = bst.heap
            gst.live = bst.live
            hook.env_after = bst.env

        hook.env_after = dict(outer_env)
        cf.yield_hook = hook
        g = State(dict(env), dict(st.heap), TRUE)
        live0 = st.live
        self.exec_block(f.node.body, g, cf)
        for e in cf.exits:
            if e.kind == "return":
                # falls out of generator
                raise Unsupported("return in context manager", node, f.module.name)
            if e.kind == "raise":
                fr.exits.append(Exit(and_(live0, e.guard), "raise", e.value, dict(outer_env), e.heap, e.node))
            elif e.kind == "through":
                o = self._thru[e.value]
                fr.exits.append(Exit(and_(live0, e.guard), o.kind, o.value, o.env, e.heap, o.node))
        if not ran[0]:
            raise Unsupported("context manager never yields", node, f.module.name)
        st.env = hook.env_after
        st.heap = g.heap
        st.live = and_(live0, g.live)

    def x_Match(self, s, st, fr):
        subj = self.val(st, self.eval(s.subject, st, fr))
        remaining = TRUE
        states = []
        live0 = st.live
        rest = st.copy()
        cur = st
        result_states = []
        base = st.copy()
        for c in s.cases:
            g = self.pattern(c.pattern, subj, base, fr)
            if c.guard is not None:
                g = and_(g, self.cond(c.guard, base, fr))
            here = and_(remaining, g)
            remaining = and_(remaining, not_(g))
            if here is FALSE:
                continue
            w = base.copy()
            w.live = and_(live0, here)
            self.exec_block(c.body, w, fr)
            result_states.append((here, w))
        tail = base.copy()
        tail.live = and_(live0, remaining)
        result_states.append((remaining, tail))
        alive = [(g, w) for g, w in result_states if w.live is not FALSE]
        if not alive:
            st.live = FALSE
            return
        m = self.merge_states([State(w.env, w.heap, g) for g, w in alive], TRUE)
        st.env, st.heap = m.env, m.heap
        st.live = or_(*[w.live for _, w in alive])

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return eq(subj, self.val(st, self.eval(p.value, st, fr)))
        if isinstance(p, ast.MatchSingleton):
            return eq(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return or_(*[self.pattern(q, subj, st, fr) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            g = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fr)
            if p.name:
                st.env[p.name] = subj
            return g
        raise Unsupported("match pattern", p, fr.module.name)

    # ----------------------------------------------------------- expressions
    def cond(self, n, st, fr):
        if isinstance(n, ast.BoolOp):
            return self.boolop(n, st, fr, as_cond=True)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        v = self.eval(n, st, fr)
        return truthy(self.val(st, v))

    def boolop(self, n, st, fr, as_cond=False):
        is_and = isinstance(n.op, ast.And)
        if as_cond:
            acc = self.cond(n.values[0], st, fr)
        else:
            acc = self.eval(n.values[0], st, fr)
        for x in n.values[1:]:
            c = acc if as_cond else truthy(self.val(st, acc))
            go = c if is_and else not_(c)
            if go is FALSE:
                return acc
            if as_cond:
                r = self.guarded(go, lambda s2: self.cond(x, s2, fr), st, fr)
                acc = and_(acc, r) if is_and else or_(acc, r)
            else:
                r = self.guarded(go, lambda s2: self.eval(x, s2, fr), st, fr)
                if r.op == "undef":
                    continue
                a, b = self.unify(acc, r, st)
                acc = cases([(go, b), (not_(go), a)])
        return acc

    def unify(self, a, b, st):
        """values of two branches: dereference fresh containers when shapes differ"""
        if a is b:
            return a, b
        if a.op in ("ref", "pref") or b.op in ("ref", "pref"):
            if self.kind_of(st, a) in ("list", "set", "dict") or self.kind_of(st, b) in ("list", "set", "dict"):
                return self.val(st, a), self.val(st, b)
        return a, b

    def guarded(self, g, fn, st, fr):
        """evaluate fn only when g holds"""
        g = self.known(st, g)
        if g is TRUE:
            return fn(st)
        if g is FALSE:
            return mk("undef")
        a = st.copy()
        a.live = and_(st.live, g)
        if a.live is FALSE:
            return mk("undef")
        r = fn(a)
        if a.live is FALSE:
            st.live = and_(st.live, not_(g))
            return r
        exited = a.live is not and_(st.live, g)
        same = a.heap.keys() == st.heap.keys() and all(a.heap[k] is st.heap[k] for k in a.heap)
        if not same:
            st.heap = self.merge_heaps([(g, a.heap), (not_(g), st.heap)])
        for n, v in a.env.items():
            if n not in st.env:
                st.env[n] = v
            elif st.env[n] is not v:
                st.env[n] = cases([(g, v), (not_(g), st.env[n])])
        if exited:
            st.live = or_(a.live, and_(st.live, not_(g)))
        return r

    def eval(self, n, st, fr, discard=False):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}", n, fr.module.name)
        if isinstance(n, ast.Call):
            return m(n, st, fr, discard)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return mk("const", "ellipsis", "...")
        return const(n.value)

    def e_Name(self, n, st, fr):
        if n.id in st.env:
            return st.env[n.id]
        if n.id in fr.parent_env:
            return fr.parent_env[n.id]
        return self.global_name(n.id, fr.module.name)

    def global_name(self, name, modname):
        return self.entity(self.p.resolve(modname, name))

    def entity(self, r):
        if r[0] == "cls":
            return mk("cls", r[1])
        if r[0] == "func":
            return mk("func", r[1])
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return ext_entity(r[1])
        if r[0] == "builtin":
            if r[1] == "NotImplemented":
                return ext_entity(r[1])
            return mk("builtin", r[1])
        if r[0] == "var":
            return self.global_var(r[1], r[2])
        raise Unsupported(f"entity {r}")

    def global_var(self, mod, name):
        k = (mod, name)
        if k in self.gconst:
            return self.gconst[k]
        m = self.p.modules[mod]
        if name == "__name__" or name == "__package__":
            pk = mod if m.path.endswith("__init__.py") or name == "__name__" else mod.rpartition(".")[0]
            return const(pk)
        if name == "__file__":
            return sym(f"{mod}.__file__", STR)
        self.gconst[k] = sym(f"{mod}.{name}", ANY)
        v = m.assigns[name]
        r = None
        if self.immutable_expr(v) or self.never_mutated(mod, name):
            try:
                fr = Frame(None, m)
                st = State({}, {FX: mk("list", EMPTY)})
                r = self.freeze(st, self.eval(v, st, fr))
                if fr.exits or st.live is not TRUE:
                    r = None
            except Unsupported:
                r = None
        if r is None:
            typ = ANY
            for s in ast.walk(m.tree):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    typ = self.p.ann(s.annotation, mod)
            if typ is ANY:
                typ = {ast.Dict: ty("dict", ANY, ANY), ast.List: ty("list", ANY), ast.Set: ty("set", ANY)}.get(type(v), ANY)
            r = sym(f"{mod}.{name}", typ)
        self.gconst[k] = r
        return r

    def never_mutated(self, mod, name):
        """a module level container that no code in the project changes"""
        m = self.p.modules[mod]
        if m.assign_count.get(name) != 1:
            return False
        for mm in self.p.modules.values():
            for n in ast.walk(mm.tree):
                if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                    return False
                t = None
                if isinstance(n, ast.Attribute) and n.attr in MUTATORS:
                    t = n.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.AugAssign):
                    t = n.target
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Name) and t.id == name or isinstance(t, ast.Attribute) and t.attr == name:
                    return False
        return True

    def immutable_expr(self, v):
        return not isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp))

    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        return self.get_attr(o, n.attr, st, fr, n)

    def get_attr(self, o, name, st, fr, node):
        if o.op == "mod":
            return self.entity(self.p.resolve(o.args[0], name))
        if o.op == "ext":
            return ext_entity(f"{o.args[0]}.{name}")
        if o.op == "cls":
            return self.class_attr(o, name, st, fr, node)
        if o.op == "cases":
            if all(v.op in ("ref", "new", "sym", "attr", "getitem") or is_const(v) for _, v in o.args):
                vals = [(c, self.get_attr(v, name, st, fr, node)) for c, v in o.args if v is not NONE]
                return self.merge_values(vals) if vals else mk("undef")
        if o.op == "super":
            return mk("bm", o, name)
        o = self.obj(st, o)
        if o.op == "call" and (o.args[0] == "cli" or o in self.cli_ns):
            from .models import cli_option
            r = cli_option(self, self.cli_ns.get(o, o), name)
            if r is not None:
                return r
        loc = mk("fld", o, name)
        if loc in st.heap:
            return st.heap[loc]
        if name == "__class__":
            t = strip_none(typeof(o)).args[0]
            if t in self.p.classes:
                return mk("cls", t)
        if o.op == "enum":
            if name == "name":
                return const(o.args[1])
            if name == "value":
                return o.args[2]
        if o.op == "call" and o.args[0] == "re.compile":
            if name == "pattern":
                return o.args[1][0]
            if name == "flags" and len(o.args[1]) > 1:
                return o.args[1][1]
        if o.op == "new":
            for f, v in o.args[1]:
                if f == name:
                    return v
        q = strip_none(typeof(o)).args[0]
        if q in self.p.classes:
            f = self.p.find_method(q, name)
            if f is not None:
                if is_property(f):
                    if self.is_opaque(f) or self.is_protocol(f.cls):
                        return attr(self.freeze(st, o), name)
                    return self.call_func(f, [o], {}, st, fr, node)
                return mk("bm", o, name)
            if o.op == "ref":
                cc = self.p.find_class_const(q, name)
                if cc is not None:
                    return self.class_const(q, name, st, fr)
            for b in self.p.mro(q):
                if f"{b}.{name}" in self.p.classes:
                    return mk("cls", f"{b}.{name}")
            if name == "__dataclass_fields__":
                return self.dataclass_fields(q, st, fr)
            if not (name in self.p.all_fields(q)):
                cc = self.p.find_class_const(q, name)
                if cc is not None:
                    return self.class_const(q, name, st, fr)
        if o.op == "fieldobj":
            if name == "metadata":
                return o.args[2]
            if name == "name":
                return const(o.args[1])
            if name == "default":
                return o.args[3]
        if o.op in ("clo", "func", "bm") and name == "__name__":
            return mk("attr", o, name)
        fo = self.freeze(st, o)
        return attr(fo, name)

    def class_attr(self, o, name, st, fr, node):
        q = o.args[0]
        if name == "__name__":
            return const(q.rsplit(".", 1)[-1])
        if name == "__dataclass_fields__":
            return self.dataclass_fields(q, st, fr)
        loc = mk("fld", o, name)
        if loc in st.heap:
            return st.heap[loc]
        c = self.p.classes.get(q)
        if c is None:
            return mk("attr", o, name)
        if f"{q}.{name}" in self.p.classes:
            return mk("cls", f"{q}.{name}")
        if self.is_enum(q) and name in c.consts:
            return self.enum_member(q, name)
        if self.is_enum(q) and name == "__members__":
            return mk("attr", o, name)
        f = self.p.find_method(q, name)
        if f is not None:
            if any(dec_name(d) == "classproperty" for d in f.decorators):
                if self.is_opaque(f):
                    return mk("attr", o, name)
                return self.call_func(f, [o], {}, st, fr, node)
            return mk("bm", o, name)
        cc = self.p.find_class_const(q, name)
        if cc is not None:
            return self.class_const(q, name, st, fr)
        return mk("attr", o, name)

    def class_const(self, q, name, st, fr):
        c, node = self.p.find_class_const(q, name)
        if isinstance(node, (ast.Constant,)):
            return const(node.value)
        ann = c.fields.get(name)
        typ = self.p.ann(ann[0], c.module.name, c) if ann else ANY
        if isinstance(node, (ast.Dict, ast.List, ast.Set, ast.Call)):
            return sym(f"{c.qual}.{name}", typ)
        f2 = Frame(None, c.module)
        return self.freeze(st, self.eval(node, State({}, {FX: mk("list", EMPTY)}), f2))

    def is_enum(self, q):
        return any(b in ("enum.IntEnum", "enum.Enum", "enum.StrEnum") for b in self.p.mro(q))

    def enum_values(self, q):
        """member name -> value (None when it is not a literal or `auto()`)"""
        out, prev = {}, 0
        for n, v in self.p.classes[q].consts.items():
            if n.startswith("_"):
                continue
            if isinstance(v, ast.Constant):
                val = v.value
            elif isinstance(v, ast.Call) and not v.args and self.p.static_ref(v.func, self.p.classes[q].module.name) == ("ext", "enum.auto") \
                    and isinstance(prev, int):
                val = prev + 1
            else:
                val = None
            prev = val
            out[n] = val
        return out

    def enum_member(self, q, name):
        vals = self.enum_values(q)
        v = vals.get(name)
        if v is not None:
            # a second name for the same value is the first member
            name = next(n for n, w in vals.items() if type(w) is type(v) and w == v)
        return mk("enum", q, name, NONE if v is None else const(v))

    def enum_members(self, q):
        return list(dict.fromkeys(self.enum_member(q, n) for n in self.enum_values(q)))

    def dataclass_fields(self, q, st, fr):
        """literal dict  field name -> field object"""
        evs = []
        for n, (a, d, c) in self.p.all_fields(q).items():
            if self._is_classvar(a):
                continue
            meta = mk("dict", EMPTY)
            default = mk("ext", "dataclasses.MISSING")
            if isinstance(d, ast.Call) and self.p.static_ref(d.func, c.module.name) == ("ext", "dataclasses.field"):
                for kw in d.keywords:
                    if kw.arg == "metadata":
                        f2 = Frame(None, c.module, c)
                        s2 = State({}, {FX: mk("list", EMPTY)})
                        meta = self.val(s2, self.eval(kw.value, s2, f2))
                    if kw.arg == "default":
                        f2 = Frame(None, c.module, c)
                        default = self.eval(kw.value, State({}, {FX: mk("list", EMPTY)}), f2)
            elif d is not None:
                f2 = Frame(None, c.module, c)
                default = self.eval(d, State({}, {FX: mk("list", EMPTY)}), f2)
            evs.append(unit(ev("set", (const(n),), mk("fieldobj", q, n, meta, default))))
        # keep definition order: build without sorting
        return mk("dict", cat(*evs))

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.val(st, self.eval(v.value, st, fr))
                parts.append(self.fmt(v, x, st, fr))
        return fstr(*parts)

    def fmt(self, v, x, st, fr):
        if v.conversion == 114:
            x = call("repr", (x,))
        elif v.conversion == 115:
            x = self.to_str(x)
        if v.format_spec is not None:
            spec = self.e_JoinedStr(v.format_spec, st, fr)
            if spec is not EMPTY_STR:
                return call("format", (x, spec))
        return self.to_str(x)

    def to_str(self, x):
        if x.op == "cases":
            return lift(self.to_str, x)
        if x.op == "const":
            return const(str(cval(x)))
        if typeof(x) is STR:
            return x
        return call("str", (x,))

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(n.op, self.val(st, a), self.val(st, b), st, fr, n)

    def binop(self, op, a, b, st, fr, node):
        name = type(op).__name__
        ka, kb = self.vkind(a), self.vkind(b)
        if name == "Add":
            if a.op == "const" and b.op == "const":
                try:
                    return const(cval(a) + cval(b))
                except TypeError:
                    pass
            if ka == "list" and (kb == "list" or b.op == "list"):
                return mk("list", cat(iter_of(a), iter_of(b)))
            if a.op == "list" or b.op == "list":
                return mk("list", cat(iter_of(a), iter_of(b)))
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *a.args, *b.args)
            if ka == "str" or kb == "str":
                return fstr(a, b)
            if a is const(0) or b is const(0):
                x = b if a is const(0) else a
                if typeof(x) is INT:
                    return x
            return call("+", (a, b))
        if name in ("BitOr", "BitAnd", "Sub", "BitXor"):
            if a.op in ("cls", "builtin", "tapp", "ext") or b.op in ("cls", "builtin", "tapp"):
                return mk("tapp", "|", a, b)
            if ka in ("set", "Collection", "keys") or kb in ("set",) or a.op in ("keys", "set") or b.op in ("keys", "set"):
                return self.set_op(name, a, b)
            if ka == "dict" and name == "BitOr":
                d = self.as_dict(a)
                e = self.as_dict(b)
                return mk_dict(cat(d.args[0], e.args[0]))
            if typeof(a) is BOOL and typeof(b) is BOOL:
                if name == "BitOr":
                    return or_(a, b)
                if name == "BitAnd":
                    return and_(a, b)
        if name == "Div" and (ka == "Path" or kb == "Path" or True) and not (is_const(a) and a.args[0] in ("int", "float")):
            return call("Path./", (a, b))
        if name == "Mult" and is_const(a) and is_const(b):
            return const(cval(a) * cval(b))
        if name == "Sub" and is_const(a) and is_const(b):
            return const(cval(a) - cval(b))
        if name == "Mod" and ka in ("str", "bytes"):
            return call("%", (a, b))
        return call({"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Mod": "%", "BitOr": "|", "BitAnd": "&",
                     "FloorDiv": "//", "Pow": "**", "BitXor": "^", "LShift": "<<", "RShift": ">>"}.get(name, name), (a, b))

    def vkind(self, v):
        if v.op in ("list", "set", "dict", "tuple", "tup"):
            return v.op
        n = strip_none(typeof(v)).args[0]
        if n == "frozenset":
            return "set"
        if n in ("defaultdict", "Mapping"):
            return "dict"
        return n

    def set_op(self, name, a, b):
        sa, sb = iter_of(a), iter_of(b)
        x = fv()
        if name in ("BitOr", "union"):
            return mk_set(cat(sa, sb))
        if name in ("Sub", "difference"):
            return mk_set(bind(sa, x, unit(x, not_(member(x, b)))))
        if name in ("BitAnd", "intersection"):
            return mk_set(bind(sa, x, unit(x, member(x, b))))
        y = fv()
        return mk_set(cat(bind(sa, x, unit(x, not_(member(x, b)))), bind(sb, y, unit(y, not_(member(y, a))))))

    def as_dict(self, v):
        if v.op == "dict":
            return v
        c = self.symbolic_content(v)
        if c.op == "dict":
            return c
        kt, vt = ANY, ANY
        x = fv(kt, origin=mk("keys", v))
        return mk("dict", mk_b(mk("keys", v), x, unit(ev("set", (x,), getitem(v, x)))))

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, fr))
        v = self.val(st, self.eval(n.operand, st, fr))
        if is_const(v) and isinstance(cval(v), (int, float)):
            if isinstance(n.op, ast.USub):
                return const(-cval(v))
            if isinstance(n.op, ast.UAdd):
                return v
        return call(type(n.op).__name__, (v,))

    def e_BoolOp(self, n, st, fr):
        return self.boolop(n, st, fr)

    def e_IfExp(self, n, st, fr):
        c = self.known(st, self.cond(n.test, st, fr))
        if c is TRUE:
            return self.eval(n.body, st, fr)
        if c is FALSE:
            return self.eval(n.orelse, st, fr)
        a = self.guarded(c, lambda s2: self.eval(n.body, s2, fr), st, fr)
        b = self.guarded(not_(c), lambda s2: self.eval(n.orelse, s2, fr), st, fr)
        if a.op == "undef":
            return b
        if b.op == "undef":
            return a
        a, b = self.unify(a, b, st)
        return cases([(c, a), (not_(c), b)])

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        acc = TRUE
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            acc = and_(acc, self.compare(op, left, right, st, fr, n))
            left = right
        return acc

    def compare(self, op, a, b, st, fr, node):
        av, bv = self.val(st, a), self.val(st, b)
        if isinstance(op, ast.Eq):
            return self.equal(av, bv)
        if isinstance(op, ast.NotEq):
            return not_(self.equal(av, bv))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if av.op == "const" or bv.op == "const" or av.op in ("cls", "builtin", "enum", "type", "ext") or bv.op in ("cls", "builtin", "enum", "ext"):
                r = eq(av, bv)
            elif a is b:
                r = TRUE
            elif a.op == "cases" or b.op == "cases":
                r = lift(lambda x, y: TRUE if x is y else eq(x, y) if (is_const(x) or is_const(y)) else mk("is", *sorted((x, y), key=lambda t: t.key)), av, bv)
            else:
                r = mk("is", *sorted((av, bv), key=lambda t: t.key))
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return r if isinstance(op, ast.In) else not_(r)
        kind_a, kind_b = self.vkind(av), self.vkind(bv)
        if kind_a in ("set", "Collection") or kind_b == "set":
            x = fv()
            sub_ab = not_(exists(iter_of(av), x, not_(member(x, bv))))
            y = fv()
            sub_ba = not_(exists(iter_of(bv), y, not_(member(y, av))))
            return {ast.LtE: sub_ab, ast.GtE: sub_ba, ast.Lt: and_(sub_ab, not_(sub_ba)), ast.Gt: and_(sub_ba, not_(sub_ab))}[type(op)]
        if isinstance(op, ast.GtE):
            return ge(av, bv)
        if isinstance(op, ast.LtE):
            return ge(bv, av)
        if isinstance(op, ast.Gt):
            return not_(ge(bv, av))
        if isinstance(op, ast.Lt):
            return not_(ge(av, bv))
        raise Unsupported("comparison", node, fr.module.name)

    def equal(self, a, b):
        ka, kb = self.vkind(a), self.vkind(b)
        if (ka == "set" or kb == "set") and a.op != "cases" and b.op != "cases" and a is not NONE and b is not NONE:
            return self.set_equal(a, b)
        for x, y in ((a, b), (b, a)):
            if (x is TRUE or x is FALSE) and self.vkind(y) == "Any":
                # a value of any type: the numbers 0 and 1 are equal to False and True without being them
                return lift(lambda v: or_(eq(v, x), eq(v, const(int(x is TRUE)))) if v.op != "const" else eq(v, x), y)
        return eq(a, b)

    def set_equal(self, a, b):
        a2, b2 = (mk_set(iter_of(x)) for x in (a, b))
        if a2 is b2:
            return TRUE
        return mk("eq", *sorted((a2, b2), key=lambda t: t.key))

    def contains(self, x, c, st):
        xv = self.val(st, x)
        cv = self.val(st, c)
        if cv.op == "cls" and self.is_enum(cv.args[0]):
            return or_(*[eq(xv, m) for m in self.enum_members(cv.args[0])])
        if cv.op == "dict":
            return dict_contains(cv, xv)
        return member(xv, cv)

    def e_Tuple(self, n, st, fr):
        return self.seq_literal(n.elts, st, fr, "tuple")

    def seq_literal(self, elts, st, fr, kind):
        if any(isinstance(e, ast.Starred) for e in elts):
            s = []
            for e in elts:
                if isinstance(e, ast.Starred):
                    s.append(self.iter_seq(self.eval(e.value, st, fr), st))
                else:
                    s.append(unit_value(self.eval(e, st, fr)))
            q = cat(*s)
            if kind == "tuple":
                if all(x.op == "u" and x.args[0] is TRUE for x in q.args):
                    return mk("tuple", *[x.args[1] for x in q.args])
                return mk("tup", q)
            return q
        vals = [self.eval(e, st, fr) for e in elts]
        if kind == "tuple":
            return mk("tuple", *[self.elem_value(st, v) for v in vals])
        return cat(*[unit_value(v) for v in vals])

    def elem_value(self, st, v):
        return v

    def e_List(self, n, st, fr):
        q = self.seq_literal(n.elts, st, fr, "list")
        return self.alloc(mk("list", q), st)

    def e_Set(self, n, st, fr):
        q = self.seq_literal(n.elts, st, fr, "list")
        return self.alloc(mk_set(self.freeze_seq(st, q)), st)

    def freeze_seq(self, st, q):
        return self.freeze(st, mk("list", q)).args[0] if q is not EMPTY else q

    def e_Dict(self, n, st, fr):
        evs = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.as_dict(self.val(st, self.eval(v, st, fr)))
                evs.append(d.args[0])
            else:
                kk = self.val(st, self.eval(k, st, fr))
                vv = self.eval(v, st, fr)
                evs.append(unit(ev("set", (kk,), vv)))
        return self.alloc(mk_dict(cat(*evs)), st)

    def alloc(self, content, st, factory=None):
        r = mk("ref", next(self.ids), ANY)
        st.heap[r] = content
        if factory is not None:
            self.defaultkind[r] = factory
        return r

    def e_ListComp(self, n, st, fr):
        return self.comp(n, "list", st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, "list", st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, "set", st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, "dict", st, fr)

    def comp(self, n, kind, st, fr, into=None):
        """comprehension = loop appending to a fresh container"""
        if into is None:
            r = self.alloc(mk(kind, EMPTY), st)
        else:
            r = into
        env0 = dict(st.env)

        def rec(i, bst, bfr):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.val(bst, self.eval(n.key, bst, bfr))
                    v = self.eval(n.value, bst, bfr)
                    self.update_at(r, (k,), "set", v, bst, bfr, n)
                else:
                    v = self.eval(n.elt, bst, bfr)
                    if kind == "set":
                        bst.heap[r] = mk_set(cat(bst.heap[r].args[0], unit_value(self.val(bst, v))))
                    elif into is not None:
                        self.update_container(r, "append", [v], bst, bfr, n)
                    else:
                        bst.heap[r] = self.list_extend(bst.heap[r], unit_value(v))
                return
            g = n.generators[i]
            it = self.eval(g.iter, bst, bfr)
            seq = self.iter_seq(it, bst)

            def body(b2, x, f2):
                self.assign(g.target, x, b2, f2)
                c = TRUE
                for t in g.ifs:
                    c1 = self.guarded(c, lambda s2: self.cond(t, s2, f2), b2, f2) if c is not TRUE else self.cond(t, b2, f2)
                    c = and_(c, c1)
                if c is TRUE:
                    rec(i + 1, b2, f2)
                    return
                if c is FALSE:
                    return
                a = b2.copy()
                b = b2.copy()
                a.live = and_(b2.live, c)
                b.live = and_(b2.live, not_(c))
                if a.live is not FALSE:
                    rec(i + 1, a, f2)
                self.join(b2, c, a, b)

            self.loop(seq, body, bst, bfr, (), n)

        rec(0, st, fr)
        # restore scope (walrus targets leak, ignore)
        for k in list(st.env):
            if k not in env0:
                del st.env[k]
        for k, v in env0.items():
            tgt = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if k in tgt:
                st.env[k] = v
        if kind == "list" and into is None:
            st.heap[r] = st.heap[r] if st.heap[r].op == "list" else mk("list", iter_of(st.heap[r]))
        return r

    def e_Lambda(self, n, st, fr):
        i = next(self.ids)
        defaults = self.eval_defaults(n.args, st, fr)
        env = dict(fr.parent_env)
        env.update(st.env)
        self.closures[i] = Closure(n, env, fr, defaults)
        return mk("clo", i)

    def eval_defaults(self, a, st, fr):
        d = {}
        pos = a.posonlyargs + a.args
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = self.eval(v, st, fr)
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = self.eval(v, st, fr)
        return d

    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        if isinstance(n.slice, ast.Slice):
            ov = self.val(st, o)
            parts = [self.val(st, self.eval(x, st, fr)) if x is not None else NONE for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if is_const(ov) and all(is_const(p) for p in parts):
                return const(cval(ov)[slice(*[cval(p) for p in parts])])
            if parts[0] is const(0):
                parts[0] = NONE
            r = lift(lambda x: mk_slice(x, *parts), ov)
            if strip_none(typeof(ov)).args[0] == "list" and typeof(ov) is not STR:
                return self.alloc(mk("list", iter_of(r)), st)
            return r
        k = self.eval(n.slice, st, fr)
        return self.get_item(o, k, st, fr, n)

    def get_item(self, o, k, st, fr, node):
        if o.op in ("builtin", "cls", "tapp", "ext") and o.op != "sym":
            # type application  list[X]
            if o.op == "cls" and self.is_enum(o.args[0]) and is_const(k):
                return self.enum_member(o.args[0], cval(k))
            if not (o.op == "ext" and o.args[0] in ("os.environ",)):
                kk = self.val(st, k)
                return mk("tapp", o, *(kk.args if kk.op == "tuple" else (kk,)))
        kv = self.val(st, k)
        if (o.op in ("ref", "pref") or o in st.heap and st.heap[o].op == "dict") and self.kind_of(st, o) == "dict":
            base, path = (o.args[0], o.args[1]) if o.op == "pref" else (o, ())
            c = self.content(st, o)
            if not (base in self.defaultkind):
                self.partial("KeyError", not_(self.contains(kv, o, st)), st, fr, node)
            return mk("pref", base, path + (kv,))
        if o.op == "cases":
            return self.merge_values([(c, self.get_item(v, k, st, fr, node)) for c, v in o.args if v is not NONE])
        if o.op == "ref" and is_const(kv) and isinstance(cval(kv), int):
            c = self.content(st, o)
            if c is not None and c.op == "list":
                r = getitem(c, kv)
                if r.op != "getitem":
                    return r
        ov = self.val(st, o)
        if self.vkind(ov) == "dict":
            self.partial("KeyError", not_(member(kv, ov)), st, fr, node)
            if ov in st.heap:
                return dict_lookup(st.heap[ov], kv) if st.heap[ov].op == "dict" else getitem(ov, kv)
        elif self.vkind(ov) in ("list", "tuple"):
            self.partial("IndexError", mk("badindex", ov, kv), st, fr, node)
        return getitem(ov, kv)

    def e_Starred(self, n, st, fr):
        raise Unsupported("starred expression", n, fr.module.name)

    def e_Yield(self, n, st, fr):
        return self.do_yield(n, st, fr)

    e_YieldFrom = e_Yield

    def e_FormattedValue(self, n, st, fr):
        return self.fmt(n, self.val(st, self.eval(n.value, st, fr)), st, fr)

    # ----------------------------------------------------------- containers
    def content(self, st, v):
        """current container content of a value, or None"""
        if v.op == "ref":
            return st.heap.get(v)
        if v.op == "pref":
            c = self.content(st, v.args[0])
            for k in v.args[1]:
                if c is None:
                    return None
                if c.op == "ref":
                    c = self.content(st, c)
                if c.op == "dict":
                    if not c.args[0].args and v.args[0] in self.defaultkind:
                        c = self.default_value(v.args[0], v.args[1])
                        break
                    c = dict_lookup(c, k)
                else:
                    c = getitem(c, k)
            if c is not None and c.op == "ref":
                return self.content(st, c)
            return c
        if v in st.heap:
            return st.heap[v]
        if v.op in ("list", "set", "dict"):
            return v
        return self.symbolic_content(v)

    def default_value(self, ref, path):
        f = self.defaultkind[ref]
        for _ in path[:-1]:
            if f.op == "clo":
                n = self.closures[f.args[0]].node
                b = n.body
                if isinstance(b, ast.Call) and b.args:
                    f = self.eval(b.args[0], State({}, {FX: mk("list", EMPTY)}), self.closures[f.args[0]].frame)
                    continue
            return mk("dict", EMPTY)
        if f.op == "clo":
            b = self.closures[f.args[0]].node.body
            if isinstance(b, ast.List) and not b.elts:
                return mk("list", EMPTY)
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and not b.args and b.func.id in ("list", "set", "dict"):
                return mk(b.func.id, EMPTY)
        if f.op == "builtin":
            return {"list": mk("list", EMPTY), "set": mk("set", EMPTY), "dict": mk("dict", EMPTY), "int": const(0)}.get(f.args[0], mk("dict", EMPTY))
        return mk("dict", EMPTY)

    def val(self, st, v):
        """value of v with containers dereferenced"""
        return self.freeze(st, v)

    def obj(self, st, v):
        """resolve path references, keep object identity"""
        if v.op == "pref":
            c = self.content(st, v)
            return c if c is not None else v
        return v

    def freeze(self, st, t, only=None):
        if t.op in ("const", "sym", "fv", "bv", "cls", "func", "ext", "builtin", "clo"):
            if t.op == "sym" and t in st.heap and st.heap[t].op in ("list", "set", "dict"):
                return self._freeze_content(st, st.heap[t], {t})
            return t
        return self._freeze(st, t, set(), {})

    def _freeze_content(self, st, c, busy):
        memo = {}
        r = self._freeze(st, c, busy, memo)
        if r.op == "list":
            return mk_list(r.args[0])
        return r

    # `ref` nodes are always references.  A symbolic container (a parameter, an
    # attribute) is a reference to its *current* content only where it stands as a
    # value (element, field, ...); as the source of an iteration, an argument of a
    # pure operation, ... it was already dereferenced and denotes the initial content.
    def _freeze(self, st, t, busy, memo, alias=True):
        if not self._needs(st, t, alias):
            return t
        r = memo.get((t, alias))
        if r is not None:
            return r
        r = self.__freeze(st, t, busy, memo, alias)
        memo[(t, alias)] = r
        return r

    def _needs(self, st, t, alias):
        cache = self.__dict__.setdefault("_needs_cache", {})
        r = cache.get(t)
        if r is None:
            r = any(x.op in ("ref", "pref") for x in tm.subterms(t))
            cache[t] = r
        if r:
            return True
        if not alias:
            return False
        ov = [k for k in st.heap if k.op not in ("ref", "chan", "fld")]
        if ov:
            subs = tm.subterms(t)
            return any(k in subs for k in ov)
        return False

    ALIAS_OPS = frozenset({"tuple", "list", "set", "tup", "dict", "seq", "lam", "new", "partial"})

    def __freeze(self, st, t, busy, memo, alias):
        if t in busy:
            return mk("cycle", t) if t.op == "ref" else t
        if t.op == "ref":
            c = st.heap.get(t)
            if c is None:
                if t.args[1] is not ANY:
                    flds = []
                    for k, v in st.heap.items():
                        if k.op == "fld" and k.args[0] is t and k.args[1] != "$alloc":
                            flds.append((k.args[1], self._freeze(st, v, busy | {t}, memo)))
                    return mk("new", t.args[1].args[0], tuple(sorted(flds)))
                return t
            r = self._freeze(st, c, busy | {t}, memo)
            return mk_list(r.args[0]) if r.op == "list" else r
        if t.op == "pref":
            c = self.content(st, t)
            return self._freeze(st, c, busy | {t}, memo) if c is not None else t
        if alias and t in st.heap and t.op not in ("fld", "chan"):
            r = self._freeze(st, st.heap[t], busy | {t}, memo)
            return mk_list(r.args[0]) if r.op == "list" else r
        if not any(isinstance(a, (T, tuple)) for a in t.args):
            return t
        op = t.op
        fa = lambda x: self._freeze(st, x, busy, memo, alias)  # noqa: E731
        fn = lambda x: self._freeze(st, x, busy, memo, False)  # noqa: E731
        if op == "u":
            return tm._rebuild_u(fn(t.args[0]), fa(t.args[1]))
        if op == "b":
            v, body = open_lam(t.args[1], origin=t.args[0])
            return tm._rebuild_b(fn(t.args[0]), lam(v, fa(body)))
        if op == "cases":
            return cases([(fn(c), fa(v)) for c, v in t.args])
        if op == "ev":
            return mk("ev", t.args[0], tuple(fn(x) for x in t.args[1]), fa(t.args[2]))
        return map_children(t, fa if op in self.ALIAS_OPS else fn)

    def freeze_new(self, t, snap, pre_heap):
        """freeze only objects that were allocated after pre_heap"""
        news = [x for x in tm.subterms(t) if x.op == "ref" and x not in pre_heap and (x in snap.heap or x.args[1] is not ANY)]
        news += [x for x in tm.subterms(t) if x.op == "pref" and x.args[0] not in pre_heap]
        if not news:
            return t
        m = {}
        for x in news:
            if x.op == "ref" and x.args[1] is not ANY and self._pre_obj(x, pre_heap, {}):
                continue
            f = self.freeze(snap, x)
            if f is not x:
                m[x] = f
        return replace(t, m) if m else t

    def write_content(self, o, content, st):
        if o.op == "ref":
            st.heap[o] = content
        elif o.op == "cases":
            for c, v in o.args:
                old = self.content(st, v)
                self.write_content(v, cases([(c, content), (not_(c), old)]), st)
        elif o.op == "pref":
            base, path = o.args
            c = self.content(st, o)
            self.update_at(base, path, "set", content, st, None, None)
        else:
            st.heap[o] = content

    def update_at(self, o, path, kind, v, st, fr, node):
        """dict update event"""
        if o.op == "pref":
            base, p0 = o.args
            # path into an object stored in the dict?
            self.update_at(base, p0 + tuple(path), kind, v, st, fr, node)
            return
        if o.op == "cases":
            for c, x in o.args:
                if x is NONE:
                    continue
                sub = State(st.env, dict(st.heap), TRUE)
                self.update_at(x, path, kind, v, sub, fr, node)
                st.heap = self.merge_heaps([(c, sub.heap), (not_(c), st.heap)])
            return
        c = self.content(st, o)
        if c is not None and c.op == "list" and kind == "set":
            st.heap[o] = mk("listset", c, path[0], v)
            return
        if c is None or c.op != "dict":
            # unknown mapping: record as effect
            self.effect(call("setitem" if kind == "set" else f"item-{kind}", (self.val(st, o), *path, self.val(st, v))), st)
            return
        n = len(path)
        ck = {"append": "list", "extend": "list", "add": "set"}.get(kind)
        if kind == "ensure":
            ck = v.op
        elif kind == "set":
            ck = self.kind_of(st, v)
            ck = ck if ck in ("list", "set", "dict") else None
        if ck is not None:
            self.pathkinds.setdefault((o, n), set()).add((tuple(path), ck))
        for i in range(1, n):
            self.pathkinds.setdefault((o, i), set()).add((tuple(path[:i]), "dict"))
        st.heap[o] = mk_dict(cat(c.args[0], unit(ev(kind, tuple(path), v))))

    def effect(self, t, st):
        t = self.freeze(st, t)
        st.heap[FX] = mk("list", cat(iter_of(st.heap.get(FX, mk("list", EMPTY))), unit(t)))

    def iter_seq(self, v, st):
        if v.op == "cls" and self.is_enum(v.args[0]):
            return cat(*[unit(m) for m in self.enum_members(v.args[0])])
        if v.op in ("ref", "pref") or v in st.heap:
            c = self.content(st, v)
            if c is not None and c.op in ("list", "set"):
                return c.args[0]
            if c is not None and c.op == "dict":
                return dict_keys(c)
            if c is not None:
                v = c
        if v.op == "cases":
            return cat(*[guard_seq(c, self.iter_seq(x, st)) for c, x in sorted(v.args, key=lambda p: p[1].key)])
        vv = self.val(st, v)
        if vv.op == "call" and vv.args[0] == "m:items":
            return iter_of(mk("items", vv.args[1][0]))
        return iter_of(vv)

    # ----------------------------------------------------------------- calls
    def is_protocol(self, c):
        return any(b in ("typing.Protocol", "typing_extensions.Protocol") for b in self.p.mro(c.qual))

    def is_opaque(self, f):
        q = f.qual
        if q in self.cfg.opaque:
            return True
        if f.cls is not None and f.cls.qual in self.cfg.opaque and not q.endswith(".setter") and f"{f.node.name}.setter" not in f.cls.methods:
            return True
        if f.node.name in self.cfg.opaque_attrs:
            return True
        if self.cfg.opaque_pred is not None and self.cfg.opaque_pred(f):
            return True
        return False

    def callee(self, n, st, fr):
        """special with-contexts"""
        ref = None
        try:
            ref = self.p.static_ref(n.func, fr.module.name)
        except Exception:  # noqa: BLE001
            ref = None
        if ref == ("ext", "contextlib.suppress"):
            return ("suppress",)
        f = None
        selfv = None
        if isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Name) or True:
                try:
                    o = self.eval(n.func.value, st, fr)
                except Unsupported:
                    return None
                o = self.obj(st, o)
                q = strip_none(typeof(o)).args[0]
                if q in self.p.classes:
                    f = self.p.find_method(q, n.func.attr)
                    selfv = o
        elif ref is not None and ref[0] == "func":
            f = self.p.funcs[ref[1]]
        if f is not None and f.qual in self.cfg.cm_models:
            args, kwargs = self.eval_args(n, st, fr)
            if selfv is not None:
                args = [selfv, *args]
            return ("cmmodel", f, self.bind_args(f.node.args, args, kwargs, self.func_defaults(f), n, fr))
        if f is not None and any(dec_name(d) == "contextmanager" for d in f.decorators):
            if self.is_opaque(f) or f.qual in self.cfg.models:
                return None
            args, kwargs = self.eval_args(n, st, fr)
            if selfv is not None:
                args = [selfv, *args]
            env = self.bind_args(f.node.args, args, kwargs, self.func_defaults(f), n, fr)
            return ("cmfunc", f, env)
        return None

    def eval_args(self, n, st, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                seq = self.iter_seq(v, st)
                if all(s.op == "u" and s.args[0] is TRUE for s in seq.args):
                    args.extend(s.args[1] for s in seq.args)
                else:
                    args.append(mk("star", mk("list", seq)))
            else:
                args.append(self.eval(a, st, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                d = self.val(st, v)
                if d.op == "dict" and all(s.op == "u" and s.args[0] is TRUE and is_const(s.args[1].args[1][0]) for s in d.args[0].args):
                    for s in d.args[0].args:
                        kwargs[cval(s.args[1].args[1][0])] = s.args[1].args[2]
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, n, st, fr, discard=False):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in st.env:
            if n.args:
                raise Unsupported("super with arguments", n, fr.module.name)
            return mk("super", fr.cls.qual, fr.selfv if fr.selfv is not None else NONE)
        if isinstance(f, ast.Attribute):
            o = self.eval(f.value, st, fr)
            if st.live is FALSE:
                return mk("undef")
            if self.is_logging(o, f.attr, st):
                return NONE
            if o.op in ("mod", "ext", "cls", "super"):
                target = self.get_attr(o, f.attr, st, fr, f)
                special = self.special_call(target, n, st, fr)
                if special is not None:
                    return special
                args, kwargs = self.eval_args(n, st, fr)
                return self.apply(target, args, kwargs, st, fr, n, discard)
            # generator expression consumed lazily by extend/update of the same container
            if f.attr in ("extend", "update") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
                k = self.kind_of(st, o)
                if k in ("list", "set") and o.op in ("ref", "pref"):
                    return self.extend_genexp(o, n.args[0], k, st, fr)
            args, kwargs = self.eval_args(n, st, fr)
            if st.live is FALSE:
                return mk("undef")
            return self.method(o, f.attr, args, kwargs, st, fr, n, discard)
        target = self.eval(f, st, fr)
        special = self.special_call(target, n, st, fr)
        if special is not None:
            return special
        args, kwargs = self.eval_args(n, st, fr)
        if st.live is FALSE:
            return mk("undef")
        return self.apply(target, args, kwargs, st, fr, n, discard)

    def extend_genexp(self, o, gen, kind, st, fr):
        self.comp(ast.copy_location(ast.GeneratorExp(elt=gen.elt, generators=gen.generators), gen),
                  "list", st, fr, into=o)
        return NONE

    def special_call(self, target, n, st, fr):
        if target.op == "builtin" and target.args[0] in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)):
            return None
        return None

    def is_logging(self, o, name, st):
        if o.op == "call" and o.args[0] in ("logging.getLogger",) and name in LOG_METHODS:
            return True
        if o.op == "sym" and o.args[0].endswith(".logger") and name in LOG_METHODS:
            return True
        if o.op == "ext" and o.args[0] in ("logging", "warnings"):
            return name in LOG_METHODS or name == "warn"
        return False

    def apply(self, target, args, kwargs, st, fr, node, discard=False):
        if target.op == "cases":
            vals = []
            heaps = []
            live = st.live
            lives = []
            for c, t in target.args:
                sub = State(st.env, dict(st.heap), and_(live, c))
                if sub.live is FALSE:
                    continue
                v = self.apply(t, args, kwargs, sub, fr, node, discard)
                vals.append((c, v))
                heaps.append((c, sub.heap))
                lives.append(sub.live)
            st.heap = self.merge_heaps(heaps)
            st.live = or_(*lives)
            return self.merge_values(vals)
        if target.op == "func":
            f = self.p.funcs[target.args[0]]
            return self.call_func(f, args, kwargs, st, fr, node)
        if target.op == "rawfunc":
            return self.call_func(self.p.funcs[target.args[0]], args, kwargs, st, fr, node, raw=True)
        if target.op == "clo":
            return self.call_closure(target, args, kwargs, st, fr, node)
        if target.op == "cls":
            return self.construct(target.args[0], args, kwargs, st, fr, node)
        if target.op == "bm":
            o, name = target.args
            if o.op == "super":
                return self.super_call(o, name, args, kwargs, st, fr, node)
            if o.op == "cls":
                f = self.p.find_method(o.args[0], name)
                if f is None:
                    return self.ext_call(f"{o.args[0]}.{name}", args, kwargs, st, fr, node, discard)
                if any(dec_name(d) == "classmethod" for d in f.decorators):
                    return self.call_func(f, [o, *args], kwargs, st, fr, node)
                return self.call_func(f, args, kwargs, st, fr, node)
            return self.method(o, name, args, kwargs, st, fr, node, discard)
        if target.op == "ext":
            return self.ext_call(target.args[0], args, kwargs, st, fr, node, discard)
        if target.op == "builtin":
            return self.ext_call(target.args[0], args, kwargs, st, fr, node, discard)
        if target.op == "attr" and target.args[0].op == "cls":
            return self.ext_call(f"{target.args[0].args[0]}.{target.args[1]}", args, kwargs, st, fr, node, discard)
        if target.op == "partial":
            f0, a0, k0 = target.args
            return self.apply(f0, [*a0, *args], {**dict(k0), **kwargs}, st, fr, node, discard)
        if target.op == "getter":
            kind, *names = target.args
            if kind == "method":
                return self.method(args[0], cval(names[0]), list(names[1:]), {}, st, fr, node)
            vals = []
            for nm in names:
                if kind == "attr":
                    o = args[0]
                    for part in cval(nm).split("."):
                        o = self.get_attr(o, part, st, fr, node)
                    vals.append(self.val(st, o))
                else:
                    vals.append(self.val(st, self.get_item(args[0], nm, st, fr, node)))
            return vals[0] if len(vals) == 1 else mk("tuple", *vals)
        if target.op == "attr" and target.args[0].op == "builtin":
            return self.ext_call(f"{target.args[0].args[0]}.{target.args[1]}", args, kwargs, st, fr, node, discard)
        if target.op == "attr" and strip_none(typeof(target.args[0])).args[0] in ("list", "tuple", "set", "frozenset", "dict", "str", "bytes", "Path") \
                and typeof(target) is ANY:
            return self.method(*target.args, args, kwargs, st, fr, node, discard)
        if target.op == "tapp":
            return self.apply(target.args[0], args, kwargs, st, fr, node, discard)
        r = call("apply", (self.val(st, target), *[self.val(st, a) for a in args]), tuple((k, self.val(st, v)) for k, v in kwargs.items()))
        self.effect(r, st)
        self.may_raise(r, st, fr, node)
        return r

    def super_call(self, o, name, args, kwargs, st, fr, node):
        q = o.args[0]
        selfv = o.args[1]
        dyn = strip_none(typeof(selfv)).args[0] if selfv.op != "cls" else selfv.args[0]
        mro = self.p.mro(dyn) if dyn in self.p.classes else self.p.mro(q)
        if q in mro:
            mro = mro[mro.index(q) + 1:]
        else:
            mro = self.p.mro(q)[1:]
        for b in mro:
            c = self.p.classes.get(b)
            if c and name in c.methods:
                f = c.methods[name]
                return self.call_func(f, [selfv, *args], kwargs, st, fr, node)
            if c is not None and name == "__init__" and c.dc is not None and c.dc.get("init", True):
                self.dataclass_init(b, selfv, args, kwargs, st, fr, node)
                return NONE
        if name in ("__init__", "__post_init__", "__enter__", "__exit__"):
            return NONE
        return call(f"super.{name}", (self.val(st, selfv), *[self.val(st, a) for a in args]))

    def func_defaults(self, f):
        cache = self.__dict__.setdefault("_fd", {})
        if f.qual not in cache:
            fr = Frame(None, f.module, f.cls)
            nested = {q.rsplit(".", 1)[1]: mk("cls", q) for q in self.p.classes if f.cls is not None and q.startswith(f.cls.qual + ".")}
            st = State(nested, {FX: mk("list", EMPTY)})
            d = self.eval_defaults(f.node.args, st, fr)
            cache[f.qual] = {k: self.freeze(st, v) for k, v in d.items()}
        return cache[f.qual]

    def bind_args(self, a, args, kwargs, defaults, node, fr):
        env = {}
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        rest = list(args)
        for p in pos:
            if rest and rest[0].op != "star":
                env[p.arg] = rest.pop(0)
            elif rest and rest[0].op == "star" and not a.vararg:
                raise Unsupported("star argument", node, fr.module.name if fr else None)
            elif p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in defaults:
                env[p.arg] = defaults[p.arg]
            else:
                if "**" in kwargs:
                    env[p.arg] = getitem(kwargs["**"], const(p.arg))
                else:
                    env[p.arg] = mk("missing", p.arg)
        if a.vararg:
            q = []
            for r in rest:
                if r.op == "star":
                    q.append(iter_of(r.args[0]))
                else:
                    q.append(unit_value(r))
            s = cat(*q)
            if all(x.op == "u" and x.args[0] is TRUE for x in s.args):
                env[a.vararg.arg] = mk("tuple", *[x.args[1] for x in s.args])
            else:
                env[a.vararg.arg] = mk("tup", s)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in defaults:
                env[p.arg] = defaults[p.arg]
            elif "**" in kwargs:
                env[p.arg] = getitem(kwargs["**"], const(p.arg))
            else:
                env[p.arg] = mk("missing", p.arg)
        if a.kwarg:
            extra = kwargs.pop("**", None)
            evs = [unit(ev("set", (const(k),), v)) for k, v in sorted(kwargs.items())]
            if extra is not None:
                evs.append(self.as_dict(extra).args[0])
            env[a.kwarg.arg] = mk_dict(cat(*evs))
        return env

    def project_decorators(self, f):
        """decorators of f (outermost first) that are functions of the project"""
        out = []
        for d in f.decorators:
            if dec_name(d) in ("contextmanager", "staticmethod", "classmethod", "property", "cached_property", "wraps", "classproperty"):
                continue
            e = d.func if isinstance(d, ast.Call) else d
            if not isinstance(e, ast.Name):
                continue
            r = self.p.resolve(f.module.name, e.id)
            if r and r[0] == "func":
                if isinstance(d, ast.Call):
                    raise Unsupported("decorator factory", d, f.module.name)
                out.append(self.p.funcs[r[1]])
        return out

    def decorated(self, f, st, node):
        """the callable that the project decorators of f produce (None: no such decorator)"""
        ds = self.project_decorators(f)
        if not ds:
            return None
        t = mk("rawfunc", f.qual)
        for d in reversed(ds):
            t = self.call_func(d, [t], {}, st, Frame(None, f.module, None, None), node)
        return t

    def call_func(self, f, args, kwargs, st, fr, node, raw=False):
        q = f.qual
        self.trace_calls.append((q, node, fr.module.name if fr else ""))
        model = self.cfg.models.get(q)
        if model is not None:
            r = model(self, f, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if f.cls is not None and self.is_protocol(f.cls) and q not in self.cfg.effects and args:
            # whatever object implements the protocol
            r = call(f"m:{f.node.name}", tuple(self.val(st, a) for a in args), tuple((k, self.val(st, v)) for k, v in sorted(kwargs.items())))
            self.may_raise(r, st, fr, node)
            return r
        depth = sum(1 for x in self.stack if x == q)
        if self.is_opaque(f) or depth >= 2 or len(self.stack) > self.cfg.inline_depth:
            env = self.bind_args(f.node.args, args, kwargs, self.func_defaults(f), node, fr)
            names = tuple((k, self.val(st, v)) for k, v in env.items())
            r = call(q, (), names)
            if q in self.cfg.effects or f.cls is not None and f.cls.qual in self.cfg.effects:
                self.effect(r, st)
            for p in self.cfg.mutates.get(q, ()):
                o = self.obj(st, env[p])
                if o.op in ("const", "undef", "missing"):
                    continue
                k = self.kind_of(st, o)
                new = call(f"after:{q}.{p}", (r,))
                self.write_content(o, mk(k, iter_of(new)) if k in ("list", "set") else new, st)
            self.may_raise(r, st, fr, node)
            return r
        for d in f.decorators:
            nm = dec_name(d)
            if nm in ("contextmanager",):
                env = self.bind_args(f.node.args, args, kwargs, self.func_defaults(f), node, fr)
                return call(q, (), tuple((k, self.val(st, v)) for k, v in env.items()))
        if not raw:
            t = self.decorated(f, st, node)
            if t is not None:
                return self.apply(t, args, kwargs, st, fr, node)
        env = self.bind_args(f.node.args, args, kwargs, self.func_defaults(f), node, fr)
        selfv = None
        if f.cls is not None and not any(dec_name(d) == "staticmethod" for d in f.decorators):
            pos = f.node.args.posonlyargs + f.node.args.args
            if pos:
                selfv = env.get(pos[0].arg)
        self.stack.append(q)
        try:
            return self.run_function(f, env, st, fr, node, selfv=selfv)
        finally:
            self.stack.pop()

    def call_closure(self, t, args, kwargs, st, fr, node):
        c = self.closures[t.args[0]]
        env = self.bind_args(c.node.args, args, kwargs, c.defaults, node, fr)
        if len(self.stack) > self.cfg.inline_depth + 6 or sum(1 for x in self.stack if x == ("clo", t.args[0])) >= 2:
            raise Unsupported("recursive local function", node, fr.module.name)
        self.stack.append(("clo", t.args[0]))
        cenv = dict(c.frame.parent_env)
        cenv.update(c.env)
        try:
            return self.run_function(c, env, st, fr, node, closure_env=cenv)
        finally:
            self.stack.pop()

    def apply1(self, f, x, st, fr, node):
        """apply a callback to one value"""
        if f is NONE:
            return x
        return self.apply(f, [x], {}, st, fr, node)

    def as_lam(self, f, st, fr, node, typ=ANY, arity=1, origin=None):
        """callback as a pure λ (unsupported when it has side effects)"""
        v = fv(typ, origin)
        sub = State(dict(st.env), dict(st.heap), TRUE)
        f2 = Frame(None, fr.module, fr.cls, fr.selfv)
        r = self.apply(f, [v], {}, sub, f2, node)
        for e in f2.exits:
            if e.kind == "raise":
                # the callback is evaluated for every element
                if origin is None:
                    raise Unsupported("exception in a callback", node, fr.module.name)
                g = tm.exists(iter_of(origin), v, e.guard)
                x = mk("exc", self.exc_name(e.value), e.value.args[1] if not any(v.args[0] in a.free for a in e.value.args[1] if isinstance(a, T)) else ())
                self.throw(x, g, st, fr, e.node)
        return lam(v, self.val(sub, r))

    # ---------------------------------------------------------- construction
    def construct(self, q, args, kwargs, st, fr, node):
        model = self.cfg.models.get(q)
        if model is not None:
            r = model(self, q, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        if self.is_exception(q):
            return mk("exc", q, ())
        if self.is_enum(q):
            return call(f"new:{q}", tuple(self.val(st, a) for a in args))
        init = self.p.find_method(q, "__init__")
        isdc = self.is_dc(q)
        if q in self.cfg.inline_ctor:
            ref = mk("ref", next(self.ids), ty(q))
            st.heap[mk("fld", ref, "$alloc")] = TRUE
            if init is not None:
                self.call_func(init, [ref, *args], kwargs, st, fr, node)
            elif isdc:
                self.dataclass_init(q, ref, args, kwargs, st, fr, node)
            return ref
        if init is None and isdc:
            flds = self.bind_fields(q, args, kwargs, st, fr, node)
            t = mk("new", q, tuple((n, self.val(st, v)) for n, v in flds))
            self.may_raise(call(f"new:{q}", tuple(v for _, v in t.args[1])), st, fr, node)
            return t
        if init is not None:
            env = self.bind_args(init.node.args, [mk("self"), *args], kwargs, self.func_defaults(init), node, fr)
            kw = tuple((k, self.val(st, v)) for k, v in env.items() if v.op != "self")
            r = call(f"new:{q}", (), kw)
        else:
            r = call(f"new:{q}", tuple(self.val(st, a) for a in args), tuple((k, self.val(st, v)) for k, v in kwargs.items()))
        self.may_raise(r, st, fr, node)
        return r

    def is_dc(self, q):
        return any(self.p.classes[x].dc is not None for x in self.p.mro(q) if x in self.p.classes)

    def is_exception(self, q):
        for b in self.p.mro(q):
            x = getattr(builtins, b, None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return True
        return False

    def bind_fields(self, q, args, kwargs, st, fr, node):
        flds = [(n, a, d, c) for n, (a, d, c) in self.p.all_fields(q).items() if not self._is_classvar(a)]
        out = []
        rest = list(args)
        kwargs = dict(kwargs)
        for n, a, d, c in flds:
            if rest and rest[0].op != "star":
                out.append((n, rest.pop(0)))
            elif n in kwargs:
                out.append((n, kwargs.pop(n)))
            elif d is not None:
                out.append((n, self.field_default(d, c, st, fr)))
            elif "**" in kwargs:
                out.append((n, getitem(kwargs["**"], const(n))))
            else:
                out.append((n, mk("missing", n)))
        for k, v in kwargs.items():
            if k != "**":
                out.append((k, mk("unexpected", v)))
        return out

    def field_default(self, d, c, st, fr):
        f2 = Frame(None, c.module, c)
        if isinstance(d, ast.Call) and self.p.static_ref(d.func, c.module.name) == ("ext", "dataclasses.field"):
            for kw in d.keywords:
                if kw.arg == "default_factory":
                    fac = self.eval(kw.value, st, f2)
                    return self.apply(fac, [], {}, st, fr, d)
                if kw.arg == "default":
                    return self.eval(kw.value, st, f2)
            return mk("missing", "default")
        return self.eval(d, st, f2)

    def dataclass_init(self, q, ref, args, kwargs, st, fr, node):
        for n, v in self.bind_fields(q, args, kwargs, st, fr, node):
            st.heap[mk("fld", ref, n)] = v
        pi = self.p.find_method(strip_none(typeof(ref)).args[0] if strip_none(typeof(ref)).args[0] in self.p.classes else q, "__post_init__")
        if pi is not None:
            self.call_func(pi, [ref], {}, st, fr, node)

    # --------------------------------------------------------------- methods
    def method(self, o, name, args, kwargs, st, fr, node, discard=False):
        from . import models
        if o.op == "cases" and not (self.kind_of(st, o) in ("list", "set", "dict") and name not in MUTATORS):
            alts = [(c, v) for c, v in o.args if v is not NONE or name in ("__eq__",)]
            if len(alts) == 1:
                return self.method(alts[0][1], name, args, kwargs, st, fr, node, discard)
            vals, heaps, lives = [], [], []
            for c, v in alts:
                sub = State(st.env, dict(st.heap), and_(st.live, c))
                if sub.live is FALSE:
                    continue
                vals.append((c, self.method(v, name, args, kwargs, sub, fr, node, discard)))
                heaps.append((c, sub.heap))
                lives.append(sub.live)
            if not vals:
                return mk("undef")
            dead = or_(*[and_(st.live, c) for c, v in o.args if v is NONE])
            st.heap = self.merge_heaps(heaps)
            st.live = or_(*lives)
            return self.merge_values(vals)
        if o.op == "pref":
            c = self.content(st, o)
            if c is not None and c.op not in ("list", "set", "dict", "tuple"):
                k = self.kind_of(st, o)
                if k not in ("list", "set", "dict"):
                    o = c
        q = strip_none(typeof(o)).args[0]
        if o.op == "localcls" or o.op == "func":
            r = call(f"attr:{name}", (o, *[self.val(st, a) for a in args]))
            return r
        if q in self.p.classes:
            f = self.p.find_method(q, name)
            loc = mk("fld", o, name)
            if f is not None:
                if any(dec_name(d) == "staticmethod" for d in f.decorators):
                    return self.call_func(f, args, kwargs, st, fr, node)
                if any(dec_name(d) == "classmethod" for d in f.decorators):
                    return self.call_func(f, [mk("cls", q), *args], kwargs, st, fr, node)
                if is_property(f):
                    t = self.get_attr(o, name, st, fr, node)
                    return self.apply(t, args, kwargs, st, fr, node, discard)
                return self.call_func(f, [o, *args], kwargs, st, fr, node)
        if o.op == "builtin":
            return self.ext_call(f"{o.args[0]}.{name}", args, kwargs, st, fr, node, discard)
        mm = self.cfg.method_models.get(name)
        if mm is not None:
            r = mm(self, o, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        kind = self.kind_of(st, o)
        if kind in ("list", "set", "dict"):
            r = models.container_method(self, kind, o, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        r = models.value_method(self, o, name, args, kwargs, st, fr, node)
        if r is not None:
            return r
        t = call(f"m:{name}", (self.val(st, o), *[self.val(st, a) for a in args]), tuple((k, self.val(st, v)) for k, v in kwargs.items()))
        if name in EFFECT_METHODS or discard:
            if not (name in ("add_argument", "add_mutually_exclusive_group", "parse_args")):
                self.effect(t, st)
        if kind == "argparse.ArgumentParser" or name == "error" and strip_none(typeof(o)).args[0] == "argparse.ArgumentParser":
            pass
        self.may_raise(t, st, fr, node)
        return t

    def update_container(self, o, op, args, st, fr, node):
        from . import models
        return models.container_method(self, self.kind_of(st, o), o, op, args, {}, st, fr, node)

    def ext_call(self, name, args, kwargs, st, fr, node, discard=False):
        from . import models
        m = self.cfg.ext_models.get(name)
        if m is not None:
            r = m(self, args, kwargs, st, fr, node)
            if r is not NotImplemented:
                return r
        r = models.ext_function(self, name, args, kwargs, st, fr, node)
        if r is not None:
            return r
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return mk("exc", name, ())
        t = call(name, tuple(self.val(st, a) for a in args), tuple((k, self.val(st, v)) for k, v in kwargs.items()))
        if name in EFFECT_FUNCS or discard:
            self.effect(t, st)
        self.may_raise(t, st, fr, node)
        return t


MUTATORS = {"append", "extend", "insert", "add", "update", "remove", "discard", "pop", "clear", "setdefault", "sort", "reverse", "popitem"}


def ext_entity(name):
    if name.startswith("re.") and name[3:].isupper():
        import re
        v = getattr(re, name[3:], None)
        if isinstance(v, re.RegexFlag):
            return const(int(v))
    return mk("ext", name)


def bind_src(src, v, body):
    return mk_b(src, v, body)


def unit_value(v, guard=TRUE):
    """unit sequence; containers are split by `cases`"""
    return unit(v, guard)


def dec_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Name):
        return d.id
    if isinstance(d, ast.Attribute):
        return d.attr
    return ""


def is_property(f):
    return any(dec_name(d) in ("property", "cached_property") for d in f.decorators)


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return t
