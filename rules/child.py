import ast
import os
import sys

from sa import terms as tm
from sa.check import analyse
from sa.check import custom
from sa.check import equiv
from sa.check import fx_filter
from sa.check import where
from sa.effects import normal
from sa.interp import Interp
from sa.project import AnalysisBroken
from sa.terms import T, mk

S = "variantlib.plugins._subprocess."
B = "variantlib.plugins.loader.BasePluginLoader."
W = ("value", "raises", "fx", "fxraise")


def plain(k, x, y):
    """the script's place (decided by `child.files`) and the form of the program's arguments do not matter here"""
    def go(t):
        if t.op == "call" and t.args[0] == "Path./" and any(s.op == "call" and s.args[0] == "tempfile.TemporaryDirectory" for s in tm.subterms(t)):
            return mk("ext", "$script")
        t = tm.map_children(t, go) if any(isinstance(a, (T, tuple)) for a in t.args) and t.op not in ("ty", "fv", "sym", "bv", "const") else t
        if t.op in ("str", "call") and t.args[0] in ("str", "os.fspath") or t.op == "str":
            inner = t.args[0] if t.op == "str" else t.args[1][0]
            if inner.op == "ext" and inner.args[0] == "$script" or tm.strip_none(tm.typeof(inner)).args[0] == "Path":
                return inner
        if t.op == "keys" and t.args[0].op == "call" and t.args[0].args[0] == "json.load":
            return t.args[0]          # a mapping is iterated by its keys
        if t.op == "call" and t.args[0] == S + "process_configs":
            # the method's name appears in messages only
            return tm.call(t.args[0], t.args[1], tuple(p for p in t.args[2] if p[0] != "method"))
        return t
    return go(x), go(y)


equiv("child.run", B + "_run_call_subprocess", "child.run", W, fx_keep=lambda t: t.op == "call" and t.args[0] == "subprocess.run", post=plain, private=True)
equiv("child.load", S + "load_plugins", "child.load_plugins", W, fx_keep=normal())
equiv("child.configs", S + "process_configs", "child.process_configs", W, cfg={"validation": True, "opaque": {"variantlib.validators.base.validate_type"}},
      fx_keep=normal())
equiv("child.main", S + "main", "child.main", W, cfg={"effects": {S + "load_plugins"}, "opaque": {S + "process_configs"}}, fx_keep=normal({S + "load_plugins"}), post=plain)


# ------------------------------------------------------------ the child's files
RUN = B + "_run_call_subprocess"


class Unclear(Exception):
    pass


def _bytes(p, t, origins):
    """constant evaluation of what is written into a file"""
    if t.op == "call" and t.args[0] == "data":
        return _bytes(p, t.args[1][1], origins)
    if t.op == "const":
        v = tm.cval(t)
        return v.encode() if isinstance(v, str) else v
    if t.op == "call":
        n, a = t.args[0], t.args[1]
        if n == "m:replace" and len(a) == 3 and all(x.op == "const" for x in a[1:]):
            o, x, y = _bytes(p, a[0], origins), *(_bytes(p, q, origins) for q in a[1:])
            return o.replace(x, y)
        if n in ("m:read_bytes", "m:read_text"):
            return _resource(p, a[0], origins)
        if n == "content":
            return _resource(p, a[0], origins)
        if n in ("encode", "m:encode", "m:decode", "decode"):
            return _bytes(p, a[0], origins)
        if n in ("importlib.resources.read_binary", "importlib.resources.read_text") and len(a) == 2:
            return _resource(p, tm.call("Path./", (tm.call("importlib.resources.files", (a[0],)), a[1])), origins)
    if t.op == "str":
        return _bytes(p, t.args[0], origins)
    raise Unclear(tm.show(t, 5)[:200])


def _resource(p, t, origins):
    parts = []
    while t.op == "call" and t.args[0] in ("Path./", "m:joinpath") and len(t.args[1]) == 2 and t.args[1][1].op == "const":
        parts.insert(0, tm.cval(t.args[1][1]))
        t = t.args[1][0]
    if t.op == "call" and t.args[0] == "importlib.resources.files" and t.args[1] and t.args[1][0].op == "const":
        rel = "/".join([tm.cval(t.args[1][0]).replace(".", "/"), *parts])
        for m in p.modules.values():
            if os.path.relpath(m.path, p.root) == rel:
                origins.append(m.name)
                return m.src.encode()
        raise FileNotFoundError(rel)
    raise Unclear(tm.show(t, 5)[:200])


def _name(t):
    """file name of a path inside the temporary directory"""
    if t.op == "call" and t.args[0] == "pathlib.Path":
        t = t.args[1][0]
    if t.op == "str":
        t = t.args[0]
    if t.op == "call" and t.args[0] == "Path./" and t.args[1][1].op == "const" and any(
            x.op == "call" and x.args[0] == "tempfile.TemporaryDirectory" for x in tm.subterms(t)):
        return tm.cval(t.args[1][1])
    raise Unclear(tm.show(t, 5)[:200])


def _imports(tree):
    """(module, [names]) of the imports that are executed"""
    out = []

    def walk(n):
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            for s in n.orelse:
                walk(s)
            return
        if isinstance(n, ast.Import):
            out.extend((a.name, None, n) for a in n.names)
        elif isinstance(n, ast.ImportFrom):
            out.append(("." * n.level + (n.module or ""), [a.name for a in n.names], n))
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(tree)
    return out


def _defined(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


@custom("child.files", "the program started for the plugins is the analysed one, complete before it is started, and imports nothing but the standard library and the files beside it")
def child_files(p, r):
    f = Interp(p).get_func(RUN)
    if f is None:
        r.unsure(f"{RUN} does not exist any more")
        return
    I, s = analyse(p, RUN)
    r.functions |= s.functions
    fx = fx_filter(I.fx(s), normal({"subprocess.run"}))
    loc = where(p, RUN)
    try:
        if fx.op != "list":
            raise Unclear("effects depend on conditions")
        files, begun, started = {}, set(), None
        origins = {}
        for seg in fx.args[0].args:
            if seg.op != "u" or seg.args[0] is not tm.TRUE or seg.args[1].op != "call":
                raise Unclear("effects depend on conditions")
            e = seg.args[1]
            if e.args[0] == "subprocess.run":
                started = (e, dict(files))
                continue
            n = _name(e.args[1][0])
            if e.args[0] == "begin":
                files[n] = b""
            else:
                origins.setdefault(n, [])
                files[n] = files.get(n, b"") + _bytes(p, e, origins[n])
        if started is None:
            raise Unclear("no call of subprocess.run")
        call, before = started
        argv = call.args[1][0]
        if argv.op != "list" or len(argv.args[0].args) < 2:
            raise Unclear("argument list")
        script = _name(argv.args[0].args[1].args[1])
    except Unclear as e:
        r.unsure(f"{RUN}: {e}")
        return
    except FileNotFoundError as e:
        r.violate(loc, f"the file {e} that is copied for the plugin process is not part of the package", f"{RUN}:missing:{e}")
        return
    if script not in before:
        r.violate(loc, f"the plugin process runs {script!r}, which has not been written before it is started", f"{RUN}:script")
        return
    trees = {}
    for n, b in files.items():
        try:
            trees[n] = ast.parse(b.decode())
        except (SyntaxError, UnicodeDecodeError) as e:
            r.violate(loc, f"the file {n} written for the plugin process is not a Python program: {e}", f"{RUN}:syntax:{n}")
            return
    if origins.get(script) != [S[:-1]]:
        r.violate(loc, f"the plugin process runs the source of {origins.get(script)}, not of {S[:-1]}", f"{RUN}:origin")
    t = trees[script]
    last = t.body[-1] if t.body else None
    if not (isinstance(last, ast.If) and "__name__" in ast.unparse(last.test) and any(
            isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "main" for c in ast.walk(last))):
        r.violate(loc, f"the program {script} does not call main() when it is run", f"{RUN}:main")
    todo, seen = [script], set()
    real = {}
    for i in _imports(p.modules[S[:-1]].tree):
        if i[0].startswith("variantlib"):
            for name in i[1] or []:
                real[name] = i[0]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for mod, names, node in _imports(trees[n]):
            top = mod.split(".")[0]
            r.fact(f"{n} imports {mod}")
            local = top + ".py"
            if mod.startswith(".") or (local not in files and top not in sys.stdlib_module_names):
                r.violate(f"{loc} {n}:{node.lineno}", f"the plugin process would import {mod!r} (in {n}), which is neither part of the standard library nor "
                          "one of the files written for it", f"{RUN}:import:{n}:{mod}")
                continue
            if local in files:
                if local not in before:
                    r.violate(loc, f"{local} is written only after the plugin process has been started", f"{RUN}:late:{local}")
                todo.append(local)
                for x in names or []:
                    if x not in _defined(trees[local]) and x != "*":
                        r.violate(loc, f"{n} imports {x}, which {local} does not define", f"{RUN}:name:{x}")
                    elif n == script and x in real and origins.get(local) != [real[x]] and p.resolve(real[x], x) != p.resolve((origins.get(local) or ["?"])[0], x):
                        r.violate(loc, f"{x} comes from {origins.get(local)} in the plugin process, but from {real[x]} in the analysed program", f"{RUN}:other:{x}")


PLUGIN_LOADING = {"importlib.import_module", "importlib.__import__", "runpy.run_module", "runpy.run_path", "importlib.util.spec_from_file_location",
                  "importlib.util.module_from_spec", "pkgutil.resolve_name", "importlib.reload", "imp.load_module"}


@custom("child.only", "no code of plugins is loaded by the library's own process")
def child_only(p, r):
    for m in p.modules.values():
        if m.name.startswith("spec.") or m.name == S[:-1]:
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            ref = p.static_ref(n.func, m.name)
            name = ref[1] if ref and ref[0] in ("ext", "builtin") else None
            r.facts += 1
            at = f"{os.path.relpath(m.path, p.root)}:{n.lineno} ({m.name})"
            if name in PLUGIN_LOADING or name in ("__import__", "exec", "eval", "compile") and isinstance(n.func, ast.Name) and not (n.args and isinstance(n.args[0], ast.Constant)):
                r.violate(at, f"{name} loads code inside the library's own process", f"{m.name}:{name}")
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "load" and not n.args and not n.keywords and not m.name.startswith("variantlib.commands.") and ref is None:
                r.unsure(f"{at}: .load() may load an entry point")
            if ref and ref[0] in ("func", "cls") and ref[1].startswith(S) and m.name != S[:-1]:
                r.violate(at, f"{ref[1]} of the plugin process is called in the library's own process", f"{m.name}:{ref[1]}")
    if S[:-1] not in p.modules:
        r.unsure(f"{S[:-1]} does not exist any more")


@custom("child.required", "the attributes every plugin must have are exactly namespace, get_all_configs and get_supported_configs; those of a feature configuration name, values and multi_value")
def child_required(p, r):
    for q, want in (("variantlib.protocols.PluginType", {"namespace", "get_all_configs", "get_supported_configs"}),
                    ("variantlib.protocols.VariantFeatureConfigType", {"name", "values", "multi_value"})):
        c = p.classes.get(q)
        if c is None:
            raise AnalysisBroken(f"anchor {q} not found")
        have = {n for n, f in c.methods.items() if any("abstractmethod" in ast.unparse(d) for d in f.decorators)}
        r.fact(f"{q}: required {sorted(have)}")
        for n in sorted(want - have):
            r.violate(f"{os.path.relpath(c.module.path, p.root)}:{c.node.lineno} ({q})", f"{n} is not required of a plugin's {q.rsplit('.', 1)[1]}", f"{q}:{n}")
        for n in sorted(have - want):
            r.violate(f"{os.path.relpath(c.module.path, p.root)}:{c.node.lineno} ({q})", f"{n} is required, although plugins need not have it", f"{q}:{n}")
        if not any("runtime_checkable" in ast.unparse(d) for d in c.node.decorator_list) and q.endswith("ConfigType"):
            r.violate(f"{os.path.relpath(c.module.path, p.root)}:{c.node.lineno} ({q})", "the protocol cannot be checked at run time", f"{q}:runtime")
