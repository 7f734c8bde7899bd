"""Output effects in a normal form that does not depend on which writing call is used.

    begin(target)     a file (path) or archive entry `entry(zip, info)` is created or emptied
    data(target, x)   the bytes x (or text) are appended to it

Reading is no effect; what was read appears as content(source) in the data."""
from __future__ import annotations

from .terms import *  # noqa: F403
from .terms import EMPTY, STR, T, const, cval, is_const, mk, strip_none, typeof
from . import terms as tm

STDOUT = mk("ext", "sys.stdout")
OTHER = {
    "subprocess.run", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen", "subprocess.call",
    "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.rmtree", "shutil.move", "os.remove", "os.unlink", "os.rename", "os.replace",
    "os.makedirs", "os.mkdir", "os.system", "exec", "eval", "importlib.import_module", "__import__",
    "m:unlink", "m:mkdir", "m:rename", "m:replace_file", "m:rmdir", "m:touch", "m:install", "m:extractall", "m:extract", "m:truncate", "apply",
}


def _mode(args, kw, i):
    m = kw.get("mode", args[i] if len(args) > i else const("r"))
    return cval(m) if is_const(m) and isinstance(cval(m), str) else "?"


def is_zip(t):
    return t.op == "call" and t.args[0] == "zipfile.ZipFile" or strip_none(typeof(t)).args[0] == "zipfile.ZipFile"


def target(h):
    """the file or entry behind a handle"""
    if h.op == "call" and h.args[0] in ("m:open", "open"):
        a, kw = h.args[1], dict(h.args[2])
        if h.args[0] == "m:open" and is_zip(a[0]):
            return call("entry", (target(a[0]), kw.get("name", a[1] if len(a) > 1 else NONE)))
        return _path(a[0])
    if h.op == "call" and h.args[0] == "zipfile.ZipFile":
        return _path(h.args[1][0]) if h.args[1] else h
    return h


def _path(p):
    if p.op == "call" and p.args[0] == "pathlib.Path" and len(p.args[1]) == 1:
        return p.args[1][0]
    return p


def source(h):
    return call("content", (target(h),))


def pieces(x):
    """x as a sequence of appended pieces"""
    if x.op == "cases":
        return cat(*[guard_seq(c, pieces(v)) for c, v in x.args])
    if is_const(x):
        v = cval(x)
        if isinstance(v, str):
            return cat(*[unit(const(c)) for c in v])
        if isinstance(v, bytes):
            try:
                return cat(*[unit(const(c)) for c in v.decode("ascii")])
            except UnicodeDecodeError:
                return unit(x)
    if x.op == "fstr":
        return cat(*[pieces(p) if isinstance(p, T) else pieces(const(p)) for p in x.args])
    if x.op == "call" and x.args[0] == "str" and len(x.args[1]) == 1 and typeof(x.args[1][0]) is STR:
        return pieces(x.args[1][0])
    if x.op == "str" and typeof(x.args[0]) is STR:
        return pieces(x.args[0])
    if x.op == "call" and x.args[0] == "encode" and len(x.args[1]) == 1:
        return pieces(x.args[1][0])
    if x.op == "join" and is_const(x.args[0]) and len(x.args[0].args[1]) == 0 and x.args[1].op == "seq":
        return flat(x.args[1])
    if x.op == "call" and x.args[0] == "+":
        return cat(*[pieces(p) for p in x.args[1]])
    if x.op == "call" and x.args[0] == "m:read" and len(x.args[1]) == 1:
        return unit(source(x.args[1][0]))
    if x.op == "call" and x.args[0] in ("m:read_bytes", "m:read_text") and len(x.args[1]) == 1:
        return unit(call("content", (_path(x.args[1][0]),)))
    if x.op == "call" and x.args[0] == "m:read" and len(x.args[1]) == 2 and is_zip(x.args[1][0]):
        return unit(call("content", (call("entry", (target(x.args[1][0]), x.args[1][1])),)))
    return unit(x)


def flat(s):
    out = []
    for seg in s.args:
        if seg.op == "u":
            out.append(guard_seq(seg.args[0], pieces(seg.args[1])))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, flat(b)) if b.op == "seq" else mk("seq", seg))
    return cat(*out)


def data(h, x):
    return tm.map_leaves(pieces(x), lambda p: call("data", (h, p)))


def begin(h):
    return unit(call("begin", (h,)))


def _dump(fn, a, kw):
    return call(fn, (a,), tuple(sorted(((k, v) for k, v in kw.items() if k not in ("fp", "stream")), key=lambda p: p[0])))


def normal(extra=()):
    """effect -> sequence of normal effects (for equiv's fx_keep)"""
    def go(t):
        if t.op != "call":
            return unit(t) if "?" in extra else EMPTY
        n, a, kw = t.args[0], t.args[1], dict(t.args[2])
        if n in extra:
            return unit(t)
        if n == "m:open" or n == "open":
            z = n == "m:open" and is_zip(a[0])
            m = _mode(a, kw, 2 if z else 1)
            return begin(target(t)) if any(c in m for c in "wax+?") else EMPTY
        if n == "zipfile.ZipFile":
            m = _mode(a, kw, 1)
            return begin(target(t)) if any(c in m for c in "wax+?") else EMPTY
        if n in ("sys.stdout.write", "sys.stdout.writelines") and len(a) == 1:
            return data(STDOUT, a[0]) if n == "sys.stdout.write" else tm.map_leaves(flat(iter_of(a[0])), lambda p: call("data", (STDOUT, p)))
        if n == "m:write" and len(a) == 2:
            if a[0].op == "call" and a[0].args[0].endswith("TOMLFile"):
                p = _path(a[0].args[1][0])
                return cat(begin(p), data(p, call("tomlkit.dumps", (a[1],))))
            if is_zip(a[0]):
                return unit(t)
            return data(target(a[0]), a[1])
        if n == "m:writelines" and len(a) == 2:
            h = target(a[0])
            return tm.map_leaves(flat(iter_of(a[1])), lambda p: call("data", (h, p)))
        if n in ("m:write_text", "m:write_bytes"):
            p = _path(a[0])
            return cat(begin(p), data(p, a[1] if len(a) > 1 else kw.get("data", NONE)))
        if n == "m:writestr" and len(a) >= 3:
            e = call("entry", (target(a[0]), a[1]))
            return cat(begin(e), data(e, a[2]))
        if n == "shutil.copyfileobj" and len(a) >= 2:
            return unit(call("data", (target(a[1]), source(a[0]))))
        if n in ("shutil.copyfile", "shutil.copy", "shutil.copy2") and len(a) == 2 and not kw:
            return cat(begin(_path(a[1])), unit(call("data", (_path(a[1]), call("content", (_path(a[0]),))))))
        if n == "json.dump" and (len(a) >= 2 or "fp" in kw):
            return data(target(a[1] if len(a) > 1 else kw["fp"]), _dump("json.dumps", a[0], kw))
        if n == "tomlkit.dump" and len(a) >= 2:
            return data(target(a[1]), _dump("tomlkit.dumps", a[0], kw))
        if n == "print":
            kw2 = dict(kw)
            h = kw2.get("file", STDOUT)
            sep = kw2.get("sep", const(" "))
            end = kw2.get("end", const("\n"))
            out = []
            for i, x in enumerate(a):
                if i:
                    out.append(data(h, sep))
                out.append(data(h, fstr(x)))
            return cat(*out, data(h, end))
        return unit(t) if n in OTHER else EMPTY
    return go
