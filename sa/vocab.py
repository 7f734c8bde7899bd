"""Calls of code outside the analysed program: one form per call, and which of them are understood.

A call of library code is an opaque symbol.  Two *different* opaque calls prove nothing about behaviour (there are many
ways to write the same with another function), so a difference that involves a call unknown to the specification is
reported as undecided unless the call's meaning is modelled (`refute.CALLS`) or listed here as certainly different."""
from __future__ import annotations

from . import terms as tm
from .terms import *  # noqa: F403
from .terms import EMPTY_STR, FALSE, NONE, STR, T, TRUE, const, cval, is_const, mk, strip_none, typeof

REQ = object()
U8 = const("utf-8")
SELF = ("self", REQ)
SIGS = {
    "m:split": [SELF, ("sep", NONE), ("maxsplit", const(-1))],
    "m:rsplit": [SELF, ("sep", NONE), ("maxsplit", const(-1))],
    "m:splitlines": [SELF, ("keepends", FALSE)],
    "m:decode": [SELF, ("encoding", U8), ("errors", const("strict"))],
    "m:encode": [SELF, ("encoding", U8), ("errors", const("strict"))],
    "m:strip": [SELF, ("chars", NONE)],
    "m:lstrip": [SELF, ("chars", NONE)],
    "m:rstrip": [SELF, ("chars", NONE)],
    "zipfile.ZipFile": [("file", REQ), ("mode", const("r")), ("compression", const(0)), ("allowZip64", TRUE)],
    "json.loads": [("s", REQ)],
    "json.load": [("fp", REQ)],
    "tomllib.load": [("fp", REQ)],
    "tomllib.loads": [("s", REQ)],
    "importlib.metadata.entry_points": [],
    "os.environ.get": [("key", REQ), ("default", NONE)],
    "m:read_text": [SELF, ("encoding", NONE), ("errors", NONE)],
    "m:glob": [SELF, ("pattern", REQ)],
    "m:rglob": [SELF, ("pattern", REQ)],
    "m:evaluate": [SELF, ("environment", NONE)],
    "packaging.markers.Marker": [("marker", REQ)],
    "packaging.requirements.Requirement": [("requirement_string", REQ)],
    "packaging.utils.canonicalize_name": [("name", REQ), ("validate", FALSE)],
    "packaging.version.Version": [("version", REQ)],
    "m:samefile": [SELF, ("other_path", REQ)],
}
# keyword-only options: their defaults, and those that do not change what happens
KW = {
    "subprocess.run": {"check": FALSE, "input": NONE, "timeout": NONE, "shell": FALSE, "env": NONE, "cwd": NONE, "capture_output": FALSE,
                       "stdout": NONE, "stderr": NONE, "stdin": NONE, "text": NONE, "encoding": NONE},
    "json.dumps": {"skipkeys": FALSE, "ensure_ascii": TRUE, "check_circular": TRUE, "allow_nan": TRUE, "cls": NONE, "indent": NONE,
                   "separators": NONE, "default": NONE, "sort_keys": FALSE},
    "m:mkdir": {"parents": FALSE, "exist_ok": FALSE},
}
IRRELEVANT = {"tempfile.TemporaryDirectory": {"prefix", "suffix", "dir"}, "json.dumps": {"check_circular"}}
ENC = {"utf8": "utf-8", "utf_8": "utf-8", "utf-8": "utf-8", "u8": "utf-8"}


def normal_call(t):
    """positional and keyword arguments in one form, defaults dropped"""
    n, a, kw = t.args
    if kw and (n in KW or n in IRRELEVANT):
        d, ir = KW.get(n, {}), IRRELEVANT.get(n, ())
        kw2 = tuple((k, v) for k, v in kw if k not in ir and d.get(k) is not v)
        kd = dict(kw2)
        if n == "subprocess.run" and all(kd.get(k) is mk("ext", "subprocess.PIPE") for k in ("stdout", "stderr")):
            kd.pop("stdout")
            kd.pop("stderr")
            kd["capture_output"] = TRUE
            kw2 = tuple(sorted(kd.items(), key=lambda p: p[0]))
        return call(n, a, kw2) if kw2 != kw else t
    sig = SIGS.get(n)
    if sig is None or n == "m:open":
        return t
    names = [s[0] for s in sig]
    kd = dict(kw)
    if len(a) > len(sig) or any(k not in names for k in kd) or any(x.op == "star" for x in a):
        return t
    vals = list(a)
    for name, d in sig[len(a):]:
        v = kd.pop(name, d)
        vals.append(v)
    if kd:
        return t
    out = []
    for (name, d), v in zip(sig, vals):
        if v is REQ:
            return t
        if name == "encoding" and is_const(v) and isinstance(cval(v), str):
            e = cval(v).lower()
            v = const(ENC.get(e, e))
        out.append(v)
    while out and len(out) <= len(sig) and sig[len(out) - 1][1] is out[-1]:
        out.pop()
    return call(n, tuple(out)) if tuple(out) != a or kw else t


# a call of one of these, where the specification has none of them, is a different behaviour
RIGID = ("hashlib.", "random.", "secrets.", "uuid.", "time.", "datetime.", "platform.", "socket.", "urllib.", "subprocess.", "os.system", "os.popen", "zlib.")
RIGID_NAMES = {
    "m:hexdigest", "m:digest", "m:exists", "m:is_file", "m:is_dir", "m:is_symlink", "m:is_mount", "m:glob", "m:rglob", "m:iterdir", "m:stat", "m:lstat", "os.path.getmtime",
    "hash", "id", "sha256", "begin", "data", "content", "entry", "opt", "option", "cli", "apply", "enter", "doc", "exec", "eval",
    "os.environ.get", "os.getenv", "os.getpid", "os.listdir", "sys.exit", "m:unlink", "m:rmdir", "os.remove", "os.unlink", "shutil.rmtree", "m:touch", "m:mkdir", "os.makedirs", "os.mkdir", "m:install", "m:merge",
    "importlib.import_module", "__import__", "json.dumps", "json.loads", "json.load", "typed", "getattr", "setattr", "setitem", "item-del",
    "Path./", "m:append", "m:add", "m:extend", "m:setdefault", "m:load", "issubclass", "isinstance", "type",
    "base64.b64encode", "base64.urlsafe_b64encode", "base64.standard_b64encode",
}


def names(t):
    out = set()
    for x in tm.subterms(t):
        if x.op == "call":
            out.add((x.args[0], len(x.args[1]), tuple(k for k, _ in x.args[2])))
        elif x.op == "ext":
            out.add((x.args[0], -1, ()))
        elif x.op == "attr":
            out.add(("." + x.args[1], strip_none(typeof(x.args[0])).args[0], ()))
    return out


def only_compared(t, n):
    """the results of the call are only used as (parts of) keys"""
    for x in tm.subterms(t):
        if x.op in ("tuple", "tup", "eq") or x.op == "call" and x.args[0] == "hash":
            continue
        todo = list(x.args)
        while todo:
            a = todo.pop()
            if isinstance(a, tuple):
                todo += a
            elif isinstance(a, tm.T) and a.op == "call" and a.args[0] == n:
                return False
    return True


def strangers(p, impl, spec, modelled):
    """library calls of the implementation without counterpart in the specification and without a known meaning"""
    have = names(spec)
    short = {n for n, *_ in have}
    fields = p.__dict__.get("_fieldnames") if p is not None else set()
    if fields is None:
        fields = set()
        for c in p.classes.values():
            fields |= set(c.methods) | set(c.fields) | set(c.consts)
        p._fieldnames = fields
    out = set()
    free = {n for n in ("m:resolve", "m:absolute") if n not in have and only_compared(impl, n)}
    for it in names(impl) - have:
        n, k, kws = it
        if n in free:
            continue
        if n.startswith("."):
            if n[1:] in fields or n in short:
                continue
            if k == "packaging.version.Version" and n == ".release" or n in (".st_mtime", ".st_size", ".st_ctime", ".st_mtime_ns", ".st_ino"):
                continue
            if isinstance(k, str) and k in ("Path",) and n in (".name", ".suffix", ".stem", ".parent", ".parts"):
                continue
            out.add(n)
            continue
        if p is not None and (n in p.funcs or n in p.classes or n.startswith(("new:", "after:", "variantlib.", "spec."))):
            continue
        if n in modelled and not kws:
            continue
        if n in RIGID_NAMES or n.startswith(RIGID):
            continue
        if k == -1:
            # a library object as a value
            if n.startswith(("sys.std", "variantlib.")) or n in ("sys.executable", "sys.prefix", "sys.argv") or n in short:
                continue
        out.add(n)
    return sorted(out)
