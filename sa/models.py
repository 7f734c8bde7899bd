"""Semantics of the built-in containers, strings and library functions used by
the analysed program, as operations on value-graph terms."""
from __future__ import annotations

import ast
import builtins

from . import terms as tm
from .terms import *  # noqa: F403
from .terms import ANY, BOOL, BYTES, EMPTY, FALSE, INT, NONE, STR, TRUE, mk


# ------------------------------------------------------------------ containers
def container_method(I, kind, o, name, args, kwargs, st, fr, node):
    raw = I.raw_target(st, o)
    if raw is not o:
        return I.method(raw, name, args, kwargs, st, fr, node)
    f = globals().get(f"{kind}_{name}")
    if f is None:
        return None
    return f(I, o, args, kwargs, st, fr, node)


def _content(I, o, st, kind):
    c = I.content(st, o)
    if c is None or c.op != kind:
        if c is None:
            c = I.val(st, o)
        if kind == "list":
            return mk("list", iter_of(c))
        if kind == "set":
            return mk_set(iter_of(c))
        return I.as_dict(c)
    return c


def _dictpath(I, o):
    """o is a container stored inside a locally built dictionary"""
    return o.op == "pref"


def list_append(I, o, args, kwargs, st, fr, node):
    v = args[0]
    if o.op == "pref":
        I.update_at(o.args[0], o.args[1], "append", I.val(st, v), st, fr, node)
        return NONE
    I.write_content(o, I.list_extend(_content(I, o, st, "list"), unit(v)), st)
    return NONE


def list_extend(I, o, args, kwargs, st, fr, node):
    s = I.iter_seq(args[0], st)
    if o.op == "pref":
        I.update_at(o.args[0], o.args[1], "extend", I.freeze(st, mk("list", s)).args[0] if s is not EMPTY else EMPTY, st, fr, node)
        return NONE
    I.write_content(o, I.list_extend(_content(I, o, st, "list"), s), st)
    return NONE


def list_insert(I, o, args, kwargs, st, fr, node):
    i = I.val(st, args[0])
    c = _content(I, o, st, "list")
    if i is const(0):
        I.write_content(o, mk("list", cat(unit(args[1]), c.args[0])), st)
    else:
        I.write_content(o, mk("list", iter_of(call("list.insert", (I.val(st, o), i, I.val(st, args[1]))))), st)
    return NONE


def list_remove(I, o, args, kwargs, st, fr, node):
    c = I.val(st, o)
    x = I.val(st, args[0])
    I.partial("ValueError", not_(member(x, c)), st, fr, node)
    I.write_content(o, mk("list", iter_of(mk("removed1", c, x))), st)
    return NONE


def list_pop(I, o, args, kwargs, st, fr, node):
    c = I.val(st, o)
    i = I.val(st, args[0]) if args else const(-1)
    r = getitem(c, i)
    if i is const(-1):
        I.write_content(o, mk("list", iter_of(mk_slice(c, NONE, const(-1), NONE))), st)
    elif i is const(0):
        I.write_content(o, mk("list", iter_of(mk_slice(c, const(1), NONE, NONE))), st)
    else:
        I.write_content(o, mk("list", iter_of(call("list.popped", (c, i)))), st)
    return r


def list_clear(I, o, args, kwargs, st, fr, node):
    I.write_content(o, mk("list", EMPTY), st)
    return NONE


def list_copy(I, o, args, kwargs, st, fr, node):
    return I.alloc(mk("list", _content(I, o, st, "list").args[0]), st)


def list_index(I, o, args, kwargs, st, fr, node):
    c = I.val(st, o)
    x = I.val(st, args[0])
    I.partial("ValueError", not_(member(x, c)), st, fr, node)
    return call("list.index", (listform(c), x))


def list_count(I, o, args, kwargs, st, fr, node):
    return call("list.count", (listform(I.val(st, o)), I.val(st, args[0])))


def list_sort(I, o, args, kwargs, st, fr, node):
    r = do_sorted(I, [mk("list", _content(I, o, st, "list").args[0])], kwargs, st, fr, node)
    I.write_content(o, mk("list", iter_of(r)), st)
    return NONE


def list_reverse(I, o, args, kwargs, st, fr, node):
    I.write_content(o, mk("list", iter_of(rev(I.val(st, o)))), st)
    return NONE


def list___contains__(I, o, args, kwargs, st, fr, node):
    return member(I.val(st, args[0]), I.val(st, o))


# sets
def set_add(I, o, args, kwargs, st, fr, node):
    v = I.val(st, args[0])
    if o.op == "pref":
        I.update_at(o.args[0], o.args[1], "add", v, st, fr, node)
        return NONE
    I.write_content(o, mk_set(cat(_content(I, o, st, "set").args[0], unit(v))), st)
    return NONE


def set_update(I, o, args, kwargs, st, fr, node):
    s = cat(*[I.iter_seq(a, st) for a in args])
    s = I.freeze(st, mk("list", s)).args[0] if s is not EMPTY else EMPTY
    s = s if s.op == "seq" else iter_of(s)
    if o.op == "pref":
        x = fv()
        for a in args:
            I.loop(I.iter_seq(a, st), lambda b, e, f: I.update_at(o.args[0], o.args[1], "add", I.val(b, e), b, f, node), st, fr, (), node)
        return NONE
    I.write_content(o, mk_set(cat(_content(I, o, st, "set").args[0], s)), st)
    return NONE


def _set_without(I, o, pred, st):
    c = _content(I, o, st, "set")
    x = fv()
    I.write_content(o, mk_set(bind(c.args[0], x, unit(x, pred(x)))), st)


def set_discard(I, o, args, kwargs, st, fr, node):
    k = I.val(st, args[0])
    _set_without(I, o, lambda x: not_(eq(x, k)), st)
    return NONE


def set_remove(I, o, args, kwargs, st, fr, node):
    k = I.val(st, args[0])
    I.partial("KeyError", not_(member(k, I.val(st, o))), st, fr, node)
    _set_without(I, o, lambda x: not_(eq(x, k)), st)
    return NONE


def set_clear(I, o, args, kwargs, st, fr, node):
    I.write_content(o, mk("set", EMPTY), st)
    return NONE


def set_copy(I, o, args, kwargs, st, fr, node):
    return I.alloc(mk_set(_content(I, o, st, "set").args[0]), st)


def _setop(name):
    def f(I, o, args, kwargs, st, fr, node):
        r = mk_set(iter_of(I.val(st, o)))
        for a in args:
            v = I.val(st, a)
            if a.op == "star":
                x = fv()
                inner = bind(iter_of(I.val(st, a.args[0])), x, _iterseq(x))
                v = mk_set(inner)
            r = I.set_op(name, r, v)
        return I.alloc(r, st)
    return f


def _iterseq(x):
    return iter_of(x)


set_union = _setop("union")
set_difference = _setop("difference")
set_intersection = _setop("intersection")
set_symmetric_difference = _setop("xor")


def _upd(name):
    def f(I, o, args, kwargs, st, fr, node):
        r = mk_set(iter_of(I.val(st, o)))
        for a in args:
            r = I.set_op(name, r, I.val(st, a))
        I.write_content(o, r, st)
        return NONE
    return f


set_difference_update = _upd("difference")
set_intersection_update = _upd("intersection")


def subset(a, b):
    x = fv()
    return not_(exists(iter_of(a), x, not_(member(x, b))))


def set_issubset(I, o, args, kwargs, st, fr, node):
    return subset(I.val(st, o), I.val(st, args[0]))


def set_issuperset(I, o, args, kwargs, st, fr, node):
    return subset(I.val(st, args[0]), I.val(st, o))


def set_isdisjoint(I, o, args, kwargs, st, fr, node):
    a, b = I.val(st, o), I.val(st, args[0])
    x = fv()
    return not_(exists(iter_of(a), x, member(x, b)))


# dicts
def dict_get(I, o, args, kwargs, st, fr, node):
    k = I.val(st, args[0])
    d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
    has = I.contains(k, o, st)
    if has is FALSE:
        return d
    v = I.dict_item(o, k, st)
    if has is TRUE:
        return v
    a, b = I.unify(v, d, st)
    return cases([(has, a), (not_(has), b)])


def dict_keys(I, o, args, kwargs, st, fr, node):
    c = I.content(st, o)
    v = I.val(st, o)
    if v.op in ("dict",):
        s = tm.dict_keys(v)
        return mk("keyslist", s) if False else mk("set" if False else "list", s) if not _is_set_ok(s) else mk("list", s)
    return mk("keys", v)


def _is_set_ok(s):
    return True


def dict_values(I, o, args, kwargs, st, fr, node):
    v = I.val(st, o)
    if v.op == "dict":
        return mk("list", tm.dict_values(v))
    return mk("values", v)


def dict_items(I, o, args, kwargs, st, fr, node):
    v = I.val(st, o)
    if v.op == "dict":
        return mk("list", tm.dict_items(v))
    return mk("items", v)


def dict_copy(I, o, args, kwargs, st, fr, node):
    c = I.as_dict(I.val(st, o))
    r = I.alloc(mk_dict(c.args[0]), st)
    if o in I.defaultkind:
        I.defaultkind[r] = I.defaultkind[o]
    return r


def doc_setdefault(I, o, args, st, fr, node):
    k, ov = I.val(st, args[0]), I.val(st, o)
    has = I.contains(k, o, st)
    sub = st.copy()
    I.update_at(o, (k,), "set", args[1] if len(args) > 1 else NONE, sub, fr, node)
    st.heap = I.merge_heaps([(has, st.heap), (not_(has), sub.heap)])
    return getitem(ov, k)


def doc_pop(I, o, args, st, fr, node):
    k, ov = I.val(st, args[0]), I.val(st, o)
    has = I.contains(k, o, st)
    sub = st.copy()
    I.update_at(o, (k,), "del", NONE, sub, fr, node)
    st.heap = I.merge_heaps([(has, sub.heap), (not_(has), st.heap)])
    return ite(has, getitem(ov, k), I.val(st, args[1]))


def dict_setdefault(I, o, args, kwargs, st, fr, node):
    k = I.val(st, args[0])
    d = args[1] if len(args) > 1 else NONE
    dv = I.val(st, d)
    has = I.contains(k, o, st)
    c = I.content(st, o)
    nested = o.op == "pref" and I.kind_of(st, o) == "dict"
    if not nested and (c is None or c.op != "dict"):
        return doc_setdefault(I, o, args, st, fr, node)
    if has is TRUE:
        return I.dict_item(o, k, st)
    if dv.op in ("list", "set", "dict") and not dv.args[0].args:
        I.update_at(o, (k,), "ensure", dv, st, fr, node)
    else:
        sub = st.copy()
        I.update_at(o, (k,), "set", d, sub, fr, node)
        st.heap = I.merge_heaps([(has, st.heap), (not_(has), sub.heap)])
    return I.dict_item(o, k, st)


def dict_update(I, o, args, kwargs, st, fr, node):
    if o not in st.heap and o.op not in ("ref", "pref"):
        c = I.content(st, o)
        if c is None or c.op != "dict":
            return None
    for a in args:
        v = I.val(st, a)
        if v.op in ("list", "tup") or (I.vkind(v) not in ("dict",) and v.op != "dict"):
            pairs = iter_of(v)
            I.loop(pairs, lambda b, e, f: I.update_at(o, (getitem(e, const(0)),), "set", getitem(e, const(1)), b, f, node), st, fr, (), node)
            continue
        d = I.as_dict(v)
        log = d.args[0]
        if o.op == "pref":
            log = _prefix(log, o.args[1])
            base = o.args[0]
        else:
            base = o
        c = I.content(st, base)
        I.write_content(base, mk_dict(cat(c.args[0], log)), st)
    for k, x in kwargs.items():
        if k == "**":
            dict_update(I, o, [x], {}, st, fr, node)
        else:
            I.update_at(o, (const(k),), "set", x, st, fr, node)
    return NONE


def _prefix(s, p):
    return tm.map_leaves(s, lambda e: ev(e.args[0], tuple(p) + e.args[1], e.args[2]))


def dict_pop(I, o, args, kwargs, st, fr, node):
    k = I.val(st, args[0])
    has = I.contains(k, o, st)
    v = I.val(st, I.dict_item(o, k, st)) if has is not FALSE else mk("undef")
    if len(args) > 1:
        r = ite(has, v, I.val(st, args[1])) if has is not FALSE else I.val(st, args[1])
    else:
        I.partial("KeyError", not_(has), st, fr, node)
        r = v
    I.update_at(o, (k,), "del", NONE, st, fr, node)
    return r


def dict_clear(I, o, args, kwargs, st, fr, node):
    I.write_content(o, mk("dict", EMPTY), st)
    return NONE


# --------------------------------------------------------------- plain values
STRM = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "split", "rsplit", "splitlines", "partition",
        "rpartition", "replace", "removeprefix", "removesuffix", "zfill", "isdigit", "isalpha", "isidentifier", "find",
        "startswith", "endswith", "isalnum", "count", "capitalize", "decode"}
UTF8 = {"utf8", "utf-8", "UTF-8", "utf_8"}


def _foldable(a):
    return is_const(a) and isinstance(cval(a), (str, bytes, int, type(None)))


def encode(x):
    if x.op == "cases":
        return lift(encode, x)
    if is_const(x) and isinstance(cval(x), str):
        return const(cval(x).encode())
    return call("encode", (x,))


def value_method(I, o, name, args, kwargs, st, fr, node):
    ov = None
    if o in I.hashobjs:
        if name == "update":
            I.append_loc(o, I.val(st, args[0]), st)
            return NONE
        if name in ("hexdigest", "digest"):
            s = I.freeze(st, mk("list", st.heap[o].args[0]))
            d = call(I.hashobjs[o], (joinb(iter_of(s)),))
            return d if name == "digest" else call("m:hexdigest", (d,))
    ov = I.val(st, o)
    if ov.op == "hashobj":
        d = call(ov.args[0], (ov.args[1],))
        if name == "digest":
            return d
        if name == "hexdigest":
            return call("m:hexdigest", (d,))
    av = [I.val(st, a) if a.op not in ("star", "clo") else a for a in args]
    kv = {k: I.val(st, v) for k, v in kwargs.items()}
    kind = I.vkind(ov)
    if name == "join" and len(av) == 1 and not kv and (kind in ("str", "bytes") or ov.op == "const"):
        s = I.freeze(st, mk("list", I.iter_seq(args[0], st)))
        return join(ov, iter_of(s))
    if name == "encode" and (not av or (_foldable(av[0]) and cval(av[0]) in UTF8)):
        return encode(ov)
    if name == "decode" and kind in ("bytes", "Any", "re.Match"):
        if not av or (_foldable(av[0]) and cval(av[0]) in UTF8):
            if ov.op == "call" and ov.args[0] == "encode":
                return ov.args[1][0]
            return call("m:decode", (ov,))
    if name in STRM and _foldable(ov) and isinstance(cval(ov), (str, bytes)) and all(_foldable(a) for a in av) \
            and all(_foldable(a) for a in kv.values()):
        try:
            r = getattr(cval(ov), name)(*[cval(a) for a in av], **{k: cval(a) for k, a in kv.items()})
        except (TypeError, ValueError):
            return None
        if isinstance(r, list):
            return I.alloc(mk("list", cat(*[unit(const(x)) for x in r])), st)
        return const(r)
    if name in ("startswith", "endswith") and len(av) == 1 and av[0].op == "tuple":
        return or_(*[call(f"m:{name}", (ov, a)) for a in av[0].args])
    if name in ("split", "rsplit") and kind in ("str", "bytes", "Any"):
        sep = av[0] if av else kv.get("sep", NONE)
        mx = av[1] if len(av) > 1 else kv.get("maxsplit", const(-1))
        return call(f"m:{name}", (ov, sep, mx))
    if name == "format" and is_const(ov) and isinstance(cval(ov), str):
        r = str_format(I, cval(ov), av, kv)
        if r is not None:
            return r
    if name in ("fullmatch", "match", "search") and len(av) == 1:
        p = pattern_of(ov)
        if p is not None:
            return call(f"re.{name}", (p, av[0]))
    if name == "group" and not kv:
        ks = [match_group(ov, a) for a in av] or [const(0)]
        return getitem(ov, ks[0]) if len(ks) == 1 else mk("tuple", *(getitem(ov, k) for k in ks))
    if kind == "re.Match" and name == "groupdict" and not av and not kv:
        names = match_names(ov)
        if names is not None and None not in names:
            return mk("dict", cat(*[unit(ev("set", (const(n),), getitem(ov, const(n)))) for n in names]))
        return call("m:groupdict", (ov,))
    if kind == "re.Match" and name == "groups" and not av and not kv:
        names = match_names(ov)
        if names is not None:
            return mk("tuple", *(getitem(ov, const(n if n is not None else i + 1)) for i, n in enumerate(names)))
    if name == "hexdigest":
        return call("m:hexdigest", (ov,))
    if ov.op == "call" and ov.args[0] == "argparse.ArgumentParser" or kind == "argparse.ArgumentParser" \
            or ov.op == "call" and ov.args[0] == "m:add_mutually_exclusive_group" or ov.op == "call" and ov.args[0] == "m:add_argument_group":
        return parser_method(I, ov, name, av, kv, st, fr, node)
    if name in ("add", "update", "append", "extend") and kind == "Any" and o.op == "pref":
        # container inside a nested dictionary whose kind is not known yet
        if name in ("add", "append"):
            I.update_at(o.args[0], o.args[1], name, av[0], st, fr, node)
            return NONE
    if name == "setdefault" and kind == "Any" and 1 <= len(av) <= 2 and not kv and o.op != "pref":
        # a table of an external document
        return doc_setdefault(I, o, args, st, fr, node)
    if name == "pop" and kind == "Any" and len(av) == 2 and not kv and o.op != "pref":
        return doc_pop(I, o, args, st, fr, node)
    if name == "pop" and kind == "Any" and len(av) == 1 and not kv and o.op != "pref" and av[0].op == "const" and isinstance(av[0].args[1], str):
        v = getitem(ov, av[0])
        I.update_at(o, (av[0],), "del", NONE, st, fr, node)
        return v
    if name == "extend" and kind == "Any" and len(av) == 1 and not kv and o.op != "pref":
        s = iter_of(av[0]) if av[0].op in ("list", "tuple") else None
        if s is not None and all(q.op == "u" and q.args[0] is TRUE for q in s.args):
            for q in s.args:
                I.effect(call("m:append", (ov, q.args[1])), st)
            return NONE
    if name == "remove" and kind in ("Any", "list") and len(av) == 1 and not kv and o.op != "pref":
        # a list inside an external document
        return list_remove(I, o, av, kv, st, fr, node)
    if name == "keys" and kind == "Any" and not av:
        return mk("keys", ov)
    if name == "values" and kind == "Any" and not av:
        return mk("values", ov)
    if name == "items" and kind == "Any" and not av:
        return mk("items", ov)
    if name == "get" and kind == "Any" and ov.op not in ("call",) and 1 <= len(av) <= 2 and False:
        return None
    if name == "__len__":
        return length(ov)
    if name == "__contains__":
        return member(av[0], ov)
    if name == "__getitem__":
        return getitem(ov, av[0])
    if name == "to_bytes":
        return None
    return None


def pattern_of(t):
    if t.op == "call" and t.args[0] == "re.compile":
        if len(t.args[1]) == 1 and not t.args[2]:
            return t.args[1][0]
        return t
    if t.op in ("sym", "attr", "getitem", "fv", "bv"):
        if strip_none(typeof(t)).args[0] == "re.Pattern":
            return t
    return None


def match_names(t):
    """names of the groups (None: unnamed) of the pattern a match object comes from, in order"""
    if t.op != "call" or t.args[0] not in ("re.fullmatch", "re.match", "re.search") or not t.args[1]:
        return None
    from .compare import _regex_const
    from .regex import parse
    p = t.args[1][0]
    got = (cval(p), 0) if is_const(p) else _regex_const(p)
    if got is None or not isinstance(got[0], str):
        return None
    try:
        pat, _, names = parse(*got)
    except Exception:  # noqa: BLE001
        return None
    return [names.get(i + 1) for i in range(pat.state.groups - 1)]


def match_group(t, k):
    """one way to say which group: its name when it has one"""
    if is_const(k) and type(cval(k)) is int and cval(k) > 0:
        names = match_names(t)
        if names and cval(k) <= len(names) and names[cval(k) - 1] is not None:
            return const(names[cval(k) - 1])
    return k


def str_format(I, fmt, av, kv):
    import string
    parts = []
    auto = 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(const(lit))
            if fld is None:
                continue
            if spec or conv:
                return None
            if fld == "":
                x = av[auto]
                auto += 1
            elif fld.isdigit():
                x = av[int(fld)]
            elif fld.isidentifier():
                x = kv[fld]
            else:
                return None
            parts.append(I.to_str(x))
    except (IndexError, KeyError, ValueError):
        return None
    return fstr(*parts)


def parser_method(I, ov, name, av, kv, st, fr, node):
    """argparse: an attribute of the parsed namespace is the option it comes from, with what decides its value"""
    if name == "add_argument":
        I.cli_args.append((ov, av, kv, node))
        return NONE
    if name == "add_mutually_exclusive_group":
        I.cli_groups += 1
        return call(f"m:{name}", (ov, const(I.cli_groups)), tuple(sorted(kv.items())))
    if name == "add_argument_group":
        return ov
    if name in ("parse_args", "parse_known_args"):
        a = kv.get("args", av[0] if av else NONE)
        r = call("cli", (a,), (("parser", ov),))
        ns = kv.get("namespace", av[1] if len(av) > 1 else NONE)
        if ns is not NONE:
            I.cli_ns[ns] = r
        return r if name == "parse_args" else mk("tuple", r, mk("attr", r, "$rest"))
    if name == "error":
        from .interp import Exit
        if st.live is not FALSE:
            fr.exits.append(Exit(st.live, "raise", mk("exc", "SystemExit", ("usage",)), dict(st.env), dict(st.heap), node))
            st.live = FALSE
        return mk("undef")
    if name in ("print_help", "print_usage", "exit"):
        return NONE
    return None


def _root(parser):
    while parser.op == "call" and parser.args[0] == "m:add_mutually_exclusive_group":
        parser = parser.args[1][0]
    return parser


def _dest(av, kv):
    names = [cval(a) for a in av if is_const(a)]
    if "dest" in kv:
        return cval(kv["dest"]) if is_const(kv["dest"]) else None
    if not names:
        return None
    if not names[0].startswith("-"):
        return names[0]
    long = [n for n in names if n.startswith("--")]
    return (long or names)[0].lstrip("-").replace("-", "_")


def cli_option(I, ns, name):
    """the option behind attribute `name` of a parsed namespace"""
    parser = dict(ns.args[2])["parser"]
    for ov, av, kv, node in I.cli_args:
        if _root(ov) is not parser or _dest(av, kv) != name:
            continue
        # several options of one destination together decide its value
        same = [(o, a, k) for o, a, k, _ in I.cli_args if _root(o) is parser and _dest(a, k) == name]
        defs = []
        typ = None
        for o, a, k in same:
            d, t = _option(I, o, a, k, parser)
            defs.append(d)
            typ = t if typ in (None, t) else ty("any")
        return call("opt", (ns.args[1][0], *defs), (("$ty", typ),))
    return None


def _option(I, ov, av, kv, parser):
    flags = tuple(sorted((a for a in av), key=lambda t: t.key))
    positional = bool(av) and is_const(av[0]) and not cval(av[0]).startswith("-")
    k = {n: v for n, v in kv.items() if n not in ("help", "metavar", "dest", "version")}
    action = cval(k["action"]) if "action" in k and is_const(k["action"]) else "store"
    k["action"] = const(action)
    if positional:
        k["positional"] = const(sum(1 for o, a, q, _ in I.cli_args if _root(o) is parser and a and is_const(a[0]) and not cval(a[0]).startswith("-")
                                    and I_index(I, o, a) < I_index(I, ov, av)))
    if k.get("required") is FALSE:
        k.pop("required")
    if k.get("default") is NONE:
        k.pop("default")
    if k.get("nargs") is NONE:
        k.pop("nargs")
    if k.get("type") is not None and k["type"].op in ("builtin", "ext", "cls") and k["type"].args[0] == "str":
        k.pop("type")
    if action in ("store_true", "store_false"):
        t = ty("bool")
        if k.get("default") is (FALSE if action == "store_true" else TRUE):
            k.pop("default")
    else:
        t = ty("str")
        c = k.get("type")
        if c is not None:
            t = ty("any")
            if c.op in ("ext", "cls"):
                t = ty("Path" if c.args[0] == "pathlib.Path" else c.args[0])
            elif c.op == "bm" and c.args[0].op == "cls":
                t = ty(c.args[0].args[0]) if c.args[1] in ("from_str", "deserialize", "from_dict") else ty("any")
        n = k.get("nargs")
        many = n is not None and (n.op != "const" or cval(n) in ("+", "*") or isinstance(cval(n), int))
        if many or action in ("extend", "append"):
            t = ty("list", t)
        if not positional and k.get("required") is not TRUE and "default" not in k or n is not None and is_const(n) and cval(n) == "?" and "default" not in k:
            t = optional(t)
    if ov.op == "call" and ov.args[0] == "m:add_mutually_exclusive_group":
        mates = sorted(str(_dest(a, q)) for o, a, q, _ in I.cli_args if o is ov)
        k["exclusive"] = mk("tuple", *[const(m) for m in mates], *[v for n, v in ov.args[2]])
    return call("option", flags, tuple(sorted((n, v) for n, v in k.items()))), t


def I_index(I, ov, av):
    for i, (o, a, *_) in enumerate(I.cli_args):
        if o is ov and a is av:
            return i
    return -1


def joinb(s):
    """b''.join(chunks), pulling a common encode() out"""
    parts = []

    def all_enc(q):
        for seg in q.args:
            if seg.op == "u":
                e = seg.args[1]
                if not ((e.op == "call" and e.args[0] == "encode") or (is_const(e) and isinstance(cval(e), bytes))):
                    return False
            elif not all_enc(seg.args[1].args[1]):
                return False
        return True

    if s.args and all_enc(s):
        def dec(e):
            if e.op == "call":
                return e.args[1][0]
            try:
                return const(cval(e).decode())
            except UnicodeDecodeError:
                return call("m:decode", (e,))
        return encode(join(const(""), tm.map_leaves(s, dec)))
    return join(const(b""), s)


# ------------------------------------------------------------------ functions
def listform(v):
    """a value only used through iteration"""
    if v.op == "cases":
        return lift(listform, v)
    return mk_list(iter_of(v))


def rev(v):
    if v.op in ("list", "tuple", "tup"):
        s = iter_of(v)
        if all(x.op == "u" and x.args[0] is TRUE for x in s.args):
            return mk("list", mk("seq", *reversed(s.args)))
    if v.op == "reversed":
        return v.args[0]
    return mk("reversed", listform(v))


def key_lam(I, key, etype, st, fr, node, origin=None):
    if key is None or key is NONE:
        return NONE
    l = I.as_lam(key, st, fr, node, typ=etype, origin=origin)
    if l.args[1] is l.args[0]:
        return NONE
    return l


def mk_sorted(src, key, rev):
    if src.op == "cases":
        return lift(lambda x: mk_sorted(x, key, rev), src)
    if src.op == "sorted" and src.args[1] is key and src.args[2] is rev:
        return src
    if src.op in ("list", "set", "tup") and key is NONE:
        s = src.args[0]
        if s is EMPTY:
            return mk("list", EMPTY)
        # sorting with the identity key forgets the order of the source
        if len(s.args) == 1 and s.args[0].op == "u" and s.args[0].args[0] is TRUE:
            return mk("list", s)
        if src.op == "list" and len(s.args) > 1:
            src = mk("list", mk("seq", *sorted(s.args, key=lambda a: a.key)))
    if src.op == "keys" and False:
        src = src
    return mk("sorted", src, key, rev)


tm._REBUILD["sorted"] = mk_sorted


def do_sorted(I, args, kwargs, st, fr, node):
    v = I.val(st, args[0])
    s = I.iter_seq(args[0], st)
    s = I.freeze(st, mk("list", s)) if s is not EMPTY else mk("list", EMPTY)
    if v.op in ("set", "keys"):
        src = v
    elif tm.strip_none(typeof(v)).args[0] in ("set", "frozenset", "dict") and v.op in ("sym", "attr", "fv", "bv", "getitem"):
        src = mk("keys", v) if tm.strip_none(typeof(v)).args[0] == "dict" else v
    else:
        src = mk_list(iter_of(s))
    if src.op == "set" and len(src.args[0].args) == 1 and tm.unique_elems(src.args[0]):
        src = src.args[0].args[0].args[0] if src.args[0].args[0].op == "b" else src
    et = elem_type(src)
    key = key_lam(I, kwargs.get("key"), et, st, fr, node, origin=src)
    r = kwargs.get("reverse")
    r = truthy(I.val(st, r)) if r is not None else FALSE
    if key is not NONE and key.args[1].op == "call" and key.args[1].args[0] == "neg":
        pass
    return mk_sorted(src, key, r)


def fn_len(I, args, kwargs, st, fr, node):
    v = args[0]
    c = I.val(st, v)
    q = strip_none(typeof(v)).args[0]
    if q in I.p.classes:
        f = I.p.find_method(q, "__len__")
        if f is not None:
            return I.call_func(f, [v], {}, st, fr, node)
    return length(c)


def _elem_truth(I, v, st):
    s = I.iter_seq(v, st)
    s = I.freeze(st, mk("list", s)).args[0] if s is not EMPTY else EMPTY
    return s


def _as_seq(I, v, st):
    s = I.iter_seq(v, st)
    if s is EMPTY:
        return EMPTY
    f = I.freeze(st, mk("list", s))
    return iter_of(f)


def fn_any(I, args, kwargs, st, fr, node):
    s = _as_seq(I, args[0], st)
    x = fv()
    return exists_truthy(s)


def exists_truthy(s, neg=False):
    parts = []
    for seg in s.args:
        if seg.op == "u":
            t = truthy(seg.args[1])
            parts.append(and_(seg.args[0], not_(t) if neg else t))
        else:
            w, inner = open_lam(seg.args[1], origin=seg.args[0])
            parts.append(mk_ex(seg.args[0], w, exists_truthy(inner, neg)))
    return or_(*parts)


def fn_all(I, args, kwargs, st, fr, node):
    return not_(exists_truthy(_as_seq(I, args[0], st), neg=True))


def fn_sorted(I, args, kwargs, st, fr, node):
    return I.alloc_value(do_sorted(I, args, kwargs, st, fr, node), st)


def fn_list(I, args, kwargs, st, fr, node):
    if not args:
        return I.alloc(mk("list", EMPTY), st)
    return I.alloc(mk("list", I.iter_seq(args[0], st)), st)


def fn_tuple(I, args, kwargs, st, fr, node):
    if not args:
        return mk("tuple")
    s = I.iter_seq(args[0], st)
    s = iter_of(I.freeze(st, mk("list", s))) if s is not EMPTY else EMPTY
    if all(x.op == "u" and x.args[0] is TRUE for x in s.args):
        return mk("tuple", *[x.args[1] for x in s.args])
    return mk("tup", s)


def fn_set(I, args, kwargs, st, fr, node):
    if not args:
        return I.alloc(mk("set", EMPTY), st)
    s = _as_seq(I, args[0], st)
    return I.alloc(mk_set(s), st)


fn_frozenset = fn_set


def fn_dict(I, args, kwargs, st, fr, node):
    r = I.alloc(mk("dict", EMPTY), st)
    if args:
        dict_update(I, r, [args[0]], {}, st, fr, node)
    for k, v in kwargs.items():
        if k == "**":
            dict_update(I, r, [v], {}, st, fr, node)
        else:
            I.update_at(r, (const(k),), "set", v, st, fr, node)
    return r


def fn_enumerate(I, args, kwargs, st, fr, node):
    v = listform(I.val(st, args[0]))
    start = I.val(st, args[1]) if len(args) > 1 else kwargs.get("start", const(0))
    s = iter_of(v)
    if all(x.op == "u" and x.args[0] is TRUE for x in s.args) and is_const(start):
        return mk("list", cat(*[unit(mk("tuple", const(i + cval(start)), x.args[1])) for i, x in enumerate(s.args)]))
    return mk("enumerate", v, start)


def fn_zip(I, args, kwargs, st, fr, node):
    vs = [listform(I.val(st, a)) for a in args]
    ss = [iter_of(v) for v in vs]
    if all(all(x.op == "u" and x.args[0] is TRUE for x in s.args) for s in ss) and ss:
        n = min(len(s.args) for s in ss)
        return mk("list", cat(*[unit(mk("tuple", *[s.args[i].args[1] for s in ss])) for i in range(n)]))
    kv = {k: I.val(st, v) for k, v in kwargs.items()}
    return mk("zip", *vs)


def fn_filter(I, args, kwargs, st, fr, node):
    f, it = args
    r = I.alloc(mk("list", EMPTY), st)
    seq = I.iter_seq(it, st)

    def body(b, x, f2):
        v = x if f is NONE else I.apply(f, [x], {}, b, f2, node)
        c = truthy(I.val(b, v))
        b.heap[r] = I.list_extend(b.heap[r], unit(x, c))

    I.loop(seq, body, st, fr, (), node)
    return r


def fn_map(I, args, kwargs, st, fr, node):
    f = args[0]
    r = I.alloc(mk("list", EMPTY), st)
    if len(args) > 2:
        z = fn_zip(I, args[1:], {}, st, fr, node)
        seq = I.iter_seq(z, st)
        n = len(args) - 1

        def body(b, x, f2):
            v = I.apply(f, [getitem(x, const(i)) for i in range(n)], {}, b, f2, node)
            b.heap[r] = I.list_extend(b.heap[r], unit(v))
    else:
        seq = I.iter_seq(args[1], st)

        def body(b, x, f2):
            v = I.apply(f, [x], {}, b, f2, node)
            b.heap[r] = I.list_extend(b.heap[r], unit(v))

    I.loop(seq, body, st, fr, (), node)
    return r


def isa(I, v, c):
    if v.op == "cases":
        return lift(lambda x: isa(I, x, c), v)
    if c.op == "tuple":
        return or_(*[isa(I, v, x) for x in c.args])
    if c.op == "tapp" and c.args[0] == "|":
        return or_(isa(I, v, c.args[1]), isa(I, v, c.args[2]))
    name = c.args[0] if c.op in ("cls", "builtin", "ext") else None
    if name is None:
        return mk("isa", v, c)
    t = typeof(v)
    if v.op == "cls" and name in ("dict", "list", "str", "int", "set", "tuple"):
        return FALSE
    if v.op in ("list", "dict", "set", "tuple", "const", "new", "tup", "fstr"):
        n = t.args[0] if v.op != "const" else v.args[0]
        n = "tuple" if v.op == "tup" else n
        if n in I.p.classes:
            return const(name in I.p.mro(n))
        b = getattr(builtins, n, None) if n != "NoneType" else type(None)
        b2 = getattr(builtins, name, None)
        if isinstance(b, type) and isinstance(b2, type):
            return const(issubclass(b, b2))
        if name in I.p.classes:
            return FALSE
        return mk("isa", v, c)
    if not I.trust_types:
        return mk("isa", v, c)
    st_ = strip_none(t)
    nn = TRUE if never_none(v) else not_(is_none(v))
    n = st_.args[0]
    if n == "Union":
        # decide member-wise when the declared union separates cleanly
        inside = [isa_name(I, a.args[0], name) for a in st_.args[1:]]
        if all(x is True for x in inside):
            return nn
        if all(x is False for x in inside):
            return FALSE
        return mk("isa", v, c)
    r = isa_name(I, n, name)
    if r is True:
        return nn
    if r is False:
        return FALSE
    return mk("isa", v, c)


def isa_name(I, n, name):
    """is an instance declared as n an instance of name: True / False / None"""
    if n == name:
        return True
    if n in I.p.classes:
        if name in I.p.mro(n):
            return True
        if name in I.p.classes and n in I.p.mro(name):
            return None
        return False
    b, b2 = getattr(builtins, n, None), getattr(builtins, name, None)
    if isinstance(b, type) and isinstance(b2, type):
        if issubclass(b, b2):
            return True
        if issubclass(b2, b):
            return None
        return False
    if isinstance(b, type) and name in I.p.classes:
        return False
    return None


def fn_isinstance(I, args, kwargs, st, fr, node):
    v = I.obj(st, args[0])
    vv = I.val(st, v)
    return isa(I, vv, I.val(st, args[1]))


def fn_min(I, args, kwargs, st, fr, node):
    return _minmax("min", I, args, kwargs, st, fr, node)


def fn_max(I, args, kwargs, st, fr, node):
    return _minmax("max", I, args, kwargs, st, fr, node)


def _minmax(n, I, args, kwargs, st, fr, node):
    if len(args) == 1:
        src = listform(I.val(st, args[0]))
        key = key_lam(I, kwargs.get("key"), elem_type(src), st, fr, node, origin=src)
        d = kwargs.get("default")
        if d is None:
            I.partial("ValueError", not_(nonempty(src)), st, fr, node)
        r = call(n, (src, key))
        if d is not None:
            r = ite(nonempty(src), r, I.val(st, d))
        return r
    if len(args) == 2 and not kwargs:
        return tm.minmax(n, I.val(st, args[0]), I.val(st, args[1]))
    return call(n, (mk("list", cat(*[unit(I.val(st, a)) for a in args])), NONE))


def fn_sum(I, args, kwargs, st, fr, node):
    s = _as_seq(I, args[0], st)
    return mk("sum", s)


def fn_str(I, args, kwargs, st, fr, node):
    if not args:
        return const("")
    v = I.val(st, args[0])
    if len(args) > 1:
        return call("m:decode", (v,))
    q = strip_none(typeof(v)).args[0]
    if q in I.p.classes:
        f = I.p.find_method(q, "__str__")
        if f is not None:
            return I.call_func(f, [args[0]], {}, st, fr, node)
    return I.to_str(v)


def fn_bytes(I, args, kwargs, st, fr, node):
    if len(args) == 2:
        return encode(I.val(st, args[0]))
    return None


def fn_bool(I, args, kwargs, st, fr, node):
    return truthy(I.val(st, args[0])) if args else FALSE


def fn_int(I, args, kwargs, st, fr, node):
    v = I.val(st, args[0]) if args else const(0)
    if is_const(v) and isinstance(cval(v), (int, float)):
        return const(int(cval(v)))
    if typeof(v) is INT:
        return v
    return None


def _one_of(live, n):
    """the string constants `n` is known to be one of"""
    for g in live.args if live.op == "and" else (live,):
        alts = g.args if g.op in ("or", "anyof") else (g,)
        out = []
        for a in alts:
            if a.op != "eq" or n not in a.args:
                break
            c = a.args[1] if a.args[0] is n else a.args[0]
            if not is_const(c) or not isinstance(cval(c), str):
                break
            out.append(c)
        else:
            return out
    return []


def fn_getattr(I, args, kwargs, st, fr, node):
    n = I.val(st, args[1])
    o = args[0]
    if is_const(n) and isinstance(cval(n), str):
        if len(args) == 2:
            return I.get_attr(o, cval(n), st, fr, node)
        q = strip_none(typeof(o)).args[0]
        if q in I.p.classes and cval(n) in I.p.all_fields(q):
            return I.get_attr(o, cval(n), st, fr, node)
        ov = I.val(st, o)
        h = mk("hasattr", ov, n)
        return cases([(h, attr(ov, cval(n))), (not_(h), I.val(st, args[2]))])
    names = next((c for c in (_one_of(g, n) for g in [st.live, *I.outside]) if c), [])
    if names and len(args) == 2:
        tests = [eq(n, c) for c in names]
        tests[-1] = and_(*[not_(t) for t in tests[:-1]])
        return cases([(t, I.get_attr(o, cval(c), st, fr, node)) for t, c in zip(tests, names)])
    ov = I.val(st, o)
    if len(args) == 2:
        return call("getattr", (ov, n))
    return call("getattr", (ov, n, I.val(st, args[2])))


def fn_hasattr(I, args, kwargs, st, fr, node):
    return mk("hasattr", I.val(st, args[0]), I.val(st, args[1]))


tm_hasattr_bool = True


def fn_setattr(I, args, kwargs, st, fr, node):
    n = I.val(st, args[1])
    if is_const(n):
        I.set_attr(args[0], cval(n), args[2], st, fr, node)
        return NONE
    return None


def fn_hash(I, args, kwargs, st, fr, node):
    v = I.obj(st, args[0])
    q = strip_none(typeof(v)).args[0]
    if q in I.p.classes:
        f = I.p.find_method(q, "__hash__")
        if f is not None and not I.is_opaque(f):
            return I.call_func(f, [v], {}, st, fr, node)
    return hash_of(I.val(st, v))


def hash_of(v):
    if v.op == "cases":
        return lift(hash_of, v)
    return mk("hash", v)


def fn_next(I, args, kwargs, st, fr, node):
    s = _as_seq(I, args[0], st)
    ne = nonempty(mk("list", s))
    if len(args) > 1:
        if ne is FALSE:
            return I.val(st, args[1])
        f = first(s)
        return ite(ne, f, I.val(st, args[1]))
    I.partial("StopIteration", not_(ne), st, fr, node)
    return first(s)


def fn_iter(I, args, kwargs, st, fr, node):
    return args[0]


def fn_reversed(I, args, kwargs, st, fr, node):
    return rev(I.val(st, args[0]))


def fn_range(I, args, kwargs, st, fr, node):
    vs = [I.val(st, a) for a in args]
    if all(is_const(v) for v in vs):
        r = range(*[cval(v) for v in vs])
        if len(r) <= 16:
            return mk("list", cat(*[unit(const(i)) for i in r]))
    if len(vs) == 1:
        vs = [const(0), vs[0]]
    return mk("range", *vs)


def fn_type(I, args, kwargs, st, fr, node):
    if len(args) != 1:
        return None
    v = I.obj(st, args[0])
    q = strip_none(typeof(v)).args[0]
    if q in I.p.classes and v.op in ("new",):
        return mk("cls", q)
    return call("type", (I.val(st, v),))


def fn_repr(I, args, kwargs, st, fr, node):
    return call("repr", (I.val(st, args[0]),))


def fn_print(I, args, kwargs, st, fr, node):
    I.effect(call("print", tuple(I.val(st, a) for a in args), tuple((k, I.val(st, v)) for k, v in kwargs.items())), st)
    return NONE


def fn_callable(I, args, kwargs, st, fr, node):
    return truthy(call("callable", (I.val(st, args[0]),)))


def fn_vars(I, args, kwargs, st, fr, node):
    return None


def ext_object___setattr__(I, args, kwargs, st, fr, node):
    n = I.val(st, args[1])
    if is_const(n):
        st.heap[mk("fld", I.obj(st, args[0]), cval(n))] = args[2]
        return NONE
    return None


def ext_itertools_chain(I, args, kwargs, st, fr, node):
    parts = []
    for a in args:
        if a.op == "star":
            x = fv()
            parts.append(flatten(I, a.args[0], st))
        else:
            parts.append(I.iter_seq(a, st))
    return I.alloc(mk("list", cat(*parts)), st)


def flatten(I, v, st):
    s = I.iter_seq(v, st)
    return _flat(I, s, st)


def _flat(I, s, st):
    out = []
    for seg in s.args:
        if seg.op == "u":
            out.append(guard_seq(seg.args[0], I.iter_seq(seg.args[1], st)))
        else:
            w, inner = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], w, _flat(I, inner, st)))
    return cat(*out)


def ext_itertools_chain_from_iterable(I, args, kwargs, st, fr, node):
    return I.alloc(mk("list", flatten(I, args[0], st)), st)


def ext_itertools_groupby(I, args, kwargs, st, fr, node):
    src = listform(I.val(st, args[0]))
    key = key_lam(I, args[1] if len(args) > 1 else kwargs.get("key"), elem_type(src), st, fr, node, origin=src)
    return mk("groupby", src, key)


def ext_collections_defaultdict(I, args, kwargs, st, fr, node):
    f = args[0] if args else NONE
    r = I.alloc(mk("dict", EMPTY), st, factory=f)
    if len(args) > 1:
        dict_update(I, r, [args[1]], {}, st, fr, node)
    return r


def ext_collections_OrderedDict(I, args, kwargs, st, fr, node):
    return fn_dict(I, args, kwargs, st, fr, node)


def ext_functools_partial(I, args, kwargs, st, fr, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))


def ext_dataclasses_asdict(I, args, kwargs, st, fr, node):
    v = I.val(st, args[0])
    q = strip_none(typeof(v)).args[0]
    if not kwargs and q in I.p.classes and I.is_dc(q):
        r = _asdict(I, I.obj(st, args[0]), st, fr, node, 0)
        if r is not None:
            return I.alloc(r, st)
    return call("dataclasses.asdict", (v,), tuple((k, I.val(st, x)) for k, x in kwargs.items()))


def _asdict(I, o, st, fr, node, depth):
    """dataclasses.asdict of a value whose static type is known (strings, numbers, lists of / nested dataclasses)"""
    typ = strip_none(typeof(o))
    q = typ.args[0]
    if depth > 4:
        return None
    if q in ("str", "bool", "int", "bytes", "float") and typeof(o) is typ:
        return I.val(st, o)
    if q in I.p.classes and I.is_dc(q) and typeof(o) is typ:
        evs = []
        for n, (a, d, c) in I.p.all_fields(q).items():
            if I._is_classvar(a):
                continue
            x = _asdict(I, I.get_attr(o, n, st, fr, node), st, fr, node, depth + 1)
            if x is None:
                return None
            evs.append(unit(ev("set", (const(n),), x)))
        return mk_dict(cat(*evs))
    if q == "list" and len(typ.args) > 1:
        v, body = fv(typ.args[1]), None
        body = _asdict(I, v, st, fr, node, depth + 1)
        if body is None:
            return None
        return mk_list(bind(iter_of(I.val(st, o)), v, unit(body)))
    return None


def ext_dataclasses_replace(I, args, kwargs, st, fr, node):
    o = I.obj(st, args[0])
    q = strip_none(typeof(o)).args[0]
    if q in I.p.classes:
        flds = []
        for n, (a, d, c) in I.p.all_fields(q).items():
            if I._is_classvar(a):
                continue
            flds.append((n, I.val(st, kwargs[n]) if n in kwargs else I.val(st, I.get_attr(o, n, st, fr, node))))
        return I.construct(q, [], dict(flds), st, fr, node)
    return None


def ext_copy_copy(I, args, kwargs, st, fr, node):
    k = I.kind_of(st, args[0])
    if k in ("list", "set", "dict"):
        return container_method(I, k, args[0], "copy", [], {}, st, fr, node)
    return None


def ext_copy_deepcopy(I, args, kwargs, st, fr, node):
    k = I.kind_of(st, args[0])
    if k in ("list", "set", "dict"):
        v = I.val(st, args[0])
        c = v if v.op == k else I.symbolic_content(v)
        if c.op == k:
            return I.alloc(c, st)
    return call("copy.deepcopy", (I.val(st, args[0]),))


def ext_typing_cast(I, args, kwargs, st, fr, node):
    return args[1]


def _hashctor(name):
    def f(I, args, kwargs, st, fr, node):
        r = I.alloc(mk("list", EMPTY), st)
        I.hashobjs[r] = name
        data = args[:1] or ([kwargs["data"]] if "data" in kwargs else [])
        for a in data:
            I.append_loc(r, I.val(st, a), st)
        return r
    return f


ext_hashlib_sha256 = _hashctor("sha256")
ext_hashlib_sha1 = _hashctor("sha1")
ext_hashlib_sha512 = _hashctor("sha512")
ext_hashlib_md5 = _hashctor("md5")
ext_hashlib_sha224 = _hashctor("sha224")
ext_hashlib_sha384 = _hashctor("sha384")
ext_hashlib_blake2b = _hashctor("blake2b")


def ext_hashlib_new(I, args, kwargs, st, fr, node):
    n = I.val(st, args[0])
    if is_const(n):
        return _hashctor(cval(n))(I, args[1:], kwargs, st, fr, node)
    return None


def ext_re_compile(I, args, kwargs, st, fr, node):
    av = [I.val(st, a) for a in args]
    kv = {k: I.val(st, v) for k, v in kwargs.items()}
    p = av[0]
    if p.op == "call" and p.args[0] == "re.compile":
        return p
    flags = av[1] if len(av) > 1 else kv.get("flags")
    if flags is None or flags is const(0):
        return call("re.compile", (p,))
    return call("re.compile", (p, flags))


def _re(name):
    def f(I, args, kwargs, st, fr, node):
        av = [I.val(st, a) for a in args]
        p = pattern_of(av[0]) or av[0]
        if len(av) == 2 and not kwargs:
            return call(f"re.{name}", (p, av[1]))
        return None
    return f


ext_re_fullmatch = _re("fullmatch")
ext_re_match = _re("match")
ext_re_search = _re("search")


def ext_sys_exit(I, args, kwargs, st, fr, node):
    from .interp import Exit
    if st.live is not FALSE:
        fr.exits.append(Exit(st.live, "raise", mk("exc", "SystemExit", tuple(I.val(st, a) for a in args)), dict(st.env), dict(st.heap), node))
        st.live = FALSE
    return mk("undef")


def ext_dict_fromkeys(I, args, kwargs, st, fr, node):
    d = args[1] if len(args) > 1 else NONE
    r = I.alloc(mk("dict", EMPTY), st)
    I.loop(I.iter_seq(args[0], st), lambda b, e, f: I.update_at(r, (I.val(b, e),), "set", d, b, f, node), st, fr, (), node)
    return r


def ext_operator_attrgetter(I, args, kwargs, st, fr, node):
    return mk("getter", "attr", *[I.val(st, a) for a in args])


def ext_operator_itemgetter(I, args, kwargs, st, fr, node):
    return mk("getter", "item", *[I.val(st, a) for a in args])


def ext_operator_methodcaller(I, args, kwargs, st, fr, node):
    return mk("getter", "method", *[I.val(st, a) for a in args])


def ext_pathlib_Path(I, args, kwargs, st, fr, node):
    v = I.val(st, args[0]) if args else const(".")
    if len(args) == 1 and strip_none(typeof(v)).args[0] == "Path":
        return v
    return None


def ext_json_dumps(I, args, kwargs, st, fr, node):
    return None


def ext_functools_reduce(I, args, kwargs, st, fr, node):
    f = args[0]
    seq = I.iter_seq(args[1], st)
    if len(args) < 3:
        return None
    st.env["$acc"] = args[2]

    def body(b, x, f2):
        b.env["$acc"] = I.apply(f, [b.env["$acc"], x], {}, b, f2, node)

    I.loop(seq, body, st, fr, (), node)
    return st.env.pop("$acc")


ALIASES = {
    "typing_extensions.cast": "typing.cast",
}


def ext_function(I, name, args, kwargs, st, fr, node):
    name = ALIASES.get(name, name)
    if any(a.op == "star" for a in args) and name not in ("itertools.chain",):
        return None
    f = globals().get("fn_" + name) if "." not in name else globals().get("ext_" + name.replace(".", "_"))
    if f is None:
        # unbound method of a builtin type  str.lower(x), dict.items(d)
        if "." in name:
            t, _, m = name.rpartition(".")
            if t in ("str", "bytes", "list", "set", "dict") and args:
                return I.method(args[0], m, args[1:], kwargs, st, fr, node)
            if t == "object" and m == "__setattr__":
                return ext_object___setattr__(I, args, kwargs, st, fr, node)
        return None
    return f(I, args, kwargs, st, fr, node)
