"""Semantic model of the key-tracking document validator.

`with validator.get(key, T, default, ignore_subkeys) as x` denotes the sub-document x = data[key] (or the default), with
the failures: key missing and no default; present and not of type T; and, on leaving the block, a sub-document with keys
that were not asked for inside the block.  That the class really behaves so is decided separately (obligations kt.*).
"""
from sa.interp import Exit
from sa.interp import NONE
from sa.interp import State
from sa.terms import *  # noqa: F403
from sa.terms import EMPTY, FALSE, TRUE, mk

K = "variantlib.validators.keytracking.KeyTrackingValidator"
VE = "variantlib.validators.base.ValidationError"


def fail(I, g, st, fr, node):
    I.throw(mk("exc", VE, ()), g, st, fr, node)


def type_check(I, f, args, kwargs, st, fr, node):
    """validate_type(value, T): raises ValidationError unless `value` is of the run-time type T"""
    v = I.val(st, args[0])
    t = I.val(st, args[1] if len(args) > 1 else kwargs.get("expected_type"))
    fail(I, not_(typed(v, t)), st, fr, node)
    return NONE


def typed(v, t):
    return mk("call", "typed", (v, t), ())


def matches(I, v, pattern):
    from sa.models import pattern_of
    return not_(eq(call("re.fullmatch", (pattern_of(pattern) or pattern, v)), NONE))


def match_model(I, f, args, kwargs, st, fr, node):
    """validate_matches_re(value, pattern)"""
    v, pat = I.val(st, args[0]), I.val(st, args[1] if len(args) > 1 else kwargs["pattern"])
    fail(I, not_(matches(I, v, pat)), st, fr, node)
    return NONE


CHECKED = {"variantlib.validators.base.validate_type": type_check}


def slots(v):
    return mk("fld", v, "$data"), mk("fld", v, "$keys")


def data_of(I, v, st):
    d, _ = slots(v)
    if d in st.heap:
        return st.heap[d]
    if v.op == "call" and v.args[0] == "new:" + K:
        return dict(v.args[2])["top_data"]
    return attr(v, "data")


def run_type(t):
    """run-time type expression -> static type of the checked value"""
    if t.op in ("builtin", "cls"):
        return ty(t.args[0])
    if t.op == "tapp" and isinstance(t.args[0], T) and t.args[0].op in ("builtin", "cls", "ext"):
        return ty(t.args[0].args[0], *[run_type(a) for a in t.args[1:]])
    return ANY


CALL_TYPE["doc"] = lambda t: t.args[1][2]


def construct(I, q, args, kwargs, st, fr, node):
    init = I.p.find_method(q, "__init__")
    env = I.bind_args(init.node.args, [mk("self"), *args], kwargs, I.func_defaults(init), node, fr)
    v = call("new:" + q, (), tuple((k, I.val(st, x)) for k, x in env.items() if x.op != "self"))
    fail(I, not_(typed(dict(v.args[2])["top_data"], const("document"))), st, fr, node)
    return v


def get(I, f, env, inner, st, fr, node):
    v = I.obj(st, env["self"])
    key = I.val(st, env["key"])
    typ = I.val(st, env["expected_type"])
    default = I.val(st, env["default"])
    ignore = I.val(st, env["ignore_subkeys"])
    dslot, kslot = slots(v)
    data = data_of(I, v, st)
    old_keys = st.heap.get(kslot, mk("list", EMPTY))
    required = default.op == "cls" and default.args[0].endswith("RequiredKey") or default.op in ("missing", "localcls") or \
        default.op == "builtin" and default.args[0] == "RequiredKey"
    has = member(key, mk("keys", data))
    rt = run_type(typ)
    item = mk("call", "doc", (data, key, rt), ())
    if required:
        fail(I, not_(has), st, fr, node)
        fail(I, not_(typed(item, typ)), st, fr, node)
        x = item
    elif default.op in ("list", "dict") and not default.args[0].args:
        fail(I, and_(has, not_(typed(item, typ))), st, fr, node)
        x = item      # an absent document iterates like an empty one
    else:
        raw = mk("call", "doc", (data, key, optional(rt)), ()) if default is NONE else item
        x = cases([(has, raw), (not_(has), default)])
        fail(I, and_(has, not_(eq(raw, default)), not_(typed(raw, typ))), st, fr, node)
    st.heap[dslot] = x
    st.heap[kslot] = mk("list", EMPTY)
    inner(x, st)
    if st.live is FALSE:
        return
    seen = st.heap[kslot]
    if ignore is not TRUE and rt.args[0] in ("dict", "Any"):
        k = fv(STR)
        extra = exists(iter_of(x), k, not_(member(k, seen)))
        fail(I, and_(not_(truthy(ignore)), extra), st, fr, node)
    st.heap[dslot] = data
    st.heap[kslot] = mk("list", cat(old_keys.args[0], unit(key)))


def list_matches(I, f, args, kwargs, st, fr, node):
    v = I.obj(st, args[0])
    pat = I.val(st, args[1] if len(args) > 1 else kwargs["pattern"])
    k = fv(STR)
    fail(I, exists(iter_of(data_of(I, v, st)), k, not_(matches(I, k, pat))), st, fr, node)
    return NONE


def matches_re(I, f, args, kwargs, st, fr, node):
    v = I.obj(st, args[0])
    pat = I.val(st, args[1] if len(args) > 1 else kwargs["pattern"])
    fail(I, not_(matches(I, data_of(I, v, st), pat)), st, fr, node)
    return NONE


def validate(I, f, args, kwargs, st, fr, node):
    fail(I, not_(typed(I.val(st, args[1]), I.val(st, args[2] if len(args) > 2 else kwargs["expected_type"]))), st, fr, node)
    return NONE


KT_CFG = {
    "soft": True,
    "models": {K: construct, K + ".list_matches_re": list_matches, K + ".matches_re": matches_re, K + ".validate": validate,
               **CHECKED},
    "cm_models": {K + ".get": get},
}
