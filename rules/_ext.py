"""Extensional comparison of dictionaries: by what they contain, not by how they were filled."""
from sa import terms as tm
from sa.terms import *  # noqa: F403
from sa.terms import STR, mk


def extensional(depth):
    """post-processing for `equiv`: the dictionary as (keys, is k there, what is stored under k) for arbitrary keys k"""
    def ext(d, n):
        k = sym(f"key{n}", STR)
        if d.op == "cases":
            return cases([(c, ext(x, n)) for c, x in d.args])
        there = tm.dict_contains(d, k)
        val = tm.dict_lookup(d, k) if d.op == "dict" else tm.getitem(d, k)
        return mk("tuple", there, ext(val, n - 1) if n > 1 else under(there, val))

    def under(g, v):
        if v.op == "list":
            return mk("list", tm.guard_seq(g, v.args[0]))
        return v

    def post(k, x, y):
        return (ext(x, depth), ext(y, depth)) if k == "value" else (x, y)
    return post


def undup(t):
    """forget whether repeated entries of one list are kept: only first positions count"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            if t.op == "earlier" and t.args[2] is t.args[3]:
                r = tm.FALSE
            elif t.op == "distinct":
                r = go(t.args[0])
            elif not any(isinstance(a, (tm.T, tuple)) for a in t.args) or t.op in ("ty", "fv", "sym", "bv"):
                r = t
            else:
                r = tm.map_children(t, go)
            memo[t] = r
        return r
    return go(t)
