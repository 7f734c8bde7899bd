"""Comparison of the normal form of an implementation with the normal form of its specification.

`diff` descends two value graphs in parallel and returns the minimal differing pairs.  A pair whose sub-terms still
contain a residual node (a loop or mutation for which no closed form was found) proves nothing either way: the
comparison is then *undecided* there, never a violation.
"""
from __future__ import annotations

import hashlib

from . import refute
from . import regex as rx
from . import terms as tm
from . import vocab
from .terms import *  # noqa: F403
from .terms import FALSE, NONE, TRUE, T, mk

RESIDUAL = frozenset({"fold", "foldguard", "foldval", "exitval", "listset", "dictupd", "undef", "star", "cycle", "clo"})


# ----------------------------------------------------------------- regex
def _regex_const(t):
    """(pattern, flags) of a re.compile(...) term or a constant pattern"""
    if t.op == "const" and isinstance(cval(t), str):
        return cval(t), 0
    if t.op == "call" and t.args[0] == "re.compile":
        a = t.args[1]
        if a and all(x.op == "const" for x in a) and not t.args[2]:
            return cval(a[0]), int(cval(a[1])) if len(a) > 1 else 0
    return None


_rx_cache: dict = {}


def _rx(kind, pat, flags, method):
    k = (kind, pat, flags, method)
    if k not in _rx_cache:
        try:
            if kind == "structure":
                r = repr(rx.structure(pat, flags))
            else:
                if method == "match":
                    pat2 = f"(?:{pat})(?s:.*)" if not flags & 64 else f"(?:{pat}\n)(?s:.*)"
                elif method == "search":
                    pat2 = f"(?s:.*?)(?:{pat})(?s:.*)" if not flags & 64 else f"(?s:.*?)(?:{pat}\n)(?s:.*)"
                else:
                    pat2 = pat
                lang = rx.language(pat2, flags)
                r = repr(lang)
            r = hashlib.sha1(r.encode()).hexdigest()[:12]
            if kind == "language":
                refute.LANGUAGES[r] = lang
            else:
                refute.PATTERNS[r] = (pat, flags)
        except Exception:  # noqa: BLE001   pattern outside the handled subset: compared literally
            r = None
        _rx_cache[k] = r
    return _rx_cache[k]


def canon(t):
    """regular expressions -> languages / group structures"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = step(t)
            memo[t] = r
        return r

    def step(t):
        if not any(isinstance(a, (T, tuple)) for a in t.args) or t.op in ("ty", "fv", "sym", "bv", "const"):
            return t
        if t.op == "eq" and NONE in t.args:
            x = t.args[0] if t.args[1] is NONE else t.args[1]
            m = _match(x)
            if m is not None:
                meth, pat, fl, s = m
                h = _rx("language", pat, fl, meth)
                if h is not None:
                    return not_(mk("inlang", h, go(s)))
        m = _match(t)
        if m is not None:
            meth, pat, fl, s = m
            h = _rx("structure", pat, fl, meth)
            if h is not None:
                return mk("rematch", meth if meth != "fullmatch" else "fullmatch", h, go(s))
        c = _regex_const(t) if t.op == "call" else None
        if c is not None:
            h = _rx("structure", c[0], c[1], "")
            if h is not None:
                return mk("regex", h)
        r = map_children(t, go)
        if r.op == "dict":
            return tm.unordered_dict(r)
        return vocab.normal_call(r) if r.op == "call" else r

    return go(t)


def _match(x):
    if x.op == "call" and x.args[0] in ("re.fullmatch", "re.match", "re.search") and len(x.args[1]) == 2 and not x.args[2]:
        c = _regex_const(x.args[1][0])
        if c is not None:
            return x.args[0][3:], c[0], c[1], x.args[1][1]
    return None


# ------------------------------------------------------------------ diff
def residual(t):
    return any(x.op in RESIDUAL for x in tm.subterms(t))


UNORDERED = {"and", "or", "eq", "is", "cases", "set", "anyof"}


def diff(a, b, path=(), out=None, limit=40):
    """minimal differing pairs [(path, a, b)]"""
    if out is None:
        out = []
    if a is b or len(out) >= limit:
        return out
    if not (isinstance(a, T) and isinstance(b, T)):
        out.append((path, a, b))
        return out
    if a.op != b.op:
        out.append((path, a, b))
        return out
    if a.op == "fold" and len(a.args[2]) == len(b.args[2]) and a.args[1] is b.args[1] and a.args[2] == b.args[2]:
        # the same loop over the same accumulators: the step functions are compared
        n0 = len(out)
        for i, (x, y) in enumerate(zip(a.args[3], b.args[3])):
            if x is not y:
                diff(x, y, (*path, f"step[{i}]"), out, limit)
        if len(out) == n0:
            out.append((path, a, b))
        return out
    if a.op == "listset" and a.args[:2] == b.args[:2]:
        return diff(a.args[2], b.args[2], (*path, "item"), out, limit)
    if a.op in RESIDUAL:
        out.append((path, a, b))
        return out
    if a.op == "lam":
        v, x = open_lam(a)
        y = instantiate(b, v)
        return diff(x, y, (*path, "λ"), out, limit)
    if a.op in ("const", "sym", "fv", "bv", "ty", "cls", "ext", "builtin", "func"):
        out.append((path, a, b))
        return out
    if a.op in UNORDERED:
        xs = a.args[0].args if a.op == "set" else a.args
        ys = b.args[0].args if b.op == "set" else b.args
        if a.op == "set" and (a.args[0].op != "seq" or b.args[0].op != "seq"):
            return diff(a.args[0], b.args[0], (*path, a.op), out, limit)
        xa = [x for x in xs if x not in ys]
        ya = [y for y in ys if y not in xs]
        if a.op == "cases":
            return diff_cases(a, b, path, out, limit)
        if a.op == "anyof" and len(xa) < len(a.args):
            return diff(mk("anyof", *xa), mk("anyof", *ya), (*path, a.op), out, limit)
        if len(xa) == 1 and len(ya) == 1 and type(xa[0]) is type(ya[0]):
            return diff_any(xa[0], ya[0], (*path, a.op), out, limit)
        out.append((path, a, b))
        return out
    if len(a.args) != len(b.args):
        out.append((path, a, b))
        return out
    if a.op == "call" and a.args[0] != b.args[0]:
        out.append((path, a, b))
        return out
    n0 = len(out)
    for i, (x, y) in enumerate(zip(a.args, b.args)):
        if x is y or x == y:
            continue
        r = diff_any(x, y, (*path, f"{a.op}[{i}]"), out, limit)
        if r is None:
            del out[n0:]
            out.append((path, a, b))
            return out
    if len(out) == n0:
        out.append((path, a, b))
    return out


def diff_cases(a, b, path, out, limit):
    """decision tables: values are compared under every condition of the other table"""
    xs = {v: c for c, v in a.args}
    ys = {v: c for c, v in b.args}
    if set(xs) == set(ys):
        n0 = len(out)
        for v in sorted(xs, key=lambda t: t.key):
            if xs[v] is not ys[v]:
                diff(xs[v], ys[v], (*path, "cases?"), out, limit)
        if len(out) == n0:
            out.append((path, a, b))
        return out
    xc = {c: v for c, v in a.args}
    yc = {c: v for c, v in b.args}
    if set(xc) == set(yc) and len(xc) == len(a.args) and len(yc) == len(b.args):
        for c in sorted(xc, key=lambda t: t.key):
            if xc[c] is not yc[c]:
                diff(xc[c], yc[c], (*path, "cases"), out, limit)
        return out
    out.append((path, a, b))
    return out


def diff_any(x, y, path, out, limit):
    if isinstance(x, T) and isinstance(y, T):
        diff(x, y, path, out, limit)
        return out
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return None
        for p, q in zip(x, y):
            if p is q or p == q:
                continue
            if diff_any(p, q, path, out, limit) is None:
                return None
        return out
    return None


def residuals(t):
    """maximal residual sub-terms"""
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op in RESIDUAL:
                out.add(x)
            else:
                todo.extend(x.args)
    return out


def comparable(x, y):
    """both sides leave the same things uninterpreted"""
    if not (isinstance(x, T) and isinstance(y, T)) or x.op in RESIDUAL or y.op in RESIDUAL:
        return False
    a, b = residuals(x), residuals(y)
    return bool(a) and a == b


# ------------------------------------------------------------ case analysis
class _Budget(Exception):
    pass


def _conds(t, acc):
    """atoms deciding which elements / cases are present at the top of t"""
    if t.op in ("list", "set", "tup") and t.args and isinstance(t.args[0], T):
        _conds(t.args[0], acc)
    elif t.op == "seq":
        for seg in t.args:
            if seg.op == "u":
                tm._atoms_of(seg.args[0], acc)
    elif t.op == "cases":
        for c, v in t.args:
            tm._atoms_of(c, acc)


def _suppose(t, atom, pol, atoms):
    lit = atom if pol else not_(atom)
    m = {atom: TRUE if pol else FALSE}
    for o in atoms:
        if o is not atom:
            if tm.implies_lit(lit, o):
                m[o] = TRUE
            elif tm.implies_lit(lit, not_(o)):
                m[o] = FALSE
    return tm.replace(t, m)


def split_equal(a, b, budget=None):
    """equality by analysis of cases: in every case of the conditions that guard elements or alternatives"""
    budget = budget if budget is not None else [400]
    if a is b:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        raise _Budget
    if not (isinstance(a, T) and isinstance(b, T)):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(x is y or x == y or split_equal(x, y, budget) for x, y in zip(a, b))
    atoms: set = set()
    if tm.boolean(a) or tm.boolean(b):
        if not (tm.typeof(a) is tm.BOOL and tm.typeof(b) is tm.BOOL):
            return False
        tm._atoms_of(a, atoms)
        tm._atoms_of(b, atoms)
        if not atoms:
            return False
        x = min(atoms, key=lambda t: (t.op == "ex", t.size, t.key))
        return all(split_equal(_suppose(a, x, p, atoms), _suppose(b, x, p, atoms), budget) for p in (True, False))
    _conds(a, atoms)
    _conds(b, atoms)
    if atoms:
        if len(atoms) > 8:
            return False
        x = min(atoms, key=lambda t: (t.size, t.key))
        return all(split_equal(_suppose(a, x, p, atoms), _suppose(b, x, p, atoms), budget) for p in (True, False))
    if a.op != b.op or len(a.args) != len(b.args) or a.op in RESIDUAL or a.op in ("const", "sym", "fv", "bv", "ty", "cls", "ext", "builtin", "func", "and", "or", "not", "eq", "ex"):
        return False
    if a.op == "b":
        if a.args[0] is not b.args[0] and not split_equal(a.args[0], b.args[0], budget):
            return False
        v, x = open_lam(a.args[1])
        return split_equal(x, instantiate(b.args[1], v), budget)
    if a.op == "lam":
        v, x = open_lam(a)
        return split_equal(x, instantiate(b, v), budget)
    return all(x is y or x == y or (isinstance(x, (T, tuple)) and split_equal(x, y, budget)) for x, y in zip(a.args, b.args))


def _split_equal(a, b):
    try:
        return split_equal(a, b)
    except (_Budget, RecursionError):
        return False


def verdict(impl, spec, project=None, given=(), effects=False):
    """('holds', []) | ('violation', pairs) | ('undecided', pairs)

    `given`: conditions under which the two values matter; `effects`: lists of calls"""
    a = canon(impl)
    b = canon(spec)
    if a is not b:
        a = canon(tm.replace(a, {}))
        b = canon(tm.replace(b, {}))
    if a is b:
        return "holds", []
    if _split_equal(a, b):
        return "holds", []
    pairs = diff(a, b)
    try:
        sep = refute.separate(project, a, b, [canon(g) for g in given if g is not TRUE], effects)
    except refute.Unknown as e:
        return "undecided", [((f"no denotation for {e}",), *pairs[0][1:])]
    if sep:
        odd = vocab.strangers(project, a, b, refute.CALLS)
        if odd:
            return "undecided", [((f"unknown library call {', '.join(odd)}",), *pairs[0][1:])]
        return "violation", pairs
    return "undecided", [((f"not separated by {refute.LAST} interpretations",), *pairs[0][1:])]
