"""Where two normal forms differ, and what it takes to get there.

`focus(a, b)` descends into both terms as long as they have the same shape and returns the places where they do not:
the iterations to enter (source, variable), the conditions on the way and the two differing sub-terms.  This guides the
search for a separating interpretation (refute.py), which still has to separate the whole terms.

`hints(terms)` reads off the conditions which strings are of interest for what is uninterpreted: `x.split("/")[1] == "b"`
makes "a/b" interesting for x."""

from __future__ import annotations

import itertools

from . import regex as rx
from . import terms as tm
from .terms import T

LIMIT = 14


def _strings(v):
    if isinstance(v, bytes):
        try:
            return v.decode()
        except UnicodeDecodeError:
            return None
    return v if isinstance(v, str) else None


# ------------------------------------------------------------------ focus
def focus(a, b):
    out = []
    try:
        _focus(a, b, (), (), out, 0)
    except RecursionError:
        pass
    return out[:LIMIT]


def _boolean(t):
    return t.op in ("anyof", "inlang") or tm.typeof(t) is tm.BOOL


def _leaf(a, b, binders, guards, out):
    out.append((binders, tuple(g for g in guards if g is not tm.TRUE), a, b))


def _focus(a, b, binders, guards, out, depth):
    if a is b or len(out) >= LIMIT or depth > 30:
        return
    if not (isinstance(a, T) and isinstance(b, T)):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                if x is not y and x != y:
                    _focus(x, y, binders, guards, out, depth + 1)
            return
        return
    if _boolean(a) and _boolean(b):
        if a.op == b.op == "not":
            return _focus(a.args[0], b.args[0], binders, guards, out, depth + 1)
        if a.op == b.op and a.op in ("and", "or", "anyof"):
            xs = [x for x in a.args if x not in b.args]
            ys = [y for y in b.args if y not in a.args]
            common = [x for x in a.args if x in b.args]
            g = (*guards, *(common if a.op == "and" else [tm.not_(c) for c in common]))
            if len(xs) == len(ys) == 1:
                return _focus(xs[0], ys[0], binders, g, out, depth + 1)
            if a.op == "and":
                return _leaf(tm.and_(*xs), tm.and_(*ys), binders, g, out)
            # one alternative at a time, none of the other's
            for x in xs:
                _focus(x, tm.FALSE, binders, (*g, *(tm.not_(q) for q in ys)), out, depth + 1)
            for y in ys:
                _focus(tm.FALSE, y, binders, (*g, *(tm.not_(q) for q in xs)), out, depth + 1)
            return
        for x, y in ((a, b), (b, a)):
            if y is tm.FALSE and x.op == "ex":
                v, q = tm.open_lam(x.args[1])
                g = (*binders, (x.args[0], v))
                return _focus(q, y, g, guards, out, depth + 1) if x is a else _focus(y, q, g, guards, out, depth + 1)
            if y is tm.FALSE and x.op == "anyof":
                z = tm.or_(*x.args)
                if z.op != "anyof":
                    return _focus(z, y, binders, guards, out, depth + 1) if x is a else _focus(y, z, binders, guards, out, depth + 1)
            if y is tm.FALSE and x.op == "or" and len(x.args) <= 4:
                for q in x.args:
                    _focus(q, y, binders, guards, out, depth + 1) if x is a else _focus(y, q, binders, guards, out, depth + 1)
                return
        if a.op == b.op == "ex" and a.args[0] is b.args[0]:
            v, x = tm.open_lam(a.args[1])
            return _focus(x, tm.instantiate(b.args[1], v), (*binders, (a.args[0], v)), guards, out, depth + 1)
        return _leaf(a, b, binders, guards, out)
    if a.op != b.op:
        if "cases" in (a.op, b.op):
            px = list(a.args) if a.op == "cases" else [(tm.TRUE, a)]
            py = list(b.args) if b.op == "cases" else [(tm.TRUE, b)]
            for c, v in px:
                for d, w in py:
                    if v is not w:
                        _leaf(v, w, binders, (*guards, c, d), out)
            return
        return _leaf(a, b, binders, guards, out)
    op = a.op
    if op == "seq":
        return _seq(list(a.args), list(b.args), binders, guards, out, depth)
    if op == "cases":
        return _cases(a, b, binders, guards, out, depth)
    if op == "lam":
        v, x = tm.open_lam(a)
        return _focus(x, tm.instantiate(b, v), (*binders, (None, v)), guards, out, depth + 1)
    if op == "fold" and a.args[1] is b.args[1] and len(a.args[2]) == len(b.args[2]):
        each = tuple(("each", a.args[1], q) for q in dict.fromkeys(steps(a) + steps(b)))
        return _leaf(a, b, binders, (*guards, *each), out)
    if op in ("const", "sym", "fv", "bv", "ty", "cls", "ext", "builtin", "func", "fold") or len(a.args) != len(b.args):
        return _leaf(a, b, binders, guards, out)
    if op == "call" and a.args[0] != b.args[0]:
        return _leaf(a, b, binders, guards, out)
    n = len(out)
    for x, y in zip(a.args, b.args):
        if x is not y and x != y:
            _focus(x, y, binders, guards, out, depth + 1)
    if len(out) == n:
        _leaf(a, b, binders, guards, out)


def steps(t):
    """what has to hold of an element for something to happen in a loop (as far as it is about the element only)"""
    out = []
    for body in t.args[3]:
        v, b = tm.open_lam(body)
        ps = []
        while b.op == "lam":
            p, b = tm.open_lam(b)
            ps.append(p)
        accs = {p.args[0] for p in ps}
        todo = [b]
        while todo:
            x = todo.pop()
            if x.op == "u" or x.op == "cases":
                for g in [x.args[0]] if x.op == "u" else [c for c, _ in x.args]:
                    for alt in g.args if g.op == "or" else [g]:
                        parts = [q for q in (alt.args if alt.op == "and" else [alt]) if not q.free & accs]
                        if parts:
                            out.append(tm.lam(v, tm.and_(*parts)))
                if x.op == "cases":
                    todo.extend(w for _, w in x.args)
            elif x.op in ("list", "set", "dict", "tup", "seq"):
                todo.extend(y for y in x.args if isinstance(y, T))
    return sorted(dict.fromkeys(out), key=lambda q: -q.size)[:4]


def _cases(a, b, binders, guards, out, depth):
    px, py = list(a.args), list(b.args)
    for c, v in px:
        if (c, v) in py:
            continue
        same = [w for d, w in py if d is c]
        if same:
            _focus(v, same[0], binders, (*guards, c), out, depth + 1)
            continue
        for d, w in py:
            if w is not v and (d, w) not in px:
                _focus(v, w, binders, (*guards, c, d), out, depth + 1)
        mine = [d for d, w in py if w is v]
        if mine:
            _leaf(c, tm.or_(*mine), binders, guards, out)


def _reach(s, binders, guards, out):
    """the segment is there at all"""
    if len(out) >= LIMIT:
        return
    if s.op == "u":
        _leaf(s.args[0], tm.FALSE, binders, guards, out)
    elif s.op == "b":
        v, body = tm.open_lam(s.args[1])
        if body.op == "seq":
            for q in body.args:
                _reach(q, (*binders, (s.args[0], v)), guards, out)


def _seq(xs, ys, binders, guards, out, depth):
    a = [x for x in xs if x not in ys]
    b = [y for y in ys if y not in xs]
    if not a and not b:
        return                                  # order only
    pairs = list(zip(a, b)) if len(a) == len(b) else []
    if not pairs or any(x.op != y.op or x.op == "b" and x.args[0] is not y.args[0] for x, y in pairs):
        # the like ones, in order
        pairs = []
        for e in dict.fromkeys(x.args[1] for x in a if x.op == "u"):
            if any(y.op == "u" and y.args[1] is e for y in b):
                g = [tm.or_(*[q.args[0] for q in w if q.op == "u" and q.args[1] is e]) for w in (a, b)]
                a = [x for x in a if x.op != "u" or x.args[1] is not e]
                b = [x for x in b if x.op != "u" or x.args[1] is not e]
                if g[0] is not g[1]:
                    _focus(*g, binders, guards, out, depth + 1)
        left = list(b)
        for x in list(a):
            y = next((y for y in left if y.op == x.op and y.args[0] is x.args[0]), None)
            if y is not None:
                left.remove(y)
                a.remove(x)
                pairs.append((x, y))
        b = left
        if len(a) == len(b):
            pairs += zip(a, b)
            a = b = []
    else:
        a = b = []
    for x, y in pairs:
        if x.op == y.op == "u":
            if x.args[0] is not y.args[0]:
                _focus(x.args[0], y.args[0], binders, guards, out, depth + 1)
            if x.args[1] is not y.args[1]:
                _focus(x.args[1], y.args[1], binders, (*guards, x.args[0], y.args[0]), out, depth + 1)
        elif x.op == y.op == "b" and x.args[0] is y.args[0]:
            v, body = tm.open_lam(x.args[1])
            _focus(body, tm.instantiate(y.args[1], v), (*binders, (x.args[0], v)), guards, out, depth + 1)
        else:
            if x.op == y.op == "b":
                _focus(x.args[0], y.args[0], binders, guards, out, depth + 1)
            _reach(x, binders, guards, out)
            _reach(y, binders, guards, out)
    # what one has more of
    for x in (*a, *b):
        _reach(x, binders, guards, out)


# ------------------------------------------------------------------ hints
PASS = {"m:strip", "m:lstrip", "m:rstrip", "m:lower", "m:upper", "m:encode", "m:decode", "encode", "str", "m:casefold"}
SPLITS = {"m:split", "m:rsplit"}
PARTITIONS = {"m:partition", "m:rpartition"}


VARY = [{}, str.maketrans("ab", "cd"), str.maketrans("ab", "ef")]


def _from(v, src, origin):
    while src.op in ("until", "distinct", "enumerate", "reversed") and isinstance(src.args[0], T):
        src = src.args[0]
    if src.op == "call" and src.args[0] in SPLITS and len(src.args[1]) > 1:
        origin[v] = src


def head(t):
    """name under which the values of an uninterpreted term are generated"""
    if t.op == "attr":
        return t.args[1]
    if t.op in ("sym", "fv"):
        return t.args[0] if isinstance(t.args[0], str) else ("fv", t.args[0])
    if t.op == "bv":
        return None
    if t.op == "getitem" and t.args[1].op == "const" and isinstance(t.args[1].args[1], str):
        return t.args[1].args[1]
    if t.op == "keys":
        h = head(t.args[0])
        return ("key", h) if h is not None else None
    if t.op == "call":
        if t.args[0] == "doc" and len(t.args[1]) == 3:
            k = t.args[1][1]
            return ("doc", k.args[1]) if k.op == "const" else ("doc", "*" + t.args[1][2].key)
        return t.args[0]
    return None


def hints(languages, patterns, odd, *ts):
    """{name: strings}"""
    atoms = []                       # (kind, base term, payload)
    alias = {}                       # variable -> name of its source
    origin = {}                      # variable -> the split call it iterates over

    def visit(t, seen, depth):
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
                continue
            if not isinstance(x, T) or x in seen or len(seen) > 6000:
                continue
            seen.add(x)
            if x.op == "eq":
                for p, q in (x.args, x.args[::-1]):
                    if p.op == "const":
                        s = _strings(p.args[1])
                        if s is not None:
                            atoms.append(("eq", q, s))
                            if q.op == "call" and q.args[0] in ("m:lower", "m:upper", "m:casefold") and q.args[1]:
                                z = (s.upper(), s.capitalize(), s.lower())
                                atoms.append(("some", q.args[1][0], [w for w in dict.fromkeys(z) if w != s] + [s]))
                    else:
                        atoms.append(("other", q, p))
            elif x.op == "inlang":
                a = languages.get(x.args[0])
                good = rx.samples(a) if a is not None else []
                atoms.append(("some", x.args[1], good[:1] + odd.get(x.args[0], []) + good[1:] + [w for w in ("-", " ", *(g + "\n" for g in good[:1])) if not rx.accepts(a, w)][:2] if good else []))
            elif x.op == "truthy":
                atoms.append(("eq", x.args[0], ""))
            elif x.op == "rematch":
                atoms.append(("some", x.args[2], rx.generate(*patterns[x.args[1]], method=x.args[0]) if x.args[1] in patterns else []))
            elif x.op == "call" and x.args[0] in ("m:startswith", "m:endswith") and x.args[1][1].op == "const":
                s = _strings(x.args[1][1].args[1])
                if s is not None:
                    atoms.append((x.args[0], x.args[1][0], s))
            elif x.op == "call" and x.args[0] in ("m:strip", "m:lstrip", "m:rstrip") and x.args[1]:
                c = _strings(x.args[1][1].args[1]) if len(x.args[1]) > 1 and x.args[1][1].op == "const" else " "
                if c:
                    atoms.append(("strip", x.args[1][0], c[:1]))
            elif x.op == "substr" and x.args[0].op == "const":
                s = _strings(x.args[0].args[1])
                if s is not None:
                    atoms.append(("substr", x.args[1], s))
            elif x.op == "call" and x.args[0] in SPLITS and len(x.args[1]) > 1:
                atoms.append(("split", x, None))
            elif x.op == "call" and x.args[0] in PARTITIONS and len(x.args[1]) == 2:
                atoms.append(("split", x, None))
            if x.op == "b" or x.op == "ex":
                if depth < 5:
                    v, body = tm.open_lam(x.args[1])
                    h = head(x.args[0])
                    if h is not None:
                        alias[v] = ("item", h)
                    _from(v, x.args[0], origin)
                    todo.append(x.args[0])
                    visit(body, seen, depth + 1)
                continue
            todo.extend(x.args)

    seen: set = set()
    for t in ts:
        visit(t, seen, 0)
        for x in list(seen):
            if x.op == "fold" and x.args[3]:
                for b in x.args[3]:
                    v, b = tm.open_lam(b)
                    h = head(x.args[1])
                    if h is not None:
                        alias[v] = ("item", h)
                    _from(v, x.args[1], origin)

    parts: dict = {}                 # base term -> candidate strings
    splits: dict = {}                # split call -> {index: candidates}

    def add(t, s):
        c = parts.setdefault(t, [])
        if s not in c and len(c) < 60:
            c.append(s)

    def give(t, s):
        """s is interesting for t: push it down to what t is computed from"""
        while True:
            if t.op == "call" and t.args[0] in PASS and t.args[1]:
                t = t.args[1][0]
                continue
            break
        i = None
        if t.op == "getitem" and t.args[1].op == "const" and isinstance(t.args[1].args[1], int) and t.args[0].op == "call" and t.args[0].args[0] in (SPLITS | PARTITIONS):
            i, t = t.args[1].args[1], t.args[0]
        elif t in origin:
            add(t, s)
            i, t = "each", origin[t]
        if i is not None:
            c = splits.setdefault(t, {}).setdefault(i, [])
            if s not in c:
                c.append(s)
            return
        if t.op == "fstr":
            return
        add(t, s)

    for k, t, s in atoms:
        if k == "eq":
            give(t, s)
        elif k == "some":
            for v in s[:24]:
                give(t, v)
        elif k == "m:startswith":
            give(t, s + "a")
            give(t, s)
        elif k == "m:endswith":
            give(t, "a" + s)
            give(t, s)
        elif k == "strip":
            for v in ("a" + s, s + "a", s + "a" + s + s, "a"):
                give(t, v)
        elif k == "substr":
            give(t, f"a{s}b")
        elif k == "split":
            splits.setdefault(t, {})

    def _mixed(c):
        """different shapes first"""
        first = {}
        for x in c:
            if not x.endswith("\n"):
                first.setdefault((len(x) > 3, "=" in x, "." in x, ":" in x), x)
        return list(dict.fromkeys([*first.values(), *c]))

    def compose():
        for call, comp in list(splits.items()):
            sep = call.args[1][1]
            sep = _strings(sep.args[1]) if sep.op == "const" else None
            if not sep:
                continue
            if call.args[0] in PARTITIONS:
                for row in itertools.islice(itertools.product((comp.get(0, []))[:6] + ["a"], (comp.get(2, []))[:6] + ["b"]), 30):
                    give(call.args[1][0], sep.join(row))
                    give(call.args[1][0], row[0])
                continue
            comp = dict(comp)
            every = comp.pop("each", [])
            if every:
                every = _mixed(every)
            top = max([i for i in comp if i >= 0], default=-1)
            low = max([-i for i in comp if i < 0], default=0)
            lim = call.args[1][2] if len(call.args[1]) > 2 else None
            lim = lim.args[1] if lim is not None and lim.op == "const" else None
            ns = {max(top + 1, low, 1), 2, (lim + 1) if isinstance(lim, int) and 0 < lim < 4 else 3}
            if isinstance(lim, int) and 0 < lim < 4 and sep != "/":
                ns.add(lim + 2)
            for n in sorted(ns):
                cols = []
                for i in range(n):
                    c = list(comp.get(i, ())) + list(comp.get(i - n, ()))
                    c = c[:5] + every[:5 if n < 3 else 3] if every else c[:5]
                    cols.append((c + ["a"]) if c and "a" not in c else c or ["a"])
                for row in itertools.islice(itertools.product(*cols), 30):
                    if any(x.endswith("\n") for x in row[:-1]):
                        continue
                    if every and not comp and n > 1:
                        # the same pieces, none twice
                        give(call.args[1][0], sep.join(x.translate(VARY[i % 3]) for i, x in enumerate(row)))
                    give(call.args[1][0], sep.join(row))
                    if sep != "/":
                        give(call.args[1][0], sep.join(row) + "\n")
                    if call.args[0] == "m:rsplit" and isinstance(lim, int) and n == lim + 1:
                        give(call.args[1][0], sep.join(["a", *row]))

    compose()
    # equal to something else that is computed: its possible values
    known = [s for c in parts.values() for s in c if len(s) > 3]
    for k, t, p in list(atoms):
        if k == "other":
            pieces = []
            while p.op == "call" and p.args[0] in PASS and p.args[1]:
                p = p.args[1][0]
            if p.op in ("fstr", "join"):
                pieces = [x.args[1] for x in tm.subterms(p) if x.op == "const" and isinstance(x.args[1], str) and len(x.args[1]) > 1]
            u = t
            while u.op == "call" and u.args[0] in PASS and u.args[1]:
                u = u.args[1][0]
            if u.op == "getitem" and u.args[0].op == "call" and u.args[0].args[0] in SPLITS:
                for s in ([s for s in known if all(x in s for x in pieces)] if pieces else known)[:8]:
                    give(t, s)
    compose()
    out: dict = {}
    seps = [call.args[1][1].args[1] for call in splits if call.args[1][1].op == "const"]
    seps = [s for s in map(_strings, seps) if s]
    for t, c in parts.items():
        c.sort(key=lambda s: not any(q in s for q in seps))
        h = alias.get(t) or head(t)
        if h is not None:
            o = out.setdefault(h, [])
            for s in c:
                if s not in o:
                    o.append(s)
    return out
