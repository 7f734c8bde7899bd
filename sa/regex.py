"""Regular expressions as languages.

A pattern found as a constant in the analysed source is parsed with the standard parser (`re._parser`) and turned into
a minimal automaton, so that two spellings of one grammar compare equal and a grammar that accepts one string more does
not.  Named groups are kept as structure around the automata.
"""
from __future__ import annotations

import random
import re
import warnings

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # pragma: no cover
    import sre_constants as C
    import sre_parse as P


class Unhandled(Exception):
    pass


NA = ["nonascii-space", "nonascii-digit", "nonascii-word", "nonascii-other"]
ASCII = list(range(128))
ALL = frozenset(ASCII) | frozenset(NA)
SPACE = frozenset(c for c in ASCII if chr(c).isspace()) | {NA[0]}
DIGIT = frozenset(range(48, 58)) | {NA[1]}
WORD = frozenset(c for c in ASCII if chr(c).isalnum() or c == 95) | {NA[1], NA[2]}
A_SPACE = frozenset(c for c in ASCII if chr(c) in " \t\n\r\f\v")
CATS = {
    C.CATEGORY_SPACE: SPACE, C.CATEGORY_NOT_SPACE: ALL - SPACE,
    C.CATEGORY_DIGIT: DIGIT, C.CATEGORY_NOT_DIGIT: ALL - DIGIT,
    C.CATEGORY_WORD: WORD, C.CATEGORY_NOT_WORD: ALL - WORD,
}
A_CATS = {
    C.CATEGORY_SPACE: A_SPACE, C.CATEGORY_NOT_SPACE: ALL - A_SPACE,
    C.CATEGORY_DIGIT: frozenset(range(48, 58)), C.CATEGORY_NOT_DIGIT: ALL - frozenset(range(48, 58)),
    C.CATEGORY_WORD: WORD & frozenset(ASCII), C.CATEGORY_NOT_WORD: ALL - (WORD & frozenset(ASCII)),
}


def _case(s, flags):
    if not flags & re.IGNORECASE:
        return s
    out = set(s)
    for c in s:
        if isinstance(c, int) and chr(c).isalpha():
            out.add(ord(chr(c).swapcase()))
    return frozenset(out)


def _charset(op, av, flags):
    cats = A_CATS if flags & re.ASCII else CATS
    if op is C.LITERAL:
        if av > 127:
            raise Unhandled("non-ASCII literal")
        return _case(frozenset([av]), flags)
    if op is C.NOT_LITERAL:
        return ALL - _case(frozenset([av]), flags)
    if op is C.ANY:
        return ALL if flags & re.DOTALL else ALL - {10}
    if op is C.CATEGORY:
        return cats[av]
    if op is C.IN:
        neg = False
        s = set()
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.RANGE:
                lo, hi = a
                if hi > 127:
                    raise Unhandled("non-ASCII range")
                s |= set(range(lo, hi + 1))
            elif o is C.CATEGORY:
                s |= cats[a]
            elif o is C.LITERAL:
                if a > 127:
                    raise Unhandled("non-ASCII literal")
                s.add(a)
            else:
                raise Unhandled(str(o))
        s = _case(frozenset(s), flags)
        return ALL - s if neg else s
    return None


class Nfa:
    def __init__(self):
        self.eps = {}
        self.tr = {}
        self.n = 0

    def new(self):
        self.n += 1
        self.eps[self.n] = set()
        self.tr[self.n] = []
        return self.n

    def seq(self, items, flags, a):
        for op, av in items:
            a = self.item(op, av, flags, a)
        return a

    def item(self, op, av, flags, a):
        cs = _charset(op, av, flags)
        if cs is not None:
            b = self.new()
            self.tr[a].append((cs, b))
            return b
        if op is C.SUBPATTERN:
            _, add, sub, items = av
            return self.seq(items, (flags | add) & ~sub, a)
        if op is C.BRANCH:
            b = self.new()
            for alt in av[1]:
                s = self.new()
                self.eps[a].add(s)
                self.eps[self.seq(alt, flags, s)].add(b)
            return b
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, items = av
            if lo > 64 or (hi is not C.MAXREPEAT and hi > 64):
                raise Unhandled("large repeat")
            for _ in range(lo):
                a = self.seq(items, flags, a)
            if hi is C.MAXREPEAT:
                s = self.new()
                self.eps[a].add(s)
                e = self.seq(items, flags, s)
                self.eps[e].add(s)
                b = self.new()
                self.eps[s].add(b)
                return b
            b = self.new()
            self.eps[a].add(b)
            for _ in range(hi - lo):
                a = self.seq(items, flags, a)
                self.eps[a].add(b)
            return b
        if op is C.AT and av in (C.AT_END_STRING,):
            raise Unhandled("anchor")
        raise Unhandled(str(op))

    def close(self, ss):
        ss = set(ss)
        todo = list(ss)
        while todo:
            x = todo.pop()
            for y in self.eps[x]:
                if y not in ss:
                    ss.add(y)
                    todo.append(y)
        return frozenset(ss)


def automaton(items, flags):
    """canonical minimal automaton of a group-free item list: tuple of (accepting, transitions)"""
    n = Nfa()
    s = n.new()
    e = n.seq(items, flags, s)
    start = n.close([s])
    states = {start: 0}
    order = [start]
    trans = []
    i = 0
    while i < len(order):
        cur = order[i]
        moves = {}
        for q in cur:
            for cs, b in n.tr[q]:
                for c in cs:
                    moves.setdefault(c, set()).add(b)
        row = {}
        memo = {}
        for c, t in moves.items():
            f = frozenset(t)
            if f not in memo:
                memo[f] = n.close(f)
            t2 = memo[f]
            if t2 not in states:
                if len(states) > 4000:
                    raise Unhandled("automaton too large")
                states[t2] = len(states)
                order.append(t2)
            row[c] = states[t2]
        trans.append(row)
        i += 1
    acc = [e in st for st in order]
    sink = len(order)
    trans.append({})
    acc.append(False)
    syms = sorted(ALL, key=str)
    # Moore refinement
    cls = [1 if a else 0 for a in acc]
    while True:
        sig = {}
        new = []
        for q in range(len(acc)):
            k = (cls[q], tuple(cls[trans[q].get(c, sink)] for c in syms))
            new.append(sig.setdefault(k, len(sig)))
        if len(sig) == len(set(cls)):
            break
        cls = new
    # canonical numbering from the start state
    rep = {}
    for q in range(len(acc)):
        rep.setdefault(cls[q], q)
    num = {cls[0]: 0}
    out = []
    todo = [cls[0]]
    while todo:
        k = todo.pop(0)
        q = rep[k]
        row = {}
        for c in syms:
            t = cls[trans[q].get(c, sink)]
            if t == cls[sink] and not acc[sink]:
                continue
            if t not in num:
                num[t] = len(num)
                todo.append(t)
            row.setdefault(num[t], []).append(c)
        out.append((acc[q], tuple(sorted((t, _ranges(cs)) for t, cs in row.items()))))
    return tuple(out)


def _ranges(cs):
    ints = sorted(c for c in cs if isinstance(c, int))
    out = []
    for c in ints:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    txt = "".join(_ch(a) if a == b else f"{_ch(a)}-{_ch(b)}" for a, b in out)
    na = [c[9:] for c in cs if not isinstance(c, int)]
    return txt + ("".join(f"<{x}>" for x in sorted(na)))


def _ch(c):
    return chr(c) if 33 <= c < 127 and (chr(c).isalnum() or chr(c) in "_.:,;=@/+*") else f"\\x{c:02x}"


def _has_group(items):
    for op, av in items:
        if op is C.SUBPATTERN:
            if av[0] is not None or _has_group(av[3]):
                return True
        elif op is C.BRANCH:
            if any(_has_group(x) for x in av[1]):
                return True
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if _has_group(av[2]):
                return True
    return False


def _lazy(items):
    for op, av in items:
        if op is C.MIN_REPEAT:
            return True
        if op is C.SUBPATTERN and _lazy(av[3]):
            return True
        if op is C.BRANCH and any(_lazy(x) for x in av[1]):
            return True
        if op is C.MAX_REPEAT and _lazy(av[2]):
            return True
    return False


def parse(pattern, flags=0):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = P.parse(pattern, flags)
    return p, p.state.flags, {v: k for k, v in p.state.groupdict.items()}


def structure(pattern, flags=0, lazy=True):
    """canonical structure: automata for group-free runs, named groups around them"""
    p, fl, names = parse(pattern, flags)

    def go(items, fl):
        out = []
        run = []

        def flush():
            if run:
                a = automaton(run, fl)
                if a != automaton([], fl):
                    out.append(("lang", a) + (("lazy",) if lazy and _lazy(run) else ()))
                run.clear()
        for op, av in items:
            if not _has_group([(op, av)]):
                if op is C.SUBPATTERN and (av[1] or av[2]):
                    flush()
                    out.extend(go(av[3], (fl | av[1]) & ~av[2]))
                else:
                    run.append((op, av))
                continue
            flush()
            if op is C.SUBPATTERN:
                g, add, sub, its = av
                inner = go(its, (fl | add) & ~sub)
                if g is None:
                    out.extend(inner)
                else:
                    out.append(("group", names.get(g, f"#{g}"), tuple(inner)))
            elif op is C.BRANCH:
                out.append(("branch", tuple(tuple(go(x, fl)) for x in av[1])))
            else:
                lo, hi, its = av
                out.append(("repeat", lo, str(hi), op is C.MIN_REPEAT and lazy, tuple(go(its, fl))))
        flush()
        return out

    return tuple(go(list(p), fl))


def language(pattern, flags=0):
    p, fl, _ = parse(pattern, flags)
    return automaton(list(p), fl)


def groups(pattern, flags=0):
    """named group -> item list (source order)"""
    p, fl, names = parse(pattern, flags)
    out = {}

    def go(items):
        for op, av in items:
            if op is C.SUBPATTERN:
                if av[0] is not None:
                    out[names.get(av[0], f"#{av[0]}")] = list(av[3])
                go(av[3])
            elif op is C.BRANCH:
                for x in av[1]:
                    go(x)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                go(av[2])
    go(list(p))
    return out, fl


# ------------------------------------------------------------------ queries
def _run(a, q, c):
    if q is None:
        return None
    for t, rng in a[q][1]:
        if c in _expand(rng):
            return t
    return None


_exp = {}


def _expand(rng):
    r = _exp.get(rng)
    if r is None:
        s = set()
        i = 0
        toks = []
        while i < len(rng):
            if rng[i] == "<" and rng[i:].startswith(("<space>", "<digit>", "<word>", "<other>")):
                j = rng.index(">", i)
                s.add("nonascii-" + rng[i + 1:j])
                i = j + 1
                continue
            if rng[i] == "\\" and rng[i + 1:i + 2] == "x" and i + 4 <= len(rng):
                toks.append(int(rng[i + 2:i + 4], 16))
                i += 4
            else:
                toks.append(ord(rng[i]))
                i += 1
            if i < len(rng) and rng[i] == "-" and i + 1 < len(rng) and len(toks) and True:
                # range
                i += 1
                if rng[i] == "\\" and rng[i + 1:i + 2] == "x":
                    hi = int(rng[i + 2:i + 4], 16)
                    i += 4
                else:
                    hi = ord(rng[i])
                    i += 1
                s |= set(range(toks.pop(), hi + 1))
        s |= set(toks)
        r = _exp[rng] = s
    return r


def accepts(a, s):
    q = 0
    for ch in s:
        c = ord(ch)
        if c > 127:
            c = NA[0] if ch.isspace() else NA[1] if ch.isdigit() else NA[2] if ch.isalnum() else NA[3]
        q = _run(a, q, c)
        if q is None:
            return False
    return a[q][0]


def generate(pattern, flags=0, n=10, method="fullmatch"):
    """some different strings that match, each optional part once present and once absent"""
    p, fl, names = parse(pattern, flags)
    rng = random.Random(len(pattern))

    def cls(av):
        neg = bool(av) and av[0][0] is C.NEGATE
        ok = []
        for c in "a1b_.x-Z 0\n\u0660\u00e9":
            hit = False
            for op, a in av:
                if op is C.LITERAL:
                    hit |= ord(c) == a
                elif op is C.RANGE:
                    hit |= a[0] <= ord(c) <= a[1]
                elif op is C.CATEGORY:
                    hit |= bool(re.match({C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
                                          C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[a], c))
            if hit != neg:
                ok.append(c)
        if not ok:
            ok = [chr(a) if op is C.LITERAL else chr(a[0]) for op, a in av if op in (C.LITERAL, C.RANGE)] or ["?"]
        return rng.choice(ok[:4] if rng.random() < 0.8 else ok)

    def go(items):
        out = ""
        for op, av in items:
            if op is C.LITERAL:
                out += chr(av)
            elif op is C.NOT_LITERAL:
                out += "a" if av != 97 else "b"
            elif op is C.ANY:
                out += rng.choice("a1.")
            elif op is C.IN:
                out += cls(av)
            elif op is C.CATEGORY:
                out += cls([(op, av)])
            elif op is C.SUBPATTERN:
                out += go(av[3])
            elif op is C.BRANCH:
                out += go(rng.choice(av[1]))
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
                lo, hi, its = av
                hi = min(int(hi), lo + 3) if rng.random() < 0.8 or int(hi) > 40 else int(hi)
                for _ in range(rng.randint(lo, max(lo, hi))):
                    out += go(its)
        return out

    r = re.compile(pattern, flags)
    out = []
    for _ in range(n * 4):
        try:
            w = go(list(p))
        except (KeyError, ValueError, TypeError):
            break
        if w not in out and getattr(r, method)(w):
            out.append(w)
        if len(out) >= n:
            break
    return out


def samples(a):
    """two short accepted strings"""
    from collections import deque
    out = []
    seen = {0: 0}
    todo = deque([(0, "")])
    syms = sorted((c for c in range(33, 127)), key=lambda c: (not chr(c).isalpha() or not chr(c).islower(), c))
    while todo and len(out) < 2:
        q, w = todo.popleft()
        if a[q][0] and w:
            out.append(w)
        if len(w) > 12:
            continue
        took = set()
        for c in syms:
            n = _run(a, q, c)
            if n is not None and n not in took and seen.get(n, 0) < 2:
                took.add(n)
                seen[n] = seen.get(n, 0) + 1
                todo.append((n, w + chr(c)))
    return out


def witness_difference(a, b, limit=200000):
    """shortest string accepted by exactly one of the automata, or None"""
    from collections import deque
    seen = {(0, 0)}
    todo = deque([((0, 0), "")])
    syms = sorted(ALL, key=lambda c: (not (isinstance(c, int) and 33 <= c < 127), str(c)))
    while todo:
        (p, q), w = todo.popleft()
        x = p is not None and a[p][0]
        y = q is not None and b[q][0]
        if x != y:
            return w, ("first" if x else "second")
        for c in syms:
            n = (_run(a, p, c), _run(b, q, c))
            if n == (None, None) or n in seen:
                continue
            seen.add(n)
            if len(seen) > limit:
                return None
            todo.append((n, w + (chr(c) if isinstance(c, int) else f"<{c}>")))
    return None
