"""Separation of two value graphs.

Two normal forms that are not identical may still denote the same function: the normal form is not complete.  Before a
difference is reported, it has to be *separated*: finite interpretations of the uninterpreted symbols (parameters,
opaque calls, attributes) are enumerated deterministically, both value graphs are read as mathematical terms in them,
and a difference counts only when some interpretation gives the two graphs different denotations.  Only the graphs are
interpreted - they describe all inputs at once; no code of the analysed program runs.  If a graph contains a node
without a denotation here, nothing is claimed (`Unknown`).
"""
from __future__ import annotations

import ast
import base64
import functools
import collections
import contextlib
import hashlib
import signal
import json
import re
import time

from . import focus
from . import regex as rx
from . import terms as tm
from .terms import T


class Undef(Exception):
    """the term has no value in this interpretation (e.g. element of an empty list)"""


class Unknown(Exception):
    """the term has no denotation"""


class Big(Exception):
    """this interpretation is too large"""


class Out(Exception):
    """out of budget"""


class Seq:
    __slots__ = ("items", "kind", "_h")

    def __init__(self, items, kind="list"):
        self.items = tuple(items)
        self.kind = kind
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Seq) and self.kind == o.kind and self.items == o.items

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.items))
        return self._h

    def __repr__(self):
        return ("[%s]" if self.kind == "list" else "(%s)") % ", ".join(map(repr, self.items))


class DV:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def __eq__(self, o):
        return isinstance(o, DV) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return repr(self.d)


class New:
    __slots__ = ("cls", "f", "_h")

    def __init__(self, cls, fields):
        self.cls = cls
        self.f = tuple(sorted(fields))
        self._h = None

    def __eq__(self, o):
        return isinstance(o, New) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.cls, self.f))
        return self._h

    def __repr__(self):
        return f"{self.cls.rsplit('.', 1)[-1]}({', '.join(f'{k}={v!r}' for k, v in self.f)})"


class Obj:
    """an uninterpreted object"""
    __slots__ = ("typ", "id")

    def __init__(self, typ, i):
        self.typ = typ
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Obj) and self.typ == o.typ and self.id == o.id

    def __hash__(self):
        return hash((self.typ, self.id))

    def __repr__(self):
        return f"<{self.typ.rsplit('.', 1)[-1]} {self.id}>"


class Tag:
    """anything else with structural identity"""
    __slots__ = ("v",)

    def __init__(self, *v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Tag) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "<" + " ".join(map(str, self.v)) + ">"


class Ev:
    __slots__ = ("kind", "path", "val")

    def __init__(self, kind, path, val):
        self.kind = kind
        self.path = path
        self.val = val


SUMMARIES: dict = {}


def summary_of(project, n):
    """(parameter names, value, normal termination) of a pure function, abstracted over its parameters"""
    from .check import analyse
    from .interp import Unsupported
    f = project.funcs[n]
    a = f.node.args
    if a.vararg or a.kwarg or n.startswith("spec."):
        return None
    try:
        params = {}
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            if i == 0 and f.cls is not None:
                if f.decorators and not all(isinstance(d, ast.Name) and d.id in ("property", "cached_property") for d in f.decorators):
                    return None
                t = tm.ty(f.cls.qual)
            else:
                t = project.ann(x.annotation, f.module.name, f.cls)
            params[x.arg] = tm.fv(t)
        with limited(6):
            I, s = analyse(project, n, args=params)
        if any(k.op not in ("ref", "chan") for k in s.heap) or I.fx(s) is not tm.mk("list", tm.EMPTY):
            return None
        value, live = s.value, s.live
        if any(x.op in ("fold", "sym", "undef", "exitval", "unchanged") for y in (value, live) for x in tm.subterms(y)):
            return None
        from .compare import canon
        with limited(3):
            value, live = canon(value), canon(live)
        if any(x.op == "call" and x.args[0] == n for x in tm.subterms(value)):
            return None
        for v in reversed(list(params.values())):
            value, live = tm.lam(v, value), tm.lam(v, live)
        return list(params), value, live
    except (Unsupported, RecursionError, TooSlow):
        return None


def prime(project, *ts, depth=0):
    """the summaries that the interpretation of these terms may need (not on the time of the search)"""
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "call" and not x.args[1] and x.args[0] in project.funcs and (id(project), x.args[0]) not in SUMMARIES:
                k = id(project), x.args[0]
                SUMMARIES[k] = None
                d = SUMMARIES[k] = summary_of(project, x.args[0])
                if d is not None and depth < 4:
                    prime(project, d[1], d[2], depth=depth + 1)


class TooSlow(Exception):
    pass


@contextlib.contextmanager
def limited(seconds):
    """give up a computation that is only a convenience"""
    def stop(*_):
        raise TooSlow

    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


LANGUAGES: dict = {}       # language id -> automaton
CHOICE = tm.ty("choice")
PATTERNS: dict = {}        # structure id -> (pattern, flags)
GENERIC_STR = ("", "a", "b", "ns", "x y")
LISTY = {"list", "Sequence", "Collection", "Iterable", "Iterator", "Generator"}
SETTY = {"set", "frozenset"}
DICTY = {"dict", "defaultdict", "Mapping", "OrderedDict"}


class Interpretation:
    def __init__(self, project, seed, strings, ints, deadline, dataclass_eq, enum_members):
        self.p = project
        self.seed = seed
        self.deadline = deadline
        self.dc = dataclass_eq
        self.enums = enum_members
        self.matches = {}
        self.memo = {}
        self.gens = {}
        self.digs = {}
        self.steps = 0
        self.paths = {}
        self.real = {}
        self.salts = None
        self.softs = {}
        self.inside = 0
        self.copying = 0
        self.limit = 60000
        self.want = ()
        self.liked = ()
        self.near = None        # what was looked at first
        self.pins = {}          # uninterpreted iterable -> variable that stands for its only element
        self.vars = {}          # variable -> position among the variables of the place looked at
        self.hints = {}
        self.docs = ()
        self.names = {}
        self.heads = ()
        self.raw = {}
        self.quiet = False      # nothing there but what is asked for
        self.echo = ()          # everything that can be alike is alike: so many elements each, at the top and below
        self.echoes = []
        self.wide = False       # any hint, not only the best ones
        r = self.rnd("setup")
        pool = list(dict.fromkeys(list(strings) + list(GENERIC_STR)))
        self.pool = pool
        n = (1, 1, 2, 1, 3, 2, 4)[r % 7]
        self.strs = [pool[self.rnd("pool", i) % len(pool)] for i in range(n)]
        self.modes = {}
        ip = list(dict.fromkeys([0, 1, 2, 3, *ints]))
        self.ints = [ip[self.rnd("ipool", i) % len(ip)] for i in range(3)]
        self.maxlen = 1 + self.rnd("len") % 3
        self.p_none = (2, 3, 5, 9)[self.rnd("none") % 4]
        self.p_empty = (2, 3, 5, 12)[self.rnd("empty") % 4]
        self.nobj = 1 + self.rnd("nobj") % 4
        self.world = seed % 10
        self.big = next((i for i in sorted(ints) if i > 5), 0) if seed % 5 == 4 else 0
        if self.big:
            # a limit: more of everything at the top than that
            self.strs = [f"a{i:03d}" for i in range(self.big + 3)]
            self.maxlen = 1
            self.p_empty = 1000
            self.p_none = 1000
            self.world = 9
        elif self.world in (1, 3):
            # everything that can be there is there, and names tend to agree
            self.strs = self.strs[:1 if self.world == 1 else 2]
            self.p_empty = 1000 if self.rnd("w") % 3 else 7
            self.maxlen = (1, 1, 2)[self.rnd("w2") % 3]
            self.p_none = 1000
        elif self.world in (2, 4):
            # a few names, things of one name mostly alike but with exceptions
            self.strs = list(dict.fromkeys(self.strs + pool[self.rnd("more") % len(pool):]))[:2 + self.rnd("w") % 2]
            self.p_empty = (9, 1000)[self.rnd("w") % 2]
            self.maxlen = (2, 2, 3)[self.rnd("w2") % 3]
            self.p_none = 9
        elif self.world >= 8:
            # each field has its own few names; long lists
            self.strs = list(dict.fromkeys(self.strs + pool[self.rnd("more") % len(pool):] + pool))[:4]
            self.p_empty = (20, 1000)[self.rnd("w") % 2]
            self.maxlen = 3 + self.rnd("w2") % 2
            self.p_none = 9
        elif self.world >= 5:
            # two or three names, everything filled, flags independent of each other
            self.strs = list(dict.fromkeys(self.strs + pool[self.rnd("more") % len(pool):] + pool))[:2 + (self.rnd("w") % 3 == 0)]
            self.p_empty = 1000
            self.maxlen = (2, 2, 3)[self.rnd("w2") % 3]
            self.p_none = 9 if self.world == 5 else 1000

    def rnd(self, *key):
        h = hashlib.blake2b(repr((self.seed, *[self.dig(k) for k in key])).encode(), digest_size=6).digest()
        return int.from_bytes(h, "big")

    def dig(self, v):
        """short name of a value (or of a tuple of values)"""
        if isinstance(v, (str, int)) or v is None:
            return v
        r = self.digs.get((type(v), v))
        if r is None:
            if type(v) is tuple:
                s = repr([self.dig(x) for x in v])
            elif isinstance(v, T):
                s = v.key
            else:
                s = repr(v)
            r = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            self.digs[type(v), v] = r
        return r

    # ------------------------------------------------------- generation
    def gen(self, typ, key, depth=0):
        k = (typ, key)
        r = self.gens.get(k)
        if r is None:
            s = self.salts.get(k) if self.salts else None
            if s is None:
                if self.quiet and typ.args[0] == "Union" and tm.is_nullable(typ):
                    r = (None,)
                else:
                    r = (self._gen(typ, key, depth),)
            elif s == ():
                n = typ.args[0]
                r = (frozenset() if n in SETTY else DV({}) if n in DICTY else Seq([]) if n in LISTY else self._gen(typ, key, depth),)
            elif isinstance(s, tuple):
                # the same value as another one
                if self.copying > 8:
                    raise Big
                self.copying += 1
                try:
                    r = (self.gen(typ, s[1], depth),)
                finally:
                    self.copying -= 1
            else:
                old = self.seed, self.strs, self.quiet, self.echo
                self.seed = s
                self.quiet = self.quiet and s & 2
                self.echo = self.echo if s & 4 else ()
                if s & 1:
                    self.strs = self.pool
                try:
                    r = (self._gen(typ, key, depth),)
                finally:
                    self.seed, self.strs, self.quiet, self.echo = old
            self.gens[k] = r
        return r[0]

    def soft(self, t, env, want):
        """how close the condition is to the wanted truth value (1.0: it has it)"""
        op = t.op
        if op == "not":
            return self.soft(t.args[0], env, not want)
        if t.closed:
            r = self.softs.get((t, want))
            if r is None:
                r = self.softs[t, want] = self._soft(t, env, want)
            return r
        return self._soft(t, env, want)

    def _soft(self, t, env, want):
        op = t.op
        if op in ("and", "or", "anyof"):
            vs = [self.soft(a, env, want) for a in t.args]
            return sum(vs) / len(vs) if (op == "and") == want else max(vs)
        if op == "ex":
            vs = []
            try:
                for x in self.iterate(t.args[0], env):
                    e, body = self.app(t.args[1], x, env)
                    vs.append(self.soft(body, e, want))
            except Undef:
                return 0.0
            if want:
                return max(vs) if vs else 0.0
            return sum(vs) / len(vs) if vs else 1.0
        try:
            v = self.b(t, env)
        except Undef:
            return 0.0
        if v == want:
            return 1.0
        if op == "eq" and want:
            try:
                a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
            except Undef:
                return 0.0
            a, b = _bag(a), _bag(b)
            if a is not None and b is not None and (a or b):
                return 0.9 * len(a & b) / len(a | b)
        return 0.0

    def _gen(self, typ, key, depth):
        n = typ.args[0]
        r = self.rnd(n, key)
        if n == "None":
            return None
        if n == "choice":
            return 0 if self.echo else r
        if self.echo and (n in ("str", "bytes") or n in DICTY):
            h = self.hints.get(self.headname(key) if n not in DICTY else ("item", ("key", self.headname(key)))) or self.echoes
            named = self.echoes[0] not in h
            if n in DICTY:
                if named:
                    kt, vt = tm.kv_types(typ)
                    return DV({c: self.gen(vt, (key, "v", i), depth + 1) for i, c in enumerate(h) if self.rnd("has", key, c) % 4})
            else:
                i = key[-1] if isinstance(key[-1], int) else 0
                v = h[i % (len(h) if named else min(2, len(h)))]
                return v.encode() if n == "bytes" else v
        if self.hints and n in ("str", "bytes", "Any") and r % 8:
            h = self.hints.get(self.headname(key))
            if h:
                # the first ones fit best; those of one name tend to be alike
                q = self.mode(("h", self.headname(key)), "pool")
                r2 = q if q & 1 else r
                v = h[(r >> 8) % len(h)] if (r >> 20) % 3 == 0 or self.wide else h[(r2 >> 8) % max(1, min(len(h), (1, 2, 4)[(r2 >> 4) % 3]))]
                # raw data where it can be either: what the conditions say decides
                return v.encode() if n == "bytes" or n == "Any" and (key[0] == "fv" and self.raw.get(key[1])) else v
        if n == "Any":
            c = r % 8
            if depth > 2 or c < 4:
                return self.strs[(r >> 8) % len(self.strs)] if c < 6 else None
            if c == 4:
                return None
            if c == 5:
                return self.gen(tm.ty("list", tm.ANY), ("j", key), depth + 1)
            if c == 6:
                return self.gen(tm.ty("dict", tm.STR, tm.ANY), ("j", key), depth + 1)
            return (self.ints + [True, False])[(r >> 8) % (len(self.ints) + 2)]
        if n == "Union":
            opts = [a for a in typ.args[1:] if a.args[0] != "None"]
            if len(opts) < len(typ.args) - 1:
                if (typ, key) in self.salts if self.salts else False:
                    if not opts or r % 3 == 0:
                        return None
                elif not opts or self.mode(key, "none") == 1 or self.mode(key, "none") == 2 and r % self.p_none == 0:
                    return None
            return self.gen(opts[(r >> 8) % len(opts)], key, depth)
        if n == "Literal":
            vs = [a for a in typ.args[1:]]
            v = vs[r % len(vs)] if vs else None
            return tm.cval(v) if isinstance(v, T) and v.op == "const" else None
        if n == "bool":
            m = self.mode(key)
            if m != 2 and self.world in (2, 4) and (r >> 12) % 4 == 0:
                m = 1 - m
            return bool(r & 256) if m == 2 else bool(m)
        if n == "int":
            return self.ints[(r >> 8) % len(self.ints)]
        if n == "str":
            if self.big:
                # all alike, all different or independent
                m = self.mode(key, "pool") % 3
                i = (0, sum(k for k in _flat(key) if isinstance(k, int)) + (r >> 8) % 2, r >> 8)[m]
                return self.strs[i % len(self.strs)]
            if self.world >= 8:
                f = self.mode(key, "pool")
                return self.strs[f % 4 + (r >> 8) % (1, 1, 2, 3)[f // 4 % 4] - len(self.strs)]
            return self.strs[(r >> 8) % len(self.strs)]
        if n == "bytes":
            return self.strs[(r >> 8) % len(self.strs)].encode()
        if n in LISTY or n == "tuple1":
            if n == "tuple1":
                return Seq([self.gen(typ.args[1], (key, 0), depth + 1)], "tuple")
            et = typ.args[1] if len(typ.args) > 1 else tm.ANY
            return Seq([self.gen(et, (key, i), depth + 1) for i in range(self.size(key, depth))])
        if n in SETTY:
            et = typ.args[1] if len(typ.args) > 1 else tm.ANY
            return frozenset(self.gen(et, (key, i), depth + 1) for i in range(self.size(key, depth)))
        if n in DICTY:
            kt, vt = tm.kv_types(typ)
            d = {}
            if depth == 0 and self.docs and type(key) is tuple and key[0] == "m:read" and self.world % 2:
                return self.document(key)
            for i in range(self.size(key, depth)):
                d[self.gen(kt, (key, "k", i), depth + 1)] = self.gen(vt, (key, "v", i), depth + 1)
            if depth == 0 and vt is tm.ANY and self.world in (1, 3, 5, 7) and not self.quiet and not self.echo:
                for i, c in enumerate(self.pool):          # a document with everything that is asked for
                    if self.rnd("has", key, c) % 8:
                        d.setdefault(c, self.gen(vt, (key, "c", i), depth + 1))
            return DV(d)
        if n == "tuple":
            if len(typ.args) == 2:
                return Seq([self.gen(typ.args[1], (key, i), depth + 1) for i in range(self.size(key, depth))], "tuple")
            return Seq([self.gen(a, (key, i), depth + 1) for i, a in enumerate(typ.args[1:])], "tuple")
        if n in self.enums:
            ms = self.enums[n]
            return Tag("enum", n, ms[(r >> 8) % len(ms)]) if ms else Obj(n, r % self.nobj)
        if n in self.dc and depth == 0 and n in self.p.classes and self.world == 7:
            # twins: objects of one class have equal parts, in some order
            out = []
            for f in self.dc[n]:
                v = self.gen(tm.ATTR_TYPE(typ, f) or tm.ANY, (("twin", n), f) if self.rnd("own", key, f) % 8 else (key, f), 1)
                if isinstance(v, DV) and len(v.d) > 1 and self.rnd("turn", key, f) & 1:
                    v = DV(dict(reversed(v.d.items())))
                out.append((f, v))
            return New(n, out)
        if n in self.dc and depth < 6 and n in self.p.classes:
            return self.valid(n, key, [(f, self.gen(tm.ATTR_TYPE(typ, f) or tm.ANY, (key, f), depth + 1)) for f in self.dc[n]])
        return Obj(n, (r >> 8) % self.nobj)

    def document(self, key):
        """a document with some of what is written to it already there"""
        d = {}
        for path, typ in self.docs:
            for i in range(1 if all(p is not None for p in path) else 2):
                at, k = d, (key, "d", i)
                if self.rnd("has", key, path, i) % 4 == 0:
                    continue
                for p in path[:-1]:
                    p = self.gen(tm.STR, (key, "k", i), 1) if p is None else p
                    at = at.setdefault(p, DV({})).d if isinstance(at.get(p, DV({})), DV) else {}
                    k = (k, p)
                at.setdefault(self.gen(tm.STR, (key, "k", i), 1) if path[-1] is None else path[-1], self.gen(typ, (k, path[-1]), 1))
        return DV(d)

    def headname(self, key):
        if type(key) is not tuple or not key:
            return None
        if key[0] in ("attr", "getitem") and len(key) == 3:
            return key[2]
        if key[0] in ("sym", "fv") and len(key) == 2:
            return self.names.get(key[1], key[1]) if key[0] == "fv" else key[1]
        if len(key) == 2 and isinstance(key[1], int):
            return ("item", self.headname(key[0]))
        if len(key) == 3 and isinstance(key[0], str) and isinstance(key[2], tuple):
            if key[0] == "doc" and len(key[1]) == 3:
                if isinstance(key[1][1], str) and ("doc", key[1][1]) in self.heads:
                    return "doc", key[1][1]
                return "doc", "*" + key[1][2].v[1] if isinstance(key[1][2], Tag) else ""
            return key[0]
        if len(key) == 3 and key[1] == "k" and isinstance(key[2], int):
            h = self.headname(key[0])
            return ("item", ("key", h)) if h is not None else None
        return None

    def about(self, key):
        """name of what a generated value is part of"""
        while type(key) is tuple and key:
            h = self.headname(key)
            if h is not None and not (isinstance(h, tuple) and h[0] in ("item", "key")):
                return h
            if isinstance(key[0], str):
                return key[0]
            key = key[0]
        return None

    def choice(self, *key):
        return self.gen(CHOICE, key)

    def valid(self, n, key, fields):
        """objects that passed their own validation (the one under construction did not, yet)"""
        if n.startswith("variantlib.models.variant.") and key != ("sym", "self"):
            n2 = n.rsplit(".", 1)[1]
            if n2 in ("VariantFeature", "VariantProperty"):
                fields = [(f, (re.sub(r"[^a-z0-9_.]" if f == "value" else "[^a-z0-9_]", "_", v) or "a") if isinstance(v, str) else v) for f, v in fields]
            elif n2 == "VariantDescription":
                fields = [(f, Seq(sorted(dict.fromkeys(v.items), key=functools.cmp_to_key(order))) if isinstance(v, Seq) else v) for f, v in fields]
        return New(n, fields)

    def mode(self, key, what="bool"):
        """things of one name tend to behave alike within one interpretation (0, 1; 2: independently)"""
        n = key
        while isinstance(n, tuple) and n and isinstance(n[-1], tuple):
            n = n[-1]
        n = next((x for x in reversed(n) if isinstance(x, str)), "") if isinstance(n, tuple) else n
        k = (what, n if isinstance(n, str) else "")
        m = self.modes.get(k)
        if m is None:
            if what in ("pool", "big"):
                m = self.modes[k] = self.rnd("mode", k)
                return m
            m = self.modes[k] = (0, 1, 2, 0, 1)[self.rnd("mode", k) % 5] if what != "empty" else self.rnd("mode", k) % 7
            if self.world >= 5:
                m = self.modes[k] = 2 if what == "bool" and self.rnd("mode3", k) % 3 == 0 else m
            if what == "none" and self.world in (1, 3, 6) and self.rnd("mode2", k) % 4:
                m = self.modes[k] = 0
        return m

    def size(self, key, depth):
        r = self.rnd("size", key)
        if self.quiet and (r >> 4) % 8:
            return 0
        if self.echo and depth < 3:
            return self.echo[depth > 0]
        if self.big and depth < 2 and self.mode(key, "big") % 3 == 0:
            return self.big + 2
        if r % self.p_empty == 0 or self.mode(key, "empty") == 3:
            return 0
        m = self.maxlen if depth < 3 or self.world == 3 else 1
        return 1 + (r >> 8) % m if m > 1 else 1

    # ------------------------------------------------------- evaluation
    def ev(self, t, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Big
        if self.steps & 1023 == 0 and time.process_time() > self.deadline:
            raise Out
        if t.op == "const":
            return t.args[1]
        if t.op == "bv":
            try:
                return env[t.args[0]]
            except KeyError:
                raise Unknown("unbound variable") from None
        closed = t.closed
        if closed:
            r = self.memo.get(t)
            if r is not None:
                if r[0] is Undef:
                    raise Undef
                return r[1]
        try:
            m = getattr(self, "e_" + t.op, None)
            if m is None:
                raise Unknown(t.op)
            v = m(t, env)
        except Undef:
            if closed:
                self.memo[t] = (Undef, None)
            raise
        if closed:
            self.memo[t] = (True, v)
        return v

    def b(self, t, env):
        v = self.ev(t, env)
        if v is True or v is False:
            return v
        raise Undef

    def app(self, l, v, env):
        """body value of a lambda"""
        e = dict(env)
        e[l.args[0].args[0]] = v
        return e, l.args[1]

    def uninterpreted(self, t, key):
        v = self.pins.get(t)
        if v is not None:
            k = (tm.typeof(t), key)
            if k not in self.gens:
                x = self.ev(v, {})
                vt = tm.kv_types(k[0])[1] if k[0].args[0] in DICTY else None
                self.gens[k] = (Seq([x]) if vt is None else DV({x: self.gen(vt, (key, "v", 0), 1)}),)
        return self.gen(tm.typeof(t), key)

    # leaves
    def e_sym(self, t, env):
        return self.gen(t.args[1], ("sym", t.args[0]))

    def e_fv(self, t, env):
        return self.gen(t.args[1], ("fv", self.vars.get(t.args[0], t.args[0])))

    def e_cls(self, t, env):
        return Tag("cls", t.args[0])

    def e_ext(self, t, env):
        if t.args[0] == "sys.maxsize":
            return 2**63 - 1
        return Tag(t.op, *[str(a) for a in t.args])

    def e_name(self, t, env):
        return Tag(t.op, *[str(a) for a in t.args])

    e_builtin = e_func = e_mod = e_super = e_unchanged = e_regex = e_tapp = e_name

    def e_ty(self, t, env):
        return Tag("ty", str(t.key))

    def e_enum(self, t, env):
        return Tag("enum", t.args[0], t.args[1])

    def e_missing(self, t, env):
        return Tag("missing", t.args[0])

    def e_unexpected(self, t, env):
        return Tag("unexpected", self.ev(t.args[0], env))

    def e_undef(self, t, env):
        raise Undef

    # booleans
    def e_and(self, t, env):
        und = False
        for a in t.args:
            try:
                if self.b(a, env) is False:
                    return False
            except Undef:
                und = True
        if und:
            raise Undef
        return True

    def e_or(self, t, env):
        und = False
        for a in t.args:
            try:
                if self.b(a, env) is True:
                    return True
            except Undef:
                und = True
        if und:
            raise Undef
        return False

    e_anyof = e_or

    def e_not(self, t, env):
        return not self.b(t.args[0], env)

    def e_eq(self, t, env):
        for a, b in (t.args, t.args[::-1]):
            if a.op == "const" and isinstance(a.args[1], (bool, int)):
                v = self.ev(b, env)         # the normal form tells `is True` and `== 1` apart
                return isinstance(v, bool) == isinstance(a.args[1], bool) and self.same(a.args[1], v)
        return self.same(self.ev(t.args[0], env), self.ev(t.args[1], env))

    e_is = e_eq

    @staticmethod
    def same(a, b):
        if isinstance(a, (bool, int)) != isinstance(b, (bool, int)):
            return False
        return a == b

    def e_ex(self, t, env):
        und = False
        l = t.args[1]
        for x in self.iterate(t.args[0], env):
            e, body = self.app(l, x, env)
            try:
                if self.b(body, e) is True:
                    return True
            except Undef:
                und = True
        if und:
            raise Undef
        return False

    def e_ge(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        try:
            return bool(order(a, b) >= 0)
        except TypeError:
            raise Undef from None

    def e_substr(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        try:
            return a in b
        except TypeError:
            raise Undef from None

    def e_truthy(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, DV):
            return bool(v.d)
        if isinstance(v, Obj):
            if v.typ in tm.KNOWN_TRUTHY or v.typ in ("Any",):
                return True
            return bool(self.rnd("truthy", v) & 1)
        if isinstance(v, (Tag, New)):
            return True
        return bool(v)

    def e_isa(self, t, env):
        v = self.ev(t.args[0], env)
        c = t.args[1]
        if c.op == "tuple":
            return any(self.inst(v, x) for x in c.args)
        return self.inst(v, c)

    def inst(self, v, c):
        if c.op == "tapp" and isinstance(c.args[0], T):
            c = c.args[0]
        if c.op not in ("cls", "builtin", "ext"):
            return bool(self.rnd("isa", v, c.key) & 1)
        n = c.args[0]
        short = n.rsplit(".", 1)[-1]
        if v is None:
            return n in ("NoneType", "object")
        py = {"str": str, "int": int, "bool": bool, "bytes": bytes, "frozenset": frozenset, "set": frozenset}
        if n in py:
            return isinstance(v, py[n])
        if isinstance(v, bool) or isinstance(v, (int, str, bytes)):
            if isinstance(v, (str, bytes)) and short in ("Iterable", "Sequence", "Collection"):
                return True
            return n == "object"
        if isinstance(v, frozenset):
            return short in ("Iterable", "Collection", "Set")
        if isinstance(v, Seq):
            return n == v.kind or short in ("Iterable", "Collection", "Sequence")
        if isinstance(v, DV):
            return n in DICTY or short in ("Iterable", "Collection", "Mapping")
        q = v.cls if isinstance(v, New) else v.typ if isinstance(v, Obj) else None
        if q in self.p.classes and n in self.p.classes:
            if self.p.is_subclass(q, n):
                return True
            if not self.p.is_subclass(n, q):
                return False
        elif q == n:
            return True
        elif q in self.p.classes and n in ("list", "dict", "tuple"):
            return False
        return bool(self.rnd("isa", v, n) & 1)

    def e_hasattr(self, t, env):
        return bool(self.rnd("hasattr", self.ev(t.args[0], env), self.ev(t.args[1], env)) & 1)

    def e_inlang(self, t, env):
        v = self.ev(t.args[1], env)
        lang = LANGUAGES.get(t.args[0])
        if lang is not None and isinstance(v, str):
            return rx.accepts(lang, v)
        return bool(self.rnd("inlang", t.args[0], v) & 1)

    def e_rematch(self, t, env):
        v = self.ev(t.args[2], env)
        pat = PATTERNS.get(t.args[1])
        if pat is None or not isinstance(v, str) or t.args[0] not in ("fullmatch", "match", "search"):
            return Tag("rematch", t.args[0], t.args[1], v)
        m = getattr(re.compile(*pat), t.args[0])(v)
        if m is None:
            return None
        r = Tag("match", v, tuple(sorted(m.groupdict().items())))
        self.matches[r] = m
        return r

    def e_raises(self, t, env):
        c = self.choice("raises", self.generic(t, env))
        return c % 4 == 0 if self.hints else bool(c & 1)

    def e_earlier(self, t, env):
        src, l, v, e = t.args
        here, val = self.ev(v, env), self.ev(e, env)
        for x in self.iterate(src, env):
            if self.same(x, here):
                return False
            e2, body = self.app(l, x, env)
            if any(self.same(y, val) for y in self.seq(body, e2)):
                return True
        return False

    def e_cases(self, t, env):
        und = False
        for c, v in t.args:
            try:
                if self.b(c, env):
                    return self.ev(v, env)
            except Undef:
                # either the condition or the chosen value
                und = True
        raise Undef

    # sequences
    def seq(self, s, env):
        """list of element values of a sequence term"""
        out = []
        for seg in s.args:
            if seg.op == "u":
                if self.b(seg.args[0], env):
                    out.append(self.elem(seg.args[1], env))
            else:
                src, l = seg.args
                for x in self.over(seg, env):
                    e, body = self.app(l, x, env)
                    out.extend(self.seq(body, e))
        return out

    def over(self, seg, env):
        """the elements a segment runs over; none when its units are all
        switched off by a condition on something else"""
        src, l = seg.args
        try:
            return self.iterate(src, env)
        except Undef:
            if not self.silent(l, (), env):
                raise
            return []

    def silent(self, l, bound, env):
        bound += (("b", l.args[0].args[0]),)
        return all(self.off(u.args[0], bound, env) if u.op == "u" else self.silent(u.args[1], bound, env) for u in l.args[1].args)

    def off(self, guard, bound, env):
        for c in guard.args if guard.op == "and" else (guard,):
            if not c.free.isdisjoint(bound):
                continue
            try:
                if not self.b(c, env):
                    return True
            except Undef:
                pass
        return False

    def elem(self, e, env):
        if e.op == "ev":
            return Ev(e.args[0], tuple(self.ev(k, env) for k in e.args[1]),
                      tuple(self.seq(e.args[2], env)) if e.args[2].op == "seq" else self.ev(e.args[2], env))
        return self.ev(e, env)

    def iterate(self, src, env):
        v = self.ev(src, env)
        if tm.typeof(src).args[0] == "evlog":
            if isinstance(v, DV):
                return [Ev("set", (k,), x) for k, x in v.d.items()]
            raise Undef
        if v is None and src.op in ("sym", "attr") and tm.is_nullable(tm.typeof(src)):
            return []                   # the normal form drops the test for None around an iteration
        return self.items(v)

    def items(self, v):
        if isinstance(v, Seq):
            return v.items
        if isinstance(v, frozenset):
            return sorted(v, key=repr)
        if isinstance(v, DV):
            return list(v.d)
        if isinstance(v, (str,)):
            return list(v)
        if isinstance(v, Obj):
            n = self.size(("iter", v), 2)
            return [self.gen(tm.ANY, ("item", v, i)) for i in range(n)]
        raise Undef

    def e_list(self, t, env):
        return Seq(self.seq(t.args[0], env))

    def e_tup(self, t, env):
        return Seq(self.seq(t.args[0], env), "tuple")

    def e_tuple(self, t, env):
        return Seq([self.ev(a, env) for a in t.args], "tuple")

    def e_set(self, t, env):
        return frozenset(self.hashable(x) for x in self.seq(t.args[0], env))

    @staticmethod
    def hashable(x):
        return x

    def e_dict(self, t, env):
        d = {}
        for x in self.seq(t.args[0], env):
            if not isinstance(x, Ev):
                raise Unknown("dict item")
            self.apply(d, x)
        return self.deep(d)

    def deep(self, d):
        return DV({k: self.deep(v) if isinstance(v, dict) else Seq(v) if isinstance(v, list)
                   else frozenset(v) if isinstance(v, set) else v for k, v in d.items()})

    def undeep(self, v):
        if isinstance(v, DV):
            return {k: self.undeep(x) for k, x in v.d.items()}
        if isinstance(v, Seq) and v.kind == "list":
            return [x for x in v.items]
        if isinstance(v, frozenset):
            return set(v)
        return v

    def apply(self, d, x):
        for k in x.path[:-1]:
            n = d.get(k)
            if n is None and k not in d:
                n = d[k] = {}
            if not isinstance(n, dict):
                raise Undef
            d = n
        k = x.path[-1]
        if x.kind == "set":
            d[k] = self.undeep(x.val)
        elif x.kind == "ensure":
            if k not in d:
                d[k] = self.undeep(x.val)
        elif x.kind in ("append", "extend", "add"):
            if k not in d:
                d[k] = set() if x.kind == "add" else []
            c = d[k]
            if x.kind == "add":
                if not isinstance(c, set):
                    raise Undef
                c.add(x.val)
            elif not isinstance(c, list):
                raise Undef
            elif x.kind == "append":
                c.append(x.val)
            else:
                c.extend(x.val if isinstance(x.val, tuple) else self.items(x.val))
        elif x.kind == "del":
            if k not in d:
                raise Undef
            del d[k]
        else:
            raise Unknown("event " + x.kind)

    def e_evkey(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, Ev):
            raise Unknown("evkey")
        return v.path[0]

    def e_keys(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, DV):
            return Seq(list(v.d))
        if isinstance(v, Obj):
            return Seq(list(dict.fromkeys(self.items(v))))
        raise Undef

    def e_values(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, DV):
            return Seq(list(v.d.values()))
        raise Undef

    def e_items(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, DV):
            return Seq([Seq(kv, "tuple") for kv in v.d.items()])
        raise Undef

    def e_first(self, t, env):
        s = self.seq(t.args[0], env)
        if not s:
            raise Undef
        return s[0]

    def e_last(self, t, env):
        s = self.seq(t.args[0], env)
        if not s:
            raise Undef
        return s[-1]

    def e_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (str, bytes, frozenset)):
            return len(v)
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, DV):
            return len(v.d)
        if isinstance(v, Obj):
            return self.size(("iter", v), 2)
        raise Undef

    def e_reversed(self, t, env):
        return Seq(list(self.items(self.ev(t.args[0], env)))[::-1])

    def e_sorted(self, t, env):
        xs = list(self.items(self.ev(t.args[0], env)))
        key = t.args[1]
        if key is tm.NONE:
            ks = xs
        elif key.op == "lam":
            ks = []
            for x in xs:
                e, body = self.app(key, x, env)
                ks.append(self.ev(body, e))
        else:
            f = self.ev(key, env)
            ks = [self.gen(tm.INT, ("apply", f, x)) for x in xs]
        rev = self.ev(t.args[2], env) if len(t.args) > 2 else False
        idx = list(range(len(xs)))
        try:
            idx.sort(key=functools.cmp_to_key(lambda i, j: order(ks[i], ks[j])), reverse=bool(rev))
        except TypeError:
            raise Undef from None
        return Seq([xs[i] for i in idx])

    def e_distinct(self, t, env):
        return Seq(list(dict.fromkeys(self.items(self.ev(t.args[0], env)))))

    def e_until(self, t, env):
        out = []
        for x in self.iterate(t.args[0], env):
            e, body = self.app(t.args[1], x, env)
            if self.b(body, e):
                break
            out.append(x)
        return Seq(out)

    def e_enumerate(self, t, env):
        xs = self.items(self.ev(t.args[0], env))
        s = self.ev(t.args[1], env) if len(t.args) > 1 else 0
        return Seq([Seq((i + s, x), "tuple") for i, x in enumerate(xs)])

    def e_zip(self, t, env):
        return Seq([Seq(x, "tuple") for x in zip(*[self.items(self.ev(a, env)) for a in t.args])])

    def e_range(self, t, env):
        try:
            return Seq(range(*[self.ev(a, env) for a in t.args]))
        except (TypeError, ValueError):
            raise Undef from None

    def e_removed1(self, t, env):
        xs = list(self.items(self.ev(t.args[0], env)))
        x = self.ev(t.args[1], env)
        if x not in xs:
            raise Undef
        xs.remove(x)
        return Seq(xs)

    def e_listset(self, t, env):
        xs = list(self.items(self.ev(t.args[0], env)))
        i = self.ev(t.args[1], env)
        try:
            xs[i] = self.ev(t.args[2], env)
        except (TypeError, IndexError):
            raise Undef from None
        return Seq(xs)

    def e_sum(self, t, env):
        try:
            return sum(self.seq(t.args[0], env))
        except TypeError:
            raise Undef from None

    def e_groupby(self, t, env):
        import itertools
        xs = list(self.items(self.ev(t.args[0], env)))
        key = t.args[1]

        def k(x):
            if key is tm.NONE:
                return x
            e, body = self.app(key, x, env)
            return self.ev(body, e)
        return Seq([Seq((g, Seq(v)), "tuple") for g, v in itertools.groupby(xs, k)])

    def e_dictupd(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, DV):
            raise Undef
        d = self.undeep(v)
        for x in self.seq(t.args[1], env):
            if not isinstance(x, Ev):
                raise Unknown("dictupd")
            self.apply(d, x)
        return self.deep(d)

    def e_fold(self, t, env, fx=False):
        _, src, inits, bodies = t.args
        state = [self.effects(i, env) if fx and not k else self.ev(i, env) for k, i in enumerate(inits)]
        for x in self.iterate(src, env):
            new = []
            for bd in bodies:
                e = dict(env)
                e[bd.args[0].args[0]] = x
                bd = bd.args[1]
                for s in state:
                    if bd.op != "lam":
                        raise Unknown("fold")
                    e[bd.args[0].args[0]] = s
                    bd = bd.args[1]
                new.append(self.effects(bd, e) if fx and not new else self.ev(bd, e))
            state = new
        return state[0]

    # objects
    def e_attr(self, t, env):
        o = self.ev(t.args[0], env)
        n = t.args[1]
        if isinstance(o, New):
            for k, v in o.f:
                if k == n:
                    return v
        if o is None:
            raise Undef
        if n in ("release", "major", "minor", "micro") and tm.strip_none(tm.typeof(t.args[0])).args[0] == "packaging.version.Version":
            r = tuple(self.rnd("release", o, i) % 4 for i in range(1 + self.rnd("release", o) % 4))
            return Seq(list(r), "tuple") if n == "release" else (*r, 0, 0)[("major", "minor", "micro").index(n)]
        if self.world == 7 and isinstance(o, Obj) and self.rnd("own", o, n) % 8:
            # twins: objects of one class have equal parts, in some order
            v = self.uninterpreted(t, ("attr", o.typ, n))
            if isinstance(v, DV) and len(v.d) > 1 and self.rnd("turn", o, n) & 1:
                v = DV(dict(reversed(v.d.items())))
            return v
        if n in ("suffix", "stem") and tm.strip_none(tm.typeof(t.args[0])).args[0] == "Path":
            name = self.gen(tm.STR, ("attr", o, "name"))
            i = name.rfind(".")
            i = i if 0 < i < len(name) - 1 else len(name)
            return name[i:] if n == "suffix" else name[:i]
        return self.uninterpreted(t, ("attr", o, n))

    def e_new(self, t, env):
        return New(t.args[0], [(n, self.ev(v, env)) for n, v in t.args[1]])

    def e_getitem(self, t, env):
        o, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(o, DV):
            if k not in o.d:
                if tm.typeof(t.args[0]) is tm.ANY and t.args[0].op in ("call", "getitem"):
                    return self.uninterpreted(t, ("getitem", o, k))     # part of an external document
                raise Undef
            return o.d[k]
        if isinstance(o, (Seq, str, bytes)):
            try:
                r = (o.items if isinstance(o, Seq) else o)[k]
            except (TypeError, IndexError):
                raise Undef from None
            return r
        if o is None or isinstance(o, (int, frozenset)):
            raise Undef
        if isinstance(o, Tag) and isinstance(k, (str, int)) and o in self.matches:
            try:
                return self.matches[o][k]
            except IndexError:
                raise Undef from None
        return self.uninterpreted(t, ("getitem", o, k))

    def e_badindex(self, t, env):
        o, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(o, (Seq, str, bytes)) and isinstance(k, int):
            n = len(o.items if isinstance(o, Seq) else o)
            return not -n <= k < n
        return bool(self.rnd("badindex", o, k) & 1)

    def e_slice(self, t, env):
        o, lo, hi, st = [self.ev(a, env) for a in t.args]
        try:
            if isinstance(o, Seq):
                return Seq(o.items[slice(lo, hi, st)], o.kind)
            if isinstance(o, (str, bytes)):
                return o[slice(lo, hi, st)]
        except (TypeError, ValueError):
            pass
        raise Undef

    def text(self, v):
        if isinstance(v, (str, int)) or v is None:
            return str(v)
        return repr(v)

    def e_fstr(self, t, env):
        return "".join(self.text(self.ev(a, env)) for a in t.args)

    def e_join(self, t, env):
        sep = self.ev(t.args[0], env)
        try:
            return sep.join(self.seq(t.args[1], env))
        except (TypeError, AttributeError):
            raise Undef from None

    def e_hash(self, t, env):
        return Tag("hash", self.ev(t.args[0], env))

    # anything that is only a name for a function of its arguments
    def generic(self, t, env):
        out = [t.op]
        for a in t.args:
            out.append(self.gval(a, env))
        return tuple(out)

    def gval(self, a, env):
        if isinstance(a, T):
            if a.op == "lam":
                free = sorted((f for f in a.free if isinstance(f, tuple)), key=repr)
                return ("lam", a.key, tuple((f, repr(env.get(f[1]))) for f in free))
            if a.op == "seq":
                return tuple(self.seq(a, env))
            if a.op == "ty":
                return a.key
            return self.ev(a, env)
        if isinstance(a, tuple):
            return tuple(self.gval(x, env) for x in a)
        return a

    def e_lam(self, t, env):
        return Tag("lam", self.gval(t, env))

    def e_generic(self, t, env):
        return self.uninterpreted(t, self.generic(t, env))

    e_getter = e_partial = e_bm = e_rawfunc = e_star = e_tag = e_exc = e_generic

    def e_call(self, t, env):
        n, args, kw = t.args
        vals = [self.ev(a, env) if a.op != "lam" else Tag("lam", self.gval(a, env)) for a in args]
        kws = tuple((k, self.ev(v, env) if v.op != "lam" else Tag("lam", self.gval(v, env))) for k, v in kw)
        if n == "json.dumps" and len(vals) == 1:
            kd = dict(kws)
            if isinstance(kd.get("indent"), (int, type(None))) and isinstance(kd.get("sort_keys", False), bool) and not set(kd) - {"indent", "sort_keys"}:
                return json.dumps(self.plain(vals[0]), **kd)
        if n == "typed" and self.world:
            if args[1].op == "builtin" and args[1].args[0] in ("bool", "int", "str") and isinstance(vals[0], (bool, int, str)):
                return type(vals[0]).__name__ == args[1].args[0]
            m = 16 if self.world < 4 else 200
            return self.choice("typed", tuple(vals)) % m != m - 1
        if not vals and n in self.p.funcs:
            r = self.denote(n, dict(kws))
            if r is not None:
                return r[0]
        f = CALLS.get(n)
        if f is not None and not kw:
            try:
                v = f(self, *vals)
                if (n, tuple(vals[1:])) in tm.UNPACKED and len(v.items) not in tm.UNPACKED[n, tuple(vals[1:])]:
                    raise Undef             # the program fails to unpack it
                return v
            except (TypeError, ValueError, AttributeError, IndexError):
                raise Undef from None
        if n == "doc" and len(vals) == 3 and not kw:
            # the parts of a document are named by where it came from (one name for equal documents)
            where = self.paths.setdefault(vals[0], vals[0])
            key = ("doc", (where, *vals[1:]), ())
            v = self.uninterpreted(t, key)
            self.paths.setdefault(v, ("part", *key[1][:2]))
            return v
        if n == "option":
            return Tag("option", tuple(vals), kws)       # a declaration, not a value
        if tm.typeof(t) is tm.ANY and not n.startswith("m:"):
            return Tag("call", n, tuple(vals), kws) if self.rnd("calltag", n) & 1 else self.uninterpreted(t, (n, tuple(vals), kws))
        return self.uninterpreted(t, (n, tuple(vals), kws))

    def denote(self, n, kws):
        """value of a call of a function of the analysed program, from the function's own summary"""
        d = SUMMARIES.get((id(self.p), n), 0)
        if d == 0:
            SUMMARIES[id(self.p), n] = None       # recursion: uninterpreted
            d = SUMMARIES[id(self.p), n] = summary_of(self.p, n)
        if d is None or set(d[0]) != set(kws) or any(isinstance(v, Tag) and v.v[:1] == ("lam",) for v in kws.values()):
            return None
        if self.inside > 6:
            return None
        names, value, live = d
        e = {}
        for k in names:
            e[value.args[0].args[0]] = kws[k]
            e[live.args[0].args[0]] = kws[k]
            value, live = value.args[1], live.args[1]
        self.inside += 1
        try:
            if not self.b(live, e):
                raise Undef
            return (self.ev(value, e),)
        except (Undef, Unknown):
            return None
        finally:
            self.inside -= 1

    def plain(self, v):
        if isinstance(v, Seq):
            return [self.plain(x) for x in v.items]
        if isinstance(v, DV):
            return {k if isinstance(k, str) else repr(k): self.plain(x) for k, x in v.d.items()}
        if v is None or isinstance(v, (str, int, float)):
            return v
        if isinstance(v, (Tag, Obj)):
            return "\0" + repr(v)
        raise Undef

    # effects: the calls themselves are compared
    def effects(self, t, env):
        if t.op == "list":
            return Seq(self.fxseq(t.args[0], env))
        if t.op == "cases":
            for c, v in t.args:
                if self.b(c, env):
                    return self.effects(v, env)
            raise Undef
        if t.op == "const":
            return t.args[1]
        if t.op == "bv":
            return self.ev(t, env)
        if t.op == "fold":
            return self.e_fold(t, env, True)
        raise Unknown("effects " + t.op)

    def fxseq(self, s, env):
        out = []
        for seg in s.args:
            if seg.op == "u":
                if self.b(seg.args[0], env):
                    e = seg.args[1]
                    if e.op == "call":
                        out.append(Tag("do", e.args[0], tuple(self.gval(a, env) for a in e.args[1]),
                                       tuple((k, self.gval(v, env)) for k, v in e.args[2])))
                    else:
                        out.append(self.ev(e, env))
            else:
                src, l = seg.args
                b = l.args[1].args
                if len(b) == 1 and b[0].op == "u" and b[0].args[0] is tm.TRUE and b[0].args[1] is l.args[0]:
                    out.extend(self.items(self.effects(src, env)))     # a list of effects
                    continue
                for x in self.over(seg, env):
                    e, body = self.app(l, x, env)
                    out.extend(self.fxseq(body, e))
        return out


def _bag(v):
    if isinstance(v, frozenset):
        return v
    if isinstance(v, Seq):
        return frozenset(v.items)
    if isinstance(v, DV):
        return frozenset(v.d.items())
    if isinstance(v, New):
        return frozenset(v.f)
    return None


def order(a, b):
    """three-way comparison"""
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
        for x, y in zip(a.items, b.items):
            if x != y:
                return order(x, y)
        return (len(a.items) > len(b.items)) - (len(a.items) < len(b.items))
    if isinstance(a, New) and isinstance(b, New) and a.cls == b.cls:
        for (_, x), (_, y) in zip(a.f, b.f):
            if x != y:
                return order(x, y)
        return 0
    if isinstance(a, Obj) and isinstance(b, Obj) or isinstance(a, Tag) and isinstance(b, Tag):
        return (repr(a) > repr(b)) - (repr(a) < repr(b))
    if a == b:
        return 0
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        raise TypeError
    return 1 if a > b else -1


def _l(x):
    return Seq(x)


def _strict(x):
    if not isinstance(x, (str, bytes)):
        raise TypeError
    return x


def _bytes(x):
    if not isinstance(x, bytes):
        raise TypeError
    return x


def _resolve(I, p):
    """a path, without its links (see vocab.only_compared)"""
    r = I.real.get(p)
    if r is None:
        r = p if I.choice("link", p) % 2 else I.gen(tm.ty("Path"), ("real", p))
        r = I.real[p] = I.real.setdefault(r, r)
    return r


CALLS = {
    "m:split": lambda I, s, *a: _l(_strict(s).split(*a)),
    "m:rsplit": lambda I, s, *a: _l(_strict(s).rsplit(*a)),
    "m:splitlines": lambda I, s, *a: _l(_strict(s).splitlines(*a)),
    "m:partition": lambda I, s, x: Seq(_strict(s).partition(x), "tuple"),
    "m:rpartition": lambda I, s, x: Seq(_strict(s).rpartition(x), "tuple"),
    "m:strip": lambda I, s, *a: _strict(s).strip(*a),
    "m:lstrip": lambda I, s, *a: _strict(s).lstrip(*a),
    "m:rstrip": lambda I, s, *a: _strict(s).rstrip(*a),
    "m:lower": lambda I, s: _strict(s).lower(),
    "m:upper": lambda I, s: _strict(s).upper(),
    "m:replace": lambda I, s, a, b: _strict(s).replace(a, b),
    "m:startswith": lambda I, s, a: _strict(s).startswith(a.items if isinstance(a, Seq) else a),
    "m:endswith": lambda I, s, a: _strict(s).endswith(a.items if isinstance(a, Seq) else a),
    "m:removesuffix": lambda I, s, a: _strict(s).removesuffix(a),
    "m:removeprefix": lambda I, s, a: _strict(s).removeprefix(a),
    "m:encode": lambda I, s, *a: s.encode("utf8"),
    "m:decode": lambda I, s, *a: s.decode("utf8"),
    "encode": lambda I, s, *a: s.encode("utf8"),
    "m:count": lambda I, s, x: _strict(s).count(x),
    "m:find": lambda I, s, x: _strict(s).find(x),
    "m:isdigit": lambda I, s: _strict(s).isdigit(),
    "m:title": lambda I, s: _strict(s).title(),
    "m:capitalize": lambda I, s: _strict(s).capitalize(),
    "m:casefold": lambda I, s: _strict(s).casefold(),
    "sha256": lambda I, b: hashlib.sha256(_bytes(b)).digest(),
    "base64.urlsafe_b64encode": lambda I, b: base64.urlsafe_b64encode(_bytes(b)),
    "base64.b64encode": lambda I, b: base64.b64encode(_bytes(b)),
    "list.index": lambda I, l, x: _index(I, l, x),
    "list.count": lambda I, l, x: sum(I.same(y, x) for y in I.items(l)),
    "copy.deepcopy": lambda I, x: x,
    "copy.copy": lambda I, x: x,
    "str": lambda I, s: I.text(s),
    "m:resolve": lambda I, p: _resolve(I, p),
    "m:absolute": lambda I, p: _resolve(I, p),
    "m:exists": lambda I, p: _file(I, p) > 0,
    "m:is_file": lambda I, p: _file(I, p) == 1,
    "m:is_dir": lambda I, p: _file(I, p) == 2,
    "+": lambda I, a, b: Seq(a.items + b.items, a.kind) if isinstance(a, Seq) and isinstance(b, Seq) else _num(a) + b,
    "-": lambda I, a, b: frozenset(a - b) if isinstance(a, frozenset) else _num(a) - b,
    "min": lambda I, l, d=None: _ext(I, l, d, -1),
    "max": lambda I, l, d=None: _ext(I, l, d, 1),
}


def _file(I, p):
    """what is at a path: nothing, a file, a directory, something else"""
    return (0, 1, 1, 1, 2, 2, 2, 3)[I.choice("file", p) % 8]


def _index(I, l, x):
    for i, y in enumerate(I.items(l)):
        if I.same(y, x):
            return i
    raise ValueError


def _num(a):
    if not isinstance(a, (int, str, bytes)):
        raise TypeError
    return a


def _ext(I, l, d, sign):
    xs = list(I.items(l))
    if not xs:
        if d is None:
            raise Undef
        return d
    if isinstance(d, Tag):
        xs.sort(key=functools.cmp_to_key(lambda a, b: sign * order(I.gen(tm.INT, ("k", d, b)), I.gen(tm.INT, ("k", d, a)))))
        return xs[0]
    best = xs[0]
    for x in xs[1:]:
        if order(x, best) * sign > 0:
            best = x
    return best


_diffs: dict = {}


def differences(a, b):
    r = _diffs.get((a, b))
    if r is None:
        r = []
        try:
            w = rx.witness_difference(LANGUAGES[a], LANGUAGES[b], 6000)
        except KeyError:
            w = None
        if w:
            t = w[0]
            for k, c in zip(rx.NA, ("\u2003", "\u0661", "\u00e9", "\u20ac")):
                t = t.replace(f"<{k}>", c)
            r.append(t)
        _diffs[a, b] = r
    return r


def odd_words(*ts):
    """strings on which a language of one term differs from those of the other"""
    langs = [sorted({x.args[0] for x in tm.subterms(t) if x.op == "inlang" and x.args[0] in LANGUAGES}) for t in ts[:2]]
    out: dict = {}
    if len(langs) == 2:
        for one, other in (langs, langs[::-1]):
            for a in [q for q in one if q not in other][:4]:
                for b in ([q for q in other if q not in one] or other)[:4]:
                    for w in differences(a, b):
                        out.setdefault(a, []).append(w)
                        out.setdefault(b, []).append(w)
    return out


def constants(*ts):
    strs, ints = [], []
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "inlang" and x.args[0] in LANGUAGES:
                for v in rx.samples(LANGUAGES[x.args[0]]):
                    if v not in strs:
                        strs.append(v)
            if x.op == "rematch" and x.args[1] in PATTERNS:
                for v in rx.generate(*PATTERNS[x.args[1]], method=x.args[0]):
                    if v not in strs:
                        strs.append(v)
            if x.op == "const":
                v = x.args[1]
                if isinstance(v, bytes):
                    try:
                        v = v.decode()
                    except UnicodeDecodeError:
                        continue
                if isinstance(v, str) and len(v) < 60 and v not in strs:
                    strs.append(v)
                elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 100 and v not in ints:
                    ints.append(v)
                    ints.append(v + 1)
                    ints.append(v - 1)
    # strings on which two languages differ
    for w in dict.fromkeys(w for ws in odd_words(*ts).values() for w in ws):
        if w not in strs:
            strs.insert(0, w)
    ops = {x.args[0] for t in ts for x in tm.subterms(t) if x.op == "call" and x.args[0].startswith("m:")}
    more = []
    for t in ts:
        for q in tm.subterms(t):
            if q.op == "eq" and any(a.op == "call" and a.args[0] in ("m:lower", "m:upper", "m:casefold") for a in q.args):
                for a in q.args:
                    if a.op == "const" and isinstance(a.args[1], str):
                        more += [s for s in (a.args[1].upper(), a.args[1].capitalize(), a.args[1].lower()) if s not in more]
    for s in (["a", *strs])[:6]:
        if isinstance(s, str):
            if ops & {"m:strip", "m:lstrip", "m:rstrip", "m:split", "m:splitlines", "m:rsplit"}:
                more += [s + " ", " " + s]
            if ops & {"m:lower", "m:upper", "m:casefold", "m:capitalize", "m:title"}:
                more += [s.upper(), s.capitalize()]
            if ops & {"m:startswith", "m:removeprefix", "m:find", "m:index", "m:partition", "m:endswith", "m:removesuffix"}:
                more += [s + "b", "b" + s]
    strs = more + [s for s in strs if s not in more]
    # separators make strings that contain them interesting
    joined = [f"a{s}b" for s in strs if 0 < len(s) <= 4][:8]
    return (joined + strs[:len(more)] + sorted(strs[len(more):]))[:48], ints[:12]


LAST = 0


SECONDS = 30.0       # cpu seconds for one separation
BUDGET = 110.0        # seconds left for separations in this process


def separate(project, x, y, live=(), effects=False, samples=1400, seconds=None):
    """an interpretation in which x and y differ although everything in `live` holds; None: not found"""
    global LAST, BUDGET
    strs, ints = constants(x, y)
    if BUDGET > 10:
        prime(project, x, y, *live)
    t0 = time.process_time()
    seconds = min(seconds or SECONDS, BUDGET)
    deadline = t0 + seconds
    try:
        return _separate(project, x, y, live, effects, samples, deadline, strs, ints)
    finally:
        BUDGET = max(1.0, BUDGET - (time.process_time() - t0))


def _parts(t):
    t = t.args[0] if t.op == "anyof" and len(t.args) == 1 and isinstance(t.args[0], T) else t
    return list(t.args) if t.op in ("or", "anyof") else [t]


BOOLS = {"or", "and", "not", "ex", "eq", "ge", "substr", "truthy", "isa", "anyof", "inlang", "hasattr", "raises"}


def _is_bool(t):
    return t.op in BOOLS or t is tm.TRUE or t is tm.FALSE


def goals(x, y, depth=0):
    """conditions under which the differing parts of x and y matter"""
    if x is y or depth > 6:
        return []
    out = []
    if x.op == "cases" or y.op == "cases":
        px = list(x.args) if x.op == "cases" else [(tm.TRUE, x)]
        py = list(y.args) if y.op == "cases" else [(tm.TRUE, y)]
        for c, v in px:
            if (c, v) not in py:
                same = [w for d, w in py if d is c]
                sub = goals(v, same[0], depth + 1) if same else []
                out += [tm.and_(c, g) for g in sub] or [c]
        out += [c for c, v in py if (c, v) not in px]
    elif x.op == y.op and x.op in ("list", "set", "dict", "tup") and len(x.args) == 1 and x.args[0].op == "seq" and y.args[0].op == "seq":
        px, py = list(x.args[0].args), list(y.args[0].args)
        for s in [s for s in px if s not in py] + [s for s in py if s not in px]:
            if s.op == "u":
                out.append(s.args[0])
            elif s.op == "b":
                v, body = tm.open_lam(s.args[1])
                gs = [q.args[0] for q in body.args if q.op == "u"] if body.op == "seq" else []
                if gs:
                    out.append(tm.mk_ex(s.args[0], v, tm.or_(*gs)))
                    # twice
    elif x.op == y.op and x.op != "lam" and len(x.args) == len(y.args):
        d = [(a, b) for a, b in zip(x.args, y.args) if a is not b]
        if len(d) == 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
            out += goals(*d[0], depth + 1)
    return [g for g in out if g is not tm.TRUE and not any(isinstance(f, tuple) for f in g.free)]


def _flat(key):
    """the parts of a key, innermost index first"""
    for k in key[::-1] if isinstance(key, tuple) else ():
        if isinstance(k, tuple):
            yield from _flat(k)
        else:
            yield k


def _israw(v, *ts):
    """the value is raw data: it is split by bytes, .."""
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "call" and x.args[1] and x.args[1][0] is v and any(a.op == "const" and isinstance(a.args[1], bytes) for a in x.args[1][1:]):
                return True
            if x.op == "eq" and v in x.args and any(a.op == "const" and isinstance(a.args[1], bytes) for a in x.args):
                return True
    return False


def failing(I, t, want=True):
    """the parts of a condition that keep it from holding"""
    if t.op == "not":
        return failing(I, t.args[0], not want)
    if I.soft(t, {}, want) == 1.0:
        return []
    if t.op in ("and", "or"):
        if (t.op == "and") == want:
            return [x for a in t.args for x in failing(I, a, want)]
        return failing(I, max(t.args, key=lambda a: I.soft(a, {}, want)), want)
    return [t]


class Place:
    """one place where the two terms differ (see focus.py)"""

    def __init__(self, binders, guards, x, y):
        self.binders, self.x, self.y = binders, x, y
        self.each = [g[1:] for g in guards if isinstance(g, tuple)]
        self.guards = guards = [g for g in guards if not isinstance(g, tuple)]
        self.vars = {v.args[0]: i for i, (_, v) in enumerate(binders)}
        self.names = {}
        self.pins = {}
        self.raw = {}
        for i, (src, v) in enumerate(binders):
            if src is not None:
                self.names[i] = ("item", focus.head(src))
                for q in (src, src.args[0] if src.op == "keys" else None):
                    if q is not None and (q.op in ("sym", "fv") or q.op == "call" and q.args[0] not in CALLS):
                        self.pins[q] = v
            if v.args[1] is tm.ANY:
                self.raw[i] = _israw(v, x, y, *guards)
        self.bool = _is_bool(x) and _is_bool(y)
        self.vain = 0           # the parts differed and the whole did not

    def score(self, I):
        """(how close, the parts differ)"""
        s = 0.0
        for i, (src, v) in enumerate(self.binders):
            if src is None:
                continue
            xs = I.items(I.ev(src, {}))
            k = (v.args[1], ("fv", i))
            if src in I.pins:
                if not xs:
                    return s, False
            else:
                if not xs:
                    return s, False
                if k not in I.gens:
                    I.gens[k] = (xs[I.choice("which", i) % len(xs)],)
            s += 1.0
        gs = [I.soft(g, {}, True) for g in self.guards]
        s += 2 * sum(gs) / len(gs) if gs else 2.0
        for src, l in self.each:
            xs = I.items(I.ev(src, {}))[:3]
            f = 0.0
            for x in xs:
                e, body = I.app(l, x, {})
                try:
                    f += I.soft(body, e, True)
                except Undef:
                    pass
            s += f / max(2, len(xs)) / len(self.each)
        if self.bool:
            d = max(I.soft(self.x, {}, True) + I.soft(self.y, {}, False), I.soft(self.x, {}, False) + I.soft(self.y, {}, True))
            return s + d, d == 2.0 and all(g == 1.0 for g in gs)
        try:
            d = not I.same(I.ev(self.x, {}), I.ev(self.y, {}))
        except (Undef, Unknown):
            d = False
        return s + 2 * d, d and all(g == 1.0 for g in gs)


class Search:
    """deterministic local search for an interpretation that separates x from y"""

    def __init__(self, project, x, y, live, effects, deadline, strs, ints, enums):
        self.mk = lambda seed: Interpretation(project, seed, strs, ints, deadline, dict(tm.DATACLASS_EQ), enums)
        self.x, self.y, self.live, self.effects, self.deadline = x, y, live, effects, deadline
        self.tried = 0
        self.bool = not effects and _is_bool(x) and _is_bool(y)
        self.goals = [] if self.bool else list(dict.fromkeys(goals(x, y)))[:12]
        self.goal = 0
        self.docs = ()
        self.place = None
        if self.bool:
            px, py = _parts(x), _parts(y)
            self.common = [p for p in px if p in py]
            self.ax = [p for p in px if p not in py]
            self.by = [p for p in py if p not in px]

    def interpret(self, seed, salts):
        """(score, separated?, interpretation)"""
        I = self.mk(seed)
        I.salts = salts
        I.docs = self.docs
        self.tried += 1
        if self.place is not None:
            return self.at(I)
        try:
            ok = [I.soft(l, {}, True) for l in self.live]
            lv = sum(ok) / len(ok) if ok else 1.0
            if self.bool:
                c = [I.soft(p, {}, False) for p in self.common]
                cs = sum(c) / len(c) if c else 1.0
                s = 0.0
                for here, there in ((self.ax, self.by), (self.by, self.ax)):
                    if here:
                        t = max(I.soft(p, {}, True) for p in here)
                        o = [I.soft(p, {}, False) for p in there]
                        s = max(s, t + (sum(o) / len(o) if o else 1.0))
                score = (lv, cs + s)
                # a condition too far from holding counts first
                score = 2 * lv + cs + s
                full = lv == 1.0
            else:
                score = full = lv == 1.0
                score = 2 * lv
                if self.goals:
                    score += I.soft(self.goals[self.goal % len(self.goals)], {}, True)
            if full and all(I.b(l, {}) for l in self.live):
                f = I.effects if self.effects else I.ev
                a, b = f(self.x, {}), f(self.y, {})
                if not I.same(a, b):
                    return score, (I, a, b), I
        except (Undef, Big, RecursionError):
            return -1.0, None, I
        return score, None, I

    def at(self, I):
        """the same, for one place"""
        q = self.place
        I.pins, I.vars, I.names, I.raw, I.hints, I.heads, I.docs = q.pins, q.vars, q.names, q.raw, self.hints, self.heads, self.docs
        I.limit = 200000
        I.nobj = 4
        I.wide = q.vain > 12
        I.quiet = I.seed % 2 == 0
        if I.seed % 4 == 1 and self.echoes:
            # everything that can be alike is alike
            I.echo, I.echoes = ((2, 2), (1, 2), (1, 1), (2, 1))[I.seed // 4 % 4], self.echoes
            if I.echo[0] > 1:
                I.pins = {}
        I.maxlen = max(2, I.maxlen)
        try:
            try:
                sc, differ = q.score(I)
            finally:
                I.near = list(I.gens)
            if not differ:
                I.want = [a for g in q.guards for a in failing(I, g)] or [q.x, q.y]
                return sc, None, I
            I.near = None
            ok = [I.soft(l, {}, True) for l in self.live]
            lv = sum(ok) / len(ok) if ok else 1.0
            I.want = [a for l in self.live for a in failing(I, l)]
            if lv == 1.0 and all(I.b(l, {}) for l in self.live):
                f = I.effects if self.effects else I.ev
                a, b = f(self.x, {}), f(self.y, {})
                if not I.same(a, b):
                    return sc + 2 * lv, (I, a, b), I
                I.near = None
                q.vain += 1
        except (Undef, Big, RecursionError):
            return -1.0, None, I
        return sc + 2 * lv, None, I

    @staticmethod
    def keys(I):
        """what to change: preferably what the conditions that fail are about"""
        keys = sorted(I.near or I.gens, key=repr)
        # parts of documents are asked for by name
        part = lambda k: type(k) is tuple and (len(k) == 3 and k[1] == "v" and type(k[0]) is tuple and k[0][:1] == ("doc",) or part(k[0]))  # noqa: E731
        keys = [k for k in keys if not (k[0] is tm.ANY and type(k[1]) is tuple and part(k[1]))] or keys
        if I.want:
            names = {focus.head(x) for t in I.want for x in tm.subterms(t)}
            if names & {"m:is_file", "m:is_dir", "m:exists"}:
                names.add("file")
            I.liked = {}
            for k in keys:
                h = I.about(k[1])
                if h in names:
                    I.liked.setdefault(str(h), []).append(k)
            I.liked = [I.liked[h] for h in sorted(I.liked)]
        return keys

    def climb(self, start, steps):
        import random
        best, found, I = self.interpret(start, {})
        if found:
            return found
        salts = {}
        size = len(I.gens)
        keys = self.keys(I)
        liked = I.liked
        r = random.Random(start)
        for n in range(steps):
            if time.process_time() > self.deadline:
                raise Out
            if self.place is not None and self.place.vain > 120:
                return None
            if not keys:
                return None
            new = dict(salts)
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                k = r.choice(r.choice(liked) if liked and r.random() < 0.7 else keys)
                if r.random() < 0.35:
                    same = [q for q in keys if q[0] == k[0] and q != k]
                    if same:
                        new[k] = ("copy", r.choice(same)[1])
                        continue
                elif k[0].args[0] in LISTY | SETTY | DICTY and r.random() < 0.25:
                    new[k] = ()
                    continue
                new[k] = r.randrange(1 << 30)
            sc, found, I2 = self.interpret(start, new)
            if found:
                return found
            if sc > best or sc == best and (len(I2.gens) >= size or r.random() < 0.3):
                best, salts, size = sc, new, len(I2.gens)
                keys = self.keys(I2)
                liked = I2.liked
        return None


ORDER = [0, 1, 5, 2, 3, 9, 4, 7, 13, 6, *range(14, 40), 8, 10, 11, 12]


def documents(*terms):
    """paths written below constant keys, and the kinds of what is written there"""
    out = {}
    for t in terms:
        for q in tm.subterms(t):
            if q.op == "ev" and q.args[0] in ("set", "ensure", "append") and len(q.args[1]) > 1 and q.args[1][0].op == "const":
                path = tuple(tm.cval(k) if k.op == "const" else None for k in q.args[1])
                typ = tm.typeof(q.args[2]) if q.args[0] == "set" else tm.ty("list", tm.STR) if q.args[0] == "append" or q.args[2].op == "list" \
                    else tm.ty("dict", tm.STR, tm.ANY)
                out[path] = max(out.get(path, typ), tm.STR if typ is tm.ANY else typ, key=lambda a: a.key)
    return sorted(out.items(), key=lambda p: (-len(p[0]), str(p[0])))


def _separate(project, x, y, live, effects, samples, deadline, strs, ints):
    enums = {}
    for q, c in project.classes.items():
        if any(str(b).endswith("Enum") for b in project.mro(q)):
            enums[q] = [n for n in c.consts]
    global LAST
    LAST = 0
    done = 0
    t0 = time.process_time()
    places = [Place(*q) for q in focus.focus(x, y)]
    share = t0 + (deadline - t0) * (0.2 if places else 0.4)
    S = Search(project, x, y, live, effects, deadline, strs, ints, enums)
    S.docs = documents(x, y, *live)
    good = []
    for seed in range(samples // 2):
        S.goal = seed
        if time.process_time() > share:
            break
        try:
            score, found, _ = S.interpret(seed, {})
        except Out:
            break
        if score >= 0:
            done += 1
        LAST = done
        if found:
            return found
        good.append((-score, seed))
    good.sort()
    try:
        S.hints = focus.hints(LANGUAGES, PATTERNS, odd_words(x, y), x, y, *live) if places else {}
        n = collections.Counter(w for h in S.hints.values() for w in h[:2])
        S.echoes = [w for w, _ in sorted(n.items(), key=lambda q: (-q[1], q[0])) if len(w) < 8 and w.isalnum()][:2]
        S.heads = {focus.head(q) for t in (x, y, *live) for q in tm.subterms(t) if q.op == "call" and q.args[0] == "doc"}
        share = time.process_time() + (deadline - time.process_time()) * 0.6
        for i in range(40 if places else 0):
            n = ORDER[i]
            for S.place in places:
                if time.process_time() > share:
                    break
                if S.place.vain > 120 or S.place.vain > 12 and i % 3 and len(places) > 1:
                    continue
                found = S.climb(n, 25 + 10 * i)
                LAST = S.tried
                if found:
                    return found
        S.place = None
        for i, (_, seed) in enumerate(good[:12]):
            S.goal = i
            found = S.climb(seed, samples // 8)
            LAST = S.tried
            if found:
                return found
        # longer lists, without a place in mind
        share = min(deadline, time.process_time() + 8)
        for seed in (10 * i + w for i in range(samples // 20, samples) for w in (8, 9, 7, 2)):
            if time.process_time() > share:
                break
            found = S.interpret(seed, {})[1]
            if found:
                return found
    except Out:
        pass
    LAST = S.tried
    return None if done else False
