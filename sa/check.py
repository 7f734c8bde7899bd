"""Obligations: what is compared with what, and how the outcome is classified."""
from __future__ import annotations

import ast
import os
import time

from . import terms as tm
from .compare import canon
from .compare import residual
from .compare import verdict
from .interp import FX
from .interp import Config
from .interp import Interp
from .interp import Unsupported
from .project import AnalysisBroken
from .project import Project
from .terms import *  # noqa: F403
from .terms import EMPTY, FALSE, NONE, TRUE, T, mk

SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
_cache: dict = {}


def project(root="/repo"):
    if root not in _cache:
        p = Project(root)
        for f in sorted(os.listdir(SPECS)):
            if f.endswith(".py"):
                p.add_source("spec." + f[:-3], os.path.join(SPECS, f))
        _cache[root] = p
    return _cache[root]


class Finding:
    def __init__(self, where, message, construct=""):
        self.where = where          # file:line (function)
        self.message = message
        self.construct = construct  # stable identification (no line numbers)

    def as_dict(self):
        return {"where": self.where, "message": self.message, "construct": self.construct}


class Result:
    def __init__(self):
        self.status = "holds"
        self.findings = []
        self.undecided = []
        self.functions = set()
        self.facts = 0            # number of compared facts
        self.samples = []
        self.seconds = 0.0

    def violate(self, where, message, construct=""):
        self.findings.append(Finding(where, message, construct))
        self.status = "violation"

    def unsure(self, message):
        self.undecided.append(message)
        if self.status == "holds":
            self.status = "undecided"

    def fact(self, sample=None):
        self.facts += 1
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)


class Obligation:
    def __init__(self, oid, rule, run, about=""):
        self.id = oid
        self.rule = rule
        self.run = run
        self.about = about


REGISTRY: dict = {}


def register(oid, rule, run, about=""):
    if oid in REGISTRY:
        raise ValueError(f"duplicate obligation {oid}")
    REGISTRY[oid] = Obligation(oid, rule, run, about)


def custom(oid, about=""):
    def deco(f):
        register(oid, f.__name__, f, about or (f.__doc__ or "").strip())
        return f
    return deco


def no_validation(I, f, args, kwargs, st, fr, node):  # noqa: ARG001
    """type validation is decided on its own (obligations validate.*); elsewhere it is assumed to have passed"""
    return NONE


BASE_MODELS = {"variantlib.validators.base.validate_type": no_validation}


class Place:
    """a module-level constant as the place of a finding"""

    def __init__(self, qual):
        self.qual = qual


def where(p, qual, node=None):
    f = p.funcs.get(qual)
    mod, _, name = qual.rpartition(".")
    if f is None and mod in p.modules:
        m = p.modules[mod]
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return f"{os.path.relpath(m.path, p.root)}:{n.lineno} ({qual})"
    if f is None:
        return qual
    line = getattr(node, "lineno", None) or f.node.lineno
    return f"{os.path.relpath(f.module.path, p.root)}:{line} ({qual})"


def make_config(cfg):
    cfg = dict(cfg or {})
    models = dict(BASE_MODELS) if not cfg.pop("validation", False) else {}
    models.update(cfg.pop("models", {}))
    return Config(models=models, **cfg)


def analyse(p, qual, cfg=None, args=None, types=None, heap=None, self_type=None):
    I = Interp(p, make_config(cfg))
    s = I.summarize(qual, args=args, types=types, heap=heap, self_type=self_type)
    return I, s


def bind_params(p, fi, fs, self_type=None):
    """give both functions the same symbolic arguments (by position)"""
    def names(f):
        a = f.node.args
        return [x for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])
    ni, ns = names(fi), names(fs)
    if len(ni) < len(ns):
        return None
    ai, as_ = {}, {}
    for k, s in enumerate(ns):
        i = ni[k]
        if k == 0 and fi.cls is not None and not any(_dec(d) == "staticmethod" for d in fi.decorators):
            if any(_dec(d) == "classmethod" for d in fi.decorators):
                v = mk("cls", self_type or fi.cls.qual)
            else:
                v = sym(s.arg, ty(self_type or fi.cls.qual))
        else:
            t = p.ann(s.annotation, fs.module.name) if s.annotation is not None else p.ann(i.annotation, fi.module.name, fi.cls)
            if fi.node.args.vararg is i:
                t = ty("list", t)
            v = sym(s.arg, t)
        ai[i.arg] = v
        as_[s.arg] = v
    # further optional parameters of the implementation take their defaults
    return ai, as_


def _dec(d):
    from .interp import dec_name
    return dec_name(d)


def fx_fold(t, keep):
    """the effects of a loop whose iterations depend on each other, filtered in its step"""
    vs, b = [], t.args[3][0]
    for _ in range(1 + len(t.args[2])):
        v, b = open_lam(b)
        vs.append(v)
    init = fx_filter(t.args[2][0], keep)
    new = fx_filter(b, keep, vs[1])
    x = tm.fv(ANY)
    if new is mk("list", mk("seq", mk("b", vs[1], tm.lam(x, tm.unit(x))))):
        return init                         # nothing of interest happens
    for v in reversed(vs):
        new = tm.lam(v, new)
    return mk("fold", t.args[0], t.args[1], (init, *t.args[2][1:]), (new, *t.args[3][1:]))


def fx_filter(t, keep, through=None):
    """sub-sequence of the effects selected by `keep`; `through`: effects so far"""
    if keep is None:
        return t

    def seq(s):
        out = []
        for seg in s.args:
            if seg.op == "u":
                k = keep(seg.args[1])
                if isinstance(k, T):
                    out.append(tm.guard_seq(seg.args[0], k))
                elif k:
                    out.append(mk("seq", seg))
            elif seg.op == "b" and seg.args[0] is through:
                out.append(mk("seq", seg))
            elif seg.op == "b" and seg.args[0].op == "fold" and tm.typeof(seg.args[0]) is tm.ty("list", ANY):
                f = fx_fold(seg.args[0], keep)
                out.append(f.args[0] if f.op == "list" else mk("seq", mk("b", f, seg.args[1])))
            elif seg.op == "b":
                v, body = open_lam(seg.args[1])
                body = seq(body) if body.op == "seq" else body
                if body is not EMPTY:
                    out.append(mk_b(seg.args[0], v, body))
            else:
                out.append(mk("seq", seg))
        return cat(*out) if out else EMPTY
    if t.op == "list":
        return mk("list", seq(t.args[0]))
    if t.op == "cases":
        return cases([(c, fx_filter(v, keep, through)) for c, v in t.args])
    return t


def views_of(I, s, want, fx_keep=None, raise_map=None, params=None):
    out = {}
    live = s.live
    if "value" in want:
        out["value"] = assume(s.value, live) if live not in (TRUE, FALSE) else s.value
        if live is FALSE:
            out["value"] = mk("undef-never-returns")
    if "raises" in want:
        by = {}
        for g, e, *_ in s.raises:
            e = raise_map(e) if raise_map else e
            if e is None:
                continue
            by.setdefault(e, []).append(g)
        for e, gs in by.items():
            out[f"raises {e}"] = or_(*gs)
    if "rejects" in want:
        out["rejects"] = or_(*[g for g, e, *_ in s.raises])
    if "fx" in want:
        out["effects"] = fx_filter(I.fx(s), fx_keep)
    if "fxraise" in want:
        # effects already performed when an exception leaves the function
        for g, e, n, v, h in s.raises:
            f = fx_filter(I.freeze(_with_heap(s, h), h.get(FX, mk("list", EMPTY))), fx_keep)
            e = raise_map(e) if raise_map else e
            if e is None:
                continue
            k = f"effects before {e}"
            out.setdefault(k, [])
            out[k].append((g, f))
        for k, v in list(out.items()):
            if isinstance(v, list):
                g = or_(*[x for x, _ in v])
                out[k] = assume(cases(v), g) if g is not FALSE else NONE
    for w in want:
        if w.startswith("refused:"):
            # what a caller finds in attribute `w` after an exception
            cs = []
            loc = None
            for g, e, n, v, h in s.raises:
                for k, c in h.items():
                    if k.op in ("fld", "attr") and k.args[1] == w[8:] and k.args[0].op == "sym":
                        loc = k
                        cs.append((g, I._freeze_content(_with_heap(s, h).copy() if hasattr(s.state, "copy") else _with_heap(s, h), c, {k})))
                        break
                else:
                    cs.append((g, None))
            if loc is not None:
                i = I._freeze_content(s.state, I.initial(loc), {loc})
                cs = [(g, i if c is None else c) for g, c in cs]
                g = or_(*[x for x, _ in cs])
                name = f"state of {show(loc)} when refused"
                out[name] = assume(cases(cs), g)
                STATE_LOC[name] = loc
                GIVEN[name] = g
    if "heap" in want:
        for k, v in s.heap.items():
            if k.op in ("ref", "chan") or any(x.op == "ref" for x in tm.subterms(k)):
                continue
            if k.op == "fld" and (k.args[1].startswith("$") or k.args[0].op == "cls"):
                continue
            c = I._freeze_content(s.state, v, {k})
            c = assume(c, live) if live not in (TRUE, FALSE) else c
            i = I.initial(k)
            if i is not None and c is I._freeze_content(s.state, i, {k}):
                continue
            out[f"state of {show(k)}"] = c
            STATE_LOC[f"state of {show(k)}"] = k
    return out


STATE_LOC: dict = {}
GIVEN: dict = {}


def _with_heap(s, h):
    from .interp import State
    return State(s.state.env, h, TRUE)


DEFAULT = {"value": NONE, "rejects": FALSE}


def default_view(name, si, I):
    if name.startswith("raises ") or name == "rejects":
        return FALSE
    if name.startswith("effects before"):
        return NONE
    if name == "effects":
        return mk("list", EMPTY)
    k = STATE_LOC.get(name)
    i = I.initial(k) if k is not None else None
    if i is not None:
        return I._freeze_content(si.state, i, {k})
    return mk("unchanged")


RANK = {"holds": 0, "undecided": 1, "violation": 2}


def equiv(oid, impl, spec, views=("value", "raises"), cfg=None, spec_cfg=None, fx_keep=None, raise_map=None,
          about="", self_type=None, types=None, heap=None, private=False, post=None, splits=None, anchor=None):
    """the normal form of `impl` equals the normal form of the reference snippet `spec`"""

    if isinstance(spec, (list, tuple)):
        # any of several reference formulations
        subs = []
        for i, s in enumerate(spec):
            o = equiv(f"{oid}#{i}", impl, s, views, cfg, spec_cfg, fx_keep, raise_map, about, self_type, types, heap, private, post, splits, anchor)
            subs.append(REGISTRY.pop(f"{oid}#{i}"))

        def alternatives(p, r):
            best = None
            for o in subs:
                q = Result()
                o.run(p, q)
                r.functions |= q.functions
                if best is None or RANK[q.status] < RANK[best.status]:
                    best = q
                if best.status == "holds":
                    break
            r.status, r.findings, r.undecided, r.facts, r.samples = best.status, best.findings, best.undecided, best.facts, best.samples
        alternatives.__name__ = "equivalence"
        register(oid, " or ".join(o.rule for o in subs), alternatives, about)
        return

    def run(p, r):
        for sp in splits or [{}]:
            run1(p, r, sp)
        if r.findings:
            gone = renamed(p, spec, cfg, impl)
            if gone:
                # the specification talks about private names that the code does not have any more
                r.undecided += [f"{', '.join(gone)} not found: {f.message}" for f in r.findings]
                r.findings.clear()
                r.status = "undecided"

    def run1(p, r, split):
        fi = Interp(p).get_func(impl)
        fs = p.funcs.get("spec." + spec)
        if fs is None:
            raise AnalysisBroken(f"specification {spec} missing")
        if fi is None:
            if private:
                r.unsure(f"{impl} does not exist any more")
                return
            raise AnalysisBroken(f"anchor {impl} not found")
        b = bind_params(p, fi, fs, self_type)
        if b is None:
            r.violate(where(p, fi.qual), f"{impl} takes fewer parameters than its specification", f"{impl}:signature")
            return
        ai, as_ = b
        for n, t in (types or {}).items():
            for d in (ai, as_):
                if n in d:
                    d[n] = sym(n, t)
        for n, t in split.items():
            # one of the exhaustive cases for the arguments (numbered)
            k = list(ai)[n]
            v = t if t.op == "const" else sym(ai[k].args[0], t)
            ai[k] = as_[list(as_)[n]] = v
        try:
            Is, ss = analyse(p, fs.qual, spec_cfg or cfg, args=as_, heap=heap)
        except Unsupported as e:
            raise AnalysisBroken(f"specification {spec}: {e}") from None
        sv = views_of(Is, ss, views, fx_keep, raise_map)
        try:
            Ii, si = analyse(p, fi.qual, cfg, args=ai, heap=heap, self_type=self_type)
            iv = views_of(Ii, si, views, fx_keep, raise_map)
        except Unsupported as e:
            r.unsure(f"{impl}: {e}")
            r.functions.add(impl)
            return
        if anchor is not None:
            fi = Interp(p).get_func(anchor) or Place(anchor)
        r.functions |= {q for q in si.functions if not q.startswith("spec.")}
        for k in sorted(set(iv) | set(sv)):
            x = iv.get(k)
            y = sv.get(k)
            if x is None:
                x = default_view(k, si, Ii)
            if y is None:
                y = default_view(k, ss, Is)
            if post is not None:
                x, y = post(k, x, y)
            if k.startswith("raises ") or k == "rejects":
                given = ()
            elif k.startswith("effects before"):
                given = (iv.get("raises " + k[15:], TRUE), sv.get("raises " + k[15:], TRUE))
            elif k in GIVEN:
                given = (GIVEN[k],)
            else:
                given = (si.live, ss.live)
            st, pairs = verdict(x, y, p, given, k.startswith("effects"))
            r.fact(f"{impl}: {k} = {show(canon(y), 6)[:300]}")
            if st == "holds":
                continue
            pa, xa, ya = pairs[0]
            txt = f"{k} of {impl.split('.', 1)[1]} differs from the specification: is  {_sh(xa)}  must be  {_sh(ya)}"
            if st == "violation":
                node = None
                if k.startswith("raises"):
                    for g, e, n, *_ in si.raises:
                        node = node or (n if (raise_map(e) if raise_map else e) == k[7:] else None)
                loc = where(p, fi.qual)
                if node is not None and hasattr(node, "lineno"):
                    loc += f" raise at line {node.lineno}"
                r.violate(loc, txt, f"{impl}:{k}:{_sh(xa)[:160]}")
            else:
                r.unsure(f"[{pa[0] if pa else ''}] {txt}")

    run.__name__ = "equivalence"
    register(oid, f"normal form of {impl} == normal form of specs/{spec.rsplit('.', 1)[0]}.py:{spec.rsplit('.', 1)[1]}", run, about)


def _exists(p, mod, name):
    r = p.resolve(mod, name)
    return r[0] != "builtin" and (r[0] != "ext" or not r[1].startswith(("variantlib", "?")))


def renamed(p, spec, cfg, impl):
    """private names of the specification or of the cut points which the analysed code does not have"""
    gone = []
    for q in sorted({x for k in ("effects", "opaque") for x in (cfg or {}).get(k, ())}):
        if q.startswith("variantlib.") and Interp(p).get_func(q) is None and q not in p.classes:
            gone.append(q)
    known = p.__dict__.get("_attr_names")
    if known is None:
        known = set()
        for m in p.modules.values():
            if not m.name.startswith("spec."):
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        known.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        known.add(n.name)
                    elif isinstance(n, ast.Name):
                        known.add(n.id)
        p._attr_names = known
    for q in ("spec." + spec, impl if impl and impl.startswith("spec.") else None):
        f = p.funcs.get(q) if q else None
        for n in ast.walk(f.node) if f is not None else ():
            i = f.module.imports.get(n.id) if isinstance(n, ast.Name) else None
            if i and i[0] == "from" and i[1].startswith("variantlib") and not _exists(p, i[1], i[2]):
                gone.append(f"{i[1]}.{i[2]}")
            if isinstance(n, ast.Attribute) and n.attr.startswith("_") and not n.attr.startswith("__") and n.attr not in known:
                gone.append("." + n.attr)
    return sorted(set(gone))


def _sh(x):
    if isinstance(x, T):
        return show(x, 12)[:700]
    if isinstance(x, tuple):
        return "(" + ", ".join(_sh(y) for y in x)[:700] + ")"
    return repr(x)


def run_one(oid, root="/repo"):
    r = Result()
    t = time.time()
    o = REGISTRY[oid]
    try:
        o.run(project(root), r)
    except Unsupported as e:
        r.unsure(str(e))
    r.seconds = time.time() - t
    return r


def defaults(oid, impl, given, cfg=None, views=("value", "raises", "heap", "fx"), types=None, about=""):
    """leaving out an optional argument means the same as giving the stated value"""

    def run(p, r):
        fi = Interp(p).get_func(impl)
        if fi is None:
            raise AnalysisBroken(f"anchor {impl} not found")
        r.functions.add(impl)
        have = Interp(p).func_defaults(fi)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        differ = {}
        for n, want in given.items():
            if n not in names:
                r.unsure(f"{impl} has no parameter {n} any more")
            elif n not in have:
                r.violate(where(p, fi.qual), f"{impl} can not be called without {n} any more", f"{impl}:default {n}")
            elif have[n] is want:
                r.fact(f"{impl}: {n} = {show(want)} unless given")
            else:
                differ[n] = (have[n], want)
        for n, (is_, want) in differ.items():
            args, other = bind_params(p, fi, fi)
            for k, t in (types or {}).items():
                args[k] = other[k] = sym(k, t)
            other = {**args, n: want}
            args[n] = is_
            try:
                Ii, si = analyse(p, impl, cfg, args=args)
                Is, ss = analyse(p, impl, cfg, args=other)
                iv, sv = views_of(Ii, si, views, None, None), views_of(Is, ss, views, None, None)
            except Unsupported as e:
                r.unsure(f"{impl}: {e}")
                continue
            for k in sorted(set(iv) | set(sv)):
                x = iv[k] if k in iv else default_view(k, si, Ii)
                y = sv[k] if k in sv else default_view(k, ss, Is)
                live = () if k.startswith("raises ") else (si.live, ss.live)
                st, pairs = verdict(x, y, p, live, k.startswith("effects"))
                txt = f"{impl} without {n}: {k} is not what {n}={show(want)} gives, but what {show(is_)} gives"
                if st == "violation":
                    r.violate(where(p, fi.qual), txt, f"{impl}:default {n}")
                    break
                if st != "holds":
                    r.unsure(txt)
            else:
                r.fact(f"{impl}: {n} = {show(want)} unless given")

    run.__name__ = "defaults"
    register(oid, f"{impl}: omitted arguments mean {', '.join(n + '=' + show(t) for n, t in given.items())}", run, about)
