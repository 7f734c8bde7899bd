"""What converted metadata shares with its source, and what the resolver does to its arguments."""
import ast

from sa.check import custom
from sa.check import where
from sa.share import ANY, Ext, Obj, Share, reachable

VI = "variantlib.models.variant_info.VariantInfo"
CLASSES = ("variantlib.variants_json.VariantsJson", "variantlib.variant_dist_info.VariantDistInfo", "variantlib.pyproject_toml.VariantPyProjectToml")


def report(r, s, loc, value, what, construct):
    seen = set()
    for path, leaf in reachable(value, ""):
        r.facts += 1
        if isinstance(leaf, Ext) and leaf.typ is not None and s.mutable(leaf.typ):
            k = (path, leaf.path)
            if k not in seen:
                seen.add(k)
                r.violate(loc, f"{what}{path} is the source's own {leaf.path}, not a copy of it", f"{construct}:{path}:{leaf.path}")
        elif leaf is ANY or s.mutable(leaf.typ) is None:
            r.unsure(f"{what}{path}: cannot tell where it comes from")
    r.functions |= s.functions


@custom("share.copy", "no container in what VariantInfo.copy_as_kwargs returns belongs to the object that is copied")
def share_copy(p, r):
    q = f"{VI}.copy_as_kwargs"
    f = p.funcs.get(q)
    if f is None:
        r.unsure(f"{q} does not exist any more")
        return
    s = Share(p)
    v = s.call_func(f, [Ext((VI, []), "self")], {}, f.node)
    report(r, s, where(p, q), v, "the result's ", q)
    for at, path, how in s.mutations:
        r.violate(at, f"{path} of the copied object is modified ({how})", f"{q}:mutates:{path}")


@custom("share.convert", "an object made from other metadata shares no container with it")
def share_convert(p, r):
    for cls in CLASSES:
        if cls not in p.classes:
            r.unsure(f"{cls} does not exist any more")
            continue
        s = Share(p)
        m = p.classes[cls].module
        s.stack.append((m, cls))
        s.fr = {"env": {}, "ret": None, "yield": None, "mod": m.name, "module": m, "cls": None, "qual": cls, "narrow": {}}
        o = s.construct(cls, [Ext((VI, []), "source")], {}, p.classes[cls].node)
        if not isinstance(o, Obj) or not o.fields:
            r.unsure(f"{cls}: nothing is known about what it stores")
            continue
        report(r, s, where(p, f"{cls}.__init__"), o, cls.rpartition(".")[2], cls)
        for at, path, how in s.mutations:
            r.violate(at, f"{path} of the converted object is modified ({how})", f"{cls}:mutates:{path}")


# functions whose arguments are their caller's; inject_abi_dependency is made for modifying its arguments
PURE = ("variantlib.api.", "variantlib.resolver.", "variantlib.utils.aggregate")
MUTATORS = {"variantlib.resolver.lib.inject_abi_dependency"}


@custom("share.arguments", "no resolving, filtering, sorting, aggregating or checking function modifies a list, table or object it is given, directly or through what it calls")
def share_arguments(p, r):
    done = 0
    for q, f in sorted(p.funcs.items()):
        if not q.startswith(PURE) or f.cls is not None or q in MUTATORS or f.node.name.startswith("_"):
            continue
        s = Share(p)
        a = f.node.args
        env = {}
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
            env[x.arg] = s.ext(s.typ(x.annotation, f.module.name), x.arg)
        args = [env[x.arg] for x in (*a.posonlyargs, *a.args)]
        if a.vararg is not None:
            args.append(s.ext(s.typ(a.vararg.annotation, f.module.name), a.vararg.arg + "[…]"))
        s.call_func(f, args, {x.arg: env[x.arg] for x in a.kwonlyargs}, f.node)
        r.functions |= s.functions
        r.facts += s.calls
        done += 1
        for at, path, how in sorted(set(s.mutations)):
            if path.startswith("module variable "):
                continue                    # not the caller's; what is stored there is specified elsewhere
            r.violate(at, f"the caller's {path}, given to {q}, is modified ({how})", f"{q}:{path}:{how}")
    r.fact(f"{done} functions")
    if not done:
        r.unsure("no function found")
