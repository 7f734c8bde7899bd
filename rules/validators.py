from sa.check import analyse
from sa.check import custom
from sa.check import default_view
from sa.check import equiv
from sa.check import views_of
from sa.check import where
from sa.compare import verdict
from sa.interp import Interp
from sa.project import AnalysisBroken
from sa.terms import *  # noqa: F403
from sa.terms import FALSE, NONE, TRUE, mk

from ._kt import typed

B = "variantlib.validators.base."
KT = "variantlib.validators.keytracking.KeyTrackingValidator"


def only_none(k, x, y):
    """only whether a mismatch is reported matters, not its description"""
    if k != "value":
        return x, y

    def ok(t):
        return or_(*[c for c, v in t.args if v is NONE]) if t.op == "cases" else (TRUE if t is NONE else FALSE)
    return ok(x), ok(y)


equiv("validate.matches_re", B + "validate_matches_re", "validators.matches_re")
equiv("validate.list_matches_re", B + "validate_list_matches_re", "validators.list_matches_re")
equiv("validate.min_len", B + "validate_list_min_len", "validators.min_len")
equiv("validate.unique", B + "validate_list_all_unique", "validators.all_unique", ("raises",))
equiv("validate.type_rec", B + "_validate_type", "validators.type_mismatch", cfg={"opaque": {B + "_validate_type"}}, post=only_none)
equiv("validate.type", B + "validate_type", "validators.validate_type", cfg={"opaque": {B + "_validate_type"}, "validation": True})
equiv("validate.and", "variantlib.validators.combining.validate_and", ["validators.validate_and2", "validators.validate_and"], ("raises", "fx"))
equiv("validate.requirement", "variantlib.validators.packaging.validate_requirement_str", "validators.requirement_str", ("raises",))

REF = "spec.validators.RefValidator"


def typed_or_not(I, f, args, kwargs, st, fr, node):
    """_validate_type(value, T) is None exactly if the value has the run-time type T (obligation validate.type_rec)"""
    v, t = I.val(st, args[0]), I.val(st, args[1])
    return lift(lambda x: ite(typed(x, t), NONE, const("mismatch")), v)


def sentinel(t):
    """the `required` marker is only compared by identity"""
    return replace(t, {x: mk("ext", "<required>") for x in subterms(t) if x.op == "cls" and x.args[0].startswith((KT + ".", REF + "."))})


def probe(name):
    cfg = {"inline_ctor": {KT, REF}, "models": {B + "_validate_type": typed_or_not}}

    @custom(f"kt.{name}", "reading documents through the key-tracking validator behaves as the reference validator")
    def run(p, r):
        f = Interp(p).get_func("spec.validators." + name)
        out = []
        for c in (KT, REF):
            if c not in p.classes:
                raise AnalysisBroken(f"anchor {c} not found")
            I, s = analyse(p, f.qual, cfg, args={"V": mk("cls", c)})
            r.functions |= {q for q in s.functions if not q.startswith("spec.")}
            out.append(views_of(I, s, ("value", "raises")))
        for k in sorted(set(out[0]) | set(out[1])):
            x, y = (sentinel(o.get(k, default_view(k, None, None))) for o in out)
            st, pairs = verdict(x, y, p)
            r.fact(f"{name}: {k} agrees")
            if st == "violation":
                r.violate(where(p, KT + ".get"), f"{k} of {name} is {show(pairs[0][1], 9)[:600]}, must be {show(pairs[0][2], 9)[:600]}",
                          f"{name}:{k}")
            elif st == "undecided":
                r.unsure(f"{name}: {k}: {show(pairs[0][1], 6)[:300]}")


for n in ("probe_required", "probe_siblings", "probe_sequence", "probe_ignore", "probe_leaf", "probe_loop", "probe_key", "probe_default"):
    probe(n)
