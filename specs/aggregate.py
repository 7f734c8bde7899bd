"""Reference semantics of priority aggregation: explicit (first) settings win, the rest follows (parsed, never executed).

Within one list a repeated entry has no meaning (only the first position counts): the comparison forgets it."""
from variantlib.utils import aggregate_feature_priorities
from variantlib.utils import aggregate_namespace_priorities
from variantlib.utils import aggregate_property_priorities


def ns_impl(a: list[str] | None, b: list[str] | None):
    return aggregate_namespace_priorities(a, b)


def feat_impl(a: dict[str, list[str]] | None, b: dict[str, list[str]] | None):
    return aggregate_feature_priorities(a, b)


def prop_impl(a: dict[str, dict[str, list[str]]] | None, b: dict[str, dict[str, list[str]]] | None):
    return aggregate_property_priorities(a, b)


# three sources (a source that is None: the two-source forms)
def ns3_impl(a: list[str], b: list[str], c: list[str]):
    return aggregate_namespace_priorities(a, b, c)


def feat3_impl(a: dict[str, list[str]], b: dict[str, list[str]], c: dict[str, list[str]]):
    return aggregate_feature_priorities(a, b, c)


def prop3_impl(a: dict[str, dict[str, list[str]]], b: dict[str, dict[str, list[str]]], c: dict[str, dict[str, list[str]]]):
    return aggregate_property_priorities(a, b, c)


def _follow(out, more):
    out.extend([x for x in more if x not in out])


def ns(a: list[str] | None, b: list[str] | None):
    return ns3(a, b, None)


def ns3(a: list[str], b: list[str], c: list[str]):
    out = []
    if a is not None:
        out.extend(a)
    if b is not None:
        _follow(out, b)
    if c is not None:
        _follow(out, c)
    return out


def feat(a: dict[str, list[str]] | None, b: dict[str, list[str]] | None):
    return feat3(a, b, None)


def feat3(a: dict[str, list[str]], b: dict[str, list[str]], c: dict[str, list[str]]):
    out = {}
    if a is not None:
        for k in a:
            out[k] = list(a[k])
    if b is not None:
        for k in b:
            _follow(out.setdefault(k, []), b[k])
    if c is not None:
        for k in c:
            _follow(out.setdefault(k, []), c[k])
    return out


def prop(a: dict[str, dict[str, list[str]]] | None, b: dict[str, dict[str, list[str]]] | None):
    return prop3(a, b, None)


def prop3(a: dict[str, dict[str, list[str]]], b: dict[str, dict[str, list[str]]], c: dict[str, dict[str, list[str]]]):
    out = {}
    if a is not None:
        for k in a:
            for f in a[k]:
                _follow(out.setdefault(k, {}).setdefault(f, []), a[k][f])
    if b is not None:
        for k in b:
            for f in b[k]:
                _follow(out.setdefault(k, {}).setdefault(f, []), b[k][f])
    if c is not None:
        for k in c:
            for f in c[k]:
                _follow(out.setdefault(k, {}).setdefault(f, []), c[k][f])
    return out
