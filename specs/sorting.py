"""Reference semantics of property and variant ordering (parsed, never executed)."""
import sys
from itertools import groupby

from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantProperty
from variantlib.resolver.sorting import get_feature_priorities
from variantlib.resolver.sorting import get_namespace_priorities
from variantlib.resolver.sorting import get_property_priorities


def property_rank(p: VariantProperty, prio: dict[str, dict[str, list[str]]] | None):
    if prio is None:
        return sys.maxsize
    ranked = prio.get(p.namespace, {}).get(p.feature, [])
    return ranked.index(p.value) if p.value in ranked else sys.maxsize


def feature_rank(p: VariantProperty, prio: dict[str, list[str]] | None):
    if prio is None:
        return sys.maxsize
    ranked = prio.get(p.namespace, [])
    return ranked.index(p.feature) if p.feature in ranked else sys.maxsize


def namespace_rank(p: VariantProperty, prio: list[str]):
    return prio.index(p.namespace) if p.namespace in prio else sys.maxsize


def sort_properties(vprops: list[VariantProperty], namespaces: list[str], features: dict[str, list[str]] | None, props: dict[str, dict[str, list[str]]] | None):
    if any(p.namespace not in namespaces for p in vprops):
        raise ValidationError
    first = sorted(vprops, key=lambda p: get_namespace_priorities(p, namespaces))
    second = []
    for _, run in groupby(first, key=lambda p: p.namespace):
        second.extend(sorted(run, key=lambda p: get_feature_priorities(p, features)))
    third = []
    for _, run in groupby(second, key=lambda p: (p.namespace, p.feature)):
        third.extend(sorted(run, key=lambda p: get_property_priorities(p, props)))
    return third


def sort_descriptions(vdescs: list[VariantDescription], ranked: list[VariantProperty]):
    values = {}
    for p in ranked:
        values.setdefault((p.namespace, p.feature), []).append(p.value)

    def rank(v: VariantDescription):
        best = [sys.maxsize for _ in values]
        if not v.is_null_variant():
            touched = set()
            for p in v.properties:
                key = (p.namespace, p.feature)
                if key not in values:
                    raise ValidationError
                slot = list(values.keys()).index(key)
                touched.add(slot)
                if p.value in values[key]:
                    best[slot] = min(best[slot], values[key].index(p.value))
            for slot in touched:
                if best[slot] == sys.maxsize:
                    raise ValidationError
        return tuple(best)

    return sorted(vdescs, key=rank)
