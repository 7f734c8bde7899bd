"""Reference semantics of variant filtering (parsed, never executed)."""
from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantFeature
from variantlib.models.variant import VariantProperty


def remove_duplicates(vdescs):
    seen = set()
    for v in vdescs:
        if v.hexdigest not in seen:
            seen.add(v.hexdigest)
            yield v


def by_namespaces(vdescs, forbidden_namespaces: list[str] | None):
    forbidden = set(forbidden_namespaces) if forbidden_namespaces is not None else set()
    for v in vdescs:
        if not any(p.namespace in forbidden for p in v.properties):
            yield v


def by_features(vdescs, forbidden_features: list[VariantFeature] | None):
    forbidden = {f.feature_hash for f in forbidden_features} if forbidden_features is not None else set()
    for v in vdescs:
        if not any(p.feature_hash in forbidden for p in v.properties):
            yield v


def by_property(vdescs, allowed_properties: list[VariantProperty], forbidden_properties: list[VariantProperty] | None):
    bad = {p.property_hash for p in forbidden_properties} if forbidden_properties is not None else set()
    allowed = {(a.namespace, a.feature, a.value) for a in allowed_properties if a.property_hash not in bad}
    for v in vdescs:
        if all(
            any(
                q.namespace == p.namespace and q.feature == p.feature and (q.namespace, q.feature, q.value) in allowed
                for q in v.properties
            )
            for p in v.properties
        ):
            yield v
