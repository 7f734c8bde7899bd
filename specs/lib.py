"""Reference semantics of the resolver pipeline (parsed, never executed)."""
import importlib.metadata
import os

from packaging.utils import canonicalize_name
from packaging.version import Version

from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantFeature
from variantlib.models.variant import VariantProperty
from variantlib.resolver.filtering import filter_variants_by_features
from variantlib.resolver.filtering import filter_variants_by_namespaces
from variantlib.resolver.filtering import filter_variants_by_property
from variantlib.resolver.filtering import remove_duplicates
from variantlib.resolver.lib import filter_variants as select
from variantlib.resolver.lib import inject_abi_dependency as inject
from variantlib.resolver.sorting import sort_variant_properties
from variantlib.resolver.sorting import sort_variants_descriptions


def filter_variants(vdescs: list[VariantDescription], allowed: list[VariantProperty], bad_ns: list[str] | None, bad_feat: list[VariantFeature] | None, bad_prop: list[VariantProperty] | None):
    out = remove_duplicates(vdescs)
    if bad_ns is not None:
        out = filter_variants_by_namespaces(out, bad_ns)
    if bad_feat is not None:
        out = filter_variants_by_features(out, bad_feat)
    if allowed is not None:
        out = filter_variants_by_property(out, allowed, bad_prop)
    for v in out:
        yield v


def inject_abi_dependency(supported: list[VariantProperty], namespaces: list[str]):
    packages = {}
    for dist in importlib.metadata.distributions():
        packages[canonicalize_name(dist.name).replace("-", "_")] = dist.version
    override = os.environ.get("VARIANT_ABI_DEPENDENCY")
    if override:
        for spec in override.split(","):
            parts = spec.split("==", 1)
            if len(parts) == 2:
                packages[canonicalize_name(parts[0]).replace("-", "_")] = parts[1]
    for name, version in sorted(packages.items()):
        v = Version(version)
        supported.append(VariantProperty("abi_dependency", name, f"{v.major}"))
        supported.append(VariantProperty("abi_dependency", name, f"{v.major}.{v.minor}"))
        supported.append(VariantProperty("abi_dependency", name, f"{v.major}.{v.minor}.{v.micro}"))
    namespaces.append("abi_dependency")


def sort_and_filter(vdescs: list[VariantDescription], supported: list[VariantProperty], namespaces: list[str], features: dict[str, list[str]] | None, props: dict[str, dict[str, list[str]]] | None, bad_ns: list[str] | None, bad_feat: list[VariantFeature] | None, bad_prop: list[VariantProperty] | None):
    ns = [] if namespaces is None else list(namespaces)
    sup = list(supported)
    inject(sup, ns)
    candidates = list(vdescs)
    if VariantDescription() not in candidates:
        candidates.append(VariantDescription())
    kept = list(select(candidates, sup, bad_ns, bad_feat, bad_prop))
    ranked = sort_variant_properties(sup, ns, features, props)
    return sort_variants_descriptions(kept, ranked)
