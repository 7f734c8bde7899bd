"""Reference semantics of the public API (parsed, never executed)."""
import pathlib

from variantlib.api import get_variant_label
from variantlib.configuration import VariantConfiguration
from variantlib.errors import ValidationError
from variantlib.models.provider import ProviderConfig
from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantFeature
from variantlib.models.variant import VariantProperty
from variantlib.models.variant import VariantValidationResult
from variantlib.models.variant_info import VariantInfo
from variantlib.plugins.loader import PluginLoader
from variantlib.resolver.lib import filter_variants
from variantlib.resolver.lib import inject_abi_dependency
from variantlib.resolver.lib import sort_and_filter_supported_variants
from variantlib.utils import aggregate_feature_priorities
from variantlib.utils import aggregate_namespace_priorities
from variantlib.utils import aggregate_property_priorities
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson


def as_path(p):
    return None if p is None else pathlib.Path(p)


def get_variants_by_priority(variants_json, venv, optional):
    doc = variants_json if isinstance(variants_json, VariantsJson) else VariantsJson(variants_json)
    with PluginLoader(variant_info=doc, venv_python_executable=as_path(venv), enable_optional_plugins=optional) as loader:
        supported = []
        for cfg in loader.get_supported_configs().values():
            supported.extend(cfg.to_list_of_properties())
    config = VariantConfiguration.get_config()
    labels = {}
    for label, v in doc.variants.items():
        labels[v.hexdigest] = label
    if VariantDescription([]).hexdigest not in labels:
        labels[VariantDescription([]).hexdigest] = "null"
    ranked = sort_and_filter_supported_variants(
        list(doc.variants.values()),
        supported,
        aggregate_namespace_priorities(config.namespace_priorities, doc.namespace_priorities),
        aggregate_feature_priorities(config.feature_priorities, doc.feature_priorities),
        aggregate_property_priorities(config.property_priorities, doc.property_priorities),
    )
    return [labels[v.hexdigest] for v in ranked]


def validate_variant(desc: VariantDescription, info: VariantInfo, venv):
    with PluginLoader(
        variant_info=info,
        venv_python_executable=as_path(venv),
        enable_optional_plugins=True,
        filter_plugins=list({p.namespace for p in desc.properties}),
        include_aot_plugins=True,
    ) as loader:
        known = loader.get_all_configs()
    tables = {ns: {f.name: (f.values, f.multi_value) for f in known[ns].configs} for ns in known}
    results = {}
    for p in desc.properties:
        if p.namespace not in tables:
            results[p] = None
        else:
            results[p] = p.value in tables[p.namespace].get(p.feature, ([], False))[0]
    violations = set()
    for ns in tables:
        for feature in tables[ns]:
            if not tables[ns][feature][1]:
                if len([True for p in desc.properties if p.namespace == ns and p.feature == feature]) > 1:
                    violations.add(VariantFeature(ns, feature))
    return VariantValidationResult(results=results, multi_value_violations=frozenset(violations))


def make_variant_dist_info(desc: VariantDescription, info: VariantInfo | None, label: str | None, expand: bool, venv):
    if info is None:
        info = VariantInfo()
    out = VariantDistInfo(info)
    out.variant_desc = desc
    out.variant_label = get_variant_label(desc, label)
    if expand:
        static = {
            ns
            for ns in {p.namespace for p in desc.properties}
            if ns in info.providers and not info.providers[ns].install_time and info.providers[ns].requires
        }
        if static:
            with PluginLoader(
                variant_info=info,
                venv_python_executable=as_path(venv),
                enable_optional_plugins=True,
                filter_plugins=list(static),
                include_aot_plugins=True,
            ) as loader:
                found = loader.get_supported_configs(require_fixed=True).values()
            for cfg in found:
                if cfg.namespace not in static:
                    continue
                out.static_properties[cfg.namespace] = {}
                for f in cfg.configs:
                    if f.multi_value:
                        raise ValidationError
                    out.static_properties[cfg.namespace][f.name] = f.values
                    if len(cfg.configs) > 1:
                        order = out.feature_priorities.setdefault(cfg.namespace, [])
                        if f.name not in order:
                            order.append(f.name)
        for p in desc.properties:
            if p.namespace in static and p.value not in out.static_properties[p.namespace].get(p.feature, []):
                raise ValidationError
    return out.to_str()


def check_variant_supported(vdesc: VariantDescription | None, variant_info: VariantInfo, venv, optional):
    if vdesc is None:
        if variant_info is None:
            raise TypeError
        if not isinstance(variant_info, VariantsJson):
            raise TypeError
        if len(variant_info.variants) != 1:
            raise ValueError
        desc = next(iter(variant_info.variants.values()))
    else:
        desc = vdesc
    with PluginLoader(variant_info=variant_info, venv_python_executable=as_path(venv), enable_optional_plugins=optional) as loader:
        supported = []
        for cfg in loader.get_supported_configs().values():
            supported.extend(cfg.to_list_of_properties())
    inject_abi_dependency(supported, [])
    VariantConfiguration.get_config()
    return bool(list(filter_variants([desc], supported)))


def get_variant_environment_dict(desc: VariantDescription, label: str | None):
    env = {}
    env["variant_namespaces"] = {p.namespace for p in desc.properties}
    env["variant_features"] = {p.feature_object.to_str() for p in desc.properties}
    env["variant_properties"] = {p.to_str() for p in desc.properties}
    if label is not None:
        env["variant_label"] = label
    return env


def get_variant_label_(desc: VariantDescription, label: str | None):
    if label is None:
        if desc.is_null_variant():
            return "null"
        return desc.hexdigest
    if desc.is_null_variant():
        if label != "null":
            raise ValidationError
        return label
    if label == "null":
        raise ValidationError
    if not valid_label(label):
        raise ValidationError
    return label


def valid_label(label: str):
    import re
    return re.fullmatch(r"[0-9a-z._]{1,16}", label)
