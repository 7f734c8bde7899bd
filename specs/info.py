"""Reference semantics of the metadata documents (parsed, never executed)."""
import json
from typing import Any

from packaging.requirements import Requirement

from variantlib.models.variant import VariantDescription
from variantlib.models.variant_info import ProviderInfo
from variantlib.models.variant_info import VariantInfo
from variantlib.validators.base import ValidationError
from variantlib.validators.keytracking import KeyTrackingValidator

NAME = r"[a-z0-9_]+"
VALUE = r"[a-z0-9_.]+"
PLUGIN_API = r"(?P<module>[\w.]+)(?:\s*:\s*(?P<attr>[\w.]+))?"


def _read_properties(doc: KeyTrackingValidator, key):
    out = {}
    with doc.get(key, dict[str, dict[str, list[str]]], {}) as table:
        doc.list_matches_re(NAME)
        for ns in table:
            with doc.get(ns, dict[str, list[str]]) as features:
                doc.list_matches_re(NAME)
                for feature in features:
                    with doc.get(feature, list[str]) as values:
                        doc.list_matches_re(VALUE)
                        out.setdefault(ns, {})[feature] = values
    return out


def process_common(self, doc: KeyTrackingValidator):
    with doc.get("default-priorities", dict[str, Any], {}):
        with doc.get("namespace", list[str], []) as prios:
            doc.list_matches_re(NAME)
            self.namespace_priorities = list(prios)
        self.feature_priorities = {}
        with doc.get("feature", dict[str, list[str]], {}) as table:
            doc.list_matches_re(NAME)
            for ns in table:
                with doc.get(ns, list[str]) as features:
                    doc.list_matches_re(NAME)
                    self.feature_priorities[ns] = features
        self.property_priorities = _read_properties(doc, "property")
    self.providers = {}
    with doc.get("providers", dict[str, Any], {}) as providers:
        doc.list_matches_re(NAME)
        for ns in list(providers):
            with doc.get(ns, dict[str, Any], {}):
                with doc.get("requires", list[str], []) as requires:
                    doc.list_matches_re(r"[\S ]+")
                with doc.get("optional", bool, False) as optional:
                    pass
                with doc.get("plugin-api", str, None) as plugin_api:
                    if plugin_api is not None:
                        doc.matches_re(PLUGIN_API)
                with doc.get("enable-if", str, None) as enable_if:
                    if enable_if is not None:
                        doc.matches_re(r"[\S ]+")
                with doc.get("install-time", bool, True) as install_time:
                    pass
                if install_time and not requires:
                    raise ValidationError
                self.providers[ns] = ProviderInfo(plugin_api=plugin_api, enable_if=enable_if, install_time=install_time,
                                                  optional=optional, requires=list(requires))
    self.static_properties = {}
    with doc.get("static-properties", dict[str, dict[str, list[str]]], {}) as table:
        doc.list_matches_re(NAME)
        for ns in table:
            with doc.get(ns, dict[str, list[str]]) as features:
                doc.list_matches_re(NAME)
                for feature in features:
                    with doc.get(feature, list[str]) as values:
                        doc.list_matches_re(VALUE)
                        self.static_properties.setdefault(ns, {})[feature] = values
                if len(features) > 1:
                    for feature in features:
                        if feature not in self.feature_priorities.get(ns, []):
                            raise ValidationError
    if set(self.namespace_priorities) != set(self.providers):
        raise ValidationError
    if set(self.static_properties) != self._get_expected_aot_namespaces():
        raise ValidationError


def provider_info_init(self, plugin_api: str | None = None, enable_if: str | None = None, install_time: bool = True,
                       optional: bool = False, requires: list[str] | None = None):
    if install_time and not requires:
        raise ValidationError
    self.plugin_api = plugin_api
    self.enable_if = enable_if
    self.install_time = install_time
    self.optional = optional
    self.requires = requires


def provider_post_init(self):
    if self.install_time and not self.requires:
        raise ValidationError


def object_reference(self):
    if self.plugin_api is not None:
        return self.plugin_api
    return Requirement(self.requires[0]).name.replace("-", "_")


def copy_table(table):
    return {ns: {feature: list(values) for feature, values in features.items()} for ns, features in table.items()}


def copy_as_kwargs(self):
    return {
        "namespace_priorities": list(self.namespace_priorities),
        "feature_priorities": {ns: list(features) for ns, features in self.feature_priorities.items()},
        "property_priorities": copy_table(self.property_priorities),
        "providers": {
            ns: ProviderInfo(plugin_api=x.plugin_api, enable_if=x.enable_if, install_time=x.install_time, optional=x.optional,
                             requires=list(x.requires))
            for ns, x in self.providers.items()
        },
        "static_properties": copy_table(self.static_properties),
    }


def get_provider_requires(self, namespaces: set[str] | None, include_aot: bool):
    if namespaces is None:
        namespaces = set(self.namespace_priorities)
    out = set()
    for ns in namespaces:
        p = self.providers[ns]
        if p.install_time or include_aot:
            for r in p.requires:
                out.add(r)
    return out


# --------------------------------------------------------------- index files
def copied(self, source: VariantInfo):
    self.namespace_priorities = list(source.namespace_priorities)
    self.feature_priorities = {ns: list(features) for ns, features in source.feature_priorities.items()}
    self.property_priorities = copy_table(source.property_priorities)
    self.providers = {
        ns: ProviderInfo(plugin_api=x.plugin_api, enable_if=x.enable_if, install_time=x.install_time, optional=x.optional,
                         requires=list(x.requires))
        for ns, x in source.providers.items()
    }
    self.static_properties = copy_table(source.static_properties)


def variants_json_from_info(self, source: VariantInfo):
    copied(self, source)
    self.variants = {}


def pyproject_from_info(self, source: VariantInfo):
    copied(self, source)


def variants_json_init(self, document):
    self._process(document)


def variants_json_process(self, document):
    doc = KeyTrackingValidator(None, document)
    self._process_common(doc)
    self.variants = {}
    with doc.get("variants", dict[str, dict[str, dict[str, list[str]]]]) as variants:
        doc.list_matches_re(r"[0-9a-z._]{1,16}")
        for label in list(variants):
            with doc.get(label, dict[str, dict[str, list[str]]], ignore_subkeys=True) as table:
                v = VariantDescription.from_dict(table)
                if v.is_null_variant() != (label == "null"):
                    raise ValidationError
                self.variants[label] = v


def aot_json(self):
    return {ns for ns in self.providers if not self.providers[ns].install_time}


def aot_pyproject(self):
    return {ns for ns in self.providers if not self.providers[ns].install_time and not self.providers[ns].requires}


def provider_json(p: ProviderInfo):
    out = {}
    if p.requires:
        out["requires"] = p.requires
    if p.enable_if is not None:
        out["enable-if"] = p.enable_if
    if p.optional:
        out["optional"] = p.optional
    if p.plugin_api is not None:
        out["plugin-api"] = p.plugin_api
    if not p.install_time:
        out["install-time"] = p.install_time
    return out


def providers_dict(self):
    return {ns: provider_json(p) for ns, p in self.providers.items()}


def variants_json_str(self):
    prios = {"namespace": self.namespace_priorities}
    if self.feature_priorities:
        prios["feature"] = self.feature_priorities
    if self.property_priorities:
        prios["property"] = self.property_priorities
    out = {
        "$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json",
        "default-priorities": prios,
        "providers": {ns: provider_json(p) for ns, p in self.providers.items()},
        "variants": {label: v.to_dict() for label, v in self.variants.items()},
    }
    if self.static_properties:
        out["static-properties"] = self.static_properties
    return json.dumps(out, indent=4, sort_keys=True)


def merge(self, other):
    if self.namespace_priorities != other.namespace_priorities:
        raise ValidationError
    if self.feature_priorities != other.feature_priorities:
        raise ValidationError
    if self.property_priorities != other.property_priorities:
        raise ValidationError
    if self.static_properties != other.static_properties:
        raise ValidationError
    if hash(json.dumps(providers_dict(self), sort_keys=True).encode()) != hash(json.dumps(providers_dict(other), sort_keys=True).encode()):
        raise ValidationError
    for ns in other.providers:
        new = other.providers[ns]
        if ns not in self.providers:
            self.providers[ns] = new
        else:
            mine = self.providers[ns]
            for r in new.requires:
                if r not in mine.requires:
                    mine.requires.append(r)
            if new.enable_if != mine.enable_if or new.optional != mine.optional or new.plugin_api != mine.plugin_api:
                raise ValidationError
    for label in other.variants:
        if label in self.variants and self.variants[label] != other.variants[label]:
            raise ValidationError
    for label in other.variants:
        self.variants[label] = other.variants[label]


# -------------------------------------------------------------- wheel files
def dist_info_read(self, data, expected: str | None):
    self._process(json.loads(data))
    if len(self.variants) != 1:
        raise ValidationError
    if expected is not None and expected != next(iter(self.variants)):
        raise ValidationError


def dist_label(self):
    return next(iter(self.variants))


def dist_desc(self):
    return next(iter(self.variants.values()))


def set_dist_label(self, label):
    self.variants = {label: next(iter(self.variants.values()))}


def set_dist_desc(self, desc: VariantDescription):
    self.variants = {desc.hexdigest: desc}


# ------------------------------------------------------------ project files
def pyproject_read(self, document: dict[str, Any]):
    self._process(document.get("variant", {}))


def pyproject_process(self, table):
    doc = KeyTrackingValidator("variant", table)
    self._process_common(doc)
