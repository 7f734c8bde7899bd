"""Reference semantics of plugin-provided configurations and user configuration (parsed, never executed)."""
import re

from variantlib.models.provider import VariantFeatureConfig
from variantlib.models.variant import VariantProperty
from variantlib.validators.base import ValidationError
from variantlib.validators.base import validate_type

NAME = r"[a-z0-9_]+"
VALUE = r"[a-z0-9_.]+"


def feature_config_init(self):
    validate_type(self.name, str)
    if re.fullmatch(NAME, self.name) is None:
        raise ValidationError
    validate_type(self.values, list[str])
    for v in self.values:
        if re.fullmatch(VALUE, v) is None:
            raise ValidationError
    if len(self.values) < 1:
        raise ValidationError
    seen = set()
    for v in self.values:
        if v in seen:
            raise ValidationError
        seen.add(v)


def provider_config_init(self):
    validate_type(self.namespace, str)
    if re.fullmatch(NAME, self.namespace) is None:
        raise ValidationError
    validate_type(self.configs, list[VariantFeatureConfig])
    if len(self.configs) < 1:
        raise ValidationError
    seen = set()
    for c in self.configs:
        if c.name in seen:
            raise ValidationError
        seen.add(c.name)


def to_list_of_properties(self):
    out = []
    for c in self.configs:
        for v in c.values:
            out.append(VariantProperty(namespace=self.namespace, feature=c.name, value=v))
    return out


def configuration_init(self):
    validate_type(self.namespace_priorities, list[str])
    for n in self.namespace_priorities:
        if re.fullmatch(NAME, n) is None:
            raise ValidationError
    validate_type(self.feature_priorities, dict[str, list[str]])
    for n in self.feature_priorities:
        if re.fullmatch(NAME, n) is None:
            raise ValidationError
    validate_type(self.property_priorities, dict[str, dict[str, list[str]]])
    for n in self.property_priorities:
        if re.fullmatch(NAME, n) is None:
            raise ValidationError


def configuration_default(cls):
    return cls(namespace_priorities=[], feature_priorities={}, property_priorities={})


def from_toml_config(cls, namespace_priorities: list[str] | None, feature_priorities: dict[str, list[str]] | None,
                     property_priorities: dict[str, dict[str, list[str]]] | None):
    return cls(namespace_priorities=namespace_priorities if namespace_priorities else [],
               feature_priorities=feature_priorities if feature_priorities else {},
               property_priorities=property_priorities if property_priorities else {})


def configuration_to_dict(self):
    return {"namespace_priorities": self.namespace_priorities, "feature_priorities": self.feature_priorities,
            "property_priorities": self.property_priorities}
