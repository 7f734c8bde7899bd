"""Reference semantics of the property / feature / description model (parsed, never executed)."""
import hashlib
import re

from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantFeature
from variantlib.models.variant import VariantProperty
from variantlib.models.variant import VariantValidationResult
from variantlib.validators.base import ValidationError
from variantlib.validators.base import validate_type

NAME = r"[a-z0-9_]+"
VALUE = r"[a-z0-9_.]+"


def check(text, pattern):
    validate_type(text, str)
    if re.fullmatch(pattern, text) is None:
        raise ValidationError


def feature_init(self):
    check(self.namespace, NAME)
    check(self.feature, NAME)


def property_init(self):
    check(self.namespace, NAME)
    check(self.feature, NAME)
    check(self.value, VALUE)


def description_init(self):
    self.properties = sorted(self.properties)
    validate_type(self.properties, list[VariantProperty])
    seen = set()
    for p in self.properties:
        k = (p.namespace, p.feature, p.value)
        if k in seen:
            raise ValidationError
        seen.add(k)


def feature_hash(self):
    return hash((VariantFeature, self.namespace, self.feature))


def property_hash(self):
    return hash((self.__class__, self.namespace, self.feature, self.value))


def feature_object(self):
    return VariantFeature(namespace=self.namespace, feature=self.feature)


def feature_to_str(self):
    return self.namespace + " :: " + self.feature


def property_to_str(self):
    return self.namespace + " :: " + self.feature + " :: " + self.value


def feature_from_str(cls, input_str: str):
    m = re.fullmatch(r"(?P<namespace>[a-z0-9_]+)\s*::\s*(?P<feature>[a-z0-9_]+)", input_str.strip())
    if m is None:
        raise ValidationError
    return cls(namespace=m["namespace"], feature=m["feature"])


def property_from_str(cls, input_str: str):
    m = re.fullmatch(r"(?P<namespace>[a-z0-9_]+)\s*::\s*(?P<feature>[a-z0-9_]+)\s*::\s*(?P<value>[a-z0-9_.]+)", input_str.strip())
    if m is None:
        raise ValidationError
    return cls(namespace=m["namespace"], feature=m["feature"], value=m["value"])


def feature_deserialize(cls, data):
    if "namespace" not in data or "feature" not in data:
        raise ValidationError
    return cls(**data)


def property_deserialize(cls, data):
    if "namespace" not in data or "feature" not in data or "value" not in data:
        raise ValidationError
    return cls(**data)


def feature_serialize(self):
    return {"namespace": self.namespace, "feature": self.feature}


def property_serialize(self):
    return {"namespace": self.namespace, "feature": self.feature, "value": self.value}


def is_null(self):
    return len(self.properties) == 0


def hexdigest(self):
    text = ""
    for p in self.properties:
        text += p.namespace + " :: " + p.feature + " :: " + p.value + "\n"
    return hashlib.sha256(text.encode()).hexdigest()[:8]


def description_deserialize(cls, properties):
    return cls(properties=[VariantProperty.deserialize(d) for d in properties])


def description_serialize(self):
    return [{"namespace": p.namespace, "feature": p.feature, "value": p.value} for p in self.properties]


def to_dict(self):
    out = {}
    for p in self.properties:
        out.setdefault(p.namespace, {}).setdefault(p.feature, []).append(p.value)
    return out


def from_dict(cls, data):
    props = []
    for ns, features in data.items():
        for feature, values in features.items():
            for value in values:
                props.append(VariantProperty(namespace=ns, feature=feature, value=value))
    return cls(props)


def is_valid(self, allow_unknown_plugins: bool):
    if len(self.multi_value_violations) > 0:
        return False
    for v in self.results.values():
        if v is False or v == False:  # noqa: E712
            return False
        if v is None and not allow_unknown_plugins:
            return False
    return True


def invalid_properties(self):
    return [p for p, v in self.results.items() if v is False]


def unknown_properties(self):
    return [p for p, v in self.results.items() if v is None]
