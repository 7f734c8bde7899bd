"""Reference shapes of names (parsed, never executed)."""
import re

from variantlib.constants import VALIDATION_PROVIDER_PLUGIN_API_REGEX
from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX

SHAPE = re.compile(
    r"(?P<base_wheel_name>(?P<namever>(?P<name>[^\s-]+?)-(?P<ver>[^\s-]*?))(?:-(?P<build>\d[^-]*?))?-(?P<pyver>[^\s-]+?)-(?P<abi>[^\s-]+?)-(?P<plat>[^\s-]+?))"
    r"(?:-(?P<variant_label>[0-9a-z._]{1,16}))?\.whl"
)


def has_wheel_shape(name: str):
    return SHAPE.fullmatch(name) is not None


def is_wheel_name(name: str):
    return VALIDATION_WHEEL_NAME_REGEX.fullmatch(name) is not None


def wheel_parts(name: str):
    m = SHAPE.fullmatch(name)
    if m is None:
        return None
    return [m.group("base_wheel_name"), m.group("variant_label"), m.group("namever")]


def parts(name: str):
    m = VALIDATION_WHEEL_NAME_REGEX.fullmatch(name)
    if m is None:
        return None
    return [m.group("base_wheel_name"), m.group("variant_label"), m.group("namever")]


def label_shape(label: str):
    return re.fullmatch(r"[0-9a-z._]{1,16}", label) is not None


def is_label(label: str):
    return VALIDATION_VARIANT_LABEL_REGEX.fullmatch(label) is not None


def ref_shape(ref: str):
    m = re.fullmatch(r"(?P<module>[\w.]+)(?:\s*:\s*(?P<attr>[\w.]+))?", ref)
    if m is None:
        return None
    return [m.group("module"), m.group("attr")]


def ref_parts(ref: str):
    m = VALIDATION_PROVIDER_PLUGIN_API_REGEX.fullmatch(ref)
    if m is None:
        return None
    return [m.group("module"), m.group("attr")]
