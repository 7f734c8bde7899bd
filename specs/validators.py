"""Reference semantics of the value validators (parsed, never executed)."""
import re
from contextlib import contextmanager
from types import GenericAlias
from typing import Any
from typing import Protocol
from collections.abc import Iterable
from typing import get_args
from typing import get_origin

from packaging.requirements import InvalidRequirement
from packaging.requirements import Requirement

from variantlib.validators.base import ValidationError
from variantlib.validators.base import _validate_type
from variantlib.validators.keytracking import KeyTrackingValidator


def matches_re(value: str, pattern):
    m = re.fullmatch(pattern, value)
    if m is None:
        raise ValidationError
    return m


def list_matches_re(values: list[str], pattern):
    for v in values:
        if re.fullmatch(pattern, v) is None:
            raise ValidationError


def min_len(values: list[Any], min_length: int):
    if len(values) < min_length:
        raise ValidationError


def all_unique(values: list[Any], keys: list[str] | None):
    seen = []
    for v in values:
        if keys is None:
            k = v
        else:
            k = tuple([getattr(v, name) for name in keys])
            if len(k) == 1:
                k = k[0]
        if k in seen:
            raise ValidationError
        seen.append(k)


def type_mismatch(value, expected_type):
    if isinstance(expected_type, GenericAlias):
        origin = get_origin(expected_type)
        if not isinstance(value, origin):
            return 1
        if origin is dict:
            kt, vt = get_args(expected_type)
            if kt is not Any:
                for k in value:
                    if _validate_type(k, kt) is not None:
                        return 1
            if vt is not Any:
                for x in value.values():
                    if _validate_type(x, vt) is not None:
                        return 1
        else:
            (it,) = get_args(expected_type)
            if it is not Any:
                for x in value:
                    if _validate_type(x, it) is not None:
                        return 1
    elif issubclass(expected_type, (Protocol, Iterable)):
        if not isinstance(value, expected_type):
            return 1
    elif type(value) is not expected_type:
        return 1
    return None


def validate_type(value, expected_type):
    if _validate_type(value, expected_type) is not None:
        raise ValidationError


def validate_and(validators: list, value):
    if len(validators) == 0:
        raise ValueError
    for v in validators:
        v(value)


def validate_and2(validators: list, value):
    if len(validators) == 0:
        raise ValueError
    try:
        for v in validators:
            v(value)
    except ValidationError:
        raise


def requirement_str(text: str):
    try:
        Requirement(text)
    except (InvalidRequirement, ValueError):
        raise ValidationError


class RefValidator:
    """what the key-tracking validator does, spelled out"""

    class RequiredKey: ...

    def __init__(self, top_key, top_data):
        self.path = [top_key] if top_key else []
        self.docs = [top_data]
        self.asked = [set()]
        if _validate_type(top_data, dict[str, Any]) is not None:
            raise ValidationError

    @property
    def key(self):
        return ".".join(self.path)

    def matches_re(self, pattern):
        if re.fullmatch(pattern, self.docs[-1]) is None:
            raise ValidationError

    def list_matches_re(self, pattern):
        for x in self.docs[-1]:
            if re.fullmatch(pattern, x) is None:
                raise ValidationError

    @contextmanager
    def get(self, key, expected_type, default=RequiredKey, ignore_subkeys=False):
        self.asked[-1].add(key)
        x = self.docs[-1].get(key, default)
        if x is self.RequiredKey:
            raise ValidationError
        if x is not default and _validate_type(x, expected_type) is not None:
            raise ValidationError
        self.path.append(key)
        self.docs.append(x)
        self.asked.append(set())
        yield x
        asked = self.asked.pop()
        self.docs.pop()
        self.path.pop()
        if isinstance(x, dict) and not ignore_subkeys:
            for k in x.keys():
                if k not in asked:
                    raise ValidationError


# probes: documents read through the key-tracking validator
def probe_required(V, data: dict[str, dict[str, list[str]]]):
    v = V("top", data)
    with v.get("a", dict[str, list[str]]) as a:
        v.list_matches_re("x+")
        with v.get("b", list[str]) as b:
            v.list_matches_re("y+")
    return a, b


def probe_siblings(V, data: dict[str, dict[str, list[str]]]):
    v = V("top", data)
    with v.get("c", dict[str, list[str]], {}) as c:
        with v.get("d", list[str], []) as d:
            pass
        with v.get("e", list[str]) as e:
            pass
    return c, d, e


def probe_sequence(V, data: dict[str, dict[str, list[str]]]):
    v = V("", data)
    with v.get("a", dict[str, list[str]], None) as a:
        pass
    with v.get("b", dict[str, list[str]]) as b:
        with v.get("f", list[str], None) as f:
            pass
    return a, b, f


def probe_ignore(V, data: dict[str, dict[str, list[str]]]):
    v = V("", data)
    with v.get("b", dict[str, list[str]], ignore_subkeys=True) as b:
        with v.get("f", list[str], None) as f:
            pass
    return b, f


def probe_leaf(V, data: dict[str, str]):
    v = V(None, data)
    with v.get("a", str) as a:
        v.matches_re("x+")
    with v.get("b", str, None) as b:
        if b is not None:
            v.matches_re("y+")
    with v.get("c", str, "dflt") as c:
        pass
    return a, b, c


def probe_loop(V, data: dict[str, dict[str, list[str]]]):
    v = V("top", data)
    out = {}
    for k in data:
        with v.get(k, dict[str, list[str]]):
            with v.get("x", list[str]) as x:
                out[k] = x
    return out


def probe_key(V, data: dict[str, dict[str, dict[str, list[str]]]], top: str):
    v = V(top, data)
    with v.get("a", dict[str, dict[str, list[str]]], ignore_subkeys=True) as a:
        k1 = v.key
        with v.get("b", dict[str, dict[str, list[str]]], ignore_subkeys=True):
            k2 = v.key
        k3 = v.key
    return k1, k2, k3


def probe_default(V, data: dict[str, Any]):
    v = V(None, data)
    with v.get("a", bool, False) as a:
        pass
    with v.get("b", bool, True) as b:
        pass
    return a, b
