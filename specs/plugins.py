"""Reference semantics of plugin loading (parsed, never executed)."""
import json
import subprocess
import sys
from importlib.metadata import entry_points
from pathlib import Path

from packaging.markers import Marker
from packaging.markers import default_environment

from variantlib.errors import NoPluginFoundError
from variantlib.errors import PluginError
from variantlib.models.provider import ProviderConfig
from variantlib.models.provider import VariantFeatureConfig
from variantlib.constants import VALIDATION_PROVIDER_PLUGIN_API_REGEX
from variantlib.plugins.loader import VARIANT_PROVIDER_CACHE_TABLE
from variantlib.plugins.loader import BasePluginLoader
from variantlib.plugins.loader import EntryPointPluginLoader
from variantlib.plugins.loader import ListPluginLoader
from variantlib.plugins.loader import PluginLoader
from variantlib.models.variant_info import VariantInfo
from variantlib.validators.base import ValidationError
from variantlib.validators.base import validate_matches_re


def base_init(self: BasePluginLoader, python: Path | None, static: dict[str, dict[str, list[str]]] | None):
    self._python_executable = Path(sys.executable) if python is None else python
    self._package_defined_properties = static or {}


def enter(self: BasePluginLoader):
    if self._namespace_map is not None:
        raise RuntimeError
    self._load_all_plugins()
    return self


def leave(self: BasePluginLoader, a, b, c):
    if self._namespace_map is None:
        raise RuntimeError
    self._namespace_map = None


def call(self: BasePluginLoader, plugin_apis: list[str], commands: dict, args: list[str]):
    # what identifies a question: the interpreter, the plugins, the commands with their parameters and the options
    apis = tuple(plugin_apis)
    payload = json.dumps(commands).encode("utf8")
    options = tuple(args)
    key = hash((self._python_executable, apis, payload, options))
    if key in VARIANT_PROVIDER_CACHE_TABLE:
        return VARIANT_PROVIDER_CACHE_TABLE[key]
    answer = self._run_call_subprocess(apis, payload, options)
    VARIANT_PROVIDER_CACHE_TABLE[key] = answer
    return answer


def load(self: BasePluginLoader, plugin_apis: list[str]):
    if self._namespace_map is not None:
        raise RuntimeError
    if not plugin_apis:
        self._namespace_map = {}
        return
    normalized = []
    for p in plugin_apis:
        m = validate_matches_re(p, VALIDATION_PROVIDER_PLUGIN_API_REGEX)
        normalized.append(f"{m.group('module')}:{m.group('attr')}" if m.group("attr") else m.group("module"))
    answer = self._call_subprocess(normalized, {"namespaces": {}})["namespaces"]
    result = {}
    for p, namespace in answer.items():
        if namespace in result.values():
            raise RuntimeError
        result[p] = namespace
    self._namespace_map = result


def get_configs(self: BasePluginLoader, method: str, non_empty: bool, fixed: bool):
    if self._namespace_map is None:
        raise NoPluginFoundError
    result = {}
    for ns, features in self._package_defined_properties.items():
        if ns not in self._namespace_map.values() and features:
            result[ns] = ProviderConfig(ns, [VariantFeatureConfig(name=name, values=values, multi_value=False) for name, values in features.items()])
    if not self._namespace_map:
        return result
    options = []
    if fixed:
        options.append("--require-fixed")
    answer = self._call_subprocess(list(self._namespace_map), {method: {}}, options)[method]
    for p, configs in answer.items():
        ns = self._namespace_map[p]
        if configs:
            result[ns] = ProviderConfig(ns, [VariantFeatureConfig(**c) for c in configs])
        elif non_empty:
            raise PluginError
    return result


def get_all_configs(self: BasePluginLoader):
    return self._get_configs("get_all_configs", True, False)


def get_supported_configs(self: BasePluginLoader, fixed: bool):
    return self._get_configs("get_supported_configs", False, fixed)


def plugin_api_values(self: BasePluginLoader):
    if self._namespace_map is None:
        raise NoPluginFoundError
    return {self._namespace_map[p]: p for p in self._namespace_map}


def namespaces(self: BasePluginLoader):
    if self._namespace_map is None:
        raise NoPluginFoundError
    return list(self._namespace_map.values())


def packages(self: EntryPointPluginLoader):
    if self._namespace_map is None:
        raise NoPluginFoundError
    assert self._plugin_provider_packages is not None
    return self._plugin_provider_packages


def plugin_init(self: PluginLoader, info: VariantInfo, python: Path | None, optional: bool | list[str], requested: list[str] | None, aot: bool):
    self._variant_info = info
    self._enable_optional_plugins = optional
    self._filter_plugins = requested
    self._include_aot_plugins = aot
    self._environment = default_environment()
    base_init(self, python, info.static_properties)


def drive_plugin_load(info: VariantInfo, python: Path | None, optional: bool | list[str], requested: list[str] | None, aot: bool):
    PluginLoader(info, python, optional, requested, aot).__enter__()


def plugin_load(info: VariantInfo, python: Path | None, optional: bool | list[str], requested: list[str] | None, aot: bool):
    loader = PluginLoader(info, python, optional, requested, aot)
    selected = []
    for ns, provider in info.providers.items():
        if not provider.install_time and (not provider.requires or not aot):
            continue
        if requested is not None and ns not in requested:
            continue
        if provider.optional:
            if isinstance(optional, bool):
                if not optional:
                    continue
            elif ns not in optional:
                continue
        if provider.enable_if is not None and not Marker(provider.enable_if).evaluate(default_environment()):
            continue
        selected.append(provider.object_reference)
    loader._load_all_plugins_from_tuple(selected)


def plugin_all_configs(self: PluginLoader):
    assert self._include_aot_plugins
    return BasePluginLoader.get_all_configs(self)


def ep_load(self: EntryPointPluginLoader):
    if self._namespace_map is not None:
        raise RuntimeError
    refs = []
    packages = {}
    for ep in entry_points().select(group="variant_plugins"):
        refs.append(ep.value)
        if ep.dist is not None:
            packages["".join(ep.value.split())] = ep.dist
    self._plugin_provider_packages = packages
    self._load_all_plugins_from_tuple(refs)


def list_init(self: ListPluginLoader, plugin_apis: list[str], python: Path | None):
    self._plugin_apis = list(plugin_apis)
    base_init(self, python, None)


def list_load(self: ListPluginLoader):
    if self._namespace_map is not None:
        raise RuntimeError
    self._load_all_plugins_from_tuple(self._plugin_apis)
