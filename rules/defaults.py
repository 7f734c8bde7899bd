"""Omitted optional arguments."""
from sa.check import defaults
from sa.check import equiv
from sa.terms import NONE, ty
from sa.terms import const

from . import api
from . import lib

M = "variantlib."
FALSE, TRUE = const(False), const(True)
J = ty("variantlib.variants_json.VariantsJson")
PATH = {"venv_python_executable": ty("pathlib.Path")}

defaults("defaults.by_priority", M + "api.get_variants_by_priority", {"venv_python_executable": NONE, "enable_optional_plugins": FALSE},
         cfg=api.OP, types={"variants_json": J, **PATH})
defaults("defaults.validate", M + "api.validate_variant", {"venv_python_executable": NONE}, cfg=api.OP)
defaults("defaults.dist_info", M + "api.make_variant_dist_info",
         {"variant_info": NONE, "variant_label": NONE, "expand_aot_plugin_properties": TRUE, "venv_python_executable": NONE}, cfg=api.OP, types=PATH)
defaults("defaults.supported", M + "api.check_variant_supported", {"vdesc": NONE, "venv_python_executable": NONE, "enable_optional_plugins": FALSE},
         cfg=api.OP, types=PATH)
defaults("defaults.environment", M + "api.get_variant_environment_dict", {"variant_label": NONE}, cfg=api.OP)
defaults("defaults.label", M + "api.get_variant_label", {"custom_label": NONE}, cfg=api.LABEL)
defaults("defaults.requires", M + "models.variant_info.VariantInfo.get_provider_requires", {"namespaces": NONE, "include_aot_plugins": TRUE})
defaults("defaults.by_property", M + "resolver.filtering.filter_variants_by_property", {"forbidden_properties": NONE})
defaults("defaults.filter", M + "resolver.lib.filter_variants",
         {"forbidden_namespaces": NONE, "forbidden_features": NONE, "forbidden_properties": NONE}, cfg=lib.F_OP)
defaults("defaults.resolve", M + "resolver.lib.sort_and_filter_supported_variants",
         {"feature_priorities": NONE, "property_priorities": NONE, "forbidden_namespaces": NONE, "forbidden_features": NONE, "forbidden_properties": NONE},
         cfg=lib.OP)
defaults("defaults.sort", M + "resolver.sorting.sort_variant_properties", {"feature_priorities": NONE, "property_priorities": NONE})
defaults("defaults.loader", M + "plugins.loader.PluginLoader.__init__",
         {"venv_python_executable": NONE, "enable_optional_plugins": FALSE, "filter_plugins": NONE, "include_aot_plugins": FALSE})
defaults("defaults.list_loader", M + "plugins.loader.ListPluginLoader.__init__", {"venv_python_executable": NONE})
defaults("defaults.entry_point_loader", M + "plugins.loader.EntryPointPluginLoader.__init__", {"venv_python_executable": NONE})
defaults("defaults.supported_configs", M + "plugins.loader.BasePluginLoader.get_supported_configs", {"require_fixed": FALSE})
defaults("defaults.is_valid", M + "models.variant.VariantValidationResult.is_valid", {"allow_unknown_plugins": TRUE})
defaults("defaults.unique", M + "validators.base.validate_list_all_unique", {"keys": NONE})
defaults("defaults.expected_label", M + "variant_dist_info.VariantDistInfo.__init__", {"expected_label": NONE})
defaults("defaults.config", M + "models.configuration.VariantConfiguration.from_toml_config",
         {"namespace_priorities": NONE, "feature_priorities": NONE, "property_priorities": NONE})
V = ("value", "raises")
equiv("defaults.provider", "spec.defaults.some_provider", "defaults.provider", V, anchor=M + "models.variant_info.ProviderInfo")
equiv("defaults.info", "spec.defaults.some_info", "defaults.info", V, anchor=M + "models.variant_info.VariantInfo")
