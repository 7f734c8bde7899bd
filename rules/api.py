from sa.check import equiv
from sa.terms import NONE, ty

M = "variantlib.api."
V = "variantlib.models.variant."
L = "variantlib.resolver.lib."
P = "variantlib.plugins.loader."
OPQ = {V + "VariantDescription.hexdigest",
       "variantlib.models.provider.ProviderConfig.to_list_of_properties",
       L + "filter_variants", L + "inject_abi_dependency", L + "sort_and_filter_supported_variants",
       "variantlib.utils.aggregate_namespace_priorities", "variantlib.utils.aggregate_feature_priorities",
       "variantlib.utils.aggregate_property_priorities",
       "variantlib.configuration.VariantConfiguration.get_config",
       P + "BasePluginLoader", P + "BasePluginLoader.get_supported_configs", P + "BasePluginLoader.get_all_configs",
       P + "PluginLoader", P + "BasePluginLoader.__enter__", P + "BasePluginLoader.__exit__",
       "variantlib.variants_json.VariantsJson", "variantlib.variant_dist_info.VariantDistInfo",
       "variantlib.variant_dist_info.VariantDistInfo.to_str", M + "get_variant_label"}
OP = {"opaque": OPQ, "effects": {P + "BasePluginLoader.get_supported_configs", P + "BasePluginLoader.get_all_configs"},
      "mutates": {L + "inject_abi_dependency": ("supported_vprops", "namespace_priorities")}}
LABEL = {"opaque": OPQ - {M + "get_variant_label"}}
W = ("value", "raises", "heap", "fx")
J = ty("variantlib.variants_json.VariantsJson")
VENV = [NONE, ty("pathlib.Path")]
equiv("api.by_priority", M + "get_variants_by_priority", "api.get_variants_by_priority", W, cfg=OP,
      splits=[{0: j, 1: v} for j in (J, ty("dict", ty("str"), ty("any"))) for v in VENV])
equiv("api.validate", M + "validate_variant", "api.validate_variant", W, cfg=OP, splits=[{2: v} for v in VENV])
equiv("api.dist_info", M + "make_variant_dist_info", "api.make_variant_dist_info", W, cfg=OP,
      splits=[{1: i, 4: v} for v in VENV for i in (NONE, ty("variantlib.models.variant_info.VariantInfo"))])
equiv("api.supported", M + "check_variant_supported", "api.check_variant_supported", W, cfg=OP, splits=[{2: v} for v in VENV])
equiv("api.environment", M + "get_variant_environment_dict", "api.get_variant_environment_dict", W, cfg=OP)
equiv("api.label", M + "get_variant_label", "api.get_variant_label_", W, cfg=LABEL)
