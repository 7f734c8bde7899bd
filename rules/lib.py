from sa.check import equiv

M = "variantlib.resolver.lib."
F = "variantlib.resolver.filtering."
S = "variantlib.resolver.sorting."
OP = {"opaque": {F + "remove_duplicates", F + "filter_variants_by_namespaces", F + "filter_variants_by_features", F + "filter_variants_by_property",
                 S + "sort_variant_properties", S + "sort_variants_descriptions", M + "filter_variants", M + "inject_abi_dependency"},
      "mutates": {M + "inject_abi_dependency": ("supported_vprops", "namespace_priorities")}}
W = ("value", "raises", "heap")
F_OP = {"opaque": {F + "remove_duplicates", F + "filter_variants_by_namespaces", F + "filter_variants_by_features", F + "filter_variants_by_property"}}
equiv("lib.filter_variants", M + "filter_variants", "lib.filter_variants", W, cfg=F_OP)
equiv("lib.inject_abi", M + "inject_abi_dependency", "lib.inject_abi_dependency", W)
equiv("lib.pipeline", M + "sort_and_filter_supported_variants", "lib.sort_and_filter", W, cfg=OP)
