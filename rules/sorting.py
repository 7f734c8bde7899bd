from sa.check import equiv

M = "variantlib.resolver.sorting."
V = "variantlib.models.variant."
OP = {"opaque": {V + "VariantDescription.is_null_variant", M + "get_property_priorities", M + "get_feature_priorities", M + "get_namespace_priorities"}}
W = ("value", "raises", "heap")
equiv("sort.rank.property", M + "get_property_priorities", "sorting.property_rank", W)
equiv("sort.rank.feature", M + "get_feature_priorities", "sorting.feature_rank", W)
equiv("sort.rank.namespace", M + "get_namespace_priorities", "sorting.namespace_rank", W)
equiv("sort.properties", M + "sort_variant_properties", "sorting.sort_properties", W, cfg=OP)
equiv("sort.descriptions", M + "sort_variants_descriptions", "sorting.sort_descriptions", W, cfg=OP)
