from sa.check import equiv

M = "variantlib.resolver.filtering."
V = "variantlib.models.variant."
OP = {"opaque": {V + "VariantDescription.hexdigest"}}
VD = {"vdescs": "iter"}
equiv("filter.duplicates", M + "remove_duplicates", "filtering.remove_duplicates", ("value", "raises", "heap"), cfg=OP)
equiv("filter.namespaces", M + "filter_variants_by_namespaces", "filtering.by_namespaces", ("value", "raises", "heap"), cfg=OP)
equiv("filter.features", M + "filter_variants_by_features", "filtering.by_features", ("value", "raises", "heap"), cfg=OP)
equiv("filter.property", M + "filter_variants_by_property", "filtering.by_property", ("value", "raises", "heap"), cfg=OP)
