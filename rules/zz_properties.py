"""Which obligations decide which property."""
from rules import prop

prop("C01", "variant.description.init", "variant.property.to_str", "variant.hexdigest")
prop("C02", "variant.feature.init", "variant.property.init", "variant.description.init", "variant.feature.deserialize",
     "variant.property.deserialize", "variant.description.deserialize", "variant.from_dict", "validate.matches_re", "validate.list_matches_re",
     "validate.type", "validate.type_rec", "validate.and")
prop("C03", "variant.description.init", "provider.feature_config.init", "provider.config.init", "provider.to_properties",
     "validate.unique", "validate.min_len", "validate.and", "validate.type_rec")
prop("C04", "variant.feature.to_str", "variant.property.to_str", "variant.feature.from_str", "variant.property.from_str")
prop("C05", "api.label", "variant.is_null", "variant.hexdigest")
prop("C07", "info.process_common", "json.process", "json.init", "pyproject.process", "pyproject.read", "info.provider.post_init", "kt.probe_required", "kt.probe_siblings", "kt.probe_sequence", "kt.probe_ignore", "kt.probe_leaf",
     "kt.probe_loop", "kt.probe_key", "kt.probe_default", "validate.list_matches_re", "validate.matches_re", "validate.type", "validate.type_rec")
prop("C08", "info.process_common", "info.provider.post_init", "json.process", "json.aot", "pyproject.aot", "dist.read", "dist.label")
prop("C09", "json.to_str", "json.providers_dict", "info.process_common", "json.process", "json.init", "pyproject.process", "pyproject.read", "variant.to_dict", "variant.from_dict", "variant.feature.serialize", "variant.property.serialize", "variant.description.serialize",
     "variant.feature.deserialize", "variant.property.deserialize", "variant.description.deserialize")
prop("C10", "info.copy_as_kwargs", "json.from_info", "dist.from_info", "pyproject.from_info", "share.copy", "share.convert")
prop("C11", "json.merge", "json.providers_dict")
prop("C14", "info.provider_requires", "plugins.plugin_load", "plugins.plugin_init", "plugins.plugin_all_configs", "plugins.ep_load", "plugins.list_init", "plugins.list_load",
     "info.provider.object_reference")
prop("C18", "filter.property", "variant.feature.hash", "variant.property.hash", "variant.property.feature_object")
prop("C19", "filter.duplicates", "filter.namespaces", "filter.features", "lib.filter_variants", "variant.property.feature_object")
prop("C20", "lib.pipeline", "filter.namespaces", "filter.features", "filter.property", "filter.duplicates", "sort.descriptions")
prop("C21", "sort.rank.property", "sort.rank.feature", "sort.rank.namespace", "sort.properties", "sort.descriptions", "lib.pipeline")
prop("C22", "lib.pipeline", "lib.filter_variants", "lib.inject_abi", "filter.duplicates", "filter.namespaces", "filter.features", "filter.property",
     "sort.properties", "sort.descriptions", "agg.namespaces", "agg.features", "agg.properties", "api.by_priority", "api.supported", "share.arguments")
prop("C23", "agg.namespaces", "agg.features", "agg.properties", "agg.namespaces3", "agg.features3", "agg.properties3")
prop("C24", "api.by_priority", "api.supported", "lib.pipeline", "provider.to_properties")
prop("C25", "api.validate", "variant.is_valid", "variant.invalid", "variant.unknown")
prop("C26", "api.dist_info", "dist.from_info", "dist.set_label", "dist.set_desc", "json.to_str", "info.copy_as_kwargs")
prop("C30", "config.files", "config.order", "config.from_file", "config.get", "config.reset", "config.namespace_priorities", "config.feature_priorities",
     "config.property_priorities", "configmodel.init", "configmodel.default", "configmodel.from_toml", "configmodel.to_dict", "validate.list_matches_re",
     "validate.type", "validate.type_rec", "validate.and")
prop("C32", "api.environment", "variant.property.to_str", "variant.feature.to_str", "variant.property.feature_object")
prop("C34", "lib.inject_abi")
prop("C06", "names.wheel", "names.wheel_parts", "names.label", "commands.make", "commands.unmake")
prop("C12", "commands.index", "commands.add", "json.merge", "dist.read", "dist.label", "names.wheel_parts")
prop("C13", "child.only", "child.files", "child.run", "plugins.init", "plugins.enter", "plugins.exit", "plugins.load", "plugins.call")
prop("C15", "child.load", "child.configs", "child.run", "child.required", "plugins.load", "plugins.configs", "plugins.all_configs", "plugins.supported_configs",
     "plugins.plugin_all_configs", "provider.feature_config.init", "provider.config.init")
prop("C16", "plugins.call", "plugins.init", "plugins.configs")
prop("C17", "child.main", "child.run", "child.configs", "child.load", "plugins.load", "plugins.configs", "plugins.call", "plugins.api_values", "plugins.namespaces",
     "names.plugin_ref", "info.provider.object_reference")
prop("C27", "commands.make", "commands.make.cli", "api.validate", "variant.is_valid", "api.label")
prop("C28", "commands.make", "names.wheel_parts")
prop("C29", "commands.unmake", "commands.unmake.cli", "names.wheel", "names.wheel_parts")
prop("C33", "commands.main", "commands.config", "commands.plugins", "commands.registered", "commands.entry_points")
prop("C36", "commands.hash", "commands.analyze_wheel", "commands.analyze_platform", "commands.list_paths", "commands.show", "commands.list_plugins", "commands.plugin_configs",
     "config.files", "plugins.namespaces")
prop("C31", "order.flow", "variant.description.init", "json.to_str")
prop("C35", "commands.update", "plugins.load", "plugins.ep_load", "plugins.api_values", "plugins.packages")
prop("C37", *["defaults." + x for x in (
    "by_priority", "validate", "dist_info", "supported", "environment", "label", "requires", "by_property", "filter", "resolve", "sort", "loader", "list_loader",
    "entry_point_loader", "supported_configs", "is_valid", "unique", "expected_label", "config", "provider", "info")])
