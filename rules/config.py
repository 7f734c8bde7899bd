from sa.check import equiv

M = "variantlib.configuration."
C = M + "VariantConfiguration."
OP = {"opaque": {M + "get_configuration_files", C + "get_config_file", C + "get_config_from_file", C + "get_config",
                 "variantlib.models.configuration.VariantConfiguration.from_toml_config",
                 "variantlib.models.configuration.VariantConfiguration.default"}}

equiv("config.files", M + "get_configuration_files", "config.get_configuration_files")
equiv("config.order", C + "get_config_file", "config.first_existing", cfg={"opaque": OP["opaque"] - {M + "get_configuration_files", C + "get_config_file"}})
equiv("config.from_file", C + "get_config_from_file", "config.get_config_from_file", cfg=OP)
equiv("config.get", C + "get_config", "config.get_config", cfg=OP)
equiv("config.reset", C + "reset", "config.reset", ("heap", "raises"), cfg=OP)
for n in ("namespace_priorities", "feature_priorities", "property_priorities"):
    equiv("config." + n, C + n, "config." + n, ("value", "heap"), cfg=OP)
