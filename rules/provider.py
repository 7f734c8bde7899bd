from sa.check import equiv

from ._kt import CHECKED

P = "variantlib.models.provider."
C = "variantlib.models.configuration.VariantConfiguration"
CH = {"models": CHECKED}

equiv("provider.feature_config.init", P + "VariantFeatureConfig.__post_init__", "provider.feature_config_init", ("raises", "heap"),
      cfg=CH, self_type=P + "VariantFeatureConfig")
equiv("provider.config.init", P + "ProviderConfig.__post_init__", "provider.provider_config_init", ("raises", "heap"), cfg=CH,
      self_type=P + "ProviderConfig")
equiv("provider.to_properties", P + "ProviderConfig.to_list_of_properties", "provider.to_list_of_properties")
equiv("configmodel.init", C + ".__post_init__", "provider.configuration_init", ("raises", "heap"), cfg=CH, self_type=C)
equiv("configmodel.default", C + ".default", "provider.configuration_default")
equiv("configmodel.from_toml", C + ".from_toml_config", "provider.from_toml_config")
equiv("configmodel.to_dict", C + ".to_dict", "provider.configuration_to_dict")
