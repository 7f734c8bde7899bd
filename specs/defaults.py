"""What the fields of metadata objects are when they are not given."""
from variantlib.models.variant_info import ProviderInfo
from variantlib.models.variant_info import VariantInfo


def some_provider(requires: list[str], plugin_api: str | None):
    return ProviderInfo(requires=requires, plugin_api=plugin_api), ProviderInfo(requires=requires), ProviderInfo(plugin_api=plugin_api, install_time=False)


def provider(requires: list[str], plugin_api: str | None):
    return (
        ProviderInfo(plugin_api=plugin_api, enable_if=None, install_time=True, optional=False, requires=requires),
        ProviderInfo(plugin_api=None, enable_if=None, install_time=True, optional=False, requires=requires),
        ProviderInfo(plugin_api=plugin_api, enable_if=None, install_time=False, optional=False, requires=[]),
    )


def some_info():
    return VariantInfo()


def info():
    return VariantInfo(namespace_priorities=[], feature_priorities={}, property_priorities={}, providers={}, static_properties={})
