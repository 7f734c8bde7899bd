from sa.check import equiv
from sa.terms import NONE, STR, ty

M = "variantlib.plugins.loader."
B = M + "BasePluginLoader."
CUT = {B + "_run_call_subprocess", B + "_call_subprocess", B + "_load_all_plugins_from_tuple", B + "_get_configs", B + "_load_all_plugins"}
W = ("value", "raises", "heap", "fx")


def cut(*names, **kw):
    return dict(effects={B + n for n in names}, **kw)


equiv("plugins.init", B + "__init__", "plugins.base_init", W)
equiv("plugins.enter", B + "__enter__", "plugins.enter", (*W, "fxraise"), cfg=cut("_load_all_plugins"))
equiv("plugins.exit", B + "__exit__", "plugins.leave", W)
equiv("plugins.call", B + "_call_subprocess", "plugins.call", (*W, "fxraise"), cfg=cut("_run_call_subprocess"), private=True)
equiv("plugins.load", B + "_load_all_plugins_from_tuple", "plugins.load", (*W, "fxraise", "refused:_namespace_map"), cfg=cut("_call_subprocess"), private=True)
equiv("plugins.configs", B + "_get_configs", "plugins.get_configs", W, cfg=cut("_call_subprocess"), private=True)
equiv("plugins.all_configs", B + "get_all_configs", "plugins.get_all_configs", W, cfg=cut("_get_configs"))
equiv("plugins.supported_configs", B + "get_supported_configs", "plugins.get_supported_configs", W, cfg=cut("_get_configs"))
equiv("plugins.api_values", B + "plugin_api_values", "plugins.plugin_api_values", W)
equiv("plugins.namespaces", B + "namespaces", "plugins.namespaces", W)
equiv("plugins.plugin_init", M + "PluginLoader.__init__", "plugins.plugin_init", W)
equiv("plugins.plugin_load", "spec.plugins.drive_plugin_load", "plugins.plugin_load", W, anchor=M + "PluginLoader._load_all_plugins",
      cfg=cut("_load_all_plugins_from_tuple", opaque={"variantlib.models.variant_info.ProviderInfo.object_reference"}, inline_ctor={M + "PluginLoader"}),
      splits=[{2: o, 3: q} for o in (ty("bool"), ty("list", STR)) for q in (NONE, ty("list", STR))])
equiv("plugins.plugin_all_configs", M + "PluginLoader.get_all_configs", "plugins.plugin_all_configs", W, cfg=cut("_get_configs"))
equiv("plugins.ep_load", M + "EntryPointPluginLoader._load_all_plugins", "plugins.ep_load", W, cfg=cut("_load_all_plugins_from_tuple"), private=True)
equiv("plugins.packages", M + "EntryPointPluginLoader.plugin_provider_packages", "plugins.packages", W)
equiv("plugins.list_init", M + "ListPluginLoader.__init__", "plugins.list_init", W)
equiv("plugins.list_load", M + "ListPluginLoader._load_all_plugins", "plugins.list_load", W, cfg=cut("_load_all_plugins_from_tuple"), private=True)
