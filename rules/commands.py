from sa.check import equiv
from sa.effects import normal
from sa.terms import FALSE, NONE, STR, TRUE, const, ty

C = "variantlib.commands."
A = "variantlib.api."
L = "variantlib.plugins.loader."
DIST = "variantlib.variant_dist_info.VariantDistInfo"
JSON = "variantlib.variants_json.VariantsJson"
MAKE = C + "make_variant._make_variant"
UNMAKE = C + "unmake_variant._unmake_variant"
W = ("value", "raises", "fx", "fxraise")
IO = normal()


def error(e):
    # what an external program or library call fails with passes through
    return None if e == "subprocess.CalledProcessError" else "error"


BUILD = {"opaque": {A + "validate_variant", A + "make_variant_dist_info", A + "get_variant_label",
                    "variantlib.models.variant_info.VariantInfo.get_provider_requires"}}
PY = {"variantlib.pyproject_toml.VariantPyProjectToml.from_path"}
equiv("commands.make.cli", C + "make_variant.make_variant", "commands.make_variant", W, cfg={"effects": {MAKE}, "opaque": PY}, fx_keep=normal({MAKE}))
ENVS = [{2: FALSE, 4: TRUE, 7: TRUE, 6: i} for i in (NONE, const("pip"), const("uv"))]
equiv("commands.make", MAKE, "commands.make", W, cfg=BUILD, fx_keep=IO, raise_map=error, private=True,
      splits=[{2: TRUE}, {2: FALSE, 4: FALSE}, {2: FALSE, 4: TRUE, 7: FALSE}, *ENVS])
equiv("commands.unmake.cli", C + "unmake_variant.unmake_variant", "commands.unmake_variant", W, cfg={"effects": {UNMAKE}}, fx_keep=normal({UNMAKE}))
equiv("commands.unmake", UNMAKE, "commands.unmake", W, fx_keep=IO, raise_map=error, private=True)
MERGE = JSON + ".merge"
META = {"opaque": {DIST, JSON, A + "get_variant_label"}, "effects": {MERGE}}
equiv("commands.index", C + "generate_index_json.generate_index_json", "commands.generate_index", W, cfg=META, fx_keep=normal({"m:merge", MERGE}), raise_map=error)
equiv("commands.add", C + "add_wheel_to_index_json.add_wheel_to_index_json", "commands.add_wheel", W, cfg=META, fx_keep=normal({"m:merge", MERGE}), raise_map=error)
equiv("commands.analyze_wheel", C + "analyze_wheel.analyze_wheel", "commands.analyze_wheel", W, cfg=META, fx_keep=IO, raise_map=error)
equiv("commands.hash", C + "get_variant_hash.get_variant_hash", "commands.variant_hash", W, fx_keep=IO)
LOAD = {"effects": {L + "BasePluginLoader.__enter__", L + "BasePluginLoader.__exit__"},
        "opaque": {L + "EntryPointPluginLoader", L + "BasePluginLoader.namespaces", L + "BasePluginLoader.plugin_api_values"}}
equiv("commands.main", C + "main.main", "commands.dispatch", W, fx_keep=IO)
equiv("commands.config", C + "config.main.main", "commands.dispatch_config", W, fx_keep=IO)
equiv("commands.plugins", C + "plugins.main.main", "commands.dispatch_plugins", W, cfg=LOAD, fx_keep=IO)
equiv("commands.registered", C + "utils.get_registered_commands", "commands.registered")
equiv("commands.list_plugins", C + "plugins.list_plugins.list_plugins", "commands.list_plugins", W, cfg=LOAD, fx_keep=IO)
equiv("commands.plugin_configs", C + "plugins.get_configs.get_configs", "commands.plugin_configs", W, cfg=LOAD, fx_keep=IO)
CONF = {"opaque": {"variantlib.configuration.VariantConfiguration.get_config", "variantlib.configuration.VariantConfiguration.get_config_file",
                   "variantlib.configuration.VariantConfiguration.get_config_from_file", "variantlib.configuration.get_configuration_files"}}
equiv("commands.show", C + "config.show.show", "commands.show_config", W, cfg=CONF, fx_keep=normal({"m:add", "setitem", "m:extend", "m:append"}))
equiv("commands.update", C + "update_pyproject_toml.update_pyproject_toml", "commands.update", W, cfg=LOAD,
      fx_keep=normal({"setitem", "setdefault", "m:remove", "m:append", "item-del", "m:setdefault"}), raise_map=error)
equiv("commands.analyze_platform", C + "analyze_platform.analyze_platform", "commands.analyze_platform", W,
      cfg={"effects": LOAD["effects"], "opaque": {L + "EntryPointPluginLoader", L + "BasePluginLoader.get_supported_configs", "variantlib.models.provider.ProviderConfig.pretty_print"}},
      fx_keep=IO)
equiv("commands.list_paths", C + "config.list_paths.list_paths", "commands.list_paths", W, cfg=CONF, fx_keep=IO)
