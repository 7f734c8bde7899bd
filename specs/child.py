"""Reference semantics of the process that runs the plugins, and of starting it (parsed, never executed)."""
import argparse
import importlib
import json
import subprocess
import sys
from functools import reduce
from pathlib import Path
from tempfile import TemporaryDirectory

from variantlib.errors import PluginError
from variantlib.plugins._subprocess import load_plugins as load
from variantlib.plugins._subprocess import process_configs as convert
from variantlib.plugins.loader import BasePluginLoader
from variantlib.protocols import PluginType
from variantlib.protocols import VariantFeatureConfigType
from variantlib.validators.base import ValidationError
from variantlib.validators.base import validate_type


def run(self: BasePluginLoader, plugin_apis: tuple[str], commands: bytes, args: tuple[str]):
    with TemporaryDirectory() as directory:
        script = Path(directory) / "loader.py"
        command = [self._python_executable, script]
        for a in args:
            command.append(a)
        for p in plugin_apis:
            command.append("--plugin-api")
            command.append(p)
        process = subprocess.run(command, input=commands, capture_output=True)
        if process.returncode != 0:
            raise PluginError
        return json.loads(process.stdout)


def load_plugins(plugin_apis: list[str]):
    for ref in plugin_apis:
        name, _, path = ref.partition(":")
        try:
            plugin = importlib.import_module(name)
            plugin = reduce(getattr, path.split(".") if path else [], plugin)
        except Exception:
            raise RuntimeError from None
        if PluginType.__abstractmethods__.difference(dir(plugin)):
            raise TypeError
        yield plugin


def process_configs(configs: list[VariantFeatureConfigType], plugin: PluginType, method: str):
    try:
        validate_type(configs, list[VariantFeatureConfigType])
    except ValidationError:
        raise TypeError from None
    return [{"name": f.name, "values": f.values, "multi_value": f.multi_value} for f in configs]


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--plugin-api", action="append", required=True)
    parser.add_argument("--require-fixed", action="store_true")
    o = parser.parse_args()
    commands = json.load(sys.stdin)
    plugins = {}
    for ref, plugin in zip(o.plugin_api, load(o.plugin_api)):
        plugins[ref] = plugin
    if o.require_fixed:
        for plugin in plugins.values():
            if not getattr(plugin, "is_aot_plugin", False):
                raise TypeError
    answer = {}
    for command in commands:
        if command == "namespaces":
            answer[command] = {ref: plugin.namespace for ref, plugin in plugins.items()}
        elif command == "get_all_configs":
            answer[command] = {ref: convert(plugin.get_all_configs(), plugin, "get_all_configs") for ref, plugin in plugins.items()}
        elif command == "get_supported_configs":
            answer[command] = {ref: convert(plugin.get_supported_configs(), plugin, "get_supported_configs") for ref, plugin in plugins.items()}
        else:
            raise ValueError
    json.dump(answer, sys.stdout)
    return 0
