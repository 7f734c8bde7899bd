"""Reference semantics of the command line tools (parsed, never executed)."""
import argparse
import base64
import dataclasses
import hashlib
import json
import sys
import zipfile
from contextlib import suppress
from datetime import datetime
from importlib.metadata import entry_points
from pathlib import Path
from subprocess import CalledProcessError

import tomlkit
from build.env import DefaultIsolatedEnv
from tomlkit.toml_file import TOMLFile

from variantlib.api import get_variant_label
from variantlib.api import make_variant_dist_info
from variantlib.api import validate_variant
from variantlib.commands.config.list_paths import get_localzone
from variantlib.commands.config.show import multiline_array
from variantlib.commands.make_variant import _make_variant as run_make
from variantlib.commands.unmake_variant import _unmake_variant as run_unmake
from variantlib.configuration import ConfigEnvironments
from variantlib.configuration import VariantConfiguration
from variantlib.configuration import get_configuration_files
from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription
from variantlib.models.variant import VariantProperty
from variantlib.plugins.loader import BasePluginLoader
from variantlib.plugins.loader import EntryPointPluginLoader
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson


# ------------------------------------------------------------------ building
def make_variant(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-f", "--file", dest="input", type=Path, required=True)
    parser.add_argument("-o", "--output-directory", type=Path, required=True)
    parser.add_argument("--no-isolation", action="store_true")
    parser.add_argument("--installer", choices=("pip", "uv"))
    one = parser.add_mutually_exclusive_group(required=True)
    one.add_argument("-p", "--property", dest="properties", type=VariantProperty.from_str, action="extend", nargs="+", default=[])
    one.add_argument("--null-variant", action="store_true")
    parser.add_argument("--skip-plugin-validation", action="store_true")
    parser.add_argument("--pyproject-toml", type=Path, default="./pyproject.toml")
    parser.add_argument("--variant-label")
    o = parser.parse_args(args)
    if o.variant_label is not None:
        if o.null_variant or o.variant_label == "null" or VALIDATION_VARIANT_LABEL_REGEX.fullmatch(o.variant_label) is None:
            parser.error("label")
    try:
        info = VariantPyProjectToml.from_path(o.pyproject_toml)
    except FileNotFoundError:
        parser.error("file")
    run_make(o.input, o.output_directory, is_null_variant=o.null_variant, properties=o.properties,
             validate_properties=not o.skip_plugin_validation, variant_info=info, installer=o.installer,
             use_isolation=not o.no_isolation, variant_label=o.variant_label)


def make(wheel: Path, directory: Path, null: bool, properties: list[VariantProperty], validate: bool, info: VariantPyProjectToml,
         installer: str | None, isolate: bool, label: str | None):
    if not wheel.is_file():
        raise FileNotFoundError
    if not directory.is_dir():
        raise FileNotFoundError
    name = VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)
    if name is None:
        raise ValueError
    if null:
        vdesc = VariantDescription()
        document = make_variant_dist_info(vdesc, variant_info=info, variant_label=get_variant_label(vdesc, label))
    else:
        vdesc = VariantDescription(properties)
        if not validate:
            document = make_variant_dist_info(vdesc, variant_info=info, variant_label=get_variant_label(vdesc, label))
        else:
            python = None
            if isolate:
                if installer is None:
                    manager = DefaultIsolatedEnv()
                elif installer == "pip":
                    manager = DefaultIsolatedEnv(installer="pip")
                elif installer == "uv":
                    manager = DefaultIsolatedEnv(installer="uv")
                else:
                    raise ValueError
                with manager as env:
                    try:
                        env.install(info.get_provider_requires({p.namespace for p in vdesc.properties}))
                    except CalledProcessError:
                        raise
                    python = env.python_executable
            verdict = validate_variant(vdesc, variant_info=info, venv_python_executable=python)
            if verdict.invalid_properties:
                raise ValidationError
            if verdict.unknown_properties:
                raise ValidationError
            if verdict.multi_value_violations:
                raise ValidationError
            document = make_variant_dist_info(vdesc, variant_info=info, variant_label=get_variant_label(vdesc, label),
                                              venv_python_executable=python)
    output = directory / f"{name.group('base_wheel_name')}-{get_variant_label(vdesc, label)}.whl"
    if output.exists() and output.samefile(wheel):
        raise FileExistsError
    with zipfile.ZipFile(wheel, "r") as source, zipfile.ZipFile(output, "w") as result:
        for entry in source.infolist():
            parts = entry.filename.split("/", 2)
            ours = len(parts) == 2 and parts[0].endswith(".dist-info")
            if ours and parts[1] == "variant.json":
                continue
            with source.open(entry, "r") as old:
                if not (ours and parts[1] == "RECORD"):
                    with result.open(entry, "w") as new:
                        new.write(old.read())
                    continue
                path = f"{parts[0]}/variant.json"
                result.writestr(path, document)
                with result.open(entry, "w") as new:
                    for row in old:
                        if row.rsplit(b",", 2)[0].decode("utf-8") != path:
                            new.write(row if row.endswith(b"\n") else row + b"\n")
                    digest = base64.urlsafe_b64encode(hashlib.sha256(document.encode("utf8")).digest()).rstrip(b"=")
                    new.write(f"{path},sha256={digest.decode()},{len(document)}\n".encode())


def unmake_variant(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-f", "--file", dest="input", type=Path, required=True)
    parser.add_argument("-o", "--output-directory", type=Path, required=True)
    o = parser.parse_args(args)
    run_unmake(o.input, o.output_directory)


def unmake(wheel: Path, directory: Path):
    if not wheel.is_file():
        raise FileNotFoundError
    if not directory.is_dir():
        raise FileNotFoundError
    name = VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)
    if name is None:
        raise TypeError
    if name.group("variant_label") is None:
        return
    output = directory / f"{name.group('base_wheel_name')}.whl"
    with zipfile.ZipFile(wheel, "r") as source, zipfile.ZipFile(output, "w") as result:
        for entry in source.infolist():
            parts = entry.filename.split("/", 2)
            ours = len(parts) == 2 and parts[0].endswith(".dist-info")
            if ours and parts[1] == "variant.json":
                continue
            with source.open(entry, "r") as old, result.open(entry, "w") as new:
                if ours and parts[1] == "RECORD":
                    for row in old:
                        if row.rsplit(b",", 2)[0] != f"{parts[0]}/variant.json".encode():
                            new.write(row)
                else:
                    new.write(old.read())


# ------------------------------------------------------------------- indices
def generate_index(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-d", "--directory", type=Path, required=True)
    o = parser.parse_args(args)
    if not o.directory.exists():
        raise FileNotFoundError
    if not o.directory.is_dir():
        raise NotADirectoryError
    indices = {}
    for wheel in sorted(o.directory.glob("*.whl")):
        name = VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)
        if name is None or name.group("variant_label") is None:
            continue
        try:
            with zipfile.ZipFile(wheel, "r") as archive:
                for entry in archive.namelist():
                    parts = entry.split("/", 2)
                    if len(parts) == 2 and parts[0].endswith(".dist-info") and parts[1] == "variant.json":
                        metadata = VariantDistInfo(archive.read(entry), name.group("variant_label"))
                        break
                else:
                    continue
        except ValidationError:
            continue
        key = name.group("namever")
        if (index := indices.get(key)) is None:
            indices[key] = metadata
        else:
            with suppress(ValidationError):
                index.merge(metadata)
    for key, index in indices.items():
        (o.directory / f"{key}-variants.json").write_text(index.to_str())


def add_wheel(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-f", "--wheel-file", type=Path, required=True)
    parser.add_argument("-i", "--input-json-file", type=Path)
    parser.add_argument("-o", "--output-directory", type=Path, required=True)
    parser.add_argument("-w", "--overwrite", action="store_true")
    o = parser.parse_args(args)
    wheel = o.wheel_file
    if not wheel.exists() or not wheel.is_file():
        raise FileNotFoundError
    old = o.input_json_file
    if old is not None and (not old.exists() or not old.is_file()):
        raise FileNotFoundError
    if not o.output_directory.exists() or not o.output_directory.is_dir():
        raise FileExistsError
    name = VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)
    if name is None or name.group("variant_label") is None:
        raise ValidationError
    index = None
    if old is not None:
        with old.open(mode="r") as f:
            index = VariantsJson(json.load(f))
    with zipfile.ZipFile(wheel, "r") as archive:
        for entry in archive.namelist():
            parts = entry.split("/", 2)
            if len(parts) == 2 and parts[0].endswith(".dist-info") and parts[1] == "variant.json":
                metadata = VariantDistInfo(archive.read(entry), name.group("variant_label"))
                break
        else:
            raise FileNotFoundError
    if index is None:
        index = metadata
    else:
        index.merge(metadata)
    output = o.output_directory / f"{name.group('namever')}-variants.json"
    if output.exists() and not o.overwrite:
        raise FileExistsError
    output.write_text(index.to_str())


# ------------------------------------------------------------------ analysis
def analyze_wheel(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-i", "--input_file", type=Path, required=True)
    o = parser.parse_args(args)
    wheel = o.input_file
    if not wheel.exists():
        raise FileNotFoundError
    if wheel.suffix != ".whl":
        raise TypeError
    name = VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)
    if name is None:
        raise TypeError
    if name.group("variant_label") is None:
        return
    with zipfile.ZipFile(wheel, "r") as archive:
        for entry in archive.namelist():
            parts = entry.split("/", 2)
            if len(parts) == 2 and parts[0].endswith(".dist-info") and parts[1] == "variant.json":
                metadata = VariantDistInfo(archive.read(entry), name.group("variant_label"))
                break
        else:
            raise ValueError
        text = f"############################## Variant: `{get_variant_label(metadata.variant_desc)}` #############################"
        for p in metadata.variant_desc.properties:
            text += f"\n{p.to_str()}"
        text += "\n################################################################################\n"
        for line in text.splitlines():
            sys.stdout.write(f"{line}\n")


def variant_hash(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-p", "--property", dest="properties", type=VariantProperty.from_str, action="extend", nargs="+", default=[])
    o = parser.parse_args(args)
    print(VariantDescription(o.properties).hexdigest)


# ------------------------------------------------------------------ dispatch
def dispatch(args: list[str] | None):
    commands = {}
    for ep in entry_points().select(group="variantlib.actions"):
        commands[ep.name] = ep
    parser = argparse.ArgumentParser()
    parser.add_argument("-v", "--version", action="version")
    parser.add_argument("command", choices=sorted(commands))
    parser.add_argument("args", nargs=argparse.REMAINDER)
    o = parser.parse_args(args)
    commands[o.command].load()(o.args)


def dispatch_config(args: list[str]):
    commands = {}
    for ep in entry_points().select(group="variantlib.actions.config"):
        commands[ep.name] = ep
    parser = argparse.ArgumentParser()
    parser.add_argument("command", choices=sorted(commands))
    parser.add_argument("args", nargs=argparse.REMAINDER)
    o = parser.parse_args(args)
    commands[o.command].load()(o.args)


def dispatch_plugins(args: list[str]):
    commands = {}
    for ep in entry_points().select(group="variantlib.actions.plugins"):
        commands[ep.name] = ep
    parser = argparse.ArgumentParser()
    parser.add_argument("command", choices=sorted(commands))
    parser.add_argument("args", nargs=argparse.REMAINDER)
    o = parser.parse_args(args)
    with EntryPointPluginLoader() as loader:
        commands[o.command].load()(o.args, plugin_loader=loader)


def registered(group: str):
    commands = {}
    for ep in entry_points().select(group=group):
        commands[ep.name] = ep
    return commands


def list_plugins(args: list[str], plugin_loader: BasePluginLoader):
    for namespace in plugin_loader.namespaces:
        print(namespace)


def plugin_configs(args: list[str], plugin_loader: BasePluginLoader):
    parser = argparse.ArgumentParser()
    which = parser.add_mutually_exclusive_group(required=True)
    which.add_argument("-a", "--all", action="store_const", dest="method", const="get_all_configs")
    which.add_argument("-s", "--supported", action="store_const", dest="method", const="get_supported_configs")
    parser.add_argument("-n", "--namespace")
    parser.add_argument("-f", "--feature")
    o = parser.parse_args(args)
    output = {}
    for provider in getattr(plugin_loader, o.method)().values():
        if o.namespace is None or o.namespace == provider.namespace:
            output[provider.namespace] = [dataclasses.asdict(f) for f in provider.configs if o.feature is None or o.feature == f.name]
    json.dump(output, sys.stdout, indent=2)


# ------------------------------------------------------------- configuration
def show_config(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("environment", nargs="?", choices=[x.name for x in ConfigEnvironments])
    o = parser.parse_args(args)
    path = None
    if o.environment is None:
        with suppress(FileNotFoundError):
            path = VariantConfiguration.get_config_file()
        config = VariantConfiguration.get_config()
    else:
        path = get_configuration_files()[getattr(ConfigEnvironments, o.environment)]
        if not path.exists():
            raise FileNotFoundError
        config = VariantConfiguration.get_config_from_file(path)
    doc = tomlkit.document()
    doc.add(tomlkit.comment(f"This file has been sourced from: `{path}`"))
    doc.add(tomlkit.nl())
    doc["namespace_priorities"] = multiline_array(config.namespace_priorities)
    for ns, features in config.feature_priorities.items():
        doc.add(tomlkit.nl())
        doc[tomlkit.key(["feature_priorities", ns])] = multiline_array(features)
    for ns, table in config.property_priorities.items():
        for feature, values in table.items():
            doc.add(tomlkit.nl())
            doc[tomlkit.key(["property_priorities", ns, feature])] = multiline_array(values)
    tomlkit.dump(doc, sys.stdout)


# -------------------------------------------------------------- project file
def update(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-f", "--file", type=Path, default="./pyproject.toml")
    parser.add_argument("-a", "--add", action="extend", nargs="+", default=[])
    parser.add_argument("-d", "--delete", action="extend", nargs="+", default=[])
    o = parser.parse_args(args)
    if not o.add and not o.delete:
        parser.error("nothing to do")
    f = TOMLFile(o.file)
    try:
        data = f.read()
    except FileNotFoundError:
        parser.error("missing")
    variant = data.setdefault("variant", {})
    namespaces = variant.setdefault("default-priorities", {}).setdefault("namespace", [])
    providers = variant.setdefault("providers", {})
    with EntryPointPluginLoader() as loader:
        for ns in o.delete:
            while ns in namespaces:
                namespaces.remove(ns)
            if ns in providers:
                del providers[ns]
        for ns in o.add:
            if ns not in loader.namespaces:
                raise RuntimeError
            if ns not in namespaces:
                namespaces.append(ns)
            table = providers.setdefault(ns, {})
            ref = loader.plugin_api_values[ns]
            table["plugin-api"] = ref
            requires = []
            dist = loader.plugin_provider_packages.get(ref)
            if dist is not None:
                requires.append(f"{dist.name} >={dist.version}")
            table.setdefault("requires", requires)
    f.write(data)
    sys.stdout.write(f"Wrote changes to {o.file}\n")


# ----------------------------------------------------------------- reporting
def analyze_platform(args: list[str]):
    argparse.ArgumentParser().parse_args(args)
    with EntryPointPluginLoader() as loader:
        for provider in loader.get_supported_configs().values():
            for line in provider.pretty_print().splitlines():
                sys.stdout.write(f"{line}\n")


def list_paths(args: list[str]):
    parser = argparse.ArgumentParser()
    parser.add_argument("-v", "--verbose", action="store_true")
    o = parser.parse_args(args)
    for place, path in get_configuration_files().items():
        details = ""
        if o.verbose:
            try:
                found = path.stat()
                details = f" ({found.st_size} bytes, last modified: {datetime.fromtimestamp(found.st_mtime, tz=get_localzone())})"
            except FileNotFoundError:
                details = " (not found)"
        sys.stdout.write(f"{place.name}: {path}{details}\n")
