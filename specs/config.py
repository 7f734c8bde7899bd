"""Reference semantics of the configuration lookup (parsed, never executed)."""
import sys
import tomllib
from pathlib import Path

import platformdirs

from variantlib.configuration import ConfigEnvironments
from variantlib.configuration import ConfigurationModel
from variantlib.configuration import get_configuration_files
from variantlib.configuration import VariantConfiguration
from variantlib.errors import ConfigurationError


def get_configuration_files():  # noqa: F811
    return {
        ConfigEnvironments.LOCAL: Path.cwd() / "variants.toml",
        ConfigEnvironments.VIRTUALENV: Path(sys.prefix) / "variants.toml",
        ConfigEnvironments.USER: platformdirs.user_config_path("variantlib", appauthor=False, roaming=True) / "variants.toml",
        ConfigEnvironments.GLOBAL: platformdirs.site_config_path("variantlib", appauthor=False) / "variants.toml",
    }


def first_existing(cls):
    local = Path.cwd() / "variants.toml"
    if local.exists():
        return local
    venv = Path(sys.prefix) / "variants.toml"
    if venv.exists():
        return venv
    user = platformdirs.user_config_path("variantlib", appauthor=False, roaming=True) / "variants.toml"
    if user.exists():
        return user
    site = platformdirs.site_config_path("variantlib", appauthor=False) / "variants.toml"
    if site.exists():
        return site
    raise FileNotFoundError


def get_config_from_file(cls, config_file: Path):
    with config_file.open("rb") as f:
        try:
            data = tomllib.load(f)
        except tomllib.TOMLDecodeError:
            raise ConfigurationError
    try:
        return ConfigurationModel.from_toml_config(**data)
    except Exception:
        raise RuntimeError


def get_config(cls):
    try:
        return cls.get_config_from_file(cls.get_config_file())
    except FileNotFoundError:
        return ConfigurationModel.default()


def reset(cls):
    cls._config = None


def namespace_priorities(cls):
    if cls._config is None:
        cls._config = cls.get_config()
    return cls._config.namespace_priorities


def feature_priorities(cls):
    if cls._config is None:
        cls._config = cls.get_config()
    return cls._config.feature_priorities


def property_priorities(cls):
    if cls._config is None:
        cls._config = cls.get_config()
    return cls._config.property_priorities
