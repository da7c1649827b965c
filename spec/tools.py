"""Settings shared by the tools (reference definitions)."""
import argparse
import pathlib
import tomllib
from collections import namedtuple


def raw(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def settings(cls, config_table):
    """The tables of each tool become its attributes."""
    for tool, tables in config_table.items():
        setattr(cls, tool, namedtuple(tool, tables.keys())(**tables))


def loaded(cls, path):
    settings(cls, raw(path))


def expansion(self, name):
    return getattr(self, name)


def parser(cls):
    p = argparse.ArgumentParser()
    p.add_argument("-u", "--utilities", default=pathlib.Path("./utilities_config.toml"), dest="utilities_path",
                   type=pathlib.Path)
    return p


def tool_settings(module_name):
    """The settings file named on the command line, the table of the tool."""
    from cosipy.utilities.config_utils import UtilitiesConfig
    p = UtilitiesConfig()
    a = options(p.parser)
    p.load(a.utilities_path)
    return a, p.get_config_expansion(module_name)


def options(parser):
    return None
