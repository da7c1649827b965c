"""Conversion of old settings modules (reference definitions)."""
import configparser

import config
import toml


def old_value(module, name):
    """A missing or empty setting becomes 0 (TOML has no empty value)."""
    v = module.__getattr__(name)
    return 0 if v is None else v


def tables(module, parameters, key_pairs):
    for table, names in key_pairs.items():
        parameters[table] = {name: old_value(module, name) for name in names}
    return parameters


def outputs():
    f = configparser.ConfigParser()
    f.read("./cosipy/output")
    return {"output_atm": f["vars"]["atm"], "output_internal": f["vars"]["internal"], "output_full": f["vars"]["full"]}


def prefix(name):
    """The output name without its date, or without its ending."""
    return "_".join(name.split("_" if "_" in name else ".")[:-1])


def special():
    """Settings with another name or place."""
    return {"FILENAMES": {"output_prefix": prefix(config.output_netcdf)}, "OUTPUT_VARIABLES": outputs()}


def written(parameters, filename):
    with open(f"{filename}.toml", "w") as f:
        toml.dump(parameters, f)


def settings():
    return None


def constants():
    return None


def utilities():
    return None


def program():
    written(settings(), "config")
    written(constants(), "constants")
    written(utilities(), "utilities_config")
