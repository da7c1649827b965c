"""Reading the configuration files (reference definitions)."""
import argparse
import os
import pathlib
import tomllib

from cosipy.config import Config, SlurmConfig, get_user_arguments
from cosipy.constants import Constants


def configured(cls, config_table):
    """WRF input uses WRF dimensions, coupled runs keep the layer fields, zero workers means all."""
    if config_table["DIMENSIONS"]["WRF"]:
        config_table["DIMENSIONS"]["northing"] = "south_north"
        config_table["DIMENSIONS"]["easting"] = "west_east"
    if config_table["DIMENSIONS"]["WRF_X_CSPY"]:
        config_table["FULL_FIELDS"]["full_field"] = True
    if config_table["PARALLELIZATION"]["workers"] == 0:
        config_table["PARALLELIZATION"]["workers"] = None
    return config_table


def parameters(cls, config_table):
    """Coupled runs use one albedo and one stability method."""
    if Config.WRF_X_CSPY:
        config_table["PARAMETERIZATIONS"]["albedo_method"] = "Oerlemans98"
        config_table["PARAMETERIZATIONS"]["stability_correction"] = "MO"
    return config_table


def cluster(cls, config_table):
    """Memory of a job is the memory per process times the number of cores, where given."""
    m = config_table["OVERRIDES"]["memory_per_process"]
    if m:
        config_table["MEMORY"]["memory"] = f"{m * config_table['MEMORY']['cores']}GB"
    return config_table


def settings(cls, config_table):
    """Every key of every table becomes a setting."""
    for name, table in config_table.items():
        for k, v in table.items():
            setattr(cls, k, v)


def raw(path):
    with open(path, "rb") as f:
        return tomllib.load(f)


def loaded(cls, path):
    settings(cls, corrected(cls, raw(path)))


def corrected(cls, table):
    return table


def import_config():
    """The configuration is read when it is imported, that of the cluster when it is used."""
    Config()
    if Config.slurm_use:
        SlurmConfig()


def import_constants():
    Constants()


def read_config(self):
    loaded(Config, get_user_arguments().config_path)


def read_constants(self):
    loaded(Config, get_user_arguments().constants_path)


def read_slurm(self):
    loaded(Config, get_user_arguments().slurm_path)


def options():
    p = argparse.ArgumentParser()
    folder = pathlib.Path(os.environ.get("COSIPY_DIR", os.getcwd()))
    if not folder.is_dir():
        raise NotADirectoryError("invalid")
    p.add_argument("-c", "--config", default=folder / "config.toml", dest="config_path", type=pathlib.Path)
    p.add_argument("-x", "--constants", default=folder / "constants.toml", dest="constants_path", type=pathlib.Path)
    p.add_argument("-s", "--slurm", default=folder / "slurm_config.toml", dest="slurm_path", type=pathlib.Path)
    return p.parse_known_args()[0]
