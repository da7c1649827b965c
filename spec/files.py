"""Running the model over the domain and storing what it computes (reference definitions)."""
import os
from datetime import datetime

import numpy as np
import pandas as pd
import scipy
import xarray as xr
from dask.distributed import as_completed

from cosipy.config import Config
from cosipy.constants import Constants
from cosipy.cpkernel.cosipy_core import cosipy_core
from cosipy.cpkernel.io import IOClass

RESULTS = ("indY", "indX", "RESTART", "RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "MB", "surfMB", "Q",
           "SNOWHEIGHT", "TOTALHEIGHT", "TS", "ALBEDO", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION",
           "CONDENSATION", "DEPOSITION", "REFREEZE", "subM", "Z0", "surfM", "new_snow_height", "new_snow_timestamp",
           "old_snow_timestamp", "MOL", "LAYER_HEIGHT", "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_CC",
           "LAYER_POROSITY", "LAYER_ICE_FRACTION", "LAYER_IRREDUCIBLE_WATER", "LAYER_REFREEZE", "stake_names", "stat",
           "df")
FLUX = "W m\u207b\xb9".replace("\xb9", "\xb2")
WATER = "m w.e."
META = {
    "HGT": ("m", "Elevation"), "MASK": ("boolean", "Glacier mask"), "SLOPE": ("degrees", "Terrain slope"),
    "ASPECT": ("degrees", "Aspect of slope"),
    "T2": ("K", "Air temperature at 2 m"), "RH2": ("%", "Relative humidity at 2 m"),
    "U2": ("m s\u207b\xb9", "Wind velocity at 2 m"), "PRES": ("hPa", "Atmospheric pressure"),
    "G": (FLUX, "Incoming shortwave radiation"), "RRR": ("mm", "Total precipitation"), "N": ("-", "Cloud fraction"),
    "RAIN": ("mm", "Liquid precipitation"), "SNOWFALL": (WATER, "Snowfall"),
    "LWin": (FLUX, "Incoming longwave radiation"), "LWout": (FLUX, "Outgoing longwave radiation"),
    "H": (FLUX, "Sensible heat flux"), "LE": (FLUX, "Latent heat flux"), "B": (FLUX, "Ground heat flux"),
    "QRR": (FLUX, "Rain heat flux"), "surfMB": (WATER, "Surface mass balance"), "MB": (WATER, "Mass balance"),
    "Q": (WATER, "Runoff"), "SNOWHEIGHT": ("m", "Snowheight"), "TOTALHEIGHT": ("m", "Total domain height"),
    "TS": ("K", "Surface temperature"), "ALBEDO": ("-", "Albedo"), "LAYERS": ("-", "Number of layers"),
    "ME": (FLUX, "Available melt energy"), "intMB": (WATER, "Internal mass balance"),
    "EVAPORATION": (WATER, "Evaporation"), "SUBLIMATION": (WATER, "Sublimation"),
    "CONDENSATION": (WATER, "Condensation"), "DEPOSITION": (WATER, "Deposition"), "REFREEZE": (WATER, "Refreezing"),
    "subM": (WATER, "Subsurface melt"), "Z0": ("m", "Roughness length"), "surfM": (WATER, "Surface melt"),
    "MOL": ("m", "Monin Obukhov length"),
    "LAYER_HEIGHT": ("m", "Layer height"), "LAYER_RHO": ("kg m^-3", "Layer density"),
    "LAYER_T": ("K", "Layer temperature"), "LAYER_LWC": ("kg m^-2", "layer liquid water content"),
    "LAYER_CC": ("J m^-2", "Cold content"), "LAYER_POROSITY": ("-", "Porosity"),
    "LAYER_ICE_FRACTION": ("-", "Layer ice fraction"), "LAYER_IF": ("-", "Layer ice fraction"),
    "LAYER_IRREDUCIBLE_WATER": ("-", "Irreducible water"), "LAYER_REFREEZE": (WATER, "Refreezing"),
    "NLAYERS": ("-", "Number of layers"), "NEWSNOWHEIGHT": ("m .w.e", "New snow height"),
    "NEWSNOWTIMESTAMP": ("s", "New snow timestamp"), "OLDSNOWTIMESTAMP": ("s", "Old snow timestamp"),
}
ATMOSPHERE = ("RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "TS", "ALBEDO", "Z0")
INTERNAL = ("surfMB", "MB", "Q", "SNOWHEIGHT", "TOTALHEIGHT", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION",
            "CONDENSATION", "DEPOSITION", "REFREEZE", "subM", "surfM", "MOL")
LAYERED = ("HEIGHT", "RHO", "T", "LWC", "CC", "POROSITY", "ICE_FRACTION", "IRREDUCIBLE_WATER", "REFREEZE")
SCALARS = ("NLAYERS", "NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP")
PROFILE = ("HEIGHT", "RHO", "T", "LWC", "IF")


def describe(ds, name, units, long_name):
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    ds[name].encoding["_FillValue"] = -9999


def put(ds, name, dims, v):
    ds[name] = (dims, v)
    describe(ds, name, META[name][0], META[name][1])


def position(name):
    k = 0
    for i in range(45):
        if RESULTS[i] == name:
            k = i
    return k


def collected(shape, name, done):
    a = np.full(shape, np.nan)
    k = position(name)
    for f in done:
        r = f.result()
        a[:, r[0], r[1]] = r[k]
    return a


def collect(IO, RESULT, RESTART, done):
    yx = (Config.northing, Config.easting)
    for name in IO.atm + IO.internal:
        put(RESULT, name, ("time", Config.northing, Config.easting), collected((IO.time, IO.ny, IO.nx), name, done))
    if Config.full_field:
        for name in IO.full:
            a = np.full((IO.time, IO.ny, IO.nx, Constants.max_layers), np.nan)
            k = position("LAYER_" + name)
            for f in done:
                r = f.result()
                a[:, r[0], r[1], :] = r[k]
            put(RESULT, "LAYER_" + name, ("time", Config.northing, Config.easting, "layer"), a)
    for name in SCALARS:
        a = np.full((IO.ny, IO.nx), np.nan)
        for f in done:
            r = f.result()
            a[r[0], r[1]] = getattr(r[2], name)
        put(RESTART, name, yx, a)
    for name in PROFILE:
        a = np.full((IO.ny, IO.nx, Constants.max_layers), np.nan)
        for f in done:
            r = f.result()
            a[r[0], r[1], :] = getattr(r[2], "LAYER_" + name)
        put(RESTART, "LAYER_" + name, (Config.northing, Config.easting, "layer"), a)


def cartesian(coords):
    """Geodetic to cartesian coordinates (WGS 84), kilometres."""
    c = np.asarray(coords).astype(float)
    if c.ndim == 1:
        c = np.array([c])
    lat = np.radians(c[:, 0])
    lon = np.radians(c[:, 1])
    e2 = 6.69437999014e-3
    n = 6378.137 / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.column_stack((n * np.cos(lat) * np.cos(lon), n * np.cos(lat) * np.sin(lon), n * (1 - e2) * np.sin(lat)))


def stations(DATA):
    """Nearest grid cell of every stake: (row, column, stake name)."""
    where = pd.read_csv(Config.stakes_loc_file, delimiter="\t", na_values="-9999")
    if Config.WRF:
        lat, lon = DATA.lat.values, DATA.lon.values
        shape = DATA.lat.shape
    else:
        lon, lat = np.meshgrid(DATA.lon, DATA.lat)
        shape = lat.shape
    tree = scipy.spatial.cKDTree(cartesian(np.column_stack((lat.ravel(), lon.ravel()))))
    out = []
    for k, row in where.iterrows():
        i = np.unravel_index(tree.query(cartesian((row["lat"], row["lon"])))[1], shape)
        out.append((i[0][0], i[1][0], row["id"]))
    return out


def domain(cluster, IO, DATA, RESULT, RESTART, futures):
    """Every glacier cell is simulated once, with its own forcing, restored profile and stakes."""
    data = None
    if Config.stake_evaluation:
        data = pd.read_csv(Config.stakes_data_file, delimiter="\t", index_col="TIMESTAMP", na_values="-9999")
        data.index = pd.to_datetime(data.index)
        final = data.copy()
        stats = pd.DataFrame()
        stakes = stations(DATA)
    for y in range(DATA.sizes[Config.northing]):
        for x in range(DATA.sizes[Config.easting]):
            names = None
            if Config.stake_evaluation:
                names = []
                for n, (row, column, name) in enumerate(stakes):
                    if y == row and x == column:
                        names.append(name)
            restart = None
            if Config.WRF:
                cell = DATA.sel(south_north=y, west_east=x)
                if Config.restart:
                    restart = previous(IO).sel(south_north=y, west_east=x)
            else:
                cell = DATA.isel(lat=y, lon=x)
                if Config.restart:
                    restart = previous(IO).isel(lat=y, lon=x)
            if cell.MASK == 1:
                if np.isnan(cell.to_array()).any():
                    raise SystemExit("missing values")
                futures.append(cluster.submit(cosipy_core, cell, y, x, restart, names, data))
    done = as_completed(futures)
    collect(IO, RESULT, RESTART, done)
    if Config.stake_evaluation:
        for f in done:
            r = f.result()
            stats = pd.concat([stats, r[43].rename("rmse")])
            for name in r[42]:
                if Config.obs_type == "mb":
                    final[name] = r[44].mb
                if Config.obs_type == "snowheight":
                    final[name] = r[44].snowheight
        folder = os.path.join(Config.data_path, "output")
        os.makedirs(folder, exist_ok=True)
        stats.to_csv(os.path.join(folder, "stake_statistics.csv"), sep="\t", float_format="%.2f")
        final.to_csv(os.path.join(folder, "stake_simulations.csv"), sep="\t", float_format="%.2f")


def previous(IO):
    """The state stored by the previous run, under the names the model reads."""
    return IO.GRID_RESTART.rename({"NEWSNOWHEIGHT": "new_snow_height", "NEWSNOWTIMESTAMP": "new_snow_timestamp",
                                   "OLDSNOWTIMESTAMP": "old_snow_timestamp"})


MINUTES = "%Y-%m-%dT%H:%M"
GIVEN = ("T2", "RH2", "U2", "RRR", "N", "G", "PRES")


def chosen(text):
    return text.split(",") if text else []


def configured(IO, DATA=None):
    """The variables to store; variables that are model input are not computed again."""
    IO.atm = [x for x in chosen(Config.output_atm) if x not in GIVEN]
    IO.internal = chosen(Config.output_internal)
    IO.full = chosen(Config.output_full)
    IO.DATA = DATA
    IO.RESTART = None
    IO.RESULT = None
    if DATA is not None:
        IO.time = DATA.sizes["time"]


def forcing(IO):
    """The forcing of the simulated period (and part of the domain), in chronological order."""
    IO.restart_date = None
    if Config.restart:
        begin = datetime.strptime(Config.time_start, MINUTES)
        path = os.path.join(Config.data_path, "restart", "restart_" + begin.strftime("%Y-%m-%dT%H-%M") + ".nc")
        if not os.path.isfile(path):
            raise SystemExit("no restart file")
        if begin == datetime.strptime(Config.time_end, MINUTES):
            raise SystemExit("nothing to simulate")
        try:
            IO.GRID_RESTART = xr.open_dataset(path)
        except FileNotFoundError:
            raise SystemExit("no restart file")
        IO.restart_date = IO.GRID_RESTART.time.values + np.timedelta64(Constants.dt, "s")
    try:
        data = xr.open_dataset(os.path.join(Config.data_path, "input", Config.input_netcdf))
    except FileNotFoundError:
        raise SystemExit("no input")
    data = data.sortby("time")
    begin = np.datetime64(Config.time_start)
    end = np.datetime64(Config.time_end)
    if begin > np.datetime64(str(data.time.values[-1])[0:16]) or end < np.datetime64(str(data.time.values[0])[0:16]):
        raise IndexError("period not available")
    first = Config.time_start
    if IO.restart_date is not None:
        if IO.restart_date == end:
            raise SystemExit("nothing to simulate")
        first = IO.restart_date
    data = data.sel(time=slice(first, Config.time_end))
    if Config.tile:
        if Config.WRF:
            data = data.isel(south_north=slice(Config.ystart, Config.yend), west_east=slice(Config.xstart, Config.xend))
        else:
            data = data.isel(lat=slice(Config.ystart, Config.yend), lon=slice(Config.xstart, Config.xend))
    IO.DATA = data
    IO.ny = data.sizes[Config.northing]
    IO.nx = data.sizes[Config.easting]
    IO.time = data.sizes["time"]
    return data


SWITCHES = {"Start_from_restart_file": "restart", "Stake_evaluation": "stake_evaluation", "WRF_simulation": "WRF",
            "Slurm_use": "slurm_use", "Full_field": "full_field", "Force_use_TP": "force_use_TP",
            "Force_use_N": "force_use_N", "Tile_of_glacier_of_interest": "tile"}
SETTINGS = {
    "Time_step_input_file_seconds": "dt", "Max_layers": "max_layers", "Z_measurement_height": "z",
    "Stability_correction": "stability_correction", "Albedo_method": "albedo_method",
    "Densification_method": "densification_method", "Penetrating_method": "penetrating_method",
    "Roughness_method": "roughness_method", "Saturation_water_vapour_method": "saturation_water_vapour_method",
    "Initial_snowheight": "initial_snowheight_constant", "Initial_snow_layer_heights": "initial_snow_layer_heights",
    "Initial_glacier_height": "initial_glacier_height", "Initial_glacier_layer_heights": "initial_glacier_layer_heights",
    "Initial_top_density_snowpack": "initial_top_density_snowpack",
    "Initial_bottom_density_snowpack": "initial_bottom_density_snowpack", "Temperature_bottom": "temperature_bottom",
    "Const_init_temp": "const_init_temp", "Center_snow_transfer_function": "center_snow_transfer_function",
    "Spread_snow_transfer_function": "spread_snow_transfer_function",
    "Multiplication_factor_for_RRR_or_SNOWFALL": "mult_factor_RRR",
    "Minimum_snow_layer_height": "minimum_snow_layer_height", "Minimum_snowfall": "minimum_snowfall",
    "Remesh_method": "remesh_method", "First_layer_height_log_profile": "first_layer_height",
    "Layer_stretching_log_profile": "layer_stretching", "Merge_max": "merge_max",
    "Density_threshold_merging": "density_threshold_merging",
    "Temperature_threshold_merging": "temperature_threshold_merging", "Density_fresh_snow": "constant_density",
    "Albedo_fresh_snow": "albedo_fresh_snow", "Albedo_firn": "albedo_firn", "Albedo_ice": "albedo_ice",
    "Albedo_mod_snow_aging": "albedo_mod_snow_aging", "Albedo_mod_snow_depth": "albedo_mod_snow_depth",
    "Roughness_fresh_snow": "roughness_fresh_snow", "Roughness_ice": "roughness_ice", "Roughness_firn": "roughness_firn",
    "Aging_factor_roughness": "aging_factor_roughness", "Snow_ice_threshold": "snow_ice_threshold",
    "lat_heat_melting": "lat_heat_melting", "lat_heat_vaporize": "lat_heat_vaporize",
    "lat_heat_sublimation": "lat_heat_sublimation", "spec_heat_air": "spec_heat_air", "spec_heat_ice": "spec_heat_ice",
    "spec_heat_water": "spec_heat_water", "k_i": "k_i", "k_w": "k_w", "k_a": "k_a", "water_density": "water_density",
    "ice_density": "ice_density", "air_density": "air_density", "sigma": "sigma", "zero_temperature": "zero_temperature",
    "Surface_emission_coeff": "surface_emission_coeff"}


def results(IO):
    """The result file records coordinates, every model setting and the forcing with its metadata."""
    IO.RESULT = xr.Dataset()
    for c in ("time", "lat", "lon"):
        IO.RESULT.coords[c] = IO.DATA.coords[c]
    for k, v in SWITCHES.items():
        IO.RESULT.attrs[k] = str(getattr(Config, v))
    IO.RESULT.attrs["Compression_level"] = Config.compression_level
    for k, v in SETTINGS.items():
        IO.RESULT.attrs[k] = getattr(Constants, v)
    for name in ("HGT", "MASK", "SLOPE", "ASPECT"):
        if name in IO.DATA:
            put(IO.RESULT, name, (Config.northing, Config.easting), IO.DATA[name].data)
    dims = ("time", Config.northing, Config.easting)
    for name in ("T2", "RH2", "U2", "PRES", "G", "RRR", "N", "LWin"):
        if name in IO.DATA:
            put(IO.RESULT, name, dims, IO.DATA[name].data)
    if "SNOWFALL" in IO.DATA:
        IO.RESULT["SNOWFALL"] = (dims, IO.DATA["SNOWFALL"].data)
        describe(IO.RESULT, "SNOWFALL", "m", "Snowfall")
    for name in ("RRR", "N"):
        if name not in IO.DATA:
            put(IO.RESULT, name, dims, np.full_like(IO.DATA.T2, np.nan).data)
    return IO.RESULT


def state(IO):
    """An empty restart file: last time of the forcing, coordinates, one entry per possible layer."""
    IO.RESTART = xr.Dataset()
    IO.RESTART.coords["time"] = IO.DATA.coords["time"][-1]
    for c in ("lat", "lon"):
        IO.RESTART.coords[c] = IO.DATA.coords[c]
    IO.RESTART.coords["layer"] = np.arange(Constants.max_layers)
    return IO.RESTART


def cell_state(IO):
    """The restart record of one grid point before the layer profile is filled in."""
    state(IO)
    for name in SCALARS:
        IO.RESTART[name] = np.full((1), np.nan).data
        describe(IO.RESTART, name, META[name][0], META[name][1])
    for name in PROFILE:
        put(IO.RESTART, "LAYER_" + name, "layer", np.full((IO.RESTART.coords["layer"].shape[0]), np.nan).data)
    return IO.RESTART


def plausible(IO, field, _max, _min):
    return not (np.nanmax(field) > _max or np.nanmin(field) < _min)


BOUNDS = {"T2": (313.16, 243.16), "RH2": (100.0, 0.0), "G": (1600.0, 0.0), "U2": (50.0, 0.0), "RRR": (20.0, 0.0),
          "N": (1.0, 0.0), "PRES": (1080.0, 400.0), "LWin": (400.0, 200.0), "SNOWFALL": (0.1, 0.0), "SLOPE": (90.0, 0.0)}


def ranges(IO):
    """Every forcing variable is compared with its documented range."""
    for name, b in BOUNDS.items():
        if name in IO.DATA:
            plausible(IO, IO.DATA[name], b[0], b[1])
    return True


def label(time):
    return time[0:10].replace("-", "")


def stored(ds, folder, name, mode):
    encoding = {}
    for v in ds.data_vars:
        encoding[v] = dict(zlib=True, complevel=Config.compression_level)
    folder = os.path.join(Config.data_path, folder)
    os.makedirs(folder, exist_ok=True)
    if mode:
        ds.to_netcdf(os.path.join(folder, name), encoding=encoding, mode=mode)
    else:
        ds.to_netcdf(os.path.join(folder, name), encoding=encoding)


def program():
    """Read the forcing, simulate the domain, store results and the state to restart from."""
    IO = IOClass()
    DATA = IO.create_data_file()
    RESULT = IO.create_result_file()
    RESTART = IO.create_restart_file()
    domain("cluster", IO, DATA, RESULT, RESTART, [])
    last = pd.to_datetime(str(IO.RESTART.time.values)).strftime("%Y-%m-%dT%H-%M")
    stored(IO.RESULT, "output",
           Config.output_prefix + "_" + label(Config.time_start) + "-" + label(Config.time_end) + ".nc", "w")
    stored(IO.RESTART, "restart", "restart_" + last + ".nc", None)


def compared(stake_names, stake_data, df):
    """Root mean square difference of the observed and modelled quantity of every stake of the cell."""
    if Config.eval_method != "rmse":
        return None
    if Config.obs_type != "mb" and Config.obs_type != "snowheight":
        raise NotImplementedError("unknown observation")
    return (stake_data[stake_names].subtract(df[Config.obs_type], axis=0) ** 2).mean() ** 0.5
