"""Forcing from a WRF simulation (reference definitions)."""
import numpy as np
import pandas as pd
import xarray as xr
import xrspatial as xrs

from cosipy.constants import Constants

_cfg = None
_args = None


def in_space(ds, var, name, units, long_name):
    ds[name] = (("south_north", "west_east"), var)
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    ds[name].encoding["_FillValue"] = -9999
    return ds


def in_time_and_space(ds, var, name, units, long_name):
    ds[name] = (("time", "south_north", "west_east"), var)
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    return ds


def within(field, max_bound, min_bound):
    if np.nanmax(field) > max_bound or np.nanmin(field) < min_bound:
        print("WARNING")


def humidity(T2, Q2, PSFC):
    """Relative humidity from mixing ratio, saturation over water, between 0 and 100 %."""
    rh = 100 * Q2 / (379.90516 / PSFC * np.exp(17.2693882 * (T2 - 273.16) / (T2 - 35.86)))
    rh[rh > 100.0] = 100.0
    rh[rh < 0.0] = 0.0
    return rh


def forcing(wrf_file, cosipy_file, start_date, end_date):
    """Accumulated precipitation becomes a rate per step, wind is brought to 2 m, glaciers come from the land use."""
    ds = xr.open_dataset(wrf_file).rename({"XTIME": "Time"})
    ds = ds.assign_coords(Time=pd.to_datetime(ds["Time"].values).strftime("%Y-%m-%dT%H-%M"))
    if start_date is not None and end_date is not None:
        ds = ds.sel(Time=slice(start_date, end_date))
    out = xr.Dataset()
    out.coords["time"] = ("time", ds.Time.values)
    out.coords["lat"] = (("south_north", "west_east"), ds.XLAT[0].values)
    out.coords["lon"] = (("south_north", "west_east"), ds.XLONG[0].values)
    in_space(out, ds.HGT[0].values, "HGT", "m", "Elevation")
    in_time_and_space(out, ds.T2.values, "T2", "K", "Temperature at 2 m")
    in_time_and_space(out, humidity(ds.T2.values, ds.Q2.values, ds.PSFC.values), "RH2", "%", "Relative humidity at 2 m")
    in_time_and_space(out, ds.SWDOWN.values, "G", "W m^-2", "Incoming shortwave radiation")
    in_time_and_space(out, ds.GLW.values, "LWin", "W m^-2", "Incoming longwave radiation")
    in_time_and_space(out, ds.PSFC.values / 100.0, "PRES", "hPa", "Atmospheric Pressure")
    in_space(out, ds.SNOWH[0], "SNOWHEIGHT", "m", "Initial snowheight")
    in_space(out, ds.SNOW[0], "SWE", "kg m^-2", "Snow Water Equivalent")
    in_space(out, ds.SNOWC[0], "SNOWC", "-", "Flag indicating snow coverage (1 for snow cover)")
    in_space(out, ds.LU_INDEX[0], "LU_INDEX", "-", "Land use category")
    in_space(out, ds.TSK[0], "TSK", "K", "Skin temperature")
    z0 = 0.0040
    U2 = np.sqrt(ds.V10.values ** 2 + ds.U10.values ** 2) * (np.log(2 / z0) / np.log(_cfg.constants["hu"] / z0))
    in_time_and_space(out, U2, "U2", "m s^-1", "Wind velocity at 2 m")
    mask = ds.LU_INDEX[0].values
    mask[mask != _cfg.constants["lu_class"]] = 0
    mask[mask == _cfg.constants["lu_class"]] = 1
    in_space(out, mask, "MASK", "-", "Glacier mask")
    rrr = np.full_like(ds.T2, 0.0)
    snow = np.full_like(ds.T2, 0.0)
    for t in range(1, len(out.time)):
        rrr[t, :, :] = (ds.RAINNC[t, :, :] + ds.RAINC[t, :, :]) - (ds.RAINNC[t - 1, :, :] + ds.RAINC[t - 1, :, :])
    for t in range(1, len(out.time)):
        snow[t, :, :] = ds.SNOWNC[t, :, :] - ds.SNOWNC[t - 1, :, :]
    in_time_and_space(out, rrr, "RRR", "mm", "Total precipitation")
    density = Constants.constant_density
    if Constants.densification_method != "constant":
        density = np.maximum(109.0 + 6.0 * (ds.T2.values - 273.16) + 26.0 * np.sqrt(U2), 50.0)
    in_time_and_space(out, snow / 1000.0 * (Constants.water_density / density), "SNOWFALL", "m", "Snowfall")
    HGT = ds.HGT[0]
    HGT.attrs["res"] = (ds.attrs.get("DX").astype("float"), ds.attrs.get("DY").astype("float"))
    in_space(out, xrs.slope(HGT), "SLOPE", "degrees", "Slope")
    in_space(out, xrs.aspect(HGT), "ASPECT", "degrees", "Aspect")
    out.to_netcdf(cosipy_file)
    within(out.T2, 316.16, 223.16)
    within(out.RH2, 100.0, 0.0)
    within(out.SNOWFALL, 1.0, 0.0)
    within(out.U2, 50.0, 0.0)
    within(out.G, 1600.0, 0.0)
    within(out.PRES, 1080.0, 200.0)
    within(out.LWin, 500.0, 100.0)


def options(parser):
    parser.add_argument("-i", "--input", dest="wrf_file", type=str, required=True)
    parser.add_argument("-o", "--output", dest="cosipy_file", type=str, required=True)
    parser.add_argument("-b", "--start_date", dest="start_date", const=None)
    parser.add_argument("-e", "--end_date", dest="end_date", const=None)
    return parser.parse_args()


def loaded(name):
    return None


def program():
    global _args, _cfg
    _args, _cfg = loaded("wrf2cosipy")
    forcing(_args.wrf_file, _args.cosipy_file, _args.start_date, _args.end_date)
