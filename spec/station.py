"""Forcing from a weather station (reference definitions)."""
from itertools import product

import dateutil
import netCDF4 as nc
import numpy as np
import pandas as pd
import xarray as xr

_cfg = None
_args = None


def named(k):
    return _cfg.names[k]


def table(path):
    """Measurements by time; "NAN" marks missing values."""
    return pd.read_csv(path, delimiter=_cfg.coords["delimiter"], index_col=["TIMESTAMP"], parse_dates=["TIMESTAMP"],
                       na_values="NAN", date_parser=lambda x: dateutil.parser.parse(x, ignoretz=True))


def numbers(series):
    """Text that is not a number is missing."""
    return series.apply(pd.to_numeric, errors="coerce")


def typed(df, replace_pressure=False):
    """All forcing columns hold numbers; either longwave radiation or cloud cover is required."""
    if replace_pressure and named("PRES_var") not in df:
        df[named("PRES_var")] = 660.0
    for k in ("T2_var", "RH2_var", "U2_var", "G_var", "PRES_var"):
        df[named(k)] = numbers(df[named(k)])
    if named("RRR_var") in df:
        df[named("RRR_var")] = numbers(df[named("RRR_var")])
    if named("LWin_var") not in df and named("N_var") not in df:
        raise ValueError("no longwave radiation")
    if named("LWin_var") in df:
        df[named("LWin_var")] = numbers(df[named("LWin_var")])
    if named("N_var") in df:
        df[named("N_var")] = numbers(df[named("N_var")])
    if named("SNOWFALL_var") in df:
        df[named("SNOWFALL_var")] = numbers(df[named("SNOWFALL_var")])
    return df


def bounded(ds, df):
    """Every variable is compared with its plausible range."""
    within(ds.T2, 316.16, 223.16)
    within(ds.RH2, 100.0, 0.0)
    within(ds.U2, 50.0, 0.0)
    within(ds.G, 1600.0, 0.0)
    within(ds.PRES, 1080.0, 200.0)
    if named("RRR_var") in df:
        within(ds.RRR, 20.0, 0.0)
    if named("SNOWFALL_var") in df:
        within(ds.SNOWFALL, 0.05, 0.0)
    if named("LWin_var") in df:
        within(ds.LWin, 400, 0.0)
    if named("N_var") in df:
        within(ds.N, 1.0, 0.0)


def within(field, hi, lo):
    return None


def period(df, start, end):
    if start is not None and end is not None:
        return df.loc[start:end]
    return df


def lapsed(data, lapse_type, altitude=0.0, limit=True):
    """Values change linearly with the height difference; limited quantities do not become negative."""
    v = data + altitude * _cfg.lapse[lapse_type]
    if limit:
        return np.maximum(v, 0.0)
    return v


UNITS = {
    "HGT": ("m", "Elevation"), "ASPECT": ("degrees", "Aspect of slope"), "SLOPE": ("degrees", "Terrain slope"),
    "MASK": ("boolean", "Glacier mask"), "T2": ("K", "Temperature at 2 m"), "RH2": ("%", "Relative humidity at 2 m"),
    "U2": ("m s\u207b\xb9", "Wind velocity at 2 m"), "G": ("W m\u207b\xb2", "Incoming shortwave radiation"),
    "PRES": ("hPa", "Atmospheric Pressure"), "RRR": ("mm", "Total precipitation (liquid+solid)"),
    "SNOWFALL": ("m", "Snowfall"), "LWin": ("W m\u207b\xb2", "Incoming longwave radiation"),
    "N": ("%", "Cloud cover fraction")}


def described(name):
    return {"name": name, "units": UNITS[name][0], "long_name": UNITS[name][1]}


def placed(ds, latitude, longitude):
    """Every cell carries its latitude and longitude."""
    x, y = np.meshgrid(longitude, latitude)
    ds.coords["lat"] = (("south_north", "west_east"), y)
    ds.coords["lon"] = (("south_north", "west_east"), x)
    return ds


def zeros(nt, ny, nx):
    return np.zeros([nt, ny, nx])


def barometric(data, height):
    """Barometric equation of the standard atmosphere, from the station to the given height."""
    def ratio(z):
        return np.power(1 - 0.0065 * z / 288.15, 5.255)
    return data / ratio(_cfg.station["stationAlt"]) * ratio(height)


def in_time_and_space(ds, var, name, units, long_name):
    if _cfg.coords["WRF"]:
        ds[name] = (("time", "south_north", "west_east"), var)
    else:
        ds[name] = (("time", "lat", "lon"), var)
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    return ds


def in_space(ds, var, name, units, long_name):
    if _cfg.coords["WRF"]:
        ds[name] = (("south_north", "west_east"), var)
    else:
        ds[name] = (("lat", "lon"), var)
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    ds[name].encoding["_FillValue"] = -9999
    return ds


def in_time_at_point(ds, var, name, units, long_name):
    ds[name] = (("time", "lat", "lon"), np.reshape(var, (len(var), 1, 1)))
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    return ds


def at_point(ds, var, name, units, long_name):
    ds[name] = (("lat", "lon"), np.reshape(var, (1, 1)))
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    return ds


def range_warning(field, max_bound, min_bound):
    if np.nanmax(field) > max_bound or np.nanmin(field) < min_bound:
        print("WARNING")


def complete(ds):
    """No glacier cell lacks a value."""
    if _cfg.coords["WRF"] is True:
        for y, x in product(range(ds.dims["south_north"]), range(ds.dims["west_east"])):
            if ds.MASK.sel(south_north=y, west_east=x) == 1:
                if np.isnan(ds.sel(south_north=y, west_east=x).to_array()).any():
                    raise ValueError("missing values")
    else:
        for y, x in product(range(ds.dims["lat"]), range(ds.dims["lon"])):
            if ds.MASK.isel(lat=y, lon=x) == 1:
                if np.isnan(ds.isel(lat=y, lon=x).to_array()).any():
                    raise ValueError("missing values")


def complete_point(ds):
    if np.isnan(ds.to_array()).any():
        raise ValueError("missing values")


def temperature_plausible(temperature):
    if np.nanmax(temperature) > 373.16:
        raise ValueError("too warm")
    if np.nanmin(temperature) < 173.16:
        raise ValueError("too cold")


def humidity(h):
    """Relative humidity is at most 100 %; negative values become 0.1 %."""
    h[h > 100.0] = 100.0
    h[h < 0.0] = 0.1
    return h


def total(a, **kw):
    """Sum of the values present; missing if none is."""
    if np.isnan(a).all():
        return np.nan
    return np.nansum(a, **kw)


def point_columns():
    return [named(k) for k in ("T2_var", "RH2_var", "U2_var", "G_var", "RRR_var", "PRES_var", "LWin_var", "N_var",
                               "SNOWFALL_var")]


def kelvin(df):
    if named("in_K"):
        return df[named("T2_var")].values
    return df[named("T2_var")].values + 273.16


def point(cs_file, cosipy_file, static_file, start_date, end_date):
    """Hourly forcing of one location; states are averaged, precipitation is summed, heights are corrected."""
    df = table(cs_file)
    df = df.fillna(method="ffill")
    for k in ("LWin_var", "N_var", "SNOWFALL_var"):
        if named(k) not in df:
            df[named(k)] = np.nan
    df = df[point_columns()]
    df = df.resample("1H").agg({
        named("T2_var"): "mean", named("RH2_var"): "mean", named("U2_var"): "mean", named("G_var"): "mean",
        named("PRES_var"): "mean", named("RRR_var"): total, named("LWin_var"): "mean", named("N_var"): "mean",
        named("SNOWFALL_var"): total})
    df = df.dropna(axis=1, how="all")
    df = period(df, start_date, end_date)
    if _cfg.coords["WRF"]:
        ds = xr.Dataset()
        lon, lat = np.meshgrid(_cfg.points["plon"], _cfg.points["plat"])
        ds.coords["lat"] = (("south_north", "west_east"), lat)
        ds.coords["lon"] = (("south_north", "west_east"), lon)
    else:
        if static_file:
            ds = xr.open_dataset(static_file).sel(lat=_cfg.points["plat"], lon=_cfg.points["plon"], method="nearest")
            ds.coords["lon"] = np.array([ds.lon.values])
            ds.coords["lat"] = np.array([ds.lat.values])
        else:
            ds = xr.Dataset()
            ds.coords["lon"] = np.array([_cfg.points["plon"]])
            ds.coords["lat"] = np.array([_cfg.points["plat"]])
        ds.lon.attrs["standard_name"] = "lon"
        ds.lon.attrs["long_name"] = "longitude"
        ds.lon.attrs["units"] = "degrees_east"
        ds.coords["lat"] = np.array([_cfg.points["plat"]])
        ds.lat.attrs["standard_name"] = "lat"
        ds.lat.attrs["long_name"] = "latitude"
        ds.lat.attrs["units"] = "degrees_north"
    ds.coords["time"] = (("time"), df.index.values)
    df = typed(df, True)
    dz = _cfg.points["hgt"] - _cfg.station["stationAlt"]
    T2 = lapsed(kelvin(df), "lapse_T", dz, False)
    temperature_plausible(T2)
    RH2 = humidity(lapsed(df[named("RH2_var")].values, "lapse_RH", dz, False))
    mask, slope, aspect = 1, 0, 0
    if static_file:
        aspect = ds["ASPECT"].values - 180.0
        ds["ASPECT"] = aspect
        mask = ds.MASK.values
        slope = ds.SLOPE.values
    at_point(ds, _cfg.points["hgt"], **described("HGT"))
    at_point(ds, aspect, **described("ASPECT"))
    at_point(ds, slope, **described("SLOPE"))
    at_point(ds, mask, **described("MASK"))
    in_time_at_point(ds, T2, **described("T2"))
    in_time_at_point(ds, RH2, **described("RH2"))
    in_time_at_point(ds, df[named("U2_var")].values, **described("U2"))
    in_time_at_point(ds, df[named("G_var")].values, **described("G"))
    in_time_at_point(ds, barometric(df[named("PRES_var")].values, _cfg.points["hgt"]), **described("PRES"))
    if named("RRR_var") in df:
        in_time_at_point(ds, lapsed(df[named("RRR_var")].values, "lapse_RRR", dz, True), **described("RRR"))
    if named("SNOWFALL_var") in df:
        in_time_at_point(ds, lapsed(df[named("SNOWFALL_var")].values, "lapse_SNOWFALL", dz, True),
                         **described("SNOWFALL"))
    if named("LWin_var") in df:
        in_time_at_point(ds, df[named("LWin_var")].values, **described("LWin"))
    if named("N_var") in df:
        in_time_at_point(ds, df[named("N_var")].values, **described("N"))
    complete_point(ds)
    ds.to_netcdf(cosipy_file)
    bounded(ds, df)


def aggregated(df):
    """States are averaged over the chosen period, water is summed."""
    how = {named("PRES_var"): "mean", named("T2_var"): "mean", named("RH2_var"): "mean", named("G_var"): "mean",
           named("U2_var"): "mean"}
    for k, f in (("N_var", "mean"), ("RRR_var", "sum"), ("LWin_var", "mean"), ("SNOWFALL_var", "sum")):
        if named(k) in df:
            how[named(k)] = f
    return df.resample(_cfg.coords["aggregation_step"]).agg(how)


def sky_view(heights, mask, slope, aspect, lats, lons):
    return None


def shading(solpars, timecorr, lat, heights, mask, lats, lons, step, tcart):
    return None


def parameters(lat):
    return None


def corrected(lat, lon, timezone_lon, doy, hour, slope, aspect, measured, limit):
    return None


def all_sky(solpars, timecorr, doy, hour, lat, T, P, RH, N, heights, mask, slope, aspect, shade, svf, step, tcart):
    return None


def tables(lats, lons, shad1yr, svf):
    """Look-up tables of shading and sky view, for later runs."""
    f = nc.Dataset(_cfg.radiation["LUT_path"], "w")
    f.createDimension("time", int(366 * (3600 / _cfg.radiation["dtstep"]) * 24))
    f.createDimension("lat", len(lats))
    f.createDimension("lon", len(lons))
    la = f.createVariable("lat", "f4", ("lat",))
    la.units = "degree"
    lo = f.createVariable("lon", "f4", ("lon",))
    lo.units = "degree"
    la[:] = lats
    lo[:] = lons
    s = f.createVariable("SHADING", float, ("time", "lat", "lon"))
    s.long_name = "Topographic shading"
    s[:] = shad1yr
    v = f.createVariable("SVF", float, ("lat", "lon"))
    v.long_name = "sky view factor"
    v[:] = svf
    f.close()


def field(cs_file, cosipy_file, static_file, start_date, end_date, x0=None, x1=None, y0=None, y1=None):
    """Station data spread over the terrain of the static file."""
    df = period(table(cs_file), start_date, end_date)
    if _cfg.coords["aggregate"]:
        df = aggregated(df)
    ds = xr.open_dataset(static_file)
    ds = ds.sel(lat=slice(y0, y1), lon=slice(x0, x1))
    if _cfg.coords["WRF"]:
        dso = xr.Dataset()
        x, y = np.meshgrid(ds.lon, ds.lat)
        dso.coords["time"] = (("time"), df.index.values)
        dso.coords["lat"] = (("south_north", "west_east"), y)
        dso.coords["lon"] = (("south_north", "west_east"), x)
    else:
        dso = ds
        dso.coords["time"] = df.index.values
    df = typed(df, False)
    T2 = kelvin(df)
    temperature_plausible(T2)
    nt, ny, nx = len(dso.time), len(ds.lat), len(ds.lon)
    heights = ds.HGT.values
    dz = heights - _cfg.station["stationAlt"]
    T = zeros(nt, ny, nx)
    RH = zeros(nt, ny, nx)
    U = zeros(nt, ny, nx)
    P = zeros(nt, ny, nx)
    for t in range(nt):
        T[t, :, :] = lapsed(T2[t], "lapse_T", dz, False)
        RH[t, :, :] = lapsed(df[named("RH2_var")][t], "lapse_RH", dz, False)
        U[t, :, :] = df[named("U2_var")][t]
        P[t, :, :] = (df[named("PRES_var")][t] / np.power(1 - 0.0065 * _cfg.station["stationAlt"] / 288.15, 5.255)
                      * np.power(1 - 0.0065 * heights / 288.15, 5.255))
    if named("RRR_var") in df:
        RRR = zeros(nt, ny, nx)
        for t in range(nt):
            RRR[t, :, :] = lapsed(df[named("RRR_var")][t], "lapse_RRR", dz, True)
    if named("SNOWFALL_var") in df:
        SNOWFALL = zeros(nt, ny, nx)
        for t in range(nt):
            SNOWFALL[t, :, :] = lapsed(df[named("SNOWFALL_var")][t], "lapse_SNOWFALL", dz, True)
    if named("LWin_var") in df:
        LW = zeros(nt, ny, nx)
        for t in range(nt):
            LW[t, :, :] = df[named("LWin_var")][t]
    if named("N_var") in df:
        N = zeros(nt, ny, nx)
        for t in range(nt):
            N[t, :, :] = df[named("N_var")][t]
    G = np.full([nt, ny, nx], np.nan)
    sw = df[named("G_var")].values
    module = _cfg.radiation["radiationModule"]
    mask = ds.MASK.values
    slope = ds.SLOPE.values
    aspect = ds.ASPECT.values
    lats = ds.lat.values
    lons = ds.lon.values
    if module == "Wohlfahrt2016" or module == "none" or module is None:
        for t in range(nt):
            for i in range(ny):
                for j in range(nx):
                    if mask[i, j] == 1:
                        if module == "Wohlfahrt2016":
                            G[t, i, j] = np.maximum(0.0, corrected(
                                lats[i], lons[j], _cfg.radiation["timezone_lon"], df.index[t].dayofyear,
                                df.index[t].hour, slope[i, j], aspect[i, j] - 180.0, sw[t], _cfg.radiation["zeni_thld"]))
                        else:
                            G[t, i, j] = sw[t]
    elif module == "Moelg2009":
        solpars, timecorr = parameters(_cfg.station["stationLat"])
        if _cfg.radiation["LUT"]:
            lut = xr.open_dataset(_cfg.radiation["LUT_path"])
            shade = lut.SHADING.values
            svf = lut.SVF.values
        else:
            svf = sky_view(np.flipud(heights), np.flipud(mask), np.flipud(slope), np.flipud(aspect), lats[::-1], lons)
            shade = shading(solpars, timecorr, _cfg.station["stationLat"], np.flipud(heights), np.flipud(mask),
                            lats[::-1], lons, _cfg.radiation["dtstep"], _cfg.radiation["tcart"])
            tables(lats, lons, shade, svf)
        for t in range(nt):
            G[t, :, :] = all_sky(
                solpars, timecorr, df.index[t].dayofyear, df.index[t].hour, _cfg.station["stationLat"], T[t, ::-1, :],
                P[t, ::-1, :], RH[t, ::-1, :], N[t, ::-1, :], np.flipud(heights), np.flipud(mask), np.flipud(slope),
                np.flipud(aspect), shade, svf, _cfg.radiation["dtstep"], _cfg.radiation["tcart"])
    else:
        raise ValueError("unknown radiation module")
    ds["ASPECT"] = (("lat", "lon"), aspect - 180.0)
    RH = humidity(RH)
    in_space(dso, heights, **described("HGT"))
    in_space(dso, aspect - 180.0, **described("ASPECT"))
    in_space(dso, slope, **described("SLOPE"))
    in_space(dso, mask, **described("MASK"))
    in_time_and_space(dso, T, **described("T2"))
    in_time_and_space(dso, RH, **described("RH2"))
    in_time_and_space(dso, U, **described("U2"))
    in_time_and_space(dso, G, **described("G"))
    in_time_and_space(dso, P, **described("PRES"))
    if named("RRR_var") in df:
        in_time_and_space(dso, RRR, **described("RRR"))
    if named("SNOWFALL_var") in df:
        in_time_and_space(dso, SNOWFALL, **described("SNOWFALL"))
    if named("LWin_var") in df:
        in_time_and_space(dso, LW, **described("LWin"))
    if named("N_var") in df:
        in_time_and_space(dso, N, **described("N"))
    complete(dso)
    dso.to_netcdf(cosipy_file)
    bounded(dso, df)


def options(parser):
    parser.add_argument("-i", "--input", dest="csv_file", type=str, required=True)
    parser.add_argument("-o", "--output", dest="cosipy_file", type=str, required=True)
    parser.add_argument("-s", "--static_file", dest="static_file", type=str)
    parser.add_argument("-b", "--start_date", dest="start_date", type=str)
    parser.add_argument("-e", "--end_date", dest="end_date", type=str)
    parser.add_argument("--xl", dest="xl", type=float, const=None)
    parser.add_argument("--xr", dest="xr", type=float, const=None)
    parser.add_argument("--yl", dest="yl", type=float, const=None)
    parser.add_argument("--yu", dest="yu", type=float, const=None)
    return parser.parse_args()


def loaded(name):
    return None


def program():
    """Point or gridded forcing, for the files, period and area of the command line."""
    global _args, _cfg
    _args, _cfg = loaded("aws2cosipy")
    a = _args
    if _cfg.points["point_model"]:
        point(a.csv_file, a.cosipy_file, a.static_file, a.start_date, a.end_date)
    else:
        field(a.csv_file, a.cosipy_file, a.static_file, a.start_date, a.end_date, a.xl, a.xr, a.yl, a.yu)
