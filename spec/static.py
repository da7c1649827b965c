"""Static file of the study area (reference definitions)."""
import os
from itertools import product

import numpy as np
import richdem as rd
import xarray as xr


def slashed(path):
    return path if path.endswith("/") else path + "/"


def complete(ds, var):
    """No glacier cell lacks a value."""
    for y, x in product(range(ds.dims["lat"]), range(ds.dims["lon"])):
        if ds.MASK.isel(lat=y, lon=x) == 1:
            if var is None:
                if np.isnan(ds.isel(lat=y, lon=x).to_array()).any():
                    raise ValueError("missing values")
            else:
                if np.isnan(ds[var].isel(lat=y, lon=x)).any():
                    raise ValueError("missing values")


def inserted(ds, var, name, units, long_name):
    ds[name] = (("lat", "lon"), var)
    ds[name].attrs["units"] = units
    ds[name].attrs["long_name"] = long_name
    ds[name].attrs["_FillValue"] = -9999


def options(parser):
    return parser.parse_args()


def loaded(name):
    return None


def program():
    """Clip, coarsen, slope, aspect, glacier outline; only intermediate files are removed."""
    _, cfg = loaded("create_static")
    folder = slashed(cfg.paths["static_folder"])
    c = cfg.coords
    dem = f"{folder}{cfg.paths['dem_path']}"
    if c["tile"]:
        ulx, uly = str(c["longitude_upper_left"]), str(c["latitude_upper_left"])
        lrx, lry = str(c["longitude_lower_right"]), str(c["latitude_lower_right"])
        os.system(f"gdal_translate -projwin {ulx} {uly} {lrx} {lry} {dem} {folder}DEM_temp.tif")
        dem = f"{folder}DEM_temp.tif"
    if c["aggregate"]:
        d = str(c["aggregate_degree"])
        os.system(f"gdalwarp -tr {d} {d} -r average {dem} {folder}DEM_temp2.tif")
        dem = f"{folder}DEM_temp2.tif"
    os.system(f"gdal_translate -of NETCDF {dem} {folder}dem.nc")
    os.system(f"gdaldem slope -of NETCDF {folder}dem.nc {folder}slope.nc -s 111120")
    aspect = np.flipud(rd.TerrainAttribute(rd.LoadGDAL(dem), attrib="aspect"))
    os.system(f"gdalwarp -of NETCDF --config GDALWARP_IGNORE_BAD_CUTLINE YES -cutline {folder}{cfg.paths['shape_path']} "
              f"{dem} {folder}mask.nc")
    height = xr.open_dataset(f"{folder}dem.nc")
    mask = xr.open_dataset(f"{folder}mask.nc").Band1.values
    slope = xr.open_dataset(f"{folder}slope.nc")
    mask[np.isnan(mask)] = -9999
    mask[mask > 0] = 1
    ds = xr.Dataset()
    ds.coords["lon"] = height.lon.values
    ds.lon.attrs["standard_name"] = "lon"
    ds.lon.attrs["long_name"] = "longitude"
    ds.lon.attrs["units"] = "degrees_east"
    ds.coords["lat"] = height.lat.values
    ds.lat.attrs["standard_name"] = "lat"
    ds.lat.attrs["long_name"] = "latitude"
    ds.lat.attrs["units"] = "degrees_north"
    inserted(ds, height.Band1.values, "HGT", "meters", "meter above sea level")
    inserted(ds, aspect, "ASPECT", "degrees", "Aspect of slope")
    inserted(ds, slope.Band1.values, "SLOPE", "degrees", "Terrain slope")
    inserted(ds, mask, "MASK", "boolean", "Glacier mask")
    os.system(f"rm {folder}dem.nc {folder}mask.nc {folder}slope.nc {folder}DEM_temp.tif {folder}DEM_temp2.tif")
    complete(ds, None)
    ds.to_netcdf(f"{folder}{cfg.paths['output_file']}")
