"""Albedo, roughness and fresh-snow bookkeeping (reference definitions)."""
import numpy as np

from cosipy.constants import Constants
from spec.base import density, snow_height


def roughness(g):
    """Surface roughness in metres: ages linearly with the time since snowfall up
    to the firn value; fixed on ice."""
    if Constants.roughness_method != "Moelg12":
        raise ValueError("unknown method")
    if density(g, 0) <= Constants.snow_ice_threshold:
        hours = fresh(g, "new_snow_timestamp") / 3600.0
        mm = min(Constants.roughness_firn, Constants.roughness_fresh_snow + Constants.aging_factor_roughness * hours)
    else:
        mm = Constants.roughness_ice
    return mm / 1000


def snow_age_hours(g):
    """Age of the surface snow; once the fresh layer is gone while still young the
    clock falls back to that of the snow below."""
    age = fresh(g, "new_snow_timestamp") / 3600.0
    if age < Constants.albedo_mod_snow_aging * 24 and fresh(g, "new_snow_height") <= 0.0:
        set_fresh(g, "new_snow_timestamp", fresh(g, "old_snow_timestamp"))
        age = fresh(g, "old_snow_timestamp") / 3600.0
    return age


def depth_blend(snow, depth):
    return Constants.albedo_ice + (snow - Constants.albedo_ice) * (
        1 - np.exp(-depth / (Constants.albedo_mod_snow_depth / 100.0)))


def albedo(g, surface_temperature, albedo_snow):
    if Constants.albedo_method == "Oerlemans98":
        age = snow_age_hours(g)
        if density(g, 0) > Constants.snow_ice_threshold:
            return Constants.albedo_ice, albedo_snow
        f = np.exp(-age / (24.0 * Constants.albedo_mod_snow_aging))
        snow = Constants.albedo_firn + (Constants.albedo_fresh_snow - Constants.albedo_firn) * f
        return depth_blend(snow, snow_height(g)), albedo_snow
    elif Constants.albedo_method == "Bougamont05":
        age = snow_age_hours(g)
        if density(g, 0) > Constants.snow_ice_threshold:
            return Constants.albedo_ice, albedo_snow
        if surface_temperature >= Constants.zero_temperature:
            scale = Constants.t_star_wet
        else:
            T = max(surface_temperature, Constants.t_star_cutoff)
            scale = Constants.t_star_dry + (Constants.zero_temperature - T) * Constants.t_star_K
        if age == 0:
            snow = Constants.albedo_fresh_snow
        else:
            snow = albedo_snow - (albedo_snow - Constants.albedo_firn) / (scale * (Constants.dt / 86400.0))
        return depth_blend(snow, snow_height(g)), snow
    raise ValueError("unknown method")


def snowfall_clock_new(g, height):
    set_fresh(g, "old_snow_timestamp", fresh(g, "new_snow_timestamp"))
    set_fresh(g, "new_snow_timestamp", 0)
    set_fresh(g, "new_snow_height", height)


def snowfall_clock_tick(g, seconds):
    set_fresh(g, "old_snow_timestamp", fresh(g, "old_snow_timestamp") + seconds)
    set_fresh(g, "new_snow_timestamp", fresh(g, "new_snow_timestamp") + seconds)


def snowfall_clock_revert(g):
    set_fresh(g, "new_snow_timestamp", fresh(g, "old_snow_timestamp"))


def snowfall_height(g, height):
    set_fresh(g, "new_snow_height", height)


def snowfall_props(g):
    return fresh(g, "new_snow_height"), fresh(g, "new_snow_timestamp"), fresh(g, "old_snow_timestamp")
