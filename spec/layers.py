"""The layered column: accessors, layer operations and remeshing (reference definitions)."""
import numpy as np

from cosipy.constants import Constants
from spec.base import (conductivity, density, diffusivity, irreducible, porosity, snow_height, snow_layers, specific_heat,
                       total_height)
from spec.column import centres


# -------------------------------------------------------------- accessors
def get_h(g, idx):
    return layer(g, "h", idx)


def get_T(g, idx):
    return layer(g, "T", idx)


def get_lwc(g, idx):
    return layer(g, "lwc", idx)


def get_ice(g, idx):
    return layer(g, "ice", idx)


def get_refreeze(g, idx):
    return layer(g, "refreeze", idx)


def get_porosity(g, idx):
    return 1 - layer(g, "ice", idx) - layer(g, "lwc", idx)


def get_cold_content(g, idx):
    return -specific_heat(g, idx) * density(g, idx) * layer(g, "h", idx) * (layer(g, "T", idx) - Constants.zero_temperature)


def get_density(g, idx):
    return density(g, idx)


def get_specific_heat(g, idx):
    return specific_heat(g, idx)


def get_irreducible(g, idx):
    return irreducible(g, idx)


def get_conductivity(g, idx):
    return conductivity(g, idx)


def get_diffusivity(g, idx):
    return diffusivity(g, idx)


def all_h(g):
    return profile(g, "h")


def all_T(g):
    return profile(g, "T")


def all_lwc(g):
    return profile(g, "lwc")


def all_ice(g):
    return profile(g, "ice")


def all_refreeze(g):
    return profile(g, "refreeze")


def all_density(g):
    return [density(g, i) for i in range(n_layers(g))]


def all_specific_heat(g):
    return [specific_heat(g, i) for i in range(n_layers(g))]


def all_irreducible(g):
    return [irreducible(g, i) for i in range(n_layers(g))]


def all_conductivity(g):
    return [conductivity(g, i) for i in range(n_layers(g))]


def all_diffusivity(g):
    return [diffusivity(g, i) for i in range(n_layers(g))]


def all_porosity(g):
    return [get_porosity(g, i) for i in range(n_layers(g))]


def all_cold_content(g):
    return [get_cold_content(g, i) for i in range(n_layers(g))]


def all_depth(g):
    return centres(g)


def depth_at(g, idx):
    d = layer(g, "h", idx) / 2
    for i in range(idx):
        d = d + layer(g, "h", i)
    return d


def snow_heights(g):
    return [layer(g, "h", i) for i in range(snow_layers(g))]


def ice_heights(g):
    return [layer(g, "h", i) for i in range(n_layers(g)) if density(g, i) >= Constants.snow_ice_threshold]


def count(g):
    return n_layers(g)


def count_snow(g):
    return snow_layers(g)


def depth_of_snow(g):
    return snow_height(g)


def depth_of_all(g):
    return total_height(g)


def fresh_snow(g):
    return fresh(g, "new_snow_height"), fresh(g, "new_snow_timestamp"), fresh(g, "old_snow_timestamp")


def put_h(g, idx, v):
    set_layer(g, "h", idx, v)


def put_T(g, idx, v):
    set_layer(g, "T", idx, v)


def put_lwc(g, idx, v):
    set_layer(g, "lwc", idx, v)


def put_ice(g, idx, v):
    set_layer(g, "ice", idx, v)


def put_refreeze(g, idx, v):
    set_layer(g, "refreeze", idx, v)


def put_all_h(g, v):
    for i in range(n_layers(g)):
        set_layer(g, "h", i, v[i])


def put_all_T(g, v):
    for i in range(n_layers(g)):
        set_layer(g, "T", i, v[i])


def put_all_lwc(g, v):
    for i in range(n_layers(g)):
        set_layer(g, "lwc", i, v[i])


def put_all_ice(g, v):
    for i in range(n_layers(g)):
        set_layer(g, "ice", i, v[i])


def put_all_refreeze(g, v):
    for i in range(n_layers(g)):
        set_layer(g, "refreeze", i, v[i])


# ------------------------------------------------------- fresh snow clock
def fresh_snow_fell(g, height):
    set_fresh(g, "old_snow_timestamp", fresh(g, "new_snow_timestamp"))
    set_fresh(g, "new_snow_timestamp", 0)
    set_fresh(g, "new_snow_height", height)


def fresh_snow_gone(g):
    set_fresh(g, "new_snow_timestamp", fresh(g, "old_snow_timestamp"))


def fresh_snow_ages(g, seconds):
    set_fresh(g, "old_snow_timestamp", fresh(g, "old_snow_timestamp") + seconds)
    set_fresh(g, "new_snow_timestamp", fresh(g, "new_snow_timestamp") + seconds)


def fresh_snow_height(g, height):
    set_fresh(g, "new_snow_height", height)


# ------------------------------------------------------- layer operations
def dry_ice_fraction(rho):
    """Ice fraction of a dry layer of this density."""
    return (rho - (1 - rho / Constants.ice_density) * Constants.air_density) / Constants.ice_density


def add_snow(g, height, density, temperature, liquid_water_content, dt):
    insert_layer(g, 0, height, temperature, liquid_water_content, dry_ice_fraction(density))
    if height < Constants.minimum_snowfall:
        fresh_snow_ages(g, dt)
    else:
        fresh_snow_fell(g, height)


def merge(g, idx):
    """Two neighbours become one: thickness adds up, temperature, water and ice are
    the thickness-weighted means."""
    a, b = layer(g, "h", idx), layer(g, "h", idx + 1)
    h = a + b
    T = (a * layer(g, "T", idx) + b * layer(g, "T", idx + 1)) / h
    lwc = (a * layer(g, "lwc", idx) + b * layer(g, "lwc", idx + 1)) / h
    ice = (a * layer(g, "ice", idx) + b * layer(g, "ice", idx + 1)) / h
    put(g, idx, h, T, ice, lwc)
    drop_layer(g, idx + 1)


def put(g, idx, h, T, ice, lwc):
    set_layer(g, "h", idx, h)
    set_layer(g, "T", idx, T)
    set_layer(g, "ice", idx, ice)
    set_layer(g, "lwc", idx, lwc)


def update(g, idx, height, temperature, ice_fraction, liquid_water_content):
    put(g, idx, height, temperature, ice_fraction, liquid_water_content)


def is_snow(g, i):
    return density(g, i) < Constants.snow_ice_threshold


def correct(g, idx, min_height):
    """Bring layer idx to min_height: merge it with successors of the same kind, then
    cut the surplus off into a new layer below; water above retention moves down."""
    h = layer(g, "h", idx)
    while h < min_height and idx + 1 < n_layers(g):
        if is_snow(g, idx) and is_snow(g, idx + 1):
            merge(g, idx)
        elif not is_snow(g, idx) and not is_snow(g, idx + 1):
            merge(g, idx)
        else:
            break
        h = layer(g, "h", idx)
    if h > min_height:
        T, ice, lwc = layer(g, "T", idx), layer(g, "ice", idx), layer(g, "lwc", idx)
        keep = irreducible(g, idx)
        if lwc - keep > 0:
            upper = keep * layer(g, "h", idx)
            lower = (lwc - keep) * layer(g, "h", idx)
        else:
            upper = lwc * layer(g, "h", idx)
            lower = 0.0
        rest = h - min_height
        put(g, idx, min_height, T, ice, upper / min_height)
        insert_layer(g, idx + 1, rest, T, lower / rest, ice)


def log_mesh(g):
    """Layer thickness grows with depth by a constant factor, first in the snow, then below."""
    target = Constants.first_layer_height
    left = snow_height(g)
    i = 0
    while i < snow_layers(g):
        if left >= target:
            correct(g, i, target)
            left = left - target
            target = Constants.layer_stretching * target
        elif left < target and i > 0:
            merge(g, i - 1)
        i = i + 1
    left = total_height(g) - snow_height(g)
    i = snow_layers(g)
    while i < n_layers(g):
        if left >= target:
            correct(g, i, target)
            left = left - target
            target = Constants.layer_stretching * target
        elif left < target:
            merge(g, i - 1)
        i = i + 1


def adaptive_mesh(g):
    """Similar thin snow layers are merged (at most merge_max times), degenerate ones
    dropped; thin ice layers are merged; the top layer gets its prescribed thickness."""
    i = 0
    merged = 0
    while i < snow_layers(g) - 1:
        dT = np.abs(layer(g, "T", i) - layer(g, "T", i + 1))
        dRho = np.abs(density(g, i) - density(g, i + 1))
        if (dT <= Constants.temperature_threshold_merging and dRho <= Constants.density_threshold_merging
                and layer(g, "h", i) <= 0.1 and merged <= Constants.merge_max):
            merge(g, i)
            merged = merged + 1
        elif layer(g, "h", i) <= Constants.minimum_snow_layer_height:
            drop_layer(g, i)
        else:
            i = i + 1
    first = max(1, snow_layers(g))
    if first == 1 and layer(g, "h", 0) < Constants.first_layer_height:
        correct(g, first, Constants.first_layer_height)
        first = first + 1
    i = first
    while i < n_layers(g) - 1:
        if layer(g, "h", i) < Constants.minimum_snow_layer_height:
            merge(g, i)
        else:
            i = i + 1
    correct(g, 0, Constants.first_layer_height)


def remesh(g):
    if Constants.remesh_method == "log_profile":
        log_mesh(g)
    elif Constants.remesh_method == "adaptive_profile":
        adaptive_mesh(g)
    if layer(g, "h", 0) < Constants.minimum_snow_layer_height and n_layers(g) > 0:
        drop_layer(g, 0)


def halve(g, pos):
    """A layer becomes two of half its thickness and water."""
    h, T, ice, lwc = layer(g, "h", pos), layer(g, "T", pos), layer(g, "ice", pos), layer(g, "lwc", pos)
    put(g, pos, h / 2, T, ice, lwc / 2)
    insert_layer(g, pos + 1, h / 2, T, lwc / 2, ice)


def sink_snow(g, idx):
    """A snow layer on ice becomes ice of the same mass."""
    if is_snow(g, idx) and not is_snow(g, idx + 1):
        set_layer(g, "h", idx + 1, layer(g, "h", idx + 1) + layer(g, "h", idx) * density(g, idx) / Constants.ice_density)
        set_layer(g, "lwc", idx + 1, 0.0)
        drop_layer(g, idx)


def remove_melt(g, melt, idx):
    """Melt water equivalent is taken from the top; the water stored in removed layers
    is handed on."""
    released = 0.0
    while melt > 0.0 and idx < n_layers(g):
        per_metre = density(g, idx) / Constants.water_density
        swe = layer(g, "h", idx) * per_metre
        if melt < swe:
            set_layer(g, "h", idx, (swe - melt) / per_metre)
            melt = 0.0
        else:
            released = released + layer(g, "lwc", idx) * layer(g, "h", idx)
            drop_layer(g, idx)
            melt = melt - swe
    if idx == 0:
        set_fresh(g, "new_snow_height", fresh(g, "new_snow_height") - melt)
    return released


def drop(g, idx):
    """Remove the given layers, or the uppermost one when none are given."""
    if n_layers(g) > 0:
        if idx is None or not idx:
            drop_layer(g, 0)
        else:
            for i in sorted(idx, reverse=True):
                drop_layer(g, i)
