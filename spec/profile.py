"""Initial and restored layer profiles (reference definitions)."""
import numpy as np

from cosipy.constants import Constants


def ice_of(rho):
    """Ice fraction of a dry layer, with the weight of the air in the pores removed."""
    return (rho - (1 - rho / Constants.ice_density) * Constants.air_density) / Constants.ice_density


def column(layer_heights, layer_density, layer_T, layer_LWC, layer_IF, new_snow_height, new_snow_timestamp,
           old_snow_timestamp):
    g = stack(layer_heights, layer_density, layer_T, layer_LWC, layer_IF, new_snow_height, new_snow_timestamp,
              old_snow_timestamp)
    if np.isnan(layer_T).any():
        raise ValueError("temperature missing")
    return g


def stack(h, rho, T, lwc, ice=None, height=None, age=None, older=None):
    g = empty_column()
    for i in range(len(h)):
        if ice is None:
            x = ice_of(rho[i])
        else:
            x = ice[i]
        insert_layer(g, i, h[i], T[i], lwc[i], x)
    if height is None or age is None or older is None:
        set_fresh(g, "new_snow_height", 0.0)
        set_fresh(g, "new_snow_timestamp", 0.0)
        set_fresh(g, "old_snow_timestamp", 0.0)
    else:
        set_fresh(g, "new_snow_height", height)
        set_fresh(g, "new_snow_timestamp", age)
        set_fresh(g, "old_snow_timestamp", older)
    return g


def restored(GRID_RESTART):
    r = GRID_RESTART
    n = int(r.NLAYERS.values)
    return column(r.LAYER_HEIGHT.values[0:n], r.LAYER_RHO.values[0:n], r.LAYER_T.values[0:n], r.LAYER_LWC.values[0:n],
                  r.LAYER_IF.values[0:n], np.float64(r.new_snow_height.values), np.float64(r.new_snow_timestamp.values),
                  np.float64(r.old_snow_timestamp.values))


def initial(DATA):
    """Snow of the given height in up to five equal layers on glacier layers of equal height; temperature
    falls linearly from the (at most melting) air temperature to the bottom temperature."""
    snow = Constants.initial_snowheight_constant
    if "SNOWHEIGHT" in DATA:
        snow = DATA.SNOWHEIGHT.values
        if np.isnan(snow):
            snow = 0.0
    glacier = Constants.initial_glacier_height
    step = Constants.initial_glacier_layer_heights
    top = min(DATA.T2.values[0], Constants.zero_temperature)
    bottom = Constants.temperature_bottom
    m = int(glacier / step)
    if snow > 0.0:
        n = int(min(snow / 0.1, 5))
        gradient = (bottom - top) / (snow + glacier)
        if n == 0:
            h = [snow]
            rho = [Constants.initial_top_density_snowpack]
            T = [top]
            w = [0.0]
            last = top
        else:
            d = snow / n
            r0, r1 = Constants.initial_top_density_snowpack, Constants.initial_bottom_density_snowpack
            h = [d for i in range(n)]
            rho = [r0 + (r1 - r0) / snow * d * (i + 1) for i in range(n)]
            T = [top + gradient * d * (i + 1) for i in range(n)]
            w = [0.0 for i in range(n)]
            last = top + gradient * d * n
        h = np.append(h, [step for i in range(m)])
        rho = np.append(rho, [Constants.ice_density for i in range(m)])
        T = np.append(T, [last + gradient * step * (i + 1) for i in range(m)])
        w = np.append(w, [0.0 for i in range(m)])
    else:
        gradient = (bottom - top) / glacier
        h = [step for i in range(m)]
        rho = [Constants.ice_density for i in range(m)]
        T = [top + gradient * step * (i + 1) for i in range(m)]
        w = [0.0 for i in range(m)]
    return column(h, rho, T, w, None, None, None, None)
