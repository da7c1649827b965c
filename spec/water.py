"""Percolation and refreezing (reference definitions)."""
from cosipy.constants import Constants
from spec.base import irreducible


def percolation(g, water, dt):
    """Bucket scheme: water enters the top layer, each layer keeps at most its
    irreducible content and hands the exact excess volume to the layer below;
    what the lowest layer holds is the runoff."""
    set_layer(g, "lwc", 0, layer(g, "lwc", 0) + water / layer(g, "h", 0))
    for i in range(n_layers(g) - 1):
        keep = irreducible(g, i)
        have = layer(g, "lwc", i)
        if have > keep:
            set_layer(g, "lwc", i, keep)
            volume = (have - keep) * layer(g, "h", i)
            set_layer(g, "lwc", i + 1, layer(g, "lwc", i + 1) + volume / layer(g, "h", i + 1))
    last = n_layers(g) - 1
    runoff = layer(g, "lwc", last) * layer(g, "h", last)
    set_layer(g, "lwc", last, 0.0)
    return runoff


def refreezing(g):
    """Water refreezes up to the water available, the pore space limit and the
    cold content (two bounds); ice mass grows by what the water loses and the
    latent heat warms the layer."""
    rho_i, rho_w = Constants.ice_density, Constants.water_density
    c_i, c_w, L = Constants.spec_heat_ice, Constants.spec_heat_water, Constants.lat_heat_melting
    ice_max = (Constants.snow_ice_threshold - Constants.air_density) / (rho_i - Constants.air_density)
    total = 0.0
    for i in range(n_layers(g)):
        T, w, ice, h = layer(g, "T", i), layer(g, "lwc", i), layer(g, "ice", i), layer(g, "h", i)
        frozen = 0.0
        if T <= Constants.zero_temperature and w > 0.0:
            deficit = Constants.zero_temperature - T
            by_pores = max(0.0, (ice_max - ice) * rho_i / rho_w)
            by_cold = deficit * (ice * c_i * rho_i + w * rho_w * c_w) / (rho_w * (L + deficit * (c_i - c_w)))
            by_ice = rho_i * c_i * ice * deficit / (rho_w * L)
            frozen = min(w, by_pores, by_cold, by_ice)
            new_ice = ice + frozen * rho_w / rho_i
            new_w = w - frozen
            if new_ice < 0.0 or new_ice > 1.0 or new_w < 0.0 or new_w > 1.0:
                raise ValueError("out of bounds")
            set_layer(g, "ice", i, new_ice)
            set_layer(g, "lwc", i, new_w)
            new_T = T + frozen * rho_w * L / (rho_i * c_i * new_ice + rho_w * c_w * new_w)
            set_layer(g, "T", i, new_T)
            if new_T < 0.0:
                raise ValueError("out of bounds")
        set_layer(g, "refreeze", i, frozen * h)
        total = total + frozen * h
    return total
