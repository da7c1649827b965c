"""Quantities derived from the layer state (reference definitions)."""
from cosipy.constants import Constants


def porosity(g, i):
    return max(0.0, 1 - layer(g, "lwc", i) - layer(g, "ice", i))


def density(g, i):
    return (
        layer(g, "ice", i) * Constants.ice_density
        + layer(g, "lwc", i) * Constants.water_density
        + porosity(g, i) * Constants.air_density
    )


def specific_heat(g, i):
    return (
        layer(g, "ice", i) * Constants.spec_heat_ice
        + porosity(g, i) * Constants.spec_heat_air
        + layer(g, "lwc", i) * Constants.spec_heat_water
    )


def irreducible(g, i):
    ice = layer(g, "ice", i)
    if ice <= 0.23:
        return 0.0264 + 0.0099 * (1 - ice) / ice
    if ice <= 0.812:
        return 0.08 - 0.1023 * (ice - 0.03)
    return 0.0


def conductivity(g, i):
    if Constants.thermal_conductivity_method == "bulk":
        return (
            layer(g, "ice", i) * Constants.k_i
            + porosity(g, i) * Constants.k_a
            + layer(g, "lwc", i) * Constants.k_w
        )
    elif Constants.thermal_conductivity_method == "empirical":
        return 0.021 + 2.5 * (density(g, i) / 1000) ** 2
    raise ValueError("unknown method")


def diffusivity(g, i):
    return conductivity(g, i) / (density(g, i) * specific_heat(g, i))


def snow_layers(g):
    """Number of layers that are snow or firn."""
    n = 0
    for i in range(n_layers(g)):
        if density(g, i) < Constants.snow_ice_threshold:
            n = n + 1
    return n


def snow_height(g):
    h = 0
    for i in range(snow_layers(g)):
        h = h + layer(g, "h", i)
    return h


def total_height(g):
    h = 0
    for i in range(n_layers(g)):
        h = h + layer(g, "h", i)
    return h


def profile_of(g, f):
    return [f(g, i) for i in range(n_layers(g))]
