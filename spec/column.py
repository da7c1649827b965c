"""Heat conduction, penetrating radiation and compaction (reference definitions)."""
import numpy as np

from cosipy.constants import Constants
from spec.base import density, diffusivity, profile_of, snow_layers


def heat(g, dt):
    """Explicit finite-volume conduction on the layer centres, in stable sub-steps
    that add up to dt; the uppermost and lowest layer keep their temperature."""
    n = n_layers(g)
    m = n - 2
    up = [(layer(g, "h", j) + layer(g, "h", j + 1)) / 2 for j in range(m)]
    dn = [(layer(g, "h", j + 1) + layer(g, "h", j + 2)) / 2 for j in range(m)]
    Ku = [(diffusivity(g, j) + diffusivity(g, j + 1)) / 2 for j in range(m)]
    Kd = [(diffusivity(g, j + 1) + diffusivity(g, j + 2)) / 2 for j in range(m)]
    T = profile(g, "T")
    step = 0.8 * min(min([up[j] ** 2 / Ku[j] for j in range(m)]), min([dn[j] ** 2 / Kd[j] for j in range(m)])) / 2
    done = 0.0
    while done < dt:
        s = min(step, dt - done)
        done = done + s
        T[1:n - 1] = np.array([T[j + 1] + s * (Kd[j] * (T[j + 2] - T[j + 1]) / dn[j] - Ku[j] * (T[j + 1] - T[j]) / up[j])
                      / (0.5 * (up[j] + dn[j])) for j in range(m)])
    for i in range(n):
        set_layer(g, "T", i, T[i])


def compaction(g, SLOPE, dt):
    """Compaction acts on snow layers only, per configured scheme."""
    m = Constants.densification_method
    if m == "Boone":
        boone(g, dt)
    elif m == "Vionnet":
        vionnet(g, SLOPE, dt)
    elif m == "empirical":
        empirical(g, dt)
    elif m == "constant":
        pass
    else:
        raise ValueError("unknown method")


def eligible(rho, h):
    return rho < Constants.snow_ice_threshold and h > Constants.minimum_snow_layer_height


def shares(rate, lwc):
    """Relative growth of the ice and of the water fraction."""
    if lwc == 0.0:
        return rate, 0.0
    return rate / 2, rate / 2


def apply_compaction(g, i, rate, ice, lwc, h):
    di, dw = shares(rate, lwc)
    set_layer(g, "ice", i, ice * (1 + di))
    set_layer(g, "lwc", i, lwc * (1 + dw))
    set_layer(g, "h", i, h * (1 - rate))


def boone(g, dt):
    """Essery et al. (2013): overburden pressure."""
    n = snow_layers(g)
    h, T, lwc, ice = profile(g, "h"), profile(g, "T"), profile(g, "lwc"), profile(g, "ice")
    rho = profile_of(g, density)
    load = 0.0
    for i in range(n):
        if eligible(rho[i], h[i]):
            if i > 0:
                load = load + rho[i - 1] * h[i - 1]
            else:
                load = load + rho[0] * h[0] / 2
            cold = Constants.zero_temperature - T[i]
            viscosity = 3.7e7 * np.exp(0.081 * cold + 0.018 * rho[i])
            settling = 2.8e-6 * np.exp(-0.042 * cold - 0.046 * max(0.0, rho[i] - 150))
            rate = (load * 9.81 / viscosity + settling) * dt
            apply_compaction(g, i, rate, ice[i], lwc[i], h[i])


def vionnet(g, SLOPE, dt):
    """Vionnet et al. (2011): overburden stress."""
    n = snow_layers(g)
    h, T, lwc, ice = profile(g, "h"), profile(g, "T"), profile(g, "lwc"), profile(g, "ice")
    rho = profile_of(g, density)
    stress = 0.0
    for i in range(n):
        if eligible(rho[i], h[i]):
            wet = 1 / (1 + 60.0 * lwc[i] / h[i])
            viscosity = wet * 1.0 * 7.62237e6 * rho[i] / 250 * np.exp(0.1 * (273.14 - T[i]) + 0.023 * rho[i])
            if i > 0:
                stress = stress + 9.81 * np.cos(SLOPE) * rho[i - 1] * h[i - 1]
            else:
                stress = stress + 9.81 * np.cos(SLOPE) * rho[0] * h[0] / 2
            apply_compaction(g, i, stress / viscosity * dt, ice[i], lwc[i], h[i])


def empirical(g, dt):
    """Relaxation of the density towards 600 kg m-3 with a time scale of 8e5 s."""
    n = snow_layers(g)
    for i in range(n):
        old = density(g, i)
        rate = (600.0 - old) / 8.0e5 * dt
        if 1 - rate / old < 1:
            set_layer(g, "ice", i, (600.0 + (old - 600.0) * np.exp(-dt / 8.0e5)) / Constants.ice_density)
            set_layer(g, "h", i, (1 - rate / density(g, i)) * layer(g, "h", i))


def radiation(g, SWnet, dt):
    """Bintanja and Van den Broeke (1995): a tenth (ice: a fifth) of the net shortwave
    radiation is absorbed below the surface; what would warm a layer above melting
    melts its ice, which shrinks the layer and stays in it as water."""
    if Constants.penetrating_method != "Bintanja95":
        raise ValueError("unknown method")
    n = n_layers(g)
    edges = np.append(0.0, np.array(centres(g)))
    if density(g, 0) <= Constants.snow_ice_threshold:
        flux = SWnet * 0.1
        share = np.exp(-17.1 * edges)
    else:
        flux = SWnet * 0.2
        share = np.exp(-2.5 * edges)
    absorbed = flux * np.abs(np.diff(share))
    gone = []
    melt = 0.0
    for i in range(n - 1):
        h, ice, lwc = layer(g, "h", i), layer(g, "ice", i), layer(g, "lwc", i)
        T = layer(g, "T", i) + absorbed[i] * dt / (density(g, i) * Constants.spec_heat_ice * h)
        if T > Constants.zero_temperature:
            water = (Constants.spec_heat_ice * Constants.ice_density / (Constants.water_density * Constants.lat_heat_melting)
                     * (T - Constants.zero_temperature) * ice)
            lost = water * Constants.water_density / Constants.ice_density / ice
            if lost >= 1.0:
                gone.append(i)
            else:
                set_layer(g, "T", i, Constants.zero_temperature)
                set_layer(g, "h", i, (1 - lost) * h)
                set_layer(g, "lwc", i, (lwc + water) / (1 - lost))
            melt = melt + water * h
        else:
            set_layer(g, "T", i, T)
    if gone:
        for k in sorted(gone, reverse=True):
            drop_layer(g, k)
    return melt, flux


def centres(g):
    """Depth of the layer centres."""
    h = profile(g, "h")
    z = np.empty_like(h)
    z[0] = 0.5 * h[0]
    z[1:] = np.cumsum(h[:-1]) + 0.5 * h[1:]
    return [z[i] for i in range(n_layers(g))]
