"""Surface energy balance (reference definitions)."""
import numpy as np
from scipy.optimize import minimize, newton

from cosipy.config import Config
from cosipy.constants import Constants
from cosipy.modules.secant import secant
from spec.base import conductivity

KARMAN, GRAVITY = 0.41, 9.81


def vapour_pressure(T):
    """Saturation vapour pressure over water / ice (hPa), Sonntag (1990)."""
    if T >= 273.16:
        return 6.112 * np.exp(17.67 * (T - 273.16) / (T - 29.66))
    return 6.112 * np.exp(22.46 * (T - 273.16) / (T - 0.55))


def psi_stable(zeta):
    if zeta > 1.0:
        if Config.WRF_X_CSPY:
            return -5.0
        return -4 * (1 + np.log(zeta)) - zeta
    if zeta > 0.0:
        return -5 * zeta
    return 0.0


def psi_m(z, L):
    if L > 0:
        return psi_stable(z / L)
    if L < 0:
        x = (1 - 16 * z / L) ** 0.25
        return 2 * np.log((1 + x) / 2) + np.log((1 + x ** 2) / 2) - 2 * np.arctan(x) + np.pi / 2
    return 0.0


def psi_h(z, L):
    if L > 0:
        return psi_stable(z / L)
    if L < 0:
        x = (1 - 19.3 * z / L) ** 0.25
        return 2 * np.log((1 + x ** 2) / 2)
    return 0.0


def incoming_longwave(T2, ea, LWin, N):
    """Measured, or from cloud cover and near-surface vapour pressure."""
    if LWin is None and N is not None:
        clear = 0.23 + 0.433 * (100 * ea / T2) ** 0.125
        return (clear * (1 - N ** 2) + 0.984 * N ** 2) * Constants.sigma * T2 ** 4
    return LWin


def fluxes(g, T0, dt, z, z0, T2, rH2, p, u2, RAIN, SLOPE, B_Ts, LWin=None, N=None):
    """All surface energy fluxes, positive towards the surface."""
    ew, ew0 = vapour_pressure(T2), vapour_pressure(T0)
    if T0 >= Constants.zero_temperature:
        Lv = Constants.lat_heat_vaporize
    else:
        Lv = Constants.lat_heat_sublimation
    Li = incoming_longwave(T2, rH2 / 100 * ew, LWin, N)
    q2 = rH2 / 100 * 0.622 * ew / (p - ew)
    q0 = 0.622 * ew0 / (p - ew0)
    rho = p * 100 / (287.058 * T2 * (1 + 0.608 * q2))
    cos_slope = np.cos(np.radians(SLOPE))
    ln_m, ln_t, ln_q = np.log(z / z0), np.log(z / (z0 / 100)), np.log(z / (z0 / 10))
    L = None
    if Constants.stability_correction == "MO":
        L = 0.0
        before = np.inf
        n = 0
        again = True
        while again:
            ust = KARMAN * u2 / (ln_m - psi_m(z, L))
            cd = KARMAN ** 2 / (ln_m - psi_m(z, L) - psi_m(z0, L)) ** 2
            dpsi = psi_h(z, L) - psi_h(z0, L)
            Ct = KARMAN * np.sqrt(cd) / (ln_t - dpsi)
            Cq = KARMAN * np.sqrt(cd) / (ln_q - dpsi)
            H = rho * Constants.spec_heat_air * Ct * u2 * (T2 - T0) * cos_slope
            LE = rho * Lv * Cq * u2 * (q2 - q0) * cos_slope
            if H != 0:
                L = (rho * Constants.spec_heat_air * ust ** 3 * T2) / (KARMAN * GRAVITY * H)
            else:
                L = 0.0
            again = not (np.abs(before - H) < 0.1 or n > 5)
            n = n + 1
            before = H
    elif Constants.stability_correction == "Ri":
        Ct = KARMAN ** 2 / (ln_m * ln_t)
        Cq = KARMAN ** 2 / (ln_m * ln_q)
        Ri = 0
        if u2 != 0:
            Ri = GRAVITY * (T2 - T0) * z / (T2 * u2 ** 2)
        if Ri > 0.2:
            damp = 0.0
        elif Ri > 0.01:
            damp = (1 - 5 * Ri) ** 2
        else:
            damp = 1
        H = damp * rho * Constants.spec_heat_air * Ct * u2 * (T2 - T0) * cos_slope
        LE = damp * rho * Lv * Cq * u2 * (q2 - q0) * cos_slope
    else:
        raise ValueError("unknown method")
    Lo = -Constants.surface_emission_coeff * Constants.sigma * T0 ** 4
    d1, d2 = Constants.zlt1, Constants.zlt2
    T1z, T2z = B_Ts
    B = conductivity(g, 0) * (d1 / d2 * (T2z - T1z) / (d2 - d1) + (d2 - d1) / d2 * (T1z - T0) / d1)
    Qr = Constants.water_density * Constants.spec_heat_water * RAIN / 1000 / dt * (T2 - T0)
    return Li, Lo, H, LE, B, Qr, rho, Lv, L, Ct, Cq, q0, q2


def residual(T0, g, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin=None, N=None):
    """What is left of the surface energy; its magnitude for the bounded minimisers."""
    f = fluxes(g, T0, dt, z, z0, T2, rH2, p, u2, RAIN, SLOPE, B_Ts, LWin, N)
    r = SWnet + f[0] + f[1] + f[2] + f[3] + f[4] + f[5]
    if Constants.sfc_temperature_method in ["Newton", "Secant"]:
        return r
    return np.abs(r)


def temperature_at(g, bottoms, z):
    """Linear extrapolation through the layer closest to depth z and its neighbour."""
    i = np.abs(bottoms - z).argmin()
    if bottoms[i] > z:
        k = i - 1
    else:
        k = i + 1
    return layer(g, "T", i) + (layer(g, "T", i) - layer(g, "T", k)) / (bottoms[i] - bottoms[k]) * (z - bottoms[i])


def soil_temperatures(g):
    bottoms = np.cumsum(profile(g, "h"))
    return np.array([temperature_at(g, bottoms, Constants.zlt1), temperature_at(g, bottoms, Constants.zlt2)])


def surface(g, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, LWin=None, N=None):
    """The surface temperature closes the energy balance and never exceeds melting;
    the reported fluxes are those at the reported temperature."""
    B_Ts = soil_temperatures(g)
    start = min(layer(g, "T", 0), 270)
    low = 220.0
    rest = (g, dt, z, z0, T2, rH2, p, SWnet, u2, RAIN, SLOPE, B_Ts, LWin, N)
    m = Constants.sfc_temperature_method
    found = None
    if m in ["L-BFGS-B", "SLSQP"]:
        res = minimize(residual, start, method=m, bounds=((low, 330.0),), tol=1e-2, args=rest)
    elif m == "Newton":
        try:
            res = newton(residual, np.array([start]), tol=1e-2, maxiter=50, args=rest)
            if res < low:
                raise ValueError("out of bounds")
        except (RuntimeError, ValueError):
            res = minimize(residual, start, method="SLSQP", bounds=((low, 330.0),), tol=1e-2, args=rest)
    elif m == "Secant":
        try:
            res = secant(residual, np.array([start]), tol=1e-2, maxiter=50, args=rest)
            if res < low:
                raise ValueError("out of bounds")
        except (RuntimeError, ValueError):
            res = minimize(residual, start, method="SLSQP", bounds=((low, Constants.zero_temperature),), tol=1e-2,
                           args=rest)
    else:
        raise NotImplementedError("unknown method")
    if isinstance(res, np.ndarray):
        Ts, left = min(np.array([Constants.zero_temperature]), res), None
    else:
        Ts, left = min(np.array([Constants.zero_temperature]), res.x), res.fun
    set_layer(g, "T", 0, Ts)
    f = fluxes(g, Ts, dt, z, z0, T2, rH2, p, u2, RAIN, SLOPE, B_Ts, LWin, N)
    return (left, Ts, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12])


def root(func, x0, args=(), tol=1.48e-8, maxiter=50, x1=None, rtol=0.0):
    """Secant iteration: stops where two iterates agree within tol."""
    assert maxiter
    assert tol > 0
    a = 1.0 * x0
    if x1 is not None:
        if x1 == x0:
            raise ValueError("identical start values")
        b = x1
    else:
        b = x0 * (1 + 1e-4)
        if b >= 0:
            b = b + 1e-4
        else:
            b = b - 1e-4
    fa = func(a, *args)
    fb = func(b, *args)
    if abs(fb) < abs(fa):
        a, b, fa, fb = b, a, fb, fa
    for k in range(maxiter):
        if fb == fa:
            if b != a:
                raise RuntimeError("failed to converge")
            return (b + a) / 2
        if abs(fb) > abs(fa):
            c = (-fa / fb * b + a) / (1 - fa / fb)
        else:
            c = (-fb / fa * a + b) / (1 - fb / fa)
        if np.isclose(c, b, rtol=rtol, atol=tol):
            return c
        a, fa = b, fb
        b = c
        fb = func(b, *args)
    return c
