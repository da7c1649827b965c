"""One grid point: the order of processes, mass balance terms and outputs (reference definition)."""
import numpy as np
import pandas as pd

from cosipy.config import Config
from cosipy.constants import Constants
from cosipy.cpkernel.init import init_snowpack, load_snowpack
from cosipy.cpkernel.io import IOClass
from cosipy.modules.albedo import updateAlbedo
from cosipy.modules.densification import densification
from cosipy.modules.evaluation import evaluate
from cosipy.modules.heatEquation import solveHeatEquation
from cosipy.modules.penetratingRadiation import penetrating_radiation
from cosipy.modules.percolation import percolation
from cosipy.modules.refreezing import refreezing
from cosipy.modules.roughness import updateRoughness
from cosipy.modules.surfaceTemperature import update_surface_temperature
from spec.base import snow_height, total_height
from spec.layers import (add_snow, all_cold_content, all_density, all_h, all_ice, all_irreducible, all_lwc, all_porosity,
                         all_refreeze, all_T, fresh_snow_ages)

MM = 1000.0


def fresh_density(T, u):
    if Constants.densification_method != "constant":
        return max(109.0 + 6.0 * (T - 273.16) + 26.0 * np.sqrt(u), 50.0)
    return Constants.constant_density


def snow_share(T):
    """Solid share of precipitation: smooth transition around the centre temperature."""
    x = (T - Constants.zero_temperature - Constants.center_snow_transfer_function)
    return 0.5 * (1 - np.tanh(x * Constants.spread_snow_transfer_function))


def precipitation(snowf, rrr, T, rho_s):
    """Snow height in m, rain in mm; events below the threshold count as none."""
    swe = rho_s / Constants.water_density
    if snowf is not None and rrr is not None:
        snow = snowf
        rain = rrr - snow * swe * MM
    elif snowf is not None:
        snow = snowf
        rain = 0.0
    elif rrr is not None:
        snow = rrr / MM / swe * snow_share(T)
        rain = rrr - snow * swe * MM
    else:
        raise ValueError("no precipitation")
    if snow < Constants.minimum_snowfall:
        snow = 0.0
    if rain < Constants.minimum_snowfall * swe * MM:
        rain = 0.0
    return snow, rain


def phase_changes(LE, Ts, dt):
    """Water equivalents of the latent heat flux: sublimation/deposition below
    freezing, evaporation/condensation at the melting point."""
    if Ts < Constants.zero_temperature:
        q = LE / (Constants.water_density * Constants.lat_heat_sublimation)
        return min(q, 0.0) * dt, max(q, 0.0) * dt, 0.0, 0.0
    q = LE / (Constants.water_density * Constants.lat_heat_vaporize)
    return 0.0, 0.0, min(q, 0.0) * dt, max(q, 0.0) * dt


def simulate(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
    coupled = Config.WRF_X_CSPY
    dt, most, z = Constants.dt, Constants.max_layers, Constants.z
    if coupled:
        dt, most, z = int(DATA.DT.values), int(DATA.max_layers.values), float(DATA.ZLVL.values)
    nt = len(DATA.time.values)
    if GRID_RESTART is None:
        g = init_snowpack(DATA)
    else:
        g = load_snowpack(GRID_RESTART)
    restart = None
    if not coupled:
        restart = IOClass(DATA).create_local_restart_dataset()

    # ---- forcing
    snowf = rrr = None
    if "SNOWFALL" in DATA:
        snowf = DATA.SNOWFALL.values * Constants.mult_factor_RRR
        if "RRR" in DATA:
            rrr = DATA.RRR.values * Constants.mult_factor_RRR
    else:
        rrr = DATA.RRR.values * Constants.mult_factor_RRR
    if Config.force_use_TP:
        snowf = None
    cloud = np.array(nt * [None])
    longwave = None
    if "LWin" in DATA:
        longwave = DATA.LWin.values
        if "N" in DATA:
            cloud = DATA.N.values
    else:
        cloud = DATA.N.values
    if Config.force_use_N:
        longwave = None
    slope = 0.0
    if "SLOPE" in DATA:
        slope = DATA.SLOPE.values

    if not coupled:
        o_RAIN, o_SNOW, o_LWI, o_LWO = blank(nt), blank(nt), blank(nt), blank(nt)
        o_H, o_LE, o_B, o_QRR, o_MB, o_SMB, o_Q = blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt)
        o_SH, o_TH, o_TS, o_AL, o_NL, o_ME, o_IMB = blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt)
        o_EV, o_SU, o_CO, o_DE, o_RF, o_SM, o_Z0 = blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt), blank(nt)
        o_M, o_MOL, o_NSH, o_NST, o_OST = blank(nt), blank(nt), blank(nt), blank(nt), blank(nt)
        f_H, f_RHO, f_T, f_LWC, f_CC = blank2(nt, most), blank2(nt, most), blank2(nt, most), blank2(nt, most), blank2(nt, most)
        f_POR, f_IF, f_IRR, f_RF = blank2(nt, most), blank2(nt, most), blank2(nt, most), blank2(nt, most)

    total = 0
    Ts = 270.0
    snow_albedo = Constants.albedo_fresh_snow
    if coupled:
        snow_albedo = Constants.albedo_firn
    table = None
    if Config.stake_evaluation:
        table = pd.DataFrame(index=stake_data.index, columns=["mb", "snowheight"], dtype="float")

    for t in range(nt):
        g.grid_check()
        T = DATA.T2.values[t]
        rho_s = fresh_density(T, DATA.U2.values[t])
        swe = rho_s / Constants.water_density
        snow, rain = precipitation(pick(snowf, t), pick(rrr, t), T, rho_s)
        # ---- surface
        if snow > 0.0:
            add_snow(g, snow, rho_s, min(T, Constants.zero_temperature), 0.0, dt)
        else:
            fresh_snow_ages(g, dt)
        g.update_grid()
        albedo, snow_albedo = updateAlbedo(g, Ts, snow_albedo)
        z0 = updateRoughness(g)
        sw = max(DATA.G.values[t], 0.0) * (1 - albedo)
        sub_melt, inside = 0.0, 0.0
        if sw > 0.0:
            sub_melt, inside = penetrating_radiation(g, sw, dt)
        sw = sw - inside
        cl, lw = None, None
        if longwave is not None:
            lw = longwave[t]
        if cloud is not None:
            cl = cloud[t]
        if longwave is not None and cloud is None:
            cl = None
        (_f, Ts, lwi, lwo, H, LE, B, QRR, _rho, _Lv, MOL, _ct, _cq, _q0, _q2) = update_surface_temperature(
            g, dt, z, z0, T, DATA.RH2.values[t], DATA.PRES.values[t], sw, DATA.U2.values[t], rain, slope, LWin=lw, N=cl)
        sublimation, deposition, evaporation, condensation = phase_changes(LE, Ts, dt)
        ME = max(0, sw + lwi + lwo + B + QRR + H + LE)
        melt = ME * dt / (1000 * Constants.lat_heat_melting)
        # ---- column
        handed_on = g.remove_melt_weq(melt - sublimation - deposition)
        Q = percolation(g, melt + condensation + rain / MM + handed_on, dt)
        refrozen = refreezing(g)
        solveHeatEquation(g, dt)
        densification(g, slope, dt)
        # ---- balance
        surface = snow * swe - melt + sublimation + deposition + evaporation
        internal = refrozen - sub_melt
        balance = surface + internal
        total = total + balance
        if stake_names:
            when = DATA.isel(time=t).time.values
            if when in stake_data.index:
                table["mb"].loc[when] = total
                table["snowheight"].loc[when] = snow_height(g)
        n = n_layers(g)
        if coupled:
            if n > most:
                raise ValueError("too many layers")
            return (None, None, None, None, None, None, lwo, H, LE, B, QRR, balance, surface, Q, snow_height(g),
                    total_height(g), Ts, albedo, n, ME, internal, evaporation, sublimation, condensation, deposition,
                    refrozen, sub_melt, z0, melt, fresh(g, "new_snow_height"), fresh(g, "new_snow_timestamp"),
                    fresh(g, "old_snow_timestamp"), MOL, padded(most, n, all_h(g)),
                    padded(most, n, all_density(g)), padded(most, n, all_T(g)),
                    padded(most, n, all_lwc(g)), None, None, padded(most, n, all_ice(g)), None, None, None,
                    None, None)
        o_RAIN[t], o_SNOW[t] = rain, snow * swe
        o_LWI[t], o_LWO[t], o_H[t], o_LE[t], o_B[t], o_QRR[t] = lwi, lwo, H, LE, B, QRR
        o_MB[t], o_SMB[t], o_IMB[t] = balance, surface, internal
        o_Q[t], o_SH[t], o_TH[t], o_NL[t] = Q, snow_height(g), total_height(g), n
        o_TS[t], o_AL[t], o_ME[t], o_M[t], o_SM[t] = Ts, albedo, ME, melt, sub_melt
        o_EV[t], o_SU[t], o_CO[t], o_DE[t], o_RF[t] = evaporation, sublimation, condensation, deposition, refrozen
        o_Z0[t], o_MOL[t] = z0, MOL
        o_NSH[t], o_NST[t] = fresh(g, "new_snow_height"), fresh(g, "new_snow_timestamp")
        o_OST[t] = fresh(g, "old_snow_timestamp")
        if Config.full_field:
            if n > most:
                raise ValueError("too many layers")
            f_H[t, 0:n] = all_h(g)
            f_RHO[t, 0:n] = all_density(g)
            f_T[t, 0:n] = all_T(g)
            f_LWC[t, 0:n] = all_lwc(g)
            f_CC[t, 0:n] = all_cold_content(g)
            f_POR[t, 0:n] = all_porosity(g)
            f_IF[t, 0:n] = all_ice(g)
            f_IRR[t, 0:n] = all_irreducible(g)
            f_RF[t, 0:n] = all_refreeze(g)
        else:
            f_H = f_RHO = f_T = f_LWC = f_CC = f_POR = f_IF = f_IRR = f_RF = None

    if not coupled:
        stat = None
        if Config.stake_evaluation:
            stat = evaluate(stake_names, stake_data, table)
        n = n_layers(g)
        restart.NLAYERS.values[:] = n
        restart.NEWSNOWHEIGHT.values[:] = fresh(g, "new_snow_height")
        restart.NEWSNOWTIMESTAMP.values[:] = fresh(g, "new_snow_timestamp")
        restart.OLDSNOWTIMESTAMP.values[:] = fresh(g, "old_snow_timestamp")
        restart.LAYER_HEIGHT[0:n] = all_h(g)
        restart.LAYER_RHO[0:n] = all_density(g)
        restart.LAYER_T[0:n] = all_T(g)
        restart.LAYER_LWC[0:n] = all_lwc(g)
        restart.LAYER_IF[0:n] = all_ice(g)
        return (indY, indX, restart, o_RAIN, o_SNOW, o_LWI, o_LWO, o_H, o_LE, o_B, o_QRR, o_MB, o_SMB, o_Q, o_SH, o_TH,
                o_TS, o_AL, o_NL, o_ME, o_IMB, o_EV, o_SU, o_CO, o_DE, o_RF, o_SM, o_Z0, o_M, o_NSH, o_NST, o_OST, o_MOL,
                f_H, f_RHO, f_T, f_LWC, f_CC, f_POR, f_IF, f_IRR, f_RF, stake_names, stat, table)


def pick(series, t):
    return None if series is None else series[t]


def blank(n):
    return np.full(n, np.nan)


def blank2(n, m):
    if Config.full_field:
        return np.full((n, m), np.nan)
    return None


def padded(most, n, values):
    x = np.full(most, np.nan)
    x[0:n] = values
    return x
