"""Solar geometry and shortwave radiation on sloping, shaded terrain (reference definitions)."""
import math

import metpy.calc
import numpy as np
from metpy.units import units


def rad(x):
    return x * math.pi / 180


# ---------------------------------------------------------------- Wohlfahrt et al. (2016)
def sun(lat, lon, timezone_lon, day, hour):
    """Elevation, zenith and azimuth angle (from south, west positive)."""
    declination = math.asin(0.39785 * math.sin(rad(278.97 + 0.9856 * day
                                                   + 1.9165 * math.sin(rad(356.6 + 0.9856 * day)))))
    year = rad(279.575 + 0.9856 * day)
    equation = (-104.7 * math.sin(year) + 596.2 * math.sin(2 * year) + 4.3 * math.sin(3 * year)
                - 12.7 * math.sin(4 * year) - 429.3 * math.cos(year) - 2.0 * math.cos(2 * year)
                + 19.3 * math.cos(3 * year)) / 3600
    hours = hour + (lon - timezone_lon) / 15 + equation - 12  # since solar noon
    phi = rad(lat)
    elevation = math.asin(math.sin(phi) * math.sin(declination)
                          + math.cos(phi) * math.cos(declination) * math.cos(15.0 * rad(hours)))
    zenith = math.pi / 2 - elevation
    c = (math.sin(phi) * math.cos(zenith) - math.sin(declination)) / (math.cos(phi) * math.sin(zenith))
    azimuth = math.acos(max(-1.0, min(1.0, c)))
    if hours < 0:
        azimuth = -azimuth
    return elevation, zenith, azimuth


def diffuse_fraction(doy, zeni, Rg):
    potential = 1367.0 * (1 + 0.033 * math.cos(2 * math.pi * doy / 366)) * math.cos(zeni)
    clearness = Rg / potential
    if clearness > 50:
        return 0.2465
    return math.exp(-math.exp(0.1001 - (4.7930 - 9.4758 * clearness))) * (1 - 0.2465) + 0.2465


def on_slope(doy, zeni, azi, angslo, azislo, Rm, zeni_thld):
    diffuse = diffuse_fraction(doy, zeni, Rm)
    if zeni > rad(zeni_thld):
        diffuse = 1.0
    incidence = (math.cos(zeni) * math.cos(rad(angslo))
                 + math.sin(zeni) * math.sin(rad(angslo)) * math.cos(azi - rad(azislo)))
    return Rm * (1 - diffuse) * incidence / math.cos(zeni) + Rm * diffuse


def corrected(lat, lon, timezone_lon, doy, hour, angslo, azislo, Rm, zeni_thld):
    elevation, zenith, azimuth = sun(lat, lon, timezone_lon, doy, hour)
    return on_slope(doy, zenith, azimuth, angslo, azislo, Rm, zeni_thld)


# ---------------------------------------------------------------- Moelg et al. (2009)
def parameters(lat):
    sol = np.zeros((366, 7))
    cor = np.zeros((366, 4))
    for j in np.arange(0, 365):
        x = 0.9856 * (j + 1) - 2.72
        t = -7.66 * math.sin(rad(x)) - 9.87 * math.sin(2 * rad(x) + rad(24.99) + rad(3.83) * math.sin(rad(x)))
        cor[j, 0] = j + 1
        cor[j, 1] = x
        cor[j, 2] = t
        cor[j, 3] = t * 15 / 60
        tau = 2 * math.pi * j / 365
        sol[j, 0] = tau
        sol[j, 1] = tau * 180 / math.pi
        sol[j, 2] = (1.00011 + 0.034221 * math.cos(tau) + 0.00128 * math.sin(tau) + 0.000719 * math.cos(2 * tau)
                     + 0.000077 * math.sin(2 * tau))
        d = (0.006918 - 0.399912 * math.cos(tau) + 0.070257 * math.sin(tau) - 0.006758 * math.cos(2 * tau)
             + 0.000907 * math.sin(2 * tau) - 0.002697 * math.cos(3 * tau) + 0.00148 * math.sin(3 * tau))
        sol[j, 3] = d
        sol[j, 4] = d * 180 / math.pi
        sunrise = math.acos(-math.tan(rad(lat)) * math.tan(d)) * 180 / math.pi
        sol[j, 5] = sunrise
        sol[j, 6] = 2 / 15 * sunrise
    sol[365, :] = sol[364, :]
    cor[365, :] = cor[364, :]
    return sol, cor


def distance(lat1, lon1, lat2, lon2):
    """Great-circle distance on a sphere with the mean radius of the Earth."""
    a = (math.sin((rad(lat2) - rad(lat1)) / 2) ** 2
         + math.cos(rad(lat1)) * math.cos(rad(lat2)) * math.sin((rad(lon2) - rad(lon1)) / 2) ** 2)
    return 2 * 6371000 * math.asin(a ** 0.5)


def inside(line, bounds):
    return line[(line < max(bounds)) & (line > min(bounds))]


def lit(dem, mask, lats, lons, solh, sdirfn):
    """1 where the horizon towards the sun is below the sun, 0 where it is above."""
    sunlit = np.full_like(dem, np.nan)
    reach = (np.linalg.norm(np.max(lats) - np.min(lats)) ** 2 + np.linalg.norm(np.max(lons) - np.min(lons)) ** 2) ** 0.5
    points = int(reach * len(lats) / (lats[0] - lats[-1]))
    north = math.sin(rad(90 - sdirfn)) * reach
    east = math.cos(rad(90 - sdirfn)) * reach
    for y in range(1, len(lats) - 1):
        for x in range(1, len(lons) - 1):
            if mask[y, x] == 1:
                ys = inside(np.linspace(lats[y], lats[y] + north, points), lats)
                xs = inside(np.linspace(lons[x], lons[x] + east, points), lons)
                if len(ys) > len(xs):
                    ys = ys[0:len(xs)]
                if len(xs) > len(ys):
                    xs = xs[0:len(ys)]
                rows = np.round(np.linspace(y, np.abs(lats - ys[-1]).argmin(), len(ys)))
                cols = np.round(np.linspace(x, np.abs(lons - xs[-1]).argmin(), len(xs)))
                heights = dem[rows.astype(int), cols.astype(int)]
                away = []
                for k in range(len(ys)):
                    away.append(distance(lats[y], lons[x], ys[k], xs[k]))
                away = np.array(away)
                horizon = np.degrees(np.arctan((heights[1:len(heights)] - heights[0]) / away[1:len(away)]))
                sunlit[y, x] = 0 if np.max(horizon) > solh else 1
    return sunlit


def shading(solpars, timecorr, lat, elvgrid, maskgrid, lats, lons, STEP, TCART):
    """For every hour of a year: 1 lit, 0 in the shadow of the terrain, -1 night."""
    table = np.full((int(366 * (3600 / STEP) * 24), len(lats), len(lons)), np.nan)
    for day in range(366):
        d = solpars[day, 3]
        for hour in np.arange(0, 24, int(STEP / 3600)):
            angle = 180 + 7.5 - 15 * hour - timecorr[day, 3] + TCART
            s = math.sin(d) * math.sin(rad(lat)) + math.cos(d) * math.cos(rad(lat)) * math.cos(rad(angle))
            c = (s * math.sin(rad(lat)) - math.sin(d)) / math.cos(math.asin(s)) / math.cos(rad(lat))
            azimuth = math.acos(c) * 180 / math.pi
            if angle <= 0:
                azimuth = -azimuth
            k = round(day * (3600 / STEP) * 24 + hour * 3600 / STEP)
            if s > 0.01:
                sunlit = lit(elvgrid, maskgrid, lats, lons, math.asin(s) * 180 / math.pi, 180 - azimuth)
                table[k, maskgrid == 1] = sunlit[maskgrid == 1]
            else:
                table[k, maskgrid == 1] = -1.0
    return table


def sky_view(elvgrid, maskgrid, slopegrid, aspectgrid, lats, lons):
    """Share of 36 x 44 directions of the sky that the sloping surface sees."""
    seen = np.zeros_like(elvgrid)
    for azimuth in np.arange(10, 370, 10):
        for elevation in np.arange(2, 90, 2):
            sunlit = lit(elvgrid, maskgrid, lats, lons, elevation, azimuth)
            a = (math.cos(rad(elevation)) * np.sin(rad(slopegrid)) * np.cos(rad(aspectgrid) - rad(azimuth))
                 + math.sin(rad(elevation)) * np.cos(rad(slopegrid)))
            a[a < 0] = 0
            a[a > 0] = 1
            a[sunlit == 0] = 0
            seen = seen + a
    share = np.full_like(elvgrid, np.nan)
    share[maskgrid == 1] = seen[maskgrid == 1] / (36 * 44)
    return share


def all_sky(solPars, timecorr, doy, hour, lat, tempgrid, pgrid, rhgrid, cldgrid, elvgrid, maskgrid, slopegrid,
            aspectgrid, shad1yr, gridsvf, STEP, TCART):
    d = solPars[doy - 1, 3]
    top = 1367 * solPars[doy - 1, 2]
    mixing = metpy.calc.mixing_ratio_from_relative_humidity(rhgrid * units.percent, tempgrid * units.kelvin,
                                                            pgrid * units.hPa)
    vapour = np.array(metpy.calc.vapor_pressure(pgrid * units.hPa, mixing))
    angle = 180 + STEP / 3600 * 7.5 - hour * 15 - timecorr[doy - 1, 3] + TCART
    phi = rad(lat)
    s = math.sin(d) * math.sin(phi) + math.cos(d) * math.cos(phi) * math.cos(rad(angle))
    total = np.full_like(elvgrid, np.nan)
    diffuse = np.full_like(elvgrid, np.nan)
    if s > 0.01:
        m = 35 * (1224 * s ** 2 + 1) ** (-0.5)
        mp = pgrid / 1013.25 * m
        w = 46.5 * vapour / tempgrid * m
        rayleigh = np.exp((-0.09030 * mp ** 0.84) * (1.0 + mp - mp ** 1.01))
        gases = np.exp(-0.0127 * m ** 0.26)
        k = 2.4845e-5 * elvgrid + 0.87764
        k[k > 1.0] = 1.0
        aerosols = k ** m
        scattered = 1.0 - (1.0 - 0.9) * (1 - mp + mp ** 1.06) * (1.0 - aerosols)
        water = 1.0 - 2.4959 * w / ((1.0 + 79.034 * w) ** 0.6828 + 6.385 * w)
        clear = rayleigh * gases * aerosols * water
        sky = (0.66 * top * s * gases * water * scattered * (1 - rayleigh * aerosols / scattered)
               / (1 - mp + mp ** 1.02))
        both = top * s * clear + sky
        slope = rad(slopegrid)
        turn = rad(180 - aspectgrid)
        incidence = (
            (np.cos(slope) * np.sin(phi) - np.cos(phi) * np.cos(turn) * np.sin(slope)) * np.sin(d)
            + (np.sin(phi) * np.cos(turn) * np.sin(slope) + np.cos(slope) * np.cos(phi)) * np.cos(d) * np.cos(rad(angle))
            + np.sin(turn) * np.sin(slope) * np.cos(d) * np.sin(rad(angle)))
        direct = top * incidence * clear
        direct[incidence < 0.0] = 0.0
        sunlit = shad1yr[int((doy - 1) * (86400 / STEP) + hour / (STEP / 3600)), :, :]
        direct[sunlit == 0.0] = 0.0
        cloudy = cldgrid > 0.0
        diffuse[cloudy] = both[cloudy] * ((35 - 4.6) / 100 * cldgrid[cloudy] + 4.6 / 100) * gridsvf[cloudy]
        diffuse[cldgrid == 0.0] = sky[cldgrid == 0.0] * gridsvf[cldgrid == 0.0]
        total[:, :] = direct * (1 - cldgrid) + diffuse
    else:
        total[maskgrid == 1] = 0 * elvgrid[maskgrid == 1]
    return total[::-1, :]
