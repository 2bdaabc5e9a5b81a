"""Independent solar ephemeris (own implementation of the Reda-Andreas SPA report
with the published periodic terms in data/spa_tables.json) and helpers for sun events.
Works on seconds since the epoch; uses days from J2000 so that nothing is lost to
Julian-day rounding."""
import json
import os

import numpy as np

_T = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'spa_tables.json')))
_T = {k: np.array(v, float) for k, v in _T.items()}
rad, deg = np.radians, np.degrees


def _series(names, tau):
    tot = np.zeros_like(tau)
    for p, nm in enumerate(names):
        t = _T[nm]
        tot = tot + (t[:, 0, None] * np.cos(t[:, 1, None] + t[:, 2, None] * tau)).sum(axis=0) * tau ** p
    return tot / 1e8


def delta_t(year, month):
    """Espenak-Meeus polynomial for 1941-2149."""
    y = year + (month - 0.5) / 12
    if 1941 <= year < 1961:
        t = y - 1950
        return 29.07 + .407 * t - t ** 2 / 233 + t ** 3 / 2547
    if 1961 <= year < 1986:
        t = y - 1975
        return 45.45 + 1.067 * t - t ** 2 / 260 - t ** 3 / 718
    if 1986 <= year < 2005:
        t = y - 2000
        return 63.86 + .3345 * t - .060374 * t ** 2 + .0017275 * t ** 3 + .000651814 * t ** 4 + .00002373599 * t ** 5
    if 2005 <= year < 2050:
        t = y - 2000
        return 62.92 + .32217 * t + .005589 * t ** 2
    if 2050 <= year < 2150:
        return -20 + 32 * ((y - 1820) / 100) ** 2 - .5628 * (2150 - y)
    raise ValueError(year)


def distance(unix, dT=67.):
    tau = ((np.asarray(unix, float) + dT) / 86400 + 2440587.5 - 2451545) / 365250
    return _series(['R0', 'R1', 'R2', 'R3', 'R4'], np.atleast_1d(tau))


def geocentric(unix, dT=67.):
    """Apparent sidereal time at Greenwich, right ascension, declination, distance,
    nutation, obliquity (degrees)."""
    u = np.atleast_1d(np.asarray(unix, float))
    d_ut = (u - 946728000.0) / 86400.0           # days from J2000.0 (2000-01-01 12:00)
    d_tt = (u + dT - 946728000.0) / 86400.0
    T, TT = d_ut / 36525, d_tt / 36525
    tau = TT / 10
    L = deg(_series(['L0', 'L1', 'L2', 'L3', 'L4', 'L5'], tau))
    B = deg(_series(['B0', 'B1'], tau))
    R = _series(['R0', 'R1', 'R2', 'R3', 'R4'], tau)
    th, be = L + 180, -B
    X = np.array([297.85036 + 445267.111480 * TT - .0019142 * TT ** 2 + TT ** 3 / 189474,
                  357.52772 + 35999.050340 * TT - .0001603 * TT ** 2 - TT ** 3 / 300000,
                  134.96298 + 477198.867398 * TT + .0086972 * TT ** 2 + TT ** 3 / 56250,
                  93.27191 + 483202.017538 * TT - .0036825 * TT ** 2 + TT ** 3 / 327270,
                  125.04452 - 1934.136261 * TT + .0020708 * TT ** 2 + TT ** 3 / 450000])
    arg = rad(_T['NUTATION_YTERM_ARRAY'] @ X)
    ab = _T['NUTATION_ABCD_ARRAY']
    dpsi = ((ab[:, 0, None] + ab[:, 1, None] * TT) * np.sin(arg)).sum(0) / 36e6
    deps = ((ab[:, 2, None] + ab[:, 3, None] * TT) * np.cos(arg)).sum(0) / 36e6
    U = tau / 10
    e0 = np.polyval([2.45, 5.79, 27.87, 7.12, -39.05, -249.67, -51.38, 1999.25, -1.55, -4680.93, 84381.448], U)
    eps = e0 / 3600 + deps
    lam = th + dpsi - 20.4898 / (3600 * R)
    gmst = (280.46061837 + 360.98564736629 * d_ut + .000387933 * T ** 2 - T ** 3 / 38710000) % 360
    nu = gmst + dpsi * np.cos(rad(eps))
    sl, ce, se = np.sin(rad(lam)), np.cos(rad(eps)), np.sin(rad(eps))
    ra = deg(np.arctan2(sl * ce - np.tan(rad(be)) * se, np.cos(rad(lam)))) % 360
    dec = deg(np.arcsin(np.sin(rad(be)) * ce + np.cos(rad(be)) * se * sl))
    M = (280.4664567 + 360007.6982779 * tau + .03032028 * tau ** 2 + tau ** 3 / 49931 - tau ** 4 / 15300 - tau ** 5 / 2e6)
    eot = (4 * (M - .0057183 - ra + dpsi * ce) + 720) % 1440 - 720
    return dict(nu=nu, ra=ra, dec=dec, R=R, eot=eot)


def refraction(e0, pressure_hpa, temp, horizon_refraction=.5667):
    r = pressure_hpa / 1010 * 283 / (273 + temp) * 1.02 / (60 * np.tan(rad(e0 + 10.3 / (e0 + 5.11))))
    return np.where(e0 >= -(0.26667 + horizon_refraction), r, 0.)


def spa(unix, lat, lon, elev=0., pressure_hpa=1013.25, temp=12., dT=67., horizon_refraction=.5667):
    g = geocentric(unix, dT)
    H = rad((g['nu'] + lon - g['ra']) % 360)
    xi = rad(8.794 / (3600 * g['R']))
    phi = rad(lat)
    u = np.arctan(.99664719 * np.tan(phi))
    x = np.cos(u) + elev / 6378140 * np.cos(phi)
    y = .99664719 * np.sin(u) + elev / 6378140 * np.sin(phi)
    d = rad(g['dec'])
    da = np.arctan2(-x * np.sin(xi) * np.sin(H), np.cos(d) - x * np.sin(xi) * np.cos(H))
    dp = np.arctan2((np.sin(d) - y * np.sin(xi)) * np.cos(da), np.cos(d) - x * np.sin(xi) * np.cos(H))
    Hp = H - da
    e0 = deg(np.arcsin(np.clip(np.sin(phi) * np.sin(dp) + np.cos(phi) * np.cos(dp) * np.cos(Hp), -1, 1)))
    de = refraction(e0, pressure_hpa, temp, horizon_refraction)
    az = (deg(np.arctan2(np.sin(Hp), np.cos(Hp) * np.sin(phi) - np.tan(dp) * np.cos(phi))) + 180) % 360
    return dict(elevation=e0, zenith=90 - e0, apparent_elevation=e0 + de, apparent_zenith=90 - e0 - de,
                azimuth=az, equation_of_time=g['eot'])


def geo_elevation(unix, lat, lon, dT=67.):
    """Geocentric elevation (no parallax, no refraction) and local hour angle (degrees)."""
    g = geocentric(unix, dT)
    H = (g['nu'] + lon - g['ra'] + 180) % 360 - 180
    s = np.sin(rad(lat)) * np.sin(rad(g['dec'])) + np.cos(rad(lat)) * np.cos(rad(g['dec'])) * np.cos(rad(H))
    return deg(np.arcsin(np.clip(s, -1, 1))), H, g['dec']


def events(utday, lat, lon, dT=67.):
    """SPA report appendix A.2 for days given as 00:00 UTC seconds:
    (transit, sunrise, sunset) seconds, each chained to the day's transit, and the
    cosine of the sunset hour angle."""
    utday = np.atleast_1d(np.asarray(utday, float))
    nu = geocentric(utday, dT)['nu']
    # "0 TT" of the days D-1, D, D+1
    g = [geocentric(utday - dT + k * 86400, dT) for k in (-1, 0, 1)]
    ra0, de0 = g[1]['ra'], g[1]['dec']
    m0 = ((ra0 - lon - nu) / 360) % 1
    ca = (np.sin(rad(-.8333)) - np.sin(rad(lat)) * np.sin(rad(de0))) / (np.cos(rad(lat)) * np.cos(rad(de0)))
    with np.errstate(invalid='ignore'):
        H0 = deg(np.arccos(np.where(np.abs(ca) > 1, np.nan, ca)))
    a = (g[1]['ra'] - g[0]['ra'] + 180) % 360 - 180
    b = (g[2]['ra'] - g[1]['ra'] + 180) % 360 - 180
    ap, bp = g[1]['dec'] - g[0]['dec'], g[2]['dec'] - g[1]['dec']

    def at(m):   # m within [0, 1)
        n = m + dT / 86400
        al = ra0 + n * (a + b + (b - a) * n) / 2
        dl = de0 + n * (ap + bp + (bp - ap) * n) / 2
        H = (nu + 360.985647 * m + lon - al + 180) % 360 - 180
        h = deg(np.arcsin(np.sin(rad(lat)) * np.sin(rad(dl)) + np.cos(rad(lat)) * np.cos(rad(dl)) * np.cos(rad(H))))
        return H, h, dl

    H, _, _ = at(m0)
    T = m0 - H / 360
    out = []
    for s in (-1, 1):
        m = m0 + s * H0 / 360
        day = np.floor(m)
        H, h, dl = at(m - day)
        out.append(m - day + (h + .8333) / (360 * np.cos(rad(dl)) * np.cos(rad(lat)) * np.sin(rad(H))) + day)
    return utday + 86400 * T, utday + 86400 * out[0], utday + 86400 * out[1], ca


def michalsky_ephemeris(dt_utc, lat, lon, pressure=101325., temp=12.):
    """The simplified ephemeris of the PV_LIB toolbox (epoch 1900), Kepler solved to convergence."""
    d = dt_utc
    doy = d.timetuple().tm_yday
    hr = d.hour + d.minute / 60 + d.second / 3600 + d.microsecond / 3.6e9
    yr = d.year - 1900
    e0 = 365 * yr + np.floor((yr - 1) / 4) - .5 + doy
    T = e0 / 36525
    g = 6 / 24 + 38 / 1440 + (45.836 + 8640184.542 * T + .0929 * T * T) / 86400
    g = 360 * (g - np.floor(g))
    ast = (g + 360 * 1.0027379093 * hr / 24 + lon) % 360
    ep = e0 + hr / 24
    t = ep / 36525
    ob = rad(23.452294 - .0130125 * t - 1.64e-6 * t ** 2 + 5.03e-7 * t ** 3)
    per = 281.22083 + 4.70684e-5 * ep + .000453 * t ** 2 + 3e-6 * t ** 3
    ma = (358.47583 + .985600267 * ep - .00015 * t ** 2 - 3e-6 * t ** 3) % 360
    ec = .01675104 - 4.18e-5 * t - 1.26e-7 * t ** 2
    E = ma
    for _ in range(40):
        E = ma + deg(ec) * np.sin(rad(E))
    ta = 2 * deg(np.arctan(np.sqrt((1 + ec) / (1 - ec)) * np.tan(rad(E) / 2)))
    lam = rad(per + ta - 20 / 3600)
    dec = np.arcsin(np.sin(ob) * np.sin(lam))
    ra = deg(np.arctan2(np.cos(ob) * np.sin(lam), np.cos(lam)))
    H = (ast - ra + 180) % 360 - 180
    Hr, la = rad(H), rad(lat)
    az = deg(np.arctan2(-np.sin(Hr), np.cos(la) * np.tan(dec) - np.sin(la) * np.cos(Hr))) % 360
    el = deg(np.arcsin(np.clip(np.cos(la) * np.cos(dec) * np.cos(Hr) + np.sin(la) * np.sin(dec), -1, 1)))
    te = np.tan(rad(el))
    if 5 < el <= 85:
        r = 58.1 / te - .07 / te ** 3 + 8.6e-5 / te ** 5
    elif -.575 < el <= 5:
        r = el * (-518.2 + el * (103.4 + el * (-12.79 + el * .711))) + 1735
    elif -1 < el <= -.575:
        r = -20.774 / te
    else:
        r = 0.
    r *= 283 / (273 + temp) * pressure / 101325 / 3600
    return dict(elevation=el, zenith=90 - el, apparent_elevation=el + r, apparent_zenith=90 - el - r,
                azimuth=az, solar_time=(180 + H) / 15)
