"""Catalogue: irradiance, with independent scalar reference equations."""
import json
import math
import os

import numpy as np

from mon import gen
from mon.engine import Entry
from mon.refs import (NAN, INF, acosd, clip, cosd, div, dot, exp, isn, nmax, nmin, sind, unit)

TAB = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'irradiance_tables.json')))
PEREZ = TAB['perez']
DIRINT = np.array(TAB['dirint'])
ALBEDOS = {'urban': 0.18, 'grass': 0.20, 'fresh grass': 0.26, 'soil': 0.17, 'sand': 0.40,
           'snow': 0.65, 'fresh snow': 0.75, 'asphalt': 0.12, 'concrete': 0.30,
           'aluminum': 0.85, 'copper': 0.74, 'fresh steel': 0.35, 'dirty steel': 0.08, 'sea': 0.06}


# ------------------------------------------------------------ references
def spencer(doy, sc=1366.1):
    b = 2 * math.pi / 365 * (doy - 1)
    return sc * (1.00011 + 0.034221 * math.cos(b) + 0.00128 * math.sin(b)
                 + 0.000719 * math.cos(2 * b) + 7.7e-05 * math.sin(2 * b))


def projection(st, sa, z, az):
    if isn(st, sa, z, az):
        return NAN
    return clip(dot(unit(st, sa), unit(z, az)), -1, 1)


def r_proj(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
    return projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth)


def r_aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
    """Numerically careful angle between the two unit vectors."""
    a = unit(surface_tilt, surface_azimuth)
    b = unit(solar_zenith, solar_azimuth)
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.degrees(math.atan2(math.sqrt(dot(cr, cr)), dot(a, b)))


def r_beam(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni):
    return nmax(dni * projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)


def r_ground(surface_tilt, ghi, albedo=.25, surface_type=None):
    if surface_type is not None:
        albedo = ALBEDOS[surface_type]
    return ghi * albedo * (1 - cosd(surface_tilt)) / 2


def _comp(total, comps, rc):
    if not rc:
        return total
    return {'poa_sky_diffuse': total, **comps}


def r_isotropic(surface_tilt, dhi, return_components=False):
    v = dhi * (1 + cosd(surface_tilt)) / 2
    return _comp(v, {'poa_isotropic': v}, return_components)


def r_klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith, solar_azimuth):
    if ghi == 0 and dhi != 0:
        return None
    c = max(projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)
    f = 0.0 if ghi == 0 else 1 - (dhi / ghi) ** 2
    return (dhi * 0.5 * (1 + cosd(surface_tilt)) * (1 + f * sind(surface_tilt / 2) ** 3)
            * (1 + f * c ** 2 * sind(solar_zenith) ** 3))


def _rb(st, sa, z, az):
    return nmax(projection(st, sa, z, az), 0) / max(cosd(z), 0.01745)


def r_haydavies(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth,
                return_components=False):
    ai = dni / dni_extra
    iso = max(dhi * (1 - ai) * (1 + cosd(surface_tilt)) / 2, 0)
    cir = max(dhi * ai * _rb(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)
    return _comp(iso + cir, {'poa_isotropic': iso, 'poa_circumsolar': cir}, return_components)


def r_haydavies_ratio(surface_tilt, surface_azimuth, dhi, dni, dni_extra, projection_ratio, return_components=False):
    ai = dni / dni_extra
    iso = max(dhi * (1 - ai) * (1 + cosd(surface_tilt)) / 2, 0)
    cir = max(dhi * ai * projection_ratio, 0)
    return _comp(iso + cir, {'poa_isotropic': iso, 'poa_circumsolar': cir}, return_components)


def r_reindl(surface_tilt, surface_azimuth, dhi, dni, ghi, dni_extra, solar_zenith, solar_azimuth,
             return_components=False):
    ai = dni / dni_extra
    hb = max(dni * cosd(solar_zenith), 0)
    r = 0.0 if ghi == 0 else hb / ghi
    svf = (1 + cosd(surface_tilt)) / 2
    iso = dhi * (1 - ai) * svf
    cir = dhi * ai * _rb(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth)
    hor = iso * math.sqrt(r) * sind(surface_tilt / 2) ** 3
    return _comp(iso + cir + hor, {'poa_isotropic': iso, 'poa_circumsolar': cir, 'poa_horizon': hor}, return_components)


def r_king(surface_tilt, dhi, ghi, solar_zenith):
    return max(dhi * (1 + cosd(surface_tilt)) / 2
               + ghi * (0.012 * solar_zenith - 0.04) * (1 - cosd(surface_tilt)) / 2, 0)


EPSBINS = (1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)


def ky(z):
    if isn(z) or z > 90:
        return NAN
    return 1 / (cosd(z) + 0.50572 * (6.07995 + 90 - z) ** -1.6364)


def kasten1966(z):
    if isn(z) or z > 90:
        return NAN
    return 1 / (cosd(z) + 0.15 * (93.885 - z) ** -1.253)


def r_perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth, airmass,
            model='allsitescomposite1990', return_components=False):
    zero = {k: 0.0 for k in ('poa_isotropic', 'poa_circumsolar', 'poa_horizon')}
    if isn(airmass):
        return _comp(0.0, zero, return_components)
    if dhi == 0:
        return None if dni == 0 else _comp(0.0, zero, return_components)
    z = math.radians(solar_zenith)
    k = 1.041 * z ** 3
    eps = ((dhi + dni) / dhi + k) / (1 + k)
    if any(abs(eps - b) < 1e-9 for b in EPSBINS):
        return None
    f = PEREZ[model][sum(eps >= b for b in EPSBINS)]
    delta = dhi * airmass / dni_extra
    f1 = max(f[0] + f[1] * delta + f[2] * z, 0)
    f2 = f[3] + f[4] * delta + f[5] * z
    a = max(projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)
    b = max(cosd(solar_zenith), cosd(85))
    iso = dhi * 0.5 * (1 - f1) * (1 + cosd(surface_tilt))
    cir = dhi * f1 * a / b
    hor = dhi * f2 * sind(surface_tilt)
    tot = max(iso + cir + hor, 0)
    c = {'poa_isotropic': iso, 'poa_circumsolar': cir, 'poa_horizon': hor} if tot > 0 else zero
    if tot < 1e-9:
        return None
    return _comp(tot, c, return_components)


# Perez-Driesse: quadratic splines written out from the de Boor recursion
_KN = [0, 0, 0, .061, .187, .333, .487, .643, .778, .839, 1, 1, 1]
_CO = [[-0.053, +0.529, -0.028, -0.071, +0.061, -0.019], [-0.008, +0.588, -0.062, -0.060, +0.072, -0.022],
       [+0.131, +0.770, -0.167, -0.026, +0.106, -0.032], [+0.328, +0.471, -0.216, +0.069, -0.105, -0.028],
       [+0.557, +0.241, -0.300, +0.086, -0.085, -0.012], [+0.861, -0.323, -0.355, +0.240, -0.467, -0.008],
       [+1.212, -1.239, -0.444, +0.305, -0.797, +0.047], [+1.099, -1.847, -0.365, +0.275, -1.132, +0.124],
       [+0.544, +0.157, -0.213, +0.118, -1.455, +0.292], [+0.544, +0.157, -0.213, +0.118, -1.455, +0.292]]


def _spline(x, col):
    k, t = 2, _KN
    j = max(i for i in range(2, 10) if t[i] <= x) if x < 1 else 9
    d = [_CO[j - k + i][col] for i in range(k + 1)]
    for r in range(1, k + 1):
        for i in range(k, r - 1, -1):
            lo, hi = t[j - k + i], t[i + 1 + j - r]
            a = (x - lo) / (hi - lo) if hi > lo else 0.0
            d[i] = (1 - a) * d[i - 1] + a * d[i]
    return d[k]


def r_perez_driesse(surface_tilt, surface_azimuth, dhi, dni, dni_extra, solar_zenith, solar_azimuth,
                    airmass=None, return_components=False):
    if airmass is None:
        airmass = ky(solar_zenith)
    if solar_zenith >= 90:
        airmass = ky(90)
    delta = dhi / (dni_extra / airmass)
    zeta = 0.0 if dhi == 0 else dni / (dhi + dni)
    k = 1.041 * math.radians(solar_zenith) ** 3
    zeta = zeta / (1 - k * (zeta - 1))
    z = math.radians(solar_zenith)
    f1 = clip(_spline(zeta, 0) + _spline(zeta, 1) * delta + _spline(zeta, 2) * z, 0, 0.9)
    f2 = _spline(zeta, 3) + _spline(zeta, 4) * delta + _spline(zeta, 5) * z
    a = max(projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 0)
    b = max(cosd(solar_zenith), cosd(85))
    iso = dhi * 0.5 * (1 - f1) * (1 + cosd(surface_tilt))
    cir = dhi * f1 * a / b
    hor = dhi * f2 * sind(surface_tilt)
    return _comp(max(iso + cir + hor, 0), {'poa_isotropic': iso, 'poa_circumsolar': cir, 'poa_horizon': hor},
                 return_components)


SKY = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse']


def r_sky(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra=None,
          airmass=None, model='isotropic', model_perez='allsitescomposite1990', return_components=False):
    m = model.lower()
    g = (surface_tilt, surface_azimuth)
    s = (solar_zenith, solar_azimuth)
    rc = return_components
    if m == 'isotropic':
        return r_isotropic(surface_tilt, dhi, rc)
    if m == 'klucher':
        return r_klucher(*g, dhi, ghi, *s)
    if m == 'haydavies':
        return r_haydavies(*g, dhi, dni, dni_extra, *s, rc)
    if m == 'reindl':
        return r_reindl(*g, dhi, dni, ghi, dni_extra, *s, rc)
    if m == 'king':
        return r_king(surface_tilt, dhi, ghi, solar_zenith)
    if m == 'perez':
        return r_perez(*g, dhi, dni, dni_extra, *s, ky(solar_zenith) if airmass is None else airmass, model_perez, rc)
    return r_perez_driesse(*g, dhi, dni, dni_extra, *s, airmass, rc)


def r_total(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra=None,
            airmass=None, albedo=.25, surface_type=None, model='isotropic',
            model_perez='allsitescomposite1990', diffuse_components=False):
    sky = r_sky(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra,
                airmass, model, model_perez, diffuse_components)
    if sky is None:
        return None
    extra = {}
    if isinstance(sky, dict):
        extra = {k: v for k, v in sky.items() if k != 'poa_sky_diffuse'}
        sky = sky['poa_sky_diffuse']
    gr = r_ground(surface_tilt, ghi, albedo, surface_type)
    di = r_beam(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni)
    return {'poa_global': di + sky + gr, 'poa_direct': di, 'poa_diffuse': sky + gr, 'poa_sky_diffuse': sky,
            'poa_ground_diffuse': gr, **extra}


def r_poa_components(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
    di = max(dni * cosd(aoi), 0)
    df = poa_sky_diffuse + poa_ground_diffuse
    return {'poa_global': di + df, 'poa_direct': di, 'poa_diffuse': df, 'poa_sky_diffuse': poa_sky_diffuse,
            'poa_ground_diffuse': poa_ground_diffuse}


def r_csi(ghi, ghi_clear, max_clearsky_index=2.0):
    if not (math.isfinite(ghi) and math.isfinite(ghi_clear)):
        return NAN
    v = 0.0 if ghi_clear == 0 else ghi / ghi_clear
    return min(max(v, 0.0), max_clearsky_index)


def r_kt(ghi, solar_zenith, extra_radiation, min_cos_zenith=0.065, max_clearness_index=2.0):
    v = div(ghi, extra_radiation * max(cosd(solar_zenith), min_cos_zenith))
    return clip(v, 0, max_clearness_index)


def ktp_factor(am):
    return 1.031 * math.exp(-1.4 / (0.9 + 9.4 / am)) + 0.1


def r_ktp(clearness_index, airmass, max_clearness_index=2.0):
    return clip(clearness_index / ktp_factor(airmass), 0, max_clearness_index)


def disc_kn(kt, am, max_airmass=12):
    am = nmin(am, max_airmass)
    if isn(kt, am):
        return NAN, am
    if kt <= 0.6:
        a = 0.512 - 1.56 * kt + 2.286 * kt ** 2 - 2.222 * kt ** 3
        b = 0.37 + 0.962 * kt
        c = -0.28 + 0.932 * kt - 2.048 * kt ** 2
    else:
        a = -5.743 + 21.77 * kt - 27.49 * kt ** 2 + 11.56 * kt ** 3
        b = 41.4 - 118.5 * kt + 66.05 * kt ** 2 + 31.9 * kt ** 3
        c = -47.01 + 184.2 * kt - 222.0 * kt ** 2 + 73.81 * kt ** 3
    knc = 0.866 - 0.122 * am + 0.0121 * am ** 2 - 0.000653 * am ** 3 + 1.4e-05 * am ** 4
    return knc - (a + b * math.exp(c * am)), am


def r_disc(ghi, solar_zenith, datetime_or_doy, pressure=101325, min_cos_zenith=0.065, max_zenith=87,
           max_airmass=12):
    i0 = spencer(datetime_or_doy, 1370.)
    kt = r_kt(ghi, solar_zenith, i0, min_cos_zenith, 1)
    am = kasten1966(solar_zenith)
    if pressure is not None:
        am = am * pressure / 101325
    kn, am = disc_kn(kt, am, max_airmass)
    dni = kn * i0
    if solar_zenith > max_zenith or ghi < 0 or dni < 0:
        dni = 0.0
    return {'dni': dni, 'kt': kt, 'airmass': am}


def _decomp(ghi, z, kt, df, max_zenith):
    dhi = df * ghi
    dni = (ghi - dhi) / cosd(z)
    if z > max_zenith or ghi < 0 or dni < 0:
        dni, dhi = 0.0, ghi
    return {'dni': dni, 'dhi': dhi, 'kt': kt}


def r_erbs(ghi, zenith, datetime_or_doy, min_cos_zenith=0.065, max_zenith=87):
    kt = r_kt(ghi, zenith, spencer(datetime_or_doy), min_cos_zenith, 1)
    if kt <= 0.22:
        df = 1 - 0.09 * kt
    elif kt <= 0.8:
        df = 0.9511 - 0.1604 * kt + 4.388 * kt ** 2 - 16.638 * kt ** 3 + 12.336 * kt ** 4
    else:
        df = 0.165
    return _decomp(ghi, zenith, kt, df, max_zenith)


def r_erbs_driesse(ghi, zenith, datetime_or_doy=None, dni_extra=None, min_cos_zenith=0.065, max_zenith=87):
    if dni_extra is None:
        dni_extra = spencer(datetime_or_doy)
    ghi = max(ghi, 0)
    kt = r_kt(ghi, zenith, dni_extra, min_cos_zenith, 1)
    if kt <= 0.216:
        df = 1 - 0.09 * kt
    elif kt <= 0.792:
        df = (12.26911439571261000 * kt ** 4 - 16.47050842469730700 * kt ** 3 + 04.24692671521831700 * kt ** 2
              - 00.11390583806313881 * kt + 00.94629663357100100)
    else:
        df = 0.165
    return _decomp(ghi, zenith, kt, df, max_zenith)


def r_orgill(ghi, zenith, datetime_or_doy, dni_extra=None, min_cos_zenith=0.065, max_zenith=87):
    if dni_extra is None:
        dni_extra = spencer(datetime_or_doy)
    kt = r_kt(ghi, zenith, dni_extra, min_cos_zenith, 1)
    df = 1 - 0.249 * kt if kt < 0.35 else (1.557 - 1.84 * kt if kt <= 0.75 else 0.177)
    return _decomp(ghi, zenith, kt, df, max_zenith)


def r_boland(ghi, solar_zenith, datetime_or_doy, a_coeff=8.645, b_coeff=0.613, min_cos_zenith=0.065,
             max_zenith=87):
    kt = r_kt(ghi, solar_zenith, spencer(datetime_or_doy), min_cos_zenith, 1)
    return _decomp(ghi, solar_zenith, kt, 1 / (1 + math.exp(a_coeff * (kt - b_coeff))), max_zenith)


def r_louche(ghi, solar_zenith, datetime_or_doy, max_zenith=90):
    i0 = spencer(datetime_or_doy)
    kt = r_kt(ghi, solar_zenith, i0)
    kb = -10.627 * kt ** 5 + 15.307 * kt ** 4 - 5.205 * kt ** 3 + 0.994 * kt ** 2 - 0.059 * kt + 0.002
    dni = kb * i0
    dhi = ghi - dni * cosd(solar_zenith)
    if solar_zenith > max_zenith or ghi < 0 or dni < 0:
        dni, dhi = 0.0, ghi
    return {'dni': dni, 'dhi': dhi, 'kt': kt}


def r_campbell(zenith, transmittance, pressure=101325.0, dni_extra=1367.0):
    if zenith > 90:
        return {'ghi': NAN, 'dni': NAN, 'dhi': NAN}
    am = 1 / cosd(zenith) * pressure / 101325
    try:
        t = transmittance ** am
    except OverflowError:
        return None
    dni = dni_extra * t
    dhi = 0.3 * (1 - t) * dni_extra * cosd(zenith)
    return {'ghi': dhi + dni * cosd(zenith), 'dni': dni, 'dhi': dhi}


def r_spitters(daily_solar_zenith, global_diffuse_fraction):
    f = global_diffuse_fraction
    return ((1 + 0.3 * (1 - f ** 2)) * f
            / (1 + (1 - f ** 2) * cosd(daily_solar_zenith) ** 2 * sind(daily_solar_zenith) ** 3))


# ------------------------------------------------------------ generators
def g_geo(rng, n, z=None):
    st = gen.mix(rng, n, 0, 180, [0., 90., 180., 30., 1e-7])
    sa = gen.mix(rng, n, -360, 720, [0., 90., 180., 270., 360., -180.])
    z = gen.zenith(rng, n) if z is None else z
    az = gen.mix(rng, n, -180, 540, [0., 180., 359.999])
    m = rng.random(n) < 0.12      # sun exactly on / opposite the normal
    st = np.where(m, np.minimum(z, 180), st)
    sa = np.where(m, az + rng.choice([0, 360, -360, 180], n), sa)
    return dict(surface_tilt=st, surface_azimuth=sa, solar_zenith=z, solar_azimuth=az)


def neg_dni(rng, dni, front):
    # instruments read a little below zero at night; the sun behind the surface stays out of it
    return np.where(front & (rng.random(len(dni)) < .06), -rng.uniform(0, 6, len(dni)), dni)


def g_beam(rng, n):
    g = g_geo(rng, n)
    front = np.array([projection(*v) > .01 for v in zip(*(g[k] for k in ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth')))])
    return dict(**g, dni=neg_dni(rng, gen.irr(rng, n), front))


def g_components(rng, n):
    aoi = gen.mix(rng, n, 0, 180, [0., 90., 180.])
    return dict(aoi=aoi, dni=neg_dni(rng, gen.irr(rng, n), aoi < 89), poa_sky_diffuse=gen.irr(rng, n, 500), poa_ground_diffuse=gen.irr(rng, n, 200))


def g_sky(rng, n, need=('dni', 'ghi', 'dhi'), geo=True, zhi=115, extra=True, airmass=False, tilt180=True):
    z = gen.mix(rng, n, 0, zhi, [0., 5., 60., 80., 84.9, 85., 86., 87., 88., 89.5, 90., 91., 100.])
    ghi, dni, dhi = gen.consistent_irr(rng, n, z)
    k = rng.random(n)
    dni = np.where(k < 0.15, gen.irr(rng, n), dni)         # inconsistent components
    dhi = np.where((k > 0.9), gen.irr(rng, n, 600), dhi)
    ghi = np.where(k > 0.95, gen.irr(rng, n) + 1, ghi)
    zero = rng.random(n) < 0.05
    dhi = np.where(zero, 0.0, dhi)
    d = dict(surface_tilt=gen.mix(rng, n, 0, 180 if tilt180 else 90, [0., 90., 30.]),
             surface_azimuth=gen.azimuth(rng, n))
    if not geo:
        d.pop('surface_azimuth')
    v = dict(dni=dni, ghi=ghi, dhi=dhi)
    for k in need:
        d[k] = v[k]
    d['solar_zenith'] = z
    if geo:
        d['solar_azimuth'] = gen.azimuth(rng, n)
    if extra:
        d['dni_extra'] = rng.uniform(1320, 1415, n)
    if airmass:
        am = np.array([ky(x) for x in z])
        d['airmass'] = np.where(rng.random(n) < .3, np.where(np.isnan(am), 38., am) * rng.uniform(.7, 1.05, n), am)
    return d


def g_drop(f, *names, **kw):
    def g(rng, n):
        d = f(rng, n, **kw)
        for k in names:
            d.pop(k, None)
        return d
    return g


def opt(**choices):
    def f(rng):
        o = {}
        for k, v in choices.items():
            x = v[int(rng.integers(0, len(v)))] if not callable(v) else v(rng)
            if x is not _OMIT:
                o[k] = x
        return o
    return f


_OMIT = object()
OMIT = _OMIT


def g_decomp(zname, doy=True, extra=False):
    def g(rng, n):
        z = gen.zenith(rng, n, 110)
        ghi, _, _ = gen.consistent_irr(rng, n, z)
        k = rng.random(n)
        ghi = np.where(k < .15, gen.irr(rng, n), ghi)
        ghi = np.where(k > .95, -gen.irr(rng, n, 20), ghi)
        d = dict(ghi=ghi)
        d[zname] = z
        if doy:
            d['datetime_or_doy'] = rng.integers(1, 367, n).astype(float)
        if extra:
            d['dni_extra'] = rng.uniform(1320, 1415, n)
        return d
    return g


LIM = dict(min_cos_zenith=[OMIT, OMIT, .065, .03, .2, .1], max_zenith=[OMIT, OMIT, 87, 80., 85, 89.9, 93])
PM = list(PEREZ)


def _sky_opts(rng):
    m = SKY[int(rng.integers(0, 7))]
    o = dict(model=m if rng.random() < .8 else m.upper())
    if m == 'perez' and rng.random() < .7:
        o['model_perez'] = PM[int(rng.integers(0, len(PM)))]
    if m not in ('klucher', 'king') and rng.random() < .4:
        o['return_components'] = True
    return o


def _tot_opts(rng):
    o = _sky_opts(rng)
    if 'return_components' in o:
        o['diffuse_components'] = o.pop('return_components')
    k = rng.random()
    if k < .3:
        o['surface_type'] = list(ALBEDOS)[int(rng.integers(0, len(ALBEDOS)))]
    elif k < .7:
        o['albedo'] = float(rng.choice([0., .2, .25, .6, 1.]))
    if rng.random() < .06:
        o.pop('model')
        o.pop('model_perez', None)
        o.pop('diffuse_components', None)
    return o


def pd_needs(arg, v):
    """Without diffuse light the result is zero whatever the rest; past the horizon the
    airmass there is used."""
    ok = v['dhi'] > 0
    if arg == 'airmass':
        ok = ok & (v['solar_zenith'] < 89.9)
    return ok


AOI = [
    Entry('irradiance.aoi_projection', g_geo, r_proj, int_ok=True, two_d=True, atol=1e-12, rtol=1e-10),
    # arccos amplifies rounding near 0/180: absolute tolerance 1e-5 deg there
    Entry('irradiance.aoi', g_geo, r_aoi, int_ok=True, two_d=True, atol=4e-6, rtol=1e-10),
    Entry('irradiance.beam_component', g_beam, r_beam, int_ok=True, two_d=True),
]
SKYE = [
    Entry('irradiance.isotropic', lambda r, n: dict(surface_tilt=gen.mix(r, n, 0, 180, [0., 90., 180.]), dhi=gen.irr(r, n)),
          r_isotropic, opt(return_components=[OMIT, False, True]), int_ok=True, two_d=True),
    Entry('irradiance.klucher', g_drop(g_sky, 'dni', 'dni_extra'), r_klucher, nan_skip=('ghi',), two_d=True),
    Entry('irradiance.haydavies', g_drop(g_sky, 'ghi'), r_haydavies, opt(return_components=[OMIT, False, True]), two_d=True, nan_keys=('', 'poa_sky_diffuse')),
    Entry('irradiance.haydavies', lambda r, n: {**{k: v for k, v in g_sky(r, n).items() if k not in ('ghi', 'solar_zenith', 'solar_azimuth')},
                                                'projection_ratio': gen.mix(r, n, 0, 6, [0., 1., 25., 57.])},
          r_haydavies_ratio, opt(return_components=[OMIT, False, True]), tag='ratio', nan='local', nan_skip=('surface_azimuth',)),
    Entry('irradiance.reindl', g_sky, r_reindl, opt(return_components=[OMIT, False, True]), two_d=True, nan_keys=('', 'poa_sky_diffuse')),
    Entry('irradiance.king', g_drop(g_sky, 'dni', 'dni_extra', geo=False), r_king, two_d=True),
    Entry('irradiance.perez', g_drop(g_sky, 'ghi', airmass=True), r_perez,
          opt(model=[OMIT] + PM, return_components=[OMIT, False, True]), nan_skip=('airmass',), nan='local', weight=3),
    Entry('irradiance.perez_driesse', g_drop(g_sky, 'ghi'), r_perez_driesse, opt(return_components=[OMIT, False, True]), weight=2, nan_keys=('', 'poa_sky_diffuse'),
          nan_pick=pd_needs),
    Entry('irradiance.perez_driesse', g_drop(g_sky, 'ghi', airmass=True), r_perez_driesse, tag='airmass', weight=2, nan_pick=pd_needs),
    Entry('irradiance.get_sky_diffuse', g_sky, r_sky, _sky_opts, nan_keys=(), weight=3),
    Entry('irradiance.get_sky_diffuse', g_drop(g_sky, airmass=True), r_sky,
          lambda r: dict(model=['perez', 'perez-driesse', 'Perez', 'haydavies'][int(r.integers(0, 4))]), tag='airmass', nan='local'),
]
TOTAL = [
    Entry('irradiance.get_total_irradiance', g_sky, r_total, _tot_opts, nan='local', weight=6),
    Entry('irradiance.get_total_irradiance', g_drop(g_sky, airmass=True), r_total,
          lambda r: dict(model=['perez', 'perez-driesse'][int(r.integers(0, 2))]), tag='airmass', nan='local'),
    Entry('irradiance.get_total_irradiance', lambda r, n: {**g_sky(r, n), 'albedo': gen.mix(r, n, 0, 1, [0., 1.])}, r_total,
          lambda r: dict(model=['isotropic', 'haydavies', 'reindl', 'klucher'][int(r.integers(0, 4))]), tag='albedo', nan='local'),
    Entry('irradiance.poa_components', g_components,
          r_poa_components, nan='local'),
    Entry('irradiance.get_ground_diffuse', lambda r, n: dict(surface_tilt=gen.mix(r, n, 0, 180, [0., 90., 180.]), ghi=gen.irr(r, n)),
          r_ground, lambda r: [{}, dict(albedo=.4), dict(surface_type=list(ALBEDOS)[int(r.integers(0, len(ALBEDOS)))])][int(r.integers(0, 3))],
          int_ok=True, two_d=True),
    Entry('irradiance.get_ground_diffuse', lambda r, n: dict(surface_tilt=gen.tilt(r, n), ghi=gen.irr(r, n), albedo=gen.mix(r, n, 0, 1, [0., 1.])),
          r_ground, tag='albedo', two_d=True),
]
DECOMP = [
    Entry('irradiance.erbs', g_decomp('zenith'), r_erbs, opt(**LIM), nan='local', weight=2),
    Entry('irradiance.erbs_driesse', g_decomp('zenith'), r_erbs_driesse, opt(**LIM), nan='local', weight=2),
    Entry('irradiance.erbs_driesse', g_decomp('zenith', False, True), r_erbs_driesse, opt(**LIM), nan='local', tag='extra'),
    Entry('irradiance.orgill_hollands', g_decomp('zenith'), r_orgill, opt(**LIM), nan='local', weight=2),
    Entry('irradiance.orgill_hollands', g_decomp('zenith', True, True), r_orgill, opt(**LIM), nan='local', tag='extra'),
    Entry('irradiance.boland', g_decomp('solar_zenith'), r_boland,
          opt(a_coeff=[OMIT, 8.645, 8.0], b_coeff=[OMIT, .613, .586], **LIM), nan='local', weight=2),
    Entry('irradiance.louche', g_decomp('solar_zenith'), r_louche, opt(max_zenith=[OMIT, 90, 80., 88]), nan='local'),
    Entry('irradiance.campbell_norman', lambda r, n: dict(zenith=gen.mix(r, n, 0, 110, [0., 60., 85., 89.]), transmittance=gen.mix(r, n, 0.05, .95, [.5, .7])),
          r_campbell, opt(pressure=[OMIT, 101325., 8e4], dni_extra=[OMIT, 1400.])),
    Entry('irradiance.campbell_norman', lambda r, n: dict(zenith=gen.mix(r, n, 0, 89, [0., 60., 85., 89.]), transmittance=gen.mix(r, n, 0.05, .95, [.5, .7]),
                                                          pressure=r.uniform(6e4, 1.1e5, n), dni_extra=r.uniform(1320, 1415, n)), r_campbell, tag='full'),
    Entry('irradiance.diffuse_par_spitters', lambda r, n: dict(daily_solar_zenith=gen.mix(r, n, 0, 90, [0., 90.]), global_diffuse_fraction=gen.mix(r, n, 0, 1, [0., 1.])),
          r_spitters, two_d=True, int_ok=True),
]
DISC = [
    Entry('irradiance.disc', g_decomp('solar_zenith'), r_disc,
          opt(pressure=[OMIT, OMIT, None, 8e4], max_airmass=[OMIT, OMIT, 8, 20.], **LIM), nan='local', weight=3),
    Entry('irradiance.disc', lambda r, n: {**g_decomp('solar_zenith')(r, n), 'pressure': r.uniform(6e4, 1.05e5, n)}, r_disc, tag='pressure', nan='local'),
]
INDEX = [
    Entry('irradiance.clearsky_index', lambda r, n: dict(ghi=gen.mix(r, n, -20, 1300, [0., -1., 500., NAN, INF]), ghi_clear=gen.mix(r, n, 0, 1200, [0., 1e-9, 500., NAN, INF, -5.])),
          r_csi, opt(max_clearsky_index=[OMIT, 1.0, 1.5, 3.]), two_d=True, int_ok=False, weight=2),
    Entry('irradiance.clearness_index', lambda r, n: dict(ghi=gen.mix(r, n, -20, 1500, [0., -1.]), solar_zenith=gen.zenith(r, n, 120), extra_radiation=r.uniform(1320, 1415, n)),
          r_kt, opt(max_clearness_index=[OMIT, 1.0, .82], min_cos_zenith=[OMIT, .01, .2]), two_d=True, weight=2),
    Entry('irradiance.clearness_index_zenith_independent', lambda r, n: dict(clearness_index=gen.mix(r, n, -.1, 2.2, [0., 1.]), airmass=gen.mix(r, n, 1, 38, [1., 1.5, 12.])),
          r_ktp, opt(max_clearness_index=[OMIT, 1.0, .82]), two_d=True, weight=2),
]
ENTRIES = AOI + SKYE + TOTAL + DECOMP + DISC + INDEX
