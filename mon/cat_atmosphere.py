"""Catalogue: atmosphere and clear-sky models with scalar reference equations."""
import math

import numpy as np

from mon import gen
from mon.cat_irradiance import OMIT, kasten1966, ky, opt
from mon.engine import Entry
from mon.refs import INF, NAN, cosd, div, exp, isn, nmax, nmin, sind

HELLMANN = {'unstable_air_above_open_water_surface': 0.06, 'neutral_air_above_open_water_surface': 0.10,
            'stable_air_above_open_water_surface': 0.27, 'unstable_air_above_flat_open_coast': 0.11,
            'neutral_air_above_flat_open_coast': 0.16, 'stable_air_above_flat_open_coast': 0.40,
            'unstable_air_above_human_inhabited_areas': 0.27, 'neutral_air_above_human_inhabited_areas': 0.34,
            'stable_air_above_human_inhabited_areas': 0.60}
AMS = ['simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'pickering2002', 'youngirvine1967', 'young1994', 'gueymard2003']


def r_am(zenith, model='kastenyoung1989'):
    z = zenith
    if isn(z) or z > 90:
        return NAN
    c, e = cosd(z), 90 - z
    m = model.lower()
    if m == 'simple':
        return 1 / c
    if m == 'kasten1966':
        return kasten1966(z)
    if m == 'kastenyoung1989':
        return ky(z)
    if m == 'gueymard1993':
        return 1 / (c + 0.00176759 * z * (94.37515 - z) ** -1.21563)
    if m == 'gueymard2003':
        return 1 / (c + 0.48353 * z ** 0.095846 / (96.741 - z) ** 1.754)
    if m == 'pickering2002':
        return 1 / sind(e + 244 / (165 + 47 * e ** 1.1))
    if m == 'youngirvine1967':
        return 1 / c * (1 - 0.0012 * (1 / c ** 2 - 1))
    if m == 'young1994':
        return (1.002432 * c ** 2 + .148386 * c + .0096467) / (c ** 3 + .149864 * c ** 2 + .0102963 * c + .000303978)
    raise AssertionError(model)


def r_am_checked(zenith, model='kastenyoung1989'):
    # 1/cos near 90 amplifies the rounding of cos(90 deg); the plain secant models are unusable there
    if model.lower() in ('simple', 'youngirvine1967') and 89.99 < zenith <= 90:
        return None
    return r_am(zenith, model)


def r_pw(temp_air, relative_humidity):
    t = temp_air + 273.15
    th = t / 273.15
    h = .4976 + 1.5265 * th + math.exp(13.6897 * th - 14.9188 * th ** 3)
    rho = 216.7 * relative_humidity / (100 * t) * math.exp(22.330 - 49.140 * (100 / t) - 10.922 * (100 / t) ** 2 - 0.39015 * t / 100)
    return max(.1 * h * rho, .1)


def r_rh(temp_air, temp_dew, coeff=(6.112, 17.62, 243.12)):
    f = lambda t: coeff[0] * math.exp(coeff[1] * t / (coeff[2] + t))  # noqa: E731
    return 100 * f(temp_dew) / f(temp_air)


def r_tdew(temp_air, relative_humidity, coeff=(6.112, 17.62, 243.12)):
    # solve e(td) = rh/100 e(ta) directly
    e = relative_humidity / 100 * math.exp(coeff[1] * temp_air / (coeff[2] + temp_air))
    x = math.log(e)
    return coeff[2] * x / (coeff[1] - x)


def r_lt(airmass_absolute, precipitable_water, aod_bb):
    am = airmass_absolute
    d = -0.101 + 0.235 * am ** -.16
    w = .112 * am ** -.55 * precipitable_water ** .34
    return (9.4 + .9 * am) * (d + w + aod_bb)


def r_wind(wind_speed_reference, height_reference, height_desired, exponent=None, surface_type=None):
    if isn(wind_speed_reference) or wind_speed_reference < 0:
        return NAN
    e = HELLMANN[surface_type] if surface_type is not None else exponent
    return wind_speed_reference * (height_desired / height_reference) ** e


def _u(lo, hi, edges=()):
    return lambda r, n: gen.mix(r, n, lo, hi, edges)


def G(**k):
    return lambda r, n: {a: f(r, n) for a, f in k.items()}


Z120 = lambda r, n: gen.zenith(r, n, 120)  # noqa: E731
ATM = [
    Entry('atmosphere.pres2alt', G(pressure=_u(3e4, 1.1e5, [101325.])), lambda pressure: 44331.5 - 4946.62 * pressure ** 0.190263, two_d=True),
    Entry('atmosphere.alt2pres', G(altitude=_u(-500, 9000, [0.])), lambda altitude: 100 * ((44331.514 - altitude) / 11880.516) ** (1 / 0.1902632), two_d=True, int_ok=True),
    Entry('atmosphere.get_absolute_airmass', G(airmass_relative=_u(1, 40, [1., NAN]), pressure=_u(5e4, 1.1e5, [101325.])),
          lambda airmass_relative, pressure: airmass_relative * pressure / 101325),
    Entry('atmosphere.get_absolute_airmass', G(airmass_relative=_u(1, 40, [1.])), lambda airmass_relative: airmass_relative, tag='default'),
    Entry('atmosphere.get_relative_airmass', G(zenith=Z120), r_am_checked,
          opt(model=[OMIT, *AMS, 'KastenYoung1989', 'SIMPLE']), weight=4, int_ok=True, two_d=True, rtol=1e-7),
    Entry('atmosphere.gueymard94_pw', G(temp_air=_u(-40, 50, [0.]), relative_humidity=_u(0, 100, [0., 100., 1.])), r_pw, two_d=True, int_ok=True),
    Entry('atmosphere.rh_from_tdew', G(temp_air=_u(-30, 50, [0.]), temp_dew=_u(-40, 35, [0.])), r_rh, opt(coeff=[OMIT, (6.112, 17.62, 243.12), (6.1094, 17.625, 243.04)]), two_d=True, int_ok=True),
    Entry('atmosphere.tdew_from_rh', G(temp_air=_u(-30, 50, [0.]), relative_humidity=_u(1, 100, [100., 50., .4, .01])), r_tdew, opt(coeff=[OMIT, (6.112, 17.62, 243.12), (6.1094, 17.625, 243.04)]), two_d=True, int_ok=True),
    Entry('atmosphere.bird_hulstrom80_aod_bb', G(aod380=_u(0, 2, [0.]), aod500=_u(0, 2, [0.])), lambda aod380, aod500: .27583 * aod380 + .35 * aod500, two_d=True),
    Entry('atmosphere.kasten96_lt', G(airmass_absolute=_u(.6, 38, [1., 2.]), precipitable_water=_u(.1, 7, [1.]), aod_bb=_u(0, 1, [0.])), r_lt, two_d=True, nan='all'),
    Entry('atmosphere.angstrom_aod_at_lambda', G(aod0=_u(0, 2, [0.]), lambda0=_u(300, 1600), alpha=_u(-.5, 2.5, [1.14]), lambda1=_u(300, 1600, [700.])),
          lambda aod0, lambda0, alpha, lambda1: aod0 * (lambda1 / lambda0) ** -alpha),
    Entry('atmosphere.angstrom_aod_at_lambda', G(aod0=_u(0, 2), lambda0=_u(300, 1600)), lambda aod0, lambda0: aod0 * (700 / lambda0) ** -1.14, tag='default'),
    Entry('atmosphere.angstrom_alpha', G(aod1=_u(.01, 2), lambda1=_u(300, 700), aod2=_u(.01, 2), lambda2=_u(800, 1600)),
          lambda aod1, lambda1, aod2, lambda2: -math.log(aod1 / aod2) / math.log(lambda1 / lambda2)),
    Entry('atmosphere.windspeed_powerlaw', G(wind_speed_reference=_u(-1, 25, [0., -.5])), r_wind,
          lambda r: {'height_reference': float(r.uniform(1, 20)), 'height_desired': float(r.uniform(1, 100)),
                     **({'exponent': float(r.uniform(0, .7))} if r.random() < .4 else {'surface_type': list(HELLMANN)[int(r.integers(0, 9))]})}, weight=3, two_d=True),
]


# ------------------------------------------------------------ clear sky
def r_ineichen(apparent_zenith, airmass_absolute, linke_turbidity, altitude=0, dni_extra=1364., perez_enhancement=False):
    """None when airmass is missing (documented by the model's fmax: ghi becomes 0)."""
    z, am, tl, h = apparent_zenith, airmass_absolute, linke_turbidity, altitude
    cz = max(cosd(z), 0)
    f1, f2 = math.exp(-h / 8000), math.exp(-h / 1250)
    c1, c2 = 5.09e-5 * h + .868, 3.92e-5 * h + .0387
    if isn(am):
        e = 0.0
    else:
        e = math.exp(-c2 * am * (f1 + f2 * (tl - 1)))
        if perez_enhancement:
            e *= math.exp(.01 * am ** 1.8)
    ghi = c1 * dni_extra * cz * e
    b = .664 + .163 / f1
    d1 = 0.0 if isn(am) else dni_extra * b * math.exp(-.09 * am * (tl - 1))
    if cz == 0:
        d2 = 0.0
    else:
        d2 = ghi * min(max((1 - (.1 - .2 * math.exp(-tl)) / (.1 + .882 / f1)) / cz, 0), 1e20)
    dni = min(d1, d2)
    return {'ghi': ghi, 'dni': dni, 'dhi': ghi - dni * cz}


def r_solis(apparent_elevation, aod700=.1, precipitable_water=1., pressure=101325., dni_extra=1364.):
    a, w, p = aod700, max(precipitable_water, .2), pressure
    L, P = math.log(w), math.log(p / 101325.)
    i0 = dni_extra * (.12 * w ** .56 * a ** 2 + .97 * w ** .032 * a + 1.08 * w ** .0051 + .071 * P)
    tb = (1.82 + .056 * L + .0071 * L ** 2) * a + .33 + .045 * L + .0096 * L ** 2 + (.0089 * w + .13) * P
    b = (.00925 * a ** 2 + .0148 * a - .0172) * L - .7565 * a ** 2 + .5057 * a + .4557
    tg = (1.24 + .047 * L + .0061 * L ** 2) * a + .27 + .043 * L + .0090 * L ** 2 + (.0079 * w + .1) * P
    g = -.0147 * L - .3079 * a ** 2 + .2846 * a + .3798
    if a < .05:
        td = ((86 * w - 13800) * a ** 4 + (-3.11 * w + 79.4) * a ** 3 + (-.23 * w + 74.8) * a ** 2 + (.092 * w - 8.86) * a
              + .0042 * w + 3.12 - .83 * (1 + a) ** -17.2 * P)
    else:
        td = ((-.21 * w + 11.6) * a ** 4 + (.27 * w - 20.7) * a ** 3 + (-.134 * w + 15.5) * a ** 2 + (.0554 * w - 5.71) * a
              + .0057 * w + 2.94 - .71 * (1 + a) ** -15.0 * P)
    d = -.337 * a ** 2 + .63 * a + .116 + 1 / (18 + 152 * a) * P
    s = max(1e-30, sind(apparent_elevation))
    return {'ghi': i0 * exp(-tg / s ** g) * s, 'dni': i0 * exp(-tb / s ** b), 'dhi': i0 * exp(-td / s ** d)}


def r_haurwitz(apparent_zenith):
    c = cosd(apparent_zenith)
    if abs(c) < 1e-12:
        return {'ghi': 0.0}
    return {'ghi': 1098 * c * math.exp(-.059 / c) if c > 0 else 0.0}


def r_bird(zenith, airmass_relative, aod380, aod500, precipitable_water, ozone=.3, pressure=101325., dni_extra=1364.,
           asymmetry=.85, albedo=.2):
    am = airmass_relative
    if isn(am):
        return {k: NAN for k in ('direct_horizontal', 'ghi', 'dni', 'dhi')}
    ap = am * pressure / 101325
    tr = math.exp(-.0903 * ap ** .84 * (1 + ap - ap ** 1.01))
    o = ozone * am
    to = 1 - .1611 * o * (1 + 139.48 * o) ** -.3034 - .002715 * o / (1 + .044 * o + .0003 * o ** 2)
    tu = math.exp(-.0127 * ap ** .26)
    h = am * precipitable_water
    tw = 1 - 2.4959 * h / ((1 + 79.034 * h) ** .6828 + 6.385 * h)
    t = .27583 * aod380 + .35 * aod500
    ta = math.exp(-t ** .873 * (1 + t - t ** .7088) * am ** .9108)
    taa = 1 - .1 * (1 - am + am ** 1.06) * (1 - ta)
    rs = .0685 + (1 - asymmetry) * (1 - ta / taa)
    dni = .9662 * dni_extra * ta * tw * tu * to * tr
    c = cosd(zenith) if zenith < 90 else 0.0
    ias = dni_extra * c * .79 * to * tu * tw * taa * (.5 * (1 - tr) + asymmetry * (1 - ta / taa)) / (1 - am + am ** 1.02)
    gh = (dni * c + ias) / (1 - albedo * rs)
    return {'direct_horizontal': dni * c, 'ghi': gh, 'dni': dni, 'dhi': gh - dni * c}


def _amz(r, n, zname, hi, **more):
    z = gen.mix(r, n, 0, hi, [0., 60., 85., 88., 89., 90., 95.] if hi > 90 else [0., 60., 85.])
    d = {zname: z}
    return d, np.array([ky(x) for x in z])


def g_ineichen(r, n):
    d, am = _amz(r, n, 'apparent_zenith', 110)
    d['airmass_absolute'] = am * r.uniform(.6, 1.05, n)
    d['linke_turbidity'] = gen.mix(r, n, 1.2, 8, [1., 2., 3.])
    d['altitude'] = gen.mix(r, n, -100, 5000, [0., 1000.])
    d['dni_extra'] = r.uniform(1320, 1415, n)
    return d


def _drop(f, *names):
    def g(r, n):
        d = f(r, n)
        for k in names:
            d.pop(k)
        return d
    return g


def g_solis(r, n):
    return dict(apparent_elevation=gen.mix(r, n, -20, 90, [0., 90., -1., 5., 30.]), aod700=gen.mix(r, n, 0, .45, [0., .05, .0499, .1]),
                precipitable_water=gen.mix(r, n, .01, 10, [.2, 1., .1]), pressure=gen.mix(r, n, 5e4, 1.05e5, [101325.]), dni_extra=r.uniform(1320, 1415, n))


def g_bird(r, n):
    d, am = _amz(r, n, 'zenith', 110)
    d['airmass_relative'] = am
    d.update(aod380=gen.mix(r, n, 0, 1, [.1]), aod500=gen.mix(r, n, 0, 1, [.1]), precipitable_water=gen.mix(r, n, .05, 8, [1.5]),
             ozone=gen.mix(r, n, .05, .6, [.3]), pressure=r.uniform(6e4, 1.05e5, n), dni_extra=r.uniform(1320, 1415, n),
             asymmetry=r.uniform(.6, .95, n), albedo=gen.mix(r, n, 0, .9, [.2, 0.]))
    return d


CLEAR = [
    Entry('clearsky.ineichen', g_ineichen, r_ineichen, opt(perez_enhancement=[OMIT, False, True]), nan='local', weight=3),
    Entry('clearsky.ineichen', _drop(g_ineichen, 'altitude', 'dni_extra'), r_ineichen, lambda r: [{}, dict(altitude=1500., dni_extra=1400.), dict(perez_enhancement=True)][int(r.integers(0, 3))], nan='local', tag='opts'),
    Entry('clearsky.simplified_solis', g_solis, r_solis, weight=3),
    Entry('clearsky.simplified_solis', G(apparent_elevation=_u(-20, 90, [0., 90.])), r_solis, lambda r: [{}, dict(aod700=.02, precipitable_water=3.), dict(aod700=.3), dict(precipitable_water=.1, pressure=8e4, dni_extra=1400.)][int(r.integers(0, 4))], tag='opts'),
    Entry('clearsky.haurwitz', G(apparent_zenith=Z120), r_haurwitz, forms=('series',), weight=2, nan='local'),
    Entry('clearsky.bird', g_bird, r_bird, nan='local', weight=3),
    Entry('clearsky.bird', _drop(g_bird, 'ozone', 'pressure', 'dni_extra', 'asymmetry', 'albedo'), r_bird, lambda r: [{}, dict(ozone=.5, pressure=8e4), dict(dni_extra=1400., asymmetry=.7, albedo=.6)][int(r.integers(0, 3))], nan='local', tag='opts'),
]
ENTRIES = ATM + CLEAR
