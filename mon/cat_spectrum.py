"""Published spectral mismatch equations, as scalar oracles."""
import math

import numpy as np

from mon import gen
from mon.engine import Entry

FS = {'cdte': (.86273, -.038948, -.012506, .098871, .084658, -.0042948), 'monosi': (.85914, -.020880, -.0058853, .12029, .026814, -.0017810),
      'polysi': (.84090, -.027539, -.0079224, .13570, .038024, -.0021218), 'cigs': (.85252, -.022314, -.0047216, .13666, .013342, -.0008945),
      'asi': (1.12094, -.047620, -.0083627, -.10443, .098382, -.0033818)}
FS['xsi'], FS['multisi'] = FS['monosi'], FS['polysi']
CAB = {'cdte': (1.0044, .0095, -.0037, .0002, 0., -.0046, -.0182, 0, .0095, .0068, 0, 1), 'monosi': (.9706, .0377, -.0123, .0025, -.0002, .0159, -.0165, 0, -.0016, -.0027, 1, 0),
       'multisi': (.9836, .0254, -.0085, .0016, -.0001, .0094, -.0132, 0, -.0002, -.0011, 1, 0), 'cigs': (.9801, .0283, -.0092, .0019, -.0001, .0117, -.0126, 0, -.0011, -.0019, 1, 0),
       'asi': (1.1060, -.0848, .0302, -.0076, .0006, -.1283, .0986, -.0254, .0156, .0146, 1, 0), 'perovskite': (1.0637, -.0491, .0180, -.0047, .0004, -.0773, .0583, -.0159, .01251, .0109, 1, 0)}
PVS = {'multisi': (.9847, -.05237, .03034), 'monosi': (.9845, -.05169, .03034), 'fs4-2': (1.002, -.07108, .02465), 'fs4-1': (.9981, -.05776, .02336), 'cigs': (.9791, -.03904, .03096), 'asi': (1.051, -.1033, .009838)}
JRC = {'multisi': (.00172 / .00348, .000508 / .00348, .00000357 / .00348), 'cdte': (.000643 / .00115, .000130 / .00115, .0000108 / .00115)}
POLO = {'cdte': (-.0009, 46.80, 49.20, -.87, .00041, .053, .0021, -.01, 1.01), 'monosi': (.0027, 10.34, 9.48, .31, .00077, .006, 0, -.003, 1.), 'cigs': (.0017, 2.33, 1.30, .11, .00098, -.018, -.0009, -.0003, 1),
        'asi': (.0024, 7.32, 7.09, -.72, -.0013, .089, .0056, -.020, 1.014)}


def case(rng, s):
    k = int(rng.integers(0, 3))
    return s if k == 0 else s.upper() if k == 1 else s.title()


def r_fs(precipitable_water, airmass_absolute, module_type=None, coefficients=None, min_precipitable_water=.1, max_precipitable_water=8, min_airmass_absolute=.58, max_airmass_absolute=10):
    c = FS[module_type.lower()] if module_type else coefficients
    w, a = max(precipitable_water, min_precipitable_water), min(max(airmass_absolute, min_airmass_absolute), max_airmass_absolute)
    if w > max_precipitable_water:
        return math.nan
    return c[0] + c[1] * a + c[2] * w + c[3] * math.sqrt(a) + c[4] * math.sqrt(w) + c[5] * a / math.sqrt(w)


def o_fs(rng):
    d = dict(module_type=case(rng, str(rng.choice(list(FS))))) if rng.random() < .7 else dict(coefficients=[float(v) for v in rng.uniform(-.2, 1, 6)])
    if rng.random() < .3:
        d.update(min_precipitable_water=.3, max_precipitable_water=5., min_airmass_absolute=1., max_airmass_absolute=6.)
    return d


def r_cab(precipitable_water, airmass_absolute, aod500, module_type=None, coefficients=None):
    c = CAB[module_type] if module_type else coefficients
    m = airmass_absolute
    f = sum(c[i] * m ** i for i in range(5))
    f += (aod500 - .084) * (c[5] + c[10] * c[6] * m + c[11] * c[6] * math.log(m) + c[7] * m * m)
    return f + (precipitable_water - 1.4164) * (c[8] + c[9] * math.log(m))


def r_pvs(airmass_absolute, clearsky_index, module_type=None, coefficients=None):
    c = PVS[module_type.lower()] if module_type else coefficients
    return c[0] * clearsky_index ** c[1] * airmass_absolute ** c[2]


def r_jrc(airmass, clearsky_index, module_type=None, coefficients=None):
    c = JRC[module_type.lower()] if module_type else coefficients
    return 1 + c[0] * (math.exp(-clearsky_index) - math.exp(-1)) + c[1] * (clearsky_index - 1) + c[2] * (airmass - 1.5)


def r_polo(precipitable_water, airmass_absolute, aod500, aoi, pressure, module_type=None, coefficients=None, albedo=.2):
    c = POLO[module_type] if module_type else coefficients
    x = min(aoi, 90)
    rel = 1 / (math.cos(math.radians(x)) + .50572 * (6.07995 + 90 - x) ** -1.6364)
    r = rel * pressure / 101325. / airmass_absolute
    s = c[0] * r + c[1] / (c[2] + r ** c[3]) + c[4] / aod500 + c[5] * math.sqrt(precipitable_water)
    return s * (c[6] * (albedo / .2) ** 2 + c[7] * albedo / .2 + c[8])


def r_sapm(airmass_absolute, module):
    return max(0., sum(module[f'A{i}'] * airmass_absolute ** i for i in range(5)))


def g(**k):
    def f(rng, n):
        return {a: gen.mix(rng, n, v[0], v[1], v[2] if len(v) > 2 else ()) for a, v in k.items()}
    return f


def o_of(table, fold):
    def f(rng):
        name = str(rng.choice(list(table)))
        if rng.random() < .75:
            return dict(module_type=case(rng, name) if fold else name)
        c = [float(v) * float(rng.uniform(.8, 1.2)) for v in table[name]]
        return dict(coefficients=[list, tuple, np.array][int(rng.integers(0, 3))](c))
    return f


ENTRIES = [
    Entry('spectrum.spectral_factor_firstsolar', g(precipitable_water=(0, 9.5, (0., .1, .0999, 8., 8.001, .05)), airmass_absolute=(.3, 13, (.58, 10., .5, 1.))), r_fs, o_fs, nan='all', rtol=1e-10, atol=1e-12),
    Entry('spectrum.spectral_factor_caballero', g(precipitable_water=(0, 6, (1.4164,)), airmass_absolute=(.6, 12, (1., 1.5)), aod500=(0, .8, (.084, 0.))), r_cab, o_of(CAB, False), nan='all', rtol=1e-10, atol=1e-12),
    Entry('spectrum.spectral_factor_pvspec', g(airmass_absolute=(.5, 12, (1., 1.5)), clearsky_index=(.02, 1.3, (1.,))), r_pvs, o_of(PVS, True), nan='all', rtol=1e-10, atol=1e-12),
    Entry('spectrum.spectral_factor_jrc', g(airmass=(.5, 12, (1.5, 1.)), clearsky_index=(0, 1.3, (1., 0.))), r_jrc, o_of(JRC, True), nan='all', rtol=1e-10, atol=1e-12),
    Entry('spectrum.spectral_factor_polo', g(precipitable_water=(0, 6), airmass_absolute=(.6, 12, (1.,)), aod500=(.01, .8), aoi=(0, 120, (0., 90., 90.5, 180.)), pressure=(6e4, 1.05e5, (101325.,))), r_polo, o_of(POLO, False), nan='all', rtol=1e-10, atol=1e-12),
    Entry('spectrum.spectral_factor_polo', g(precipitable_water=(0, 6), airmass_absolute=(.6, 12), aod500=(.01, .8), aoi=(0, 90), pressure=(6e4, 1.05e5), albedo=(0, 1, (.2, 0.))), r_polo, o_of(POLO, False), nan='all', rtol=1e-10, atol=1e-12, tag='albedo'),
    Entry('spectrum.spectral_factor_sapm', g(airmass_absolute=(.3, 30, (1., 10.))), r_sapm, lambda r: dict(module={f'A{i}': float(v) for i, v in enumerate([r.uniform(.9, .95), r.uniform(.02, .09), r.uniform(-.02, 0), r.uniform(0, .002), r.uniform(-1e-4, 0)])}), nan=None, rtol=1e-10, atol=1e-12),
]
