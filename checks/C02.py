"""C02: the clear-sky spectral model: published equations, closure, monotone direct beam, one time at a time."""
import json
import os

import numpy as np
import pandas as pd

from pvlib import spectrum

from mon import gen
from mon.core import VERIF, Mon, main

mon = Mon('C02', 'distinct (atmosphere, geometry, optional parameters, container) batches of the spectral model',
          ['Bird and Riordan transmittance equations with an own copy of the coefficient table', 'closure of the output spectra', 'the same batch one time at a time'],
          required=['equations', 'closure', 'nonnegative', 'monotone', 'forms', 'below_horizon', 'horizontal', 'behind', 'doy'])
TAB = {k: np.array(v) for k, v in json.load(open(os.path.join(VERIF, 'data', 'spectrl2.json'))).items()}
WL, ET, AW, AO, AU = (TAB[k][:, None] for k in ('wavelength', 'spectral_irradiance_et', 'water_vapor_absorption', 'ozone_absorption', 'mixed_absorption'))
KEYS = ['wavelength', 'dni_extra', 'dhi', 'dni', 'poa_sky_diffuse', 'poa_ground_diffuse', 'poa_direct', 'poa_global']
OPT = dict(scattering_albedo_400nm=(.8, .99), alpha=(.5, 2.), wavelength_variation_factor=(0, .2), aerosol_asymmetry_factor=(.3, .85))
DEF = dict(scattering_albedo_400nm=.945, alpha=1.14, wavelength_variation_factor=.095, aerosol_asymmetry_factor=.65)


def cos(d):
    return np.cos(np.radians(d))


def trans(z, m, p, w, o3, tau, omega):
    mp = m * p / 101300.
    u = WL / 1000.
    tr = np.exp(-mp / (u ** 4 * (115.6406 - 1.3366 / u ** 2)))
    ta = np.exp(-tau * m)
    x = AW * w * m
    tw = np.exp(-.2385 * x / (1 + 20.07 * x) ** .45)
    mo = (1 + 22 / 6370) / np.sqrt(cos(z) ** 2 + 2 * 22 / 6370)
    to = np.exp(-AO * o3 * mo)
    x = AU * mp
    tu = np.exp(-1.41 * x / (1 + 118.3 * x) ** .45)
    return tr, ta, tw, to, tu, np.exp(-omega * tau * m), np.exp(-(1 - omega) * tau * m)


def model(a):
    """the report's equations, all arguments broadcast to one value per time"""
    z, aoi, tilt, rg, p, m, w, o3, aod = (np.asarray(a[k], float) for k in ('apparent_zenith', 'aoi', 'surface_tilt', 'ground_albedo', 'surface_pressure', 'relative_airmass', 'precipitable_water', 'ozone', 'aerosol_turbidity_500nm'))
    o = {k: np.asarray(a.get(k, v), float) for k, v in DEF.items()}
    day = np.asarray(a['dayofyear'], float)
    b = 2 * np.pi * (day - 1) / 365.
    d = 1.00011 + .034221 * np.cos(b) + .00128 * np.sin(b) + .000719 * np.cos(2 * b) + 7.7e-5 * np.sin(2 * b)
    tau = aod * (500. / WL) ** o['alpha']
    omega = o['scattering_albedo_400nm'] * np.exp(-o['wavelength_variation_factor'] * np.log(WL / 400.) ** 2)
    tr, ta, tw, to, tu, tas, taa = trans(z, m, p, w, o3, tau, omega)
    h = ET * d
    direct = h * tr * ta * tw * to * tu
    c = cos(z)
    cs = np.where(WL <= 450, (WL / 1000. + .55) ** 1.8, 1.)
    alg = np.log(1 - o['aerosol_asymmetry_factor'])
    bfs, afs = alg * (.0783 + alg * (-.3824 - alg * .5874)), alg * (1.459 + alg * (.1595 + alg * .4129))
    fs = 1 - .5 * np.exp((afs + bfs * c) * c)
    fsp = 1 - .5 * np.exp((afs + bfs / 1.8) / 1.8)
    tr2, ta2, tw2, to2, tu2, tas2, taa2 = trans(z, 1.8, p, w, o3, tau, omega)
    rs = tu2 * tw2 * taa2 * (.5 * (1 - tr2) + (1 - fsp) * tr2 * (1 - tas2))
    f = h * c * to * tu * tw * taa
    ir = f * (1 - tr ** .95) * .5
    ia = f * tr ** 1.5 * (1 - tas) * fs
    ig = (direct * c + ir + ia) * rs * rg / (1 - rs * rg)
    dhi = (ir + ia + ig) * cs
    proj = np.maximum(cos(aoi), 0)
    ai = direct / h
    sky = np.maximum(dhi * (ai * proj / np.maximum(c, .01745) + (1 - ai) * (1 + cos(tilt)) / 2), 0)
    ground = (direct * c + dhi) * rg * (1 - cos(tilt)) / 2
    r = dict(dni_extra=h + 0 * direct, dhi=dhi, dni=direct, poa_sky_diffuse=sky, poa_ground_diffuse=ground, poa_direct=direct * proj)
    r['poa_global'] = r['poa_direct'] + sky + ground
    return r


def ky(z):
    z = np.asarray(z, float)
    with np.errstate(all='ignore'):
        return np.where(z > 90, np.nan, 1 / (cos(z) + .50572 * (6.07995 + 90 - np.minimum(z, 90)) ** -1.6364))


def atmosphere(rng, n):
    z = gen.mix(rng, n, 0, 89.9, [0., 30., 60., 80., 88., 89., 90.])
    a = dict(apparent_zenith=z, aoi=gen.mix(rng, n, 0, 179, [0., 89.99, 90., 90.01]), surface_tilt=gen.mix(rng, n, 0, 180, [0., 30., 90.]), ground_albedo=gen.mix(rng, n, 0, .95, [0., .2]), surface_pressure=rng.uniform(5e4, 1.05e5, n), relative_airmass=ky(z),
             precipitable_water=gen.mix(rng, n, 0, 6, [0.]), ozone=gen.mix(rng, n, 0, .5, [0., .31]), aerosol_turbidity_500nm=gen.mix(rng, n, 0, .8, [0., .1]))
    for k, (lo, hi) in OPT.items():
        if rng.random() < .4:
            a[k] = rng.uniform(lo, hi, n)
    return a


def days(rng, n):
    t = pd.DatetimeIndex([pd.Timestamp(f'{rng.integers(1990, 2035)}-01-01') + pd.Timedelta(hours=float(np.round(rng.uniform(0, 8783), 2))) for _ in range(n)])
    return t.tz_localize(str(rng.choice(['UTC', 'Etc/GMT+9', 'Etc/GMT-10'])))


def judge(m, r, want, cx, n, name='equations'):
    for k, w in want.items():
        if m.check(name, k in r and np.shape(r[k]) == w.shape, dict(cx, key=k, shape=str(np.shape(r.get(k)))), 'output missing or of another shape'):
            m.close(name, np.asarray(r[k]), w, 1e-9, 1e-13, dict(cx, key=k))


def batches(m):
    for rd in range(m.n(240, 6000)):
        rng = m.sub('b', rd)
        n = int(rng.integers(1, 9))
        a = atmosphere(rng, n)
        t = days(rng, n)
        a['dayofyear'] = t.tz_convert('UTC').dayofyear.to_numpy()
        fixed = [k for k in a if k not in ('apparent_zenith', 'dayofyear', 'relative_airmass') and rng.random() < .35]
        for k in fixed:
            a[k] = np.full(n, a[k][0])
        matrix = rng.random() < .2
        if matrix:
            a['ground_albedo'] = rng.uniform(0, .9, (122, n))
        cx = dict(round=rd, n=n, opts=sorted(set(a) & set(OPT)), fixed=fixed, matrix=matrix, z=a['apparent_zenith'][:3])
        m.case(('b', rd), cx)
        kind = ['array', 'series', 'mixed'][rd % 3]
        call = {k: (v if k not in fixed or matrix and k == 'ground_albedo' else float(v[0])) for k, v in a.items()}
        if kind == 'series':
            call = {k: (pd.Series(v, index=t) if np.ndim(v) == 1 else v) for k, v in a.items()}
            call.pop('dayofyear') if rd % 2 else None
        elif kind == 'mixed':
            call['apparent_zenith'] = pd.Series(a['apparent_zenith'], index=t)
            call.pop('dayofyear')
        ok, r = m.call('forms', spectrum.spectrl2, ctx=cx, **call)
        if not ok:
            continue
        m.check('forms', list(r) == KEYS and np.array_equal(r['wavelength'], TAB['wavelength']), dict(cx, got=list(r)), 'keys or wavelengths')
        shp = {k: (122, n) if k != 'dni_extra' else np.shape(r['dni_extra']) for k in KEYS[1:]}
        want = model(a)
        r = dict(r, dni_extra=np.broadcast_to(r['dni_extra'], (122, n)) if np.shape(r['dni_extra']) in ((122, n), (122, 1)) else r['dni_extra'])
        judge(m, r, want, dict(cx, kind=kind, shp=str(shp['dni_extra'])), n)
        R = {k: np.asarray(r[k]) for k in KEYS[1:]}
        m.close('closure', R['poa_global'], R['poa_direct'] + R['poa_sky_diffuse'] + R['poa_ground_diffuse'], 1e-12, 1e-15, cx)
        ghi = R['dni'] * cos(a['apparent_zenith']) + R['dhi']
        m.close('closure', R['poa_ground_diffuse'], ghi * a['ground_albedo'] * (1 - cos(a['surface_tilt'])) / 2, 1e-9, 1e-14, dict(cx, what='ground'))
        m.close('closure', R['poa_direct'], R['dni'] * np.maximum(cos(a['aoi']), 0), 1e-10, 1e-15, dict(cx, what='direct'))
        for k in R:
            m.check('nonnegative', (R[k] >= -1e-15).all(), dict(cx, key=k, least=float(np.nanmin(R[k]))), 'negative or missing spectral irradiance')
        m.check('nonnegative', (R['dni'] <= R['dni_extra'] * (1 + 1e-12)).all(), cx, 'direct beam brighter than outside the atmosphere')
        # one time at a time, plain numbers; and another order
        for i in range(min(n, 2)):
            one = {k: (float(v[i]) if np.ndim(v) == 1 else v[:, [i]]) for k, v in a.items()}
            ok, s = m.call('forms', spectrum.spectrl2, ctx=dict(cx, one=i), **one)
            if ok:
                for k in KEYS[1:]:
                    m.close('forms', np.asarray(s[k]).ravel() if np.size(s[k]) == 122 else np.asarray(s[k]), R[k][:, i], 1e-11, 1e-15, dict(cx, one=i, key=k))
        p = rng.permutation(n)
        ok, s = m.call('forms', spectrum.spectrl2, ctx=cx, **{k: (v[p] if np.ndim(v) == 1 else v[:, p]) for k, v in a.items()})
        if ok:
            for k in KEYS[1:]:
                m.close('forms', np.broadcast_to(s[k], (122, n)), R[k][:, p], 1e-12, 1e-15, dict(cx, what='order', key=k))
        # more aerosol, water or ozone never brightens the direct beam
        for k in ('aerosol_turbidity_500nm', 'precipitable_water', 'ozone'):
            b = dict(a)
            b[k] = a[k] + np.abs(rng.uniform(0, .5 if k != 'precipitable_water' else 4, n))
            ok, s = m.call('monotone', spectrum.spectrl2, ctx=cx, **b)
            if ok:
                m.check('monotone', (np.asarray(s['dni']) <= R['dni'] * (1 + 1e-12)).all(), dict(cx, more=k), 'the direct beam got brighter')
        # horizontal plane
        b = dict(a, surface_tilt=np.zeros(n), aoi=a['apparent_zenith'])
        ok, s = m.call('horizontal', spectrum.spectrl2, ctx=cx, **b)
        if ok:
            hi = a['apparent_zenith'] < 88.9
            m.close('horizontal', np.asarray(s['poa_global'])[:, hi], ghi[:, hi], 1e-9, 1e-14, cx)
            m.close('horizontal', np.asarray(s['poa_ground_diffuse']), np.zeros((122, n)), 0, 1e-15, cx)
        b = dict(a, aoi=np.full(n, float(rng.uniform(90.001, 179))))
        ok, s = m.call('behind', spectrum.spectrl2, ctx=cx, **b)
        if ok:
            m.check('behind', (np.asarray(s['poa_direct']) == 0).all() and (np.asarray(s['poa_global']) >= 0).all(), cx, 'direct light from behind the plane')
        # sun below the horizon: its air mass is missing and no light is reported; the other times are untouched
        b = {k: (v.copy() if np.ndim(v) else v) for k, v in a.items()}
        j = int(rng.integers(0, n))
        b['apparent_zenith'][j] = float(rng.uniform(90.1, 130))
        b['relative_airmass'] = ky(b['apparent_zenith'])
        ok, s = m.call('below_horizon', spectrum.spectrl2, ctx=cx, **b)
        if ok:
            oth = [i for i in range(n) if i != j]
            for k in KEYS[2:]:
                x = np.asarray(s[k])
                m.check('below_horizon', not (x[:, j] > 0).any(), dict(cx, key=k), 'light from a sun below the horizon')
                m.close('below_horizon', x[:, oth], R[k][:, oth], 1e-12, 1e-15, dict(cx, key=k))
        if 'dayofyear' in a:
            c = dict(a)
            c.pop('dayofyear')
            m.raises('doy', ValueError, spectrum.spectrl2, **c)


if __name__ == '__main__':
    main(mon, batches)
