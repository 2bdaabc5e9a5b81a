"""A wide table of realistic calls covering the public calculation API.

wide(rng) yields (label, fn, args, kwargs): args and kwargs are fresh objects each
time, so a caller may snapshot, corrupt or share them. Labels are stable."""
import datetime
import functools

import numpy as np
import pandas as pd

import pvlib
from pvlib import (albedo, atmosphere, bifacial, clearsky, iam, inverter, irradiance, ivtools, location, modelchain, pvarray,
                   pvsystem, scaling, shading, singlediode, snow, soiling, solarposition, spectrum, temperature, tools, tracking, transformer)

from mon import cat_atmosphere, cat_diode, cat_geometry, cat_iam, cat_irradiance, cat_pv
from mon import chain as C

N = 24
T = pd.date_range('2021-06-01', periods=N, freq='1h', tz='US/Arizona')
TU = pd.date_range('2021-06-01 06:00', periods=N, freq='30min', tz='UTC')
EV = dict(alpha_sc=.0045, a_ref=1.6, I_L_ref=6.1, I_o_ref=3e-10, R_sh_ref=300., R_s=.35)


def S(x, t=T):
    return pd.Series(np.asarray(x, float), index=t)


def ser(rng, lo, hi, t=T):
    return S(rng.uniform(lo, hi, len(t)), t)


def day(rng, t=T, hi=900.):
    """a bell-shaped day with noise"""
    k = np.sin(np.pi * (np.arange(len(t)) - len(t) * .2) / (len(t) * .6))
    return S(np.where(k > 0, k * rng.uniform(.6, 1) * hi * rng.uniform(.7, 1, len(t)), 0), t)


def pick(rng, *a):
    return a[int(rng.integers(0, len(a)))]


def u(rng, lo, hi):
    return float(rng.uniform(lo, hi))


def entries():
    seen = {}
    for m in (cat_irradiance, cat_atmosphere, cat_geometry, cat_iam, cat_diode, cat_pv):
        for v in vars(m).values():
            if isinstance(v, list) and v and type(v[0]).__name__ == 'Entry':
                for e in v:
                    seen.setdefault(e.label, e)
    return seen


def call_entry(e, kw):
    return e.fn(**kw)


def from_entry(e, rng, form=None):
    a = e.gen(rng, N)
    o = e.opts(rng)
    form = form or pick(rng, *[f for f in e.forms if f in ('array', 'series')] or ['scalar'])
    kw = {}
    for k, v in a.items():
        v = np.asarray(v, float).copy()
        kw[k] = v if form == 'array' else pd.Series(v, index=T) if form == 'series' else float(v[0])
    return functools.partial(call_entry, e), (), dict(kw=dict(kw, **o))


def sun(rng, t=T):
    z = S(90 - 75 * np.sin(np.pi * (np.arange(len(t)) - len(t) * .2) / (len(t) * .6)), t).clip(2, 120)
    az = S(np.linspace(60, 300, len(t)) + rng.uniform(-5, 5), t)
    return z, az


def curve(rng, n=40, kind='cec'):
    il, io, rs, rsh, a = u(rng, 5, 7), 10 ** u(rng, -10, -8), u(rng, .1, .4), u(rng, 200, 900), u(rng, 1.2, 1.8)
    r = pvsystem.singlediode(il, io, rs, rsh, a)
    v = np.linspace(0, float(r['v_oc']), n)
    i = pvsystem.i_from_v(v, il, io, rs, rsh, a)
    return np.asarray(v, float), np.asarray(i, float), r


# ---------------------------------------------------------------- the table
TABLE = {}


def add(label):
    def deco(g):
        TABLE[label] = g
        return g
    return deco


@add('albedo.inland_water_dvoracek')
def _(r):
    return albedo.inland_water_dvoracek, (ser(r, -10, 90),), dict(surface_condition=pick(r, 'clear_water_no_waves', 'clear_water_frequent_whitecaps'))


def bif(r):
    z, a = sun(r)
    gcr = u(r, .2, .6)
    return dict(solar_zenith=z, solar_azimuth=a, gcr=gcr, height=u(r, 1, 2), pitch=2. / gcr, ghi=day(r), dhi=day(r, hi=200), dni=day(r, hi=800), albedo=pick(r, .2, ser(r, .1, .5)))


@add('bifacial.infinite_sheds.get_irradiance')
def _(r):
    k = bif(r)
    k.update(surface_tilt=ser(r, 0, 60), surface_azimuth=ser(r, 90, 270), model=pick(r, 'isotropic', 'haydavies'), dni_extra=1360., iam_front=ser(r, .9, 1), iam_back=.98, bifaciality=u(r, .6, .9))
    return bifacial.infinite_sheds.get_irradiance, (), k


@add('bifacial.infinite_sheds.get_irradiance_poa')
def _(r):
    k = bif(r)
    k.update(surface_tilt=ser(r, 0, 60), surface_azimuth=180., model='isotropic', npoints=None)
    return bifacial.infinite_sheds.get_irradiance_poa, (), k


@add('bifacial.ants2d.get_irradiance')
def _(r):
    k = bif(r)
    k['solar_zenith'] = k['solar_zenith'].clip(upper=80)
    k.update(tracker_rotation=ser(r, -50, 50), axis_azimuth=180., model=pick(r, 'perez', 'isotropic', 'haydavies'), dni_extra=ser(r, 1320, 1410), airmass=ser(r, 1, 5), row_segments=int(r.integers(1, 4)), ground_segments=int(r.integers(1, 5)), max_rows=5,
             return_ground_components=bool(r.random() < .5))
    return bifacial.ants2d.get_irradiance, (), k


@add('bifacial.loss_models.power_mismatch_deline')
def _(r):
    return bifacial.loss_models.power_mismatch_deline, (ser(r, 0, .3),), dict(fill_factor=pick(r, None, .7))


@add('bifacial.utils.vf_ground_sky_2d')
def _(r):
    return bifacial.utils.vf_ground_sky_2d, (), dict(rotation=r.uniform(-60, 60, 6), gcr=u(r, .2, .6), x=r.random(6), pitch=5., height=2., max_rows=int(r.integers(3, 12)))


@add('bifacial.utils.vf_ground_sky_2d_integ')
def _(r):
    return bifacial.utils.vf_ground_sky_2d_integ, (), dict(tracker_rotation=r.uniform(-60, 60, 6), gcr=u(r, .2, .6), height=2., pitch=5., max_rows=int(r.integers(3, 12)))


@add('bifacial.utils.vf_row_sky_2d')
def _(r):
    return bifacial.utils.vf_row_sky_2d, (r.uniform(-60, 60, 6), u(r, .2, .6), r.random(6)), {}


@add('bifacial.utils.vf_row_sky_2d_integ')
def _(r):
    return bifacial.utils.vf_row_sky_2d_integ, (r.uniform(-60, 60, 6), u(r, .2, .6)), dict(x0=np.array([0., .1, .2, .3, .4, .5]), x1=1.)


@add('bifacial.utils.vf_row_ground_2d')
def _(r):
    return bifacial.utils.vf_row_ground_2d, (r.uniform(-60, 60, 6), u(r, .2, .6), r.random(6)), {}


@add('bifacial.utils.vf_row_ground_2d_integ')
def _(r):
    return bifacial.utils.vf_row_ground_2d_integ, (r.uniform(-60, 60, 6), u(r, .2, .6)), dict(height=2., pitch=5., x0=0., x1=u(r, .5, 1))


@add('clearsky.detect_clearsky')
def _(r):
    t = pd.date_range('2021-06-01 08:00', periods=90, freq='1min', tz='UTC')
    c = S(400 + 3 * np.arange(90.), t)
    m = c * (1 + .05 * r.standard_normal(90) * (np.arange(90) > 50))
    return clearsky.detect_clearsky, (m, c), dict(infer_limits=bool(r.random() < .5), return_components=bool(r.random() < .5))


@add('clearsky.detect_clearsky:array')
def _(r):
    t = pd.date_range('2021-06-01 08:00', periods=90, freq='1min', tz='UTC')
    c = 400 + 3 * np.arange(90.)
    m = c * (1 + .05 * r.standard_normal(90) * (np.arange(90) > 50))
    return clearsky.detect_clearsky, (m, c), dict(times=t, return_components=bool(r.random() < .5))


@add('clearsky.bird')
def _(r):
    return clearsky.bird, (), dict(zenith=ser(r, 0, 100), airmass_relative=ser(r, 1, 20), aod380=ser(r, 0, .5), aod500=ser(r, 0, .5), precipitable_water=ser(r, .2, 5), ozone=pick(r, .3, .35), pressure=pick(r, 101325., ser(r, 80000, 103000)), dni_extra=pick(r, 1364., ser(r, 1320, 1410)))


@add('clearsky.ineichen')
def _(r):
    return clearsky.ineichen, (), dict(apparent_zenith=ser(r, 0, 110), airmass_absolute=ser(r, 1, 20), linke_turbidity=pick(r, 3., ser(r, 2, 5)), altitude=u(r, 0, 2000), dni_extra=ser(r, 1320, 1410), perez_enhancement=bool(r.random() < .5))


@add('clearsky.simplified_solis')
def _(r):
    return clearsky.simplified_solis, (), dict(apparent_elevation=ser(r, -10, 90), aod700=pick(r, .1, ser(r, 0, .4)), precipitable_water=pick(r, 1., ser(r, .1, 5)), pressure=ser(r, 70000, 103000), dni_extra=ser(r, 1320, 1410))


@add('iam.interp')
def _(r):
    return iam.interp, (ser(r, 0, 95), [0, 30, 60, 75, 90], [1., .99, u(r, .9, .97), .8, 0.]), dict(method=pick(r, 'linear', 'quadratic', 'cubic'), normalize=bool(r.random() < .5))


@add('iam.interp:array')
def _(r):
    return iam.interp, (r.uniform(0, 90, 9), np.array([0., 30, 60, 75, 90]), np.array([.99, .98, u(r, .9, .97), .8, 0.])), dict(normalize=bool(r.random() < .5))


@add('iam.marion_diffuse')
def _(r):
    k = pick(r, dict(model='ashrae', b=u(r, .03, .08)), dict(model='physical', n=u(r, 1.4, 1.6)), dict(model='martin_ruiz', a_r=u(r, .1, .2)), dict(model='schlick'))
    return iam.marion_diffuse, (), dict(k, surface_tilt=pick(r, u(r, 0, 90), r.uniform(0, 90, 4), pd.Series(r.uniform(0, 90, 4))))


@add('iam.marion_integrate')
def _(r):
    return iam.marion_integrate, (iam.ashrae, pick(r, 30., r.uniform(0, 90, 3))), dict(region=pick(r, 'sky', 'horizon', 'ground'), num=90)


@add('iam.convert')
def _(r):
    k = pick(r, ('ashrae', {'b': u(r, .03, .1)}, 'physical'), ('physical', {'n': u(r, 1.3, 1.6), 'K': 4., 'L': .002}, 'ashrae'), ('martin_ruiz', {'a_r': u(r, .1, .2)}, 'physical'), ('ashrae', {'b': u(r, .03, .1)}, 'martin_ruiz'))
    return iam.convert, k, {}


@add('iam.fit')
def _(r):
    a = np.linspace(0, 85, 18)
    return iam.fit, (a, iam.martin_ruiz(a, u(r, .1, .25)), pick(r, 'ashrae', 'martin_ruiz', 'physical')), {}


@add('iam.sapm')
def _(r):
    return iam.sapm, (ser(r, 0, 100), {f'B{i}': float(x) for i, x in enumerate([1, -.002, 3e-4, -1e-5, 2e-7, -1e-9])}), dict(upper=pick(r, None, .9))


INV = dict(Vac=240., Pso=6., Paco=300., Pdco=312., Vdco=40., C0=-3e-5, C1=-7e-5, C2=-.0012, C3=-.0084, Pnt=.09, Vdcmax=59., Idcmax=12., Mppt_low=33., Mppt_high=58.)


@add('inverter.sandia')
def _(r):
    return inverter.sandia, (ser(r, 20, 60), ser(r, 0, 340), dict(INV, Pnt=u(r, .05, .2))), {}


@add('inverter.sandia_multi')
def _(r):
    return inverter.sandia_multi, ((ser(r, 20, 60), ser(r, 20, 60)), (ser(r, 0, 170), ser(r, 0, 170)), dict(INV, Pnt=u(r, .05, .2))), {}


@add('inverter.pvwatts')
def _(r):
    return inverter.pvwatts, (pick(r, ser(r, 0, 1200), r.uniform(0, 1200, 8), u(r, 0, 1200)), u(r, 800, 1000)), {}


@add('inverter.pvwatts_multi')
def _(r):
    return inverter.pvwatts_multi, ((ser(r, 0, 600), ser(r, 0, 600)), u(r, 800, 1000)), {}


@add('inverter.adr')
def _(r):
    return inverter.adr, (ser(r, 20, 60), ser(r, 0, 300), dict(Vnom=40., Pnom=290., ADRCoefficients=[.01, .0125, .003, -.0005, u(r, .1, .2), -.05, .4, .02, -.1], Vmin=20., Vmax=58., MPPTHi=55., MPPTLow=25., Pacmax=270., Pnt=.1, Vdcmax=60.)), dict(vtol=pick(r, .1, .2))


@add('inverter.fit_sandia')
def _(r):
    v, p, lev = [], [], []
    for name, vv in (('Vmin', 30.), ('Vnom', 40.), ('Vmax', 50.)):
        for q in (.1, .2, .3, .5, .75, 1.):
            for rep in range(2):
                v.append(vv + rep * .1), p.append(312 * q), lev.append(name)
    v, p = np.array(v), np.array(p)
    ac = inverter.sandia(v, p, dict(INV, C0=u(r, -5e-5, -1e-5)))
    return inverter.fit_sandia, (np.asarray(ac), p, v, np.array(lev), 300., .09), {}


@add('irradiance.poa_components')
def _(r):
    parts = {k: ser(r, 0, 200) for k in ('isotropic', 'circumsolar', 'horizon')}
    sky = {'poa_sky_diffuse': parts['isotropic'] + parts['circumsolar'] + parts['horizon'], **{'poa_' + k: v for k, v in parts.items()}}
    sky = pick(r, sky, pd.DataFrame(sky), {k: v.to_numpy() for k, v in sky.items()}, sky['poa_sky_diffuse'])
    x = (lambda v: v.to_numpy()) if isinstance(sky, dict) and isinstance(sky['poa_sky_diffuse'], np.ndarray) else (lambda v: v)
    return irradiance.poa_components, (x(ser(r, 0, 110)), x(ser(r, 0, 900)), sky, x(ser(r, 0, 80))), {}


@add('irradiance.get_extra_radiation')
def _(r):
    return irradiance.get_extra_radiation, (pick(r, T, TU, 100, np.array([1, 50, 200]), pd.Timestamp('2021-03-04', tz='UTC')),), dict(method=pick(r, 'spencer', 'asce', 'pyephem', 'nrel'), epoch_year=2020)


for _v in (2023, 2024):
    def _g(r, f=getattr(irradiance, f'ghi_from_poa_driesse_{_v}')):
        z, a = sun(r)
        return f, (), dict(surface_tilt=u(r, 5, 40), surface_azimuth=u(r, 150, 210), solar_zenith=z, solar_azimuth=a, poa_global=day(r), dni_extra=1366., full_output=bool(r.random() < .5))
    TABLE[f'irradiance.ghi_from_poa_driesse_{_v}'] = _g


def tz_(r):
    z, a = sun(r)
    ghi = (1000 * np.cos(np.radians(z))).clip(lower=0) * r.uniform(.3, .8, N)
    return z, a, ghi


@add('irradiance.disc')
def _(r):
    z, a, g = tz_(r)
    return irradiance.disc, (g, z, T), dict(pressure=pick(r, None, 95000.))


@add('irradiance.dirint')
def _(r):
    z, a, g = tz_(r)
    return irradiance.dirint, (g, z, T), dict(pressure=pick(r, 101325., ser(r, 90000, 103000)), use_delta_kt_prime=bool(r.random() < .6), temp_dew=pick(r, None, ser(r, -5, 15)))


@add('irradiance.dirindex')
def _(r):
    z, a, g = tz_(r)
    c = (1000 * np.cos(np.radians(z))).clip(lower=0)
    return irradiance.dirindex, (g, c, ser(r, 700, 900), z, T), dict(temp_dew=pick(r, None, ser(r, -5, 15)))


@add('irradiance.gti_dirint')
def _(r):
    z, a, g = tz_(r)
    tl, sa = u(r, 5, 35), 180.
    return irradiance.gti_dirint, (g, irradiance.aoi(tl, sa, z, a), z, a, T, tl, sa), dict(calculate_gt_90=bool(r.random() < .7), max_iterations=int(r.integers(3, 12)), temp_dew=pick(r, None, 5.))


@add('irradiance.erbs')
def _(r):
    z, a, g = tz_(r)
    return irradiance.erbs, (g, z, pick(r, T, 152)), {}


@add('irradiance.erbs_driesse')
def _(r):
    z, a, g = tz_(r)
    return irradiance.erbs_driesse, (g, z), pick(r, dict(datetime_or_doy=T), dict(dni_extra=1366.))


@add('irradiance.orgill_hollands')
def _(r):
    z, a, g = tz_(r)
    return irradiance.orgill_hollands, (g, z, T), {}


@add('irradiance.boland')
def _(r):
    z, a, g = tz_(r)
    return irradiance.boland, (g, z, T), {}


@add('irradiance.louche')
def _(r):
    z, a, g = tz_(r)
    return irradiance.louche, (g, z, T), {}


@add('irradiance.dni')
def _(r):
    z, a, g = tz_(r)
    return irradiance.dni, (g, g * .3, z), dict(dni_clear=pick(r, None, ser(r, 300, 900)))


@add('irradiance.complete_irradiance')
def _(r):
    z, a, g = tz_(r)
    k = pick(r, dict(ghi=g, dhi=g * .3), dict(ghi=g, dni=g * .5), dict(dhi=g * .3, dni=g * .6))
    return irradiance.complete_irradiance, (z,), dict(k, dni_clear=pick(r, None, ser(r, 300, 900)) if 'dni' not in k else None)


@add('irradiance.campbell_norman')
def _(r):
    return irradiance.campbell_norman, (ser(r, 0, 100), pick(r, .5, ser(r, .3, .8))), dict(pressure=ser(r, 80000, 103000))


@add('irradiance.get_total_irradiance')
def _(r):
    z, a = sun(r)
    return irradiance.get_total_irradiance, (), dict(surface_tilt=ser(r, 0, 60), surface_azimuth=180., solar_zenith=z, solar_azimuth=a, dni=day(r), ghi=day(r), dhi=day(r, hi=200), dni_extra=ser(r, 1320, 1410), airmass=ser(r, 1, 9),
                                                     albedo=pick(r, .2, ser(r, 0, 1)), model=pick(r, *C.TRANSPOSITION), surface_type=pick(r, None, 'snow'))


@add('irradiance.perez')
def _(r):
    z, a = sun(r)
    return irradiance.perez, (), dict(surface_tilt=ser(r, 0, 60), surface_azimuth=180., dhi=day(r, hi=300), dni=day(r), dni_extra=ser(r, 1320, 1410), solar_zenith=z, solar_azimuth=a, airmass=ser(r, 1, 9), return_components=bool(r.random() < .5),
                                      model=pick(r, 'allsitescomposite1990', 'phoenix1988', 'capecanaveral1988'))


@add('irradiance.perez_driesse')
def _(r):
    z, a = sun(r)
    return irradiance.perez_driesse, (), dict(surface_tilt=30., surface_azimuth=180., dhi=day(r, hi=300), dni=day(r), dni_extra=1366., solar_zenith=z, solar_azimuth=a, airmass=ser(r, 1, 9), return_components=bool(r.random() < .5))


@add('ivtools.sde.fit_sandia_simple')
def _(r):
    v, i, p = curve(r)
    return ivtools.sde.fit_sandia_simple, (v, i), pick(r, {}, dict(v_oc=float(p['v_oc']), i_sc=float(p['i_sc'])), dict(v_mp_i_mp=(float(p['v_mp']), float(p['i_mp']))))


@add('ivtools.utils.rectify_iv_curve')
def _(r):
    v, i, p = curve(r)
    j = r.permutation(len(v))
    v, i = v[j].copy(), i[j].copy()
    v[3] = np.nan
    return ivtools.utils.rectify_iv_curve, (np.append(v, v[5]), np.append(i, i[5] + .01)), dict(decimals=pick(r, None, 3))


@add('ivtools.utils.astm_e1036')
def _(r):
    v, i, p = curve(r)
    return ivtools.utils.astm_e1036, (v, i), {}


@add('ivtools.sdm.fit_desoto')
def _(r):
    return ivtools.sdm.fit_desoto, (), dict(v_mp=31., i_mp=8.71, v_oc=38.3, i_sc=u(r, 9.41, 9.44), alpha_sc=.005658, beta_voc=-.13788, cells_in_series=60, init_guess=pick(r, {}, {'Rsh_0': 90.}), root_kwargs=pick(r, {}, {'method': 'hybr'}))


@add('ivtools.sdm.fit_desoto_batzelis')
def _(r):
    return ivtools.sdm.fit_desoto_batzelis, (), dict(v_mp=u(r, 30.5, 31.5), i_mp=8.71, v_oc=38.3, i_sc=9.43, alpha_sc=.005658, beta_voc=-.13788)


@add('ivtools.sdm.pvsyst_temperature_coeff')
def _(r):
    return ivtools.sdm.pvsyst_temperature_coeff, (), dict(alpha_sc=.004, gamma_ref=u(r, 1, 1.2), mu_gamma=-.0003, I_L_ref=6.2, I_o_ref=4e-11, R_sh_ref=1500., R_sh_0=6000., R_s=.5, cells_in_series=96)


def ivset(r, model):
    p = dict(EV, I_o_ref=10 ** u(r, -10, -9))
    ee, tc = np.meshgrid([200., 500., 800., 1000.], [20., 35., 50.])
    ee, tc = ee.ravel(), tc.ravel()
    d = pvsystem.calcparams_desoto(ee, tc, **p) if model == 'desoto' else pvsystem.calcparams_pvsyst(ee, tc, alpha_sc=.0045, gamma_ref=1.05, mu_gamma=-.0003, I_L_ref=6.1, I_o_ref=p['I_o_ref'], R_sh_ref=300., R_sh_0=900., R_s=.35, cells_in_series=60)
    m = pvsystem.singlediode(*d)
    return ee, tc, d, m


@add('ivtools.sdm.fit_desoto_sandia')
def _(r):
    ee, tc, d, m = ivset(r, 'desoto')
    vs = [np.linspace(0, x, 30) for x in np.asarray(m['v_oc'])]
    d = [np.broadcast_to(np.asarray(x, float), ee.shape) for x in d]
    cs = [np.asarray(pvsystem.i_from_v(v, *[x[j] for x in d])) for j, v in enumerate(vs)]
    iv = dict(i_sc=np.asarray(m['i_sc']), i_mp=np.asarray(m['i_mp']), v_mp=np.asarray(m['v_mp']), v_oc=np.asarray(m['v_oc']), poa=ee, tc=tc, ee=ee, v=np.array(vs), i=np.array(cs))
    return ivtools.sdm.fit_desoto_sandia, (iv, dict(cells_in_series=60, alpha_sc=.0045, beta_voc=-.1377)), dict(const=pick(r, None, dict(k=1.380649e-23, q=1.602176634e-19, E0=1000., T0=25.)))


@add('ivtools.sdm.fit_pvsyst_iec61853_sandia_2025')
def _(r):
    ee, tc, d, m = ivset(r, 'pvsyst')
    return ivtools.sdm.fit_pvsyst_iec61853_sandia_2025, (), dict(effective_irradiance=ee, temp_cell=np.where(tc == 20, 25., tc), i_sc=np.asarray(m['i_sc']), v_oc=np.asarray(m['v_oc']), i_mp=np.asarray(m['i_mp']), v_mp=np.asarray(m['v_mp']), cells_in_series=60)


@add('pvarray.fit_pvefficiency_adr')
def _(r):
    g, t = np.meshgrid([100., 200., 400., 600., 800., 1000.], [15., 25., 50., 75.])
    g, t = g.ravel(), t.ravel()
    e = pvarray.pvefficiency_adr(g, t, k_a=100., k_d=-6., tc_d=.02, k_rs=u(r, .05, .1), k_rsh=.2)
    return pvarray.fit_pvefficiency_adr, (g, t, e), dict(dict_output=bool(r.random() < .5))


@add('pvsystem.retrieve_sam')
def _(r):
    return pvsystem.retrieve_sam, (pick(r, 'CECInverter', 'SandiaMod', 'ADRInverter'),), {}


@add('pvsystem.singlediode')
def _(r):
    d = pvsystem.calcparams_desoto(ser(r, 10, 1100), ser(r, 0, 60), **EV)
    return pvsystem.singlediode, tuple(d), dict(method=pick(r, 'lambertw', 'newton', 'brentq', 'chandrupatla'))


@add('pvsystem.singlediode:array')
def _(r):
    d = pvsystem.calcparams_desoto(r.uniform(10, 1000, 8), r.uniform(0, 60, 8), **EV)
    return pvsystem.singlediode, tuple(d), dict(method=pick(r, 'lambertw', 'newton', 'brentq'))


@add('pvsystem.max_power_point')
def _(r):
    d = pvsystem.calcparams_desoto(r.uniform(10, 1000, 8), r.uniform(0, 60, 8), **EV)
    return pvsystem.max_power_point, tuple(d), dict(method=pick(r, 'brentq', 'newton'))


for _n, _x in (('bishop88_i_from_v', 30.), ('bishop88_v_from_i', 3.)):
    def _g(r, f=getattr(singlediode, _n), x=_x):
        d = pvsystem.calcparams_desoto(r.uniform(700, 1000, 8), r.uniform(0, 60, 8), **EV)
        return f, (np.full(8, x * u(r, .5, 1)),) + tuple(d), dict(method=pick(r, 'brentq', 'newton'), method_kwargs=pick(r, None, {'tol': 1e-9}) if False else None)
    TABLE[f'singlediode.{_n}'] = _g


@add('singlediode.bishop88_mpp')
def _(r):
    d = pvsystem.calcparams_desoto(r.uniform(700, 1000, 8), r.uniform(0, 60, 8), **EV)
    k = pick(r, dict(method='newton', method_kwargs={'tol': 1e-8, 'rtol': 1e-8, 'maxiter': 30}), dict(method='brentq', method_kwargs={'xtol': 1e-8, 'rtol': 1e-8}), dict(method='newton'), dict(method='brentq'))
    return singlediode.bishop88_mpp, tuple(d), dict(k)


@add('singlediode.bishop88')
def _(r):
    d = pvsystem.calcparams_desoto(r.uniform(700, 1000, 8), r.uniform(0, 60, 8), **EV)
    return singlediode.bishop88, (r.uniform(0, 40, 8),) + tuple(d), dict(gradients=bool(r.random() < .5), breakdown_factor=1e-3)


@add('pvsystem.sapm')
def _(r):
    return pvsystem.sapm, (ser(r, 0, 1100), ser(r, 0, 60), module(r)), dict(temperature_ref=pick(r, 25, 20))


def module(r):
    t = cat_pv._mods()
    return dict(t.iloc[:, int(r.integers(0, t.shape[1]))])


@add('pvsystem.sapm_effective_irradiance')
def _(r):
    return pvsystem.sapm_effective_irradiance, (ser(r, 0, 900), ser(r, 0, 200), ser(r, 1, 9), ser(r, 0, 90), module(r)), {}


@add('pvsystem.sapm:Series module')
def _(r):
    t = cat_pv._mods()
    return pvsystem.sapm, (ser(r, 0, 1100), ser(r, 0, 60), t.iloc[:, int(r.integers(0, t.shape[1]))].copy()), {}


for _m in ('desoto', 'cec', 'pvsyst'):
    def _g(r, m=_m):
        k = cat_pv.sdm_opts(m)(r)
        return getattr(pvsystem, 'calcparams_' + m), (ser(r, 0, 1100), ser(r, 0, 60)), k
    TABLE[f'pvsystem.calcparams_{_m}'] = _g


@add('pvsystem.scale_voltage_current_power')
def _(r):
    return pvsystem.scale_voltage_current_power, (pd.DataFrame({k: r.random(4) for k in ('v_mp', 'v_oc', 'i_mp', 'i_x', 'i_xx', 'i_sc', 'p_mp')}),), dict(voltage=int(r.integers(1, 5)), current=int(r.integers(1, 5)))


@add('pvsystem.combine_loss_factors')
def _(r):
    return pvsystem.combine_loss_factors, (T, ser(r, 0, .1), ser(r, 0, .1, T[::3]), S([.02, .03], T[[0, 10]])), {}


@add('pvsystem.pvwatts_losses')
def _(r):
    return pvsystem.pvwatts_losses, (), dict(soiling=u(r, 0, 5), shading=3, age=u(r, 0, 4))


@add('pvsystem.dc_ohms_from_percent')
def _(r):
    return pvsystem.dc_ohms_from_percent, (38., 8., u(r, 1, 3), 10, 2), {}


@add('pvarray.huld')
def _(r):
    return pvarray.huld, (ser(r, 0, 1100), ser(r, 0, 60), 300.), dict(cell_type=pick(r, 'csi', 'cdte', 'cis'))


@add('pvarray.pvefficiency_adr')
def _(r):
    return pvarray.pvefficiency_adr, (ser(r, 1, 1100), ser(r, 0, 60)), dict(k_a=99., k_d=-6., tc_d=.02, k_rs=.07, k_rsh=u(r, .1, .3))


@add('scaling.wvm')
def _(r):
    t = pd.date_range('2021-06-01', periods=120, freq='10s', tz='UTC')
    return scaling.wvm, (pick(r, ser(r, .3, 1, t), r.uniform(.3, 1, 128)), r.uniform(0, 3000, (6, 2)), u(r, 5, 20)), dict(dt=10)


@add('scaling.latlon_to_xy')
def _(r):
    return scaling.latlon_to_xy, (np.column_stack([r.uniform(35, 35.1, 5), r.uniform(-110, -109.9, 5)]),), {}


@add('snow.fully_covered_nrel')
def _(r):
    return snow.fully_covered_nrel, (S(r.choice([0, .5, 2, 5], N)),), dict(snow_depth=pick(r, None, ser(r, 0, 5)))


@add('snow.coverage_nrel')
def _(r):
    return snow.coverage_nrel, (S(r.choice([0, 0, 0, .5, 2, 5], N)), day(r), ser(r, -10, 5), u(r, 10, 60)), dict(snow_depth=pick(r, None, ser(r, 0, 5)), initial_coverage=u(r, 0, 1))


@add('snow.dc_loss_nrel')
def _(r):
    return snow.dc_loss_nrel, (ser(r, 0, 1), int(r.integers(1, 6))), {}


@add('snow.loss_townsend')
def _(r):
    a = lambda lo, hi: r.uniform(lo, hi, 12)  # noqa: E731
    return snow.loss_townsend, (a(0, 60), a(0, 8), u(r, 10, 60), a(50, 100), a(-15, 5), a(30, 200), 2.5, u(r, .3, 1)), dict(string_factor=pick(r, 1., .75))


@add('soiling.hsu')
def _(r):
    return soiling.hsu, (S(r.choice([0, 0, 0, .3, 3.], N)), .5, u(r, 5, 40), ser(r, 1e-6, 5e-5), 3e-5), dict(depo_veloc=pick(r, None, {'2_5': .002, '10': .005}), rain_accum_period=pd.Timedelta('3h'))


@add('soiling.kimber')
def _(r):
    t = pd.date_range('2021-06-01', periods=24 * 20, freq='1h', tz='UTC')
    return soiling.kimber, (S(r.choice([0, 0, 0, 0, .3, 3.], len(t), p=[.3, .3, .2, .19, .005, .005]), t),), dict(cleaning_threshold=u(r, 1, 8), soiling_loss_rate=u(r, .001, .003), grace_period=int(r.integers(1, 5)), initial_soiling=u(r, 0, .1),
                                                                                                             manual_wash_dates=pick(r, None, [datetime.date(2021, 6, 11)]))


@add('solarposition.get_solarposition')
def _(r):
    return solarposition.get_solarposition, (pick(r, T, TU), u(r, -60, 60), u(r, -180, 180)), dict(altitude=pick(r, None, 1000.), pressure=pick(r, None, 90000.), method=pick(r, 'nrel_numpy', 'ephemeris', 'pyephem'), temperature=pick(r, 12, ser(r, 0, 30)) if False else 15.)


@add('solarposition.spa_python')
def _(r):
    return solarposition.spa_python, (pick(r, T, TU), u(r, -60, 60), u(r, -180, 180)), dict(delta_t=pick(r, 67., None), atmos_refract=pick(r, None, .6))


@add('solarposition.sun_rise_set_transit_spa')
def _(r):
    return solarposition.sun_rise_set_transit_spa, (pd.date_range('2021-02-01', periods=5, freq='D', tz=pick(r, 'UTC', 'US/Arizona')), u(r, -60, 60), u(r, -120, -100)), dict(delta_t=pick(r, 67., None))


@add('solarposition.sun_rise_set_transit_ephem')
def _(r):
    return solarposition.sun_rise_set_transit_ephem, (pd.date_range('2021-02-01', periods=5, freq='D', tz=pick(r, 'UTC', 'US/Arizona')), u(r, -60, 60), u(r, -120, -100)), dict(next_or_previous=pick(r, 'next', 'previous'))


@add('solarposition.sun_rise_set_transit_geometric')
def _(r):
    t = pd.date_range('2021-02-01', periods=5, freq='D', tz=pick(r, 'UTC', 'US/Arizona'))
    return solarposition.sun_rise_set_transit_geometric, (t, u(r, -60, 60), u(r, -120, -100), r.uniform(-.3, .3, 5), r.uniform(-10, 10, 5)), {}


@add('solarposition.calc_time')
def _(r):
    d = datetime.datetime(2021, 3, int(r.integers(1, 28)), 16)
    return solarposition.calc_time, (d, d + datetime.timedelta(hours=5), 32., -110., 'az', u(r, 2.9, 3.2)), {}


@add('solarposition.nrel_earthsun_distance')
def _(r):
    return solarposition.nrel_earthsun_distance, (pick(r, T, TU),), dict(delta_t=pick(r, 67., None))


@add('solarposition.pyephem_earthsun_distance')
def _(r):
    return solarposition.pyephem_earthsun_distance, (pick(r, T, TU),), {}


@add('solarposition.hour_angle')
def _(r):
    return solarposition.hour_angle, (pick(r, T, TU), u(r, -180, 180), r.uniform(-10, 10, N)), {}


@add('solarposition.analytical')
def _(r):
    def both(lat, h, d):
        z = solarposition.solar_zenith_analytical(lat, h, d)
        return z, solarposition.solar_azimuth_analytical(lat, h, d, z)
    return both, (u(r, -1, 1), ser(r, -2, 2), ser(r, -.4, .4)), {}


@add('solarposition.doy models')
def _(r):
    def f(d):
        return (solarposition.equation_of_time_spencer71(d), solarposition.equation_of_time_pvcdrom(d), solarposition.declination_spencer71(d), solarposition.declination_cooper69(d))
    return f, (ser(r, 1, 366),), {}


def spectra(r, n=3):
    w = np.arange(300, 1200, 5.)
    return pd.DataFrame(np.abs(np.sin(w / 200) + 1.2)[None, :] * r.uniform(.5, 1, (n, 1)), index=T[:n], columns=w)


@add('spectrum.calc_spectral_mismatch_field')
def _(r):
    return spectrum.calc_spectral_mismatch_field, (spectrum.get_example_spectral_response(), spectra(r)), dict(e_ref=pick(r, None, spectra(r).iloc[0]))


@add('spectrum.average_photon_energy')
def _(r):
    return spectrum.average_photon_energy, (pick(r, spectra(r), spectra(r).iloc[0]),), {}


@add('spectrum.get_reference_spectra')
def _(r):
    return spectrum.get_reference_spectra, (), dict(wavelengths=pick(r, None, np.arange(300., 1100., 7)))


@add('spectrum.sr_qe')
def _(r):
    f = pick(r, spectrum.sr_to_qe, spectrum.qe_to_sr)
    return f, (pick(r, spectrum.get_example_spectral_response(), pd.Series(r.random(20), index=np.linspace(300, 1100, 20))),), dict(normalize=bool(r.random() < .5))


@add('spectrum.sr_qe:array')
def _(r):
    return pick(r, spectrum.sr_to_qe, spectrum.qe_to_sr), (r.random(20), np.linspace(300, 1100, 20)), dict(normalize=bool(r.random() < .5))


@add('spectrum.get_example_spectral_response')
def _(r):
    return spectrum.get_example_spectral_response, (), dict(wavelength=pick(r, None, np.arange(280., 1200., 11)))


@add('spectrum.spectral_factor_firstsolar')
def _(r):
    k = pick(r, dict(module_type=pick(r, 'cdte', 'multisi', 'cigs', 'asi')), dict(coefficients=[.86, -.02, -.006, .06, .026, -.002]))
    return spectrum.spectral_factor_firstsolar, (pick(r, ser(r, 0, 9), r.uniform(0, 9, N)), pick(r, r.uniform(.3, 12, N), r.uniform(.3, 12, N))), k


@add('spectrum.spectral_factor_firstsolar:series')
def _(r):
    return spectrum.spectral_factor_firstsolar, (ser(r, 0, 9), ser(r, .3, 12)), dict(module_type='cdte')


@add('spectrum.spectral_factor_sapm')
def _(r):
    return spectrum.spectral_factor_sapm, (ser(r, .5, 12), module(r)), {}


@add('spectrum.spectral_factor_caballero')
def _(r):
    return spectrum.spectral_factor_caballero, (ser(r, .1, 6), ser(r, 1, 10), ser(r, 0, .5)), dict(module_type=pick(r, 'cdte', 'asi', 'perovskite'))


@add('spectrum.spectral_factor_pvspec')
def _(r):
    return spectrum.spectral_factor_pvspec, (ser(r, .5, 12), ser(r, .1, 1.2)), dict(module_type=pick(r, 'monosi', 'cigs', 'asi'))


@add('spectrum.spectral_factor_jrc')
def _(r):
    return spectrum.spectral_factor_jrc, (ser(r, .5, 12), ser(r, .1, 1.2)), dict(module_type=pick(r, 'multisi', 'cdte'))


@add('spectrum.spectral_factor_polo')
def _(r):
    return spectrum.spectral_factor_polo, (ser(r, .1, 6), ser(r, 1, 10), ser(r, .01, .5), ser(r, 0, 85), ser(r, 80000, 103000)), dict(module_type=pick(r, 'monosi', 'cdte'), albedo=pick(r, .2, ser(r, .1, .4)))


@add('spectrum.spectrl2')
def _(r):
    n = 4
    return spectrum.spectrl2, (S(r.uniform(5, 88, n), T[:n]), S(r.uniform(5, 88, n), T[:n]), 30., .2, S(r.uniform(80000, 103000, n), T[:n]), S(r.uniform(1, 8, n), T[:n]), S(r.uniform(.2, 4, n), T[:n]), .31, S(r.uniform(.05, .4, n), T[:n])), {}


@add('spectrum.spectrl2:array')
def _(r):
    n = 4
    return spectrum.spectrl2, (r.uniform(5, 88, n), r.uniform(5, 88, n), 30., .2, 101325., r.uniform(1, 8, n), r.uniform(.2, 4, n), .31, r.uniform(.05, .4, n)), dict(dayofyear=100)


@add('temperature.fuentes')
def _(r):
    return temperature.fuentes, (day(r), ser(r, 5, 30), ser(r, 0, 9), 45.), dict(surface_tilt=u(r, 0, 60))


@add('temperature.prilliman')
def _(r):
    t = pd.date_range('2021-06-01', periods=60, freq='2min', tz='UTC')
    return temperature.prilliman, (ser(r, 10, 60, t), ser(r, 0, 9, t)), dict(unit_mass=u(r, 8, 15), coefficients=pick(r, None, [.0046, .00046, -.00023, -1.6e-5]))


@add('tools.localize_to_utc')
def _(r):
    return tools.localize_to_utc, (pick(r, pd.Timestamp('2021-03-01 03:00'), T, T.tz_localize(None), S(np.arange(N), T.tz_localize(None))), location.Location(32, -110, 'US/Arizona')), {}


@add('tools.normalize_max2one')
def _(r):
    return tools.normalize_max2one, (pick(r, ser(r, 0, 5), pd.DataFrame(r.random((3, 4)))),), {}


@add('tracking.singleaxis')
def _(r):
    z, a = sun(r)
    return tracking.singleaxis, (z, a), dict(axis_tilt=u(r, 0, 10), axis_azimuth=180., max_angle=pick(r, 60, (-45, 50)), backtrack=bool(r.random() < .7), gcr=u(r, .2, .6))


@add('shading.shaded_fraction1d')
def _(r):
    z, a = sun(r)
    return shading.shaded_fraction1d, (z, a, 180., ser(r, -50, 50)), dict(collector_width=2., pitch=u(r, 3, 6))


@add('shading.direct_martinez')
def _(r):
    return shading.direct_martinez, (ser(r, 100, 900), ser(r, 50, 600), ser(r, 0, 1), S(r.integers(0, 4, N)), 3), {}


@add('transformer.simple_efficiency')
def _(r):
    return transformer.simple_efficiency, (ser(r, 0, 1e5), .005, .01, 1e5), {}


@add('atmosphere.misc')
def _(r):
    def f(p, z, pw, t):
        return atmosphere.pres2alt(p), atmosphere.get_relative_airmass(z), atmosphere.gueymard94_pw(t, pw), atmosphere.tdew_from_rh(t, pw)
    return f, (ser(r, 7e4, 1e5), ser(r, 0, 90), ser(r, 10, 90), ser(r, -5, 40)), {}


# objects: the object itself is the first argument so that it is watched too
@add('Location.get_solarposition')
def _(r):
    return location.Location.get_solarposition, (C.build_location(C.site(r)), T), {}


@add('Location.get_airmass')
def _(r):
    return location.Location.get_airmass, (C.build_location(C.site(r)), T), dict(model=pick(r, *C.AIRMASS))


@add('Location.get_clearsky')
def _(r):
    return location.Location.get_clearsky, (C.build_location(C.site(r)), T), pick(r, dict(model='ineichen', linke_turbidity=u(r, 2, 5)), dict(model='haurwitz'), dict(model='simplified_solis'))


@add('Location.get_sun_rise_set_transit')
def _(r):
    return location.Location.get_sun_rise_set_transit, (location.Location(32, -110, 'US/Arizona'), pd.date_range('2021-02-01', periods=3, freq='D', tz='US/Arizona')), pick(r, dict(method='spa'), dict(method='pyephem'), dict(method='geometric', declination=r.uniform(-.3, .3, 3), equation_of_time=r.uniform(-9, 9, 3)))


def system(r):
    s = C.spec(r)
    return s, C.build_system(s)


@add('PVSystem.get_irradiance')
def _(r):
    s, o = system(r)
    z, a = sun(r)
    n = len(o.arrays)
    return pvsystem.PVSystem.get_irradiance, (o, z, a, pick(r, day(r), tuple(day(r) for _ in range(n)) if n > 1 else day(r)), day(r), day(r, hi=200)), dict(dni_extra=1366., model=pick(r, 'haydavies', 'isotropic', 'king'))


@add('PVSystem.get_aoi')
def _(r):
    s, o = system(r)
    z, a = sun(r)
    return pvsystem.PVSystem.get_aoi, (o, z, a), {}


@add('PVSystem.get_cell_temperature')
def _(r):
    s, o = system(r)
    return pvsystem.PVSystem.get_cell_temperature, (o, day(r) if len(o.arrays) == 1 else tuple(day(r) for _ in o.arrays), ser(r, 0, 30), ser(r, 0, 9), s['temp']), dict(effective_irradiance=day(r) if len(o.arrays) == 1 else tuple(day(r) for _ in o.arrays))


@add('PVSystem.get_ac')
def _(r):
    s, o = system(r)
    n = len(o.arrays)
    p, v = tuple(ser(r, 0, 400) for _ in range(n)), tuple(ser(r, 20, 60) for _ in range(n))
    return pvsystem.PVSystem.get_ac, (o, s['ac'], p if n > 1 else p[0], v if n > 1 else v[0]), {}


@add('Array.get_iam')
def _(r):
    s, o = system(r)
    return pvsystem.Array.get_iam, (o.arrays[0], ser(r, 0, 100), s['aoi'] if s['aoi'] not in ('no_loss',) else 'ashrae'), {}


@add('SingleAxisTrackerMount.get_orientation')
def _(r):
    z, a = sun(r)
    return pvsystem.SingleAxisTrackerMount.get_orientation, (pvsystem.SingleAxisTrackerMount(axis_tilt=u(r, 0, 5), gcr=u(r, .2, .5)), z, a), {}


RES = ('solar_position', 'airmass', 'tracking', 'aoi', 'total_irrad', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'dc', 'dc_ohmic_losses', 'ac', 'losses', 'diode_params', 'weather', 'times', 'albedo')


def results(mc):
    d = {k: getattr(mc.results, k, None) for k in RES}
    return {k: (list(v) if isinstance(v, tuple) else v) for k, v in d.items()}


def run_chain(s, p, method, weather, sysobj=None, **over):
    k = dict(s['chain'], aoi_model=s['aoi'], spectral_model=s['spectral'], dc_model=s['dc'], ac_model=s['ac'], temperature_model=s['temp'])
    k.update(over)
    mc = modelchain.ModelChain(sysobj, C.build_location(p), **k)
    getattr(mc, method)(weather)
    return results(mc)


@add('ModelChain.run_model')
def _(r):
    s, p = C.spec(r), C.site(r)
    return run_chain, (s, p, 'run_model', C.weather(r, p, 12), C.build_system(s)), {}


@add('ModelChain.run_model:list')
def _(r):
    s, p = C.spec(r, n=2), C.site(r)
    w = C.weather(r, p, 12)
    w2 = w.copy()
    w2['ghi'] = w2['ghi'] * .9
    return run_chain, (s, p, 'run_model', pick(r, [w, w2], (w, w2), [w, w]), C.build_system(s)), {}


@add('ModelChain.run_model_from_poa')
def _(r):
    s, p = C.spec(r), C.site(r)
    w = C.weather(r, p, 12)
    w['poa_global'], w['poa_direct'], w['poa_diffuse'] = w['ghi'], w['ghi'] * .7, w['ghi'] * .3
    w = w.drop(columns=['ghi', 'dni', 'dhi'])
    return run_chain, (s, p, 'run_model_from_poa', [w] * s['n'] if s['n'] > 1 else w, C.build_system(s)), {}


@add('ModelChain.run_model_from_effective_irradiance')
def _(r):
    s, p = C.spec(r), C.site(r)
    w = C.weather(r, p, 12)
    w['effective_irradiance'] = w['ghi']
    w['poa_global'] = w['ghi'] * 1.02
    if r.random() < .4:
        w['cell_temperature'] = 30. + w['ghi'] * .02
    return run_chain, (s, p, 'run_model_from_effective_irradiance', w if s['n'] == 1 else [w.copy() for _ in range(s['n'])], C.build_system(s)), {}


@add('ModelChain.complete_irradiance')
def _(r):
    s, p = C.spec(r, n=1), C.site(r)
    w = C.weather(r, p, 12).drop(columns=[pick(r, 'dhi', 'ghi')])

    def f(s, p, w, o):
        mc = C.build_chain(s, p, **({} if True else {}))
        mc.complete_irradiance(w)
        return {'weather': mc.results.weather}
    return f, (s, p, w, C.build_system(s)), {}


def wide(rng, entries_too=True, labels=None):
    """One call per label."""
    for k, g in TABLE.items():
        if labels is None or k in labels:
            yield (k,) + tuple(g(rng))
    if entries_too:
        for k, e in entries().items():
            if labels is None or k in labels:
                yield ('cat:' + k,) + tuple(from_entry(e, rng))
