"""X02: scalars, arrays and Series give the same numbers, element by element."""
import subprocess
import sys

import numpy as np
import pandas as pd

import pvlib
from pvlib import (albedo, bifacial, clearsky, iam, inverter, irradiance, pvarray, pvsystem, shading, singlediode, snow, solarposition, spectrum,
                   temperature, tools, tracking)

from mon import chain as C
from mon import gen, longrun
from mon import wide as W
from mon.core import Mon, main
from mon.engine import Driver, Entry, catalogue

mon = Mon('X02', 'distinct (function, options, first element) batches',
          ['the same function on the same elements in other containers and batches', 'missing inputs: own element missing, others unchanged'],
          required=['elementwise', 'times', 'frame', 'index', 'objects', 'zero_d', 'conditions'])
ALL = ('array', 'series', 'scalar')
AS = ('array', 'series')


def U(**k):
    """{arg: (lo, hi)} -> generator"""
    def g(rng, n):
        return {a: gen.mix(rng, n, v[0], v[1], v[2] if len(v) > 2 else ()) for a, v in k.items()}
    return g


def opt(**k):
    return lambda rng: {a: (v[int(rng.integers(0, len(v)))] if isinstance(v, tuple) else v) for a, v in k.items()}


def sdm(rng, n):
    return dict(photocurrent=gen.mix(rng, n, .1, 9), saturation_current=10. ** rng.uniform(-11, -7, n), resistance_series=rng.uniform(.05, .6, n), resistance_shunt=rng.uniform(50, 2000, n), nNsVth=rng.uniform(1., 2.5, n))


def sdmv(rng, n):
    d = sdm(rng, n)
    voc = d['nNsVth'] * np.log(d['photocurrent'] / d['saturation_current'])
    return dict(voltage=rng.uniform(0, .85, n) * voc, **d)


def sdmi(rng, n):
    d = sdm(rng, n)
    return dict(current=rng.uniform(0, .9, n) * d['photocurrent'], **d)


def vdep(rng, n):
    return dict(diode_voltage=rng.uniform(-5, 35, n), **sdm(rng, n))


SHEDS = U(surface_tilt=(0, 70), surface_azimuth=(90, 270), solar_zenith=(0, 89), solar_azimuth=(90, 270), ghi=(10, 1100), dhi=(5, 400), dni=(0, 900), albedo=(.1, .5))
SHED_O = opt(gcr=(.3, .45, .6), height=1.5, pitch=5., model=('isotropic',))


def E(name, g, opts=None, forms=ALL, **k):
    return Entry(name, g, None, opts, forms, **{**dict(nan='all', rtol=1e-7, atol=1e-9), **k})


EXTRA = [
    E('albedo.inland_water_dvoracek', U(solar_elevation=(-5, 90, (0., 90.))), opt(surface_condition=('clear_water_no_waves', 'muddy_water_no_waves')), nan='all'),
    E('bifacial.loss_models.power_mismatch_deline', U(rmad=(0, .3)), opt(fill_factor=(None, .75))),
    E('bifacial.utils.vf_row_sky_2d', U(surface_tilt=(-80, 80), x=(0, 1, (0., 1.))), opt(gcr=(.2, .5)), AS + ('scalar',)),
    E('bifacial.utils.vf_row_ground_2d', U(surface_tilt=(-80, 80), x=(0, 1, (0., 1.))), opt(gcr=(.2, .5)), AS + ('scalar',)),
    E('bifacial.utils.vf_row_sky_2d_integ', U(surface_tilt=(-80, 80)), opt(gcr=(.2, .5), x0=(0, .2), x1=(.7, 1)), ALL),
    E('bifacial.infinite_sheds.get_irradiance_poa', SHEDS, SHED_O, AS, nan_keys=('poa_global',), rtol=1e-6, const_ok=False),
    E('bifacial.infinite_sheds.get_irradiance', SHEDS, SHED_O, AS, nan_keys=('poa_global',), rtol=1e-6, const_ok=False),
    E('iam.interp', U(aoi=(0, 95, (0., 30., 90.))), lambda r: dict(theta_ref=[0, 30, 60, 75, 90], iam_ref=[1., .99, .95, .8, 0.], method=['linear', 'cubic'][int(r.integers(0, 2))]), ALL),
    E('iam.marion_diffuse', U(surface_tilt=(0, 90, (0., 90.))), opt(model=('ashrae', 'physical', 'martin_ruiz', 'schlick')), ALL, nan='local', weight=1),
    E('irradiance.dni', U(ghi=(0, 1100), dhi=(0, 400), zenith=(0, 100, (80., 88., 90.))), None, ('series',), nan=None),
    E('irradiance.dni', U(ghi=(0, 1100), dhi=(0, 400), zenith=(0, 100, (80., 88., 90.)), dni_clear=(200, 900)), None, ('series',), nan=None, const_ok=False, tag='clear'),
    E('irradiance.ghi_from_poa_driesse_2023', U(surface_tilt=(0, 60), surface_azimuth=(90, 270), solar_zenith=(5, 80), solar_azimuth=(90, 270), poa_global=(5, 1000), dni_extra=(1320, 1410)), None, ALL, rtol=1e-6, atol=1e-5),
    E('irradiance.ghi_from_poa_driesse_2024', U(surface_tilt=(0, 60), surface_azimuth=(90, 270), solar_zenith=(5, 80), solar_azimuth=(90, 270), poa_global=(5, 1000), dni_extra=(1320, 1410)), None, ALL, rtol=1e-6, atol=1e-5)
    if hasattr(irradiance, 'ghi_from_poa_driesse_2024') else None,
    E('irradiance.get_extra_radiation', U(datetime_or_doy=(1, 366)), opt(method=('spencer', 'asce')), ('array', 'scalar')),
    E('pvsystem.singlediode', sdm, opt(method=('lambertw', 'brentq', 'newton')), ALL, nan=None, rtol=2e-5, atol=1e-6),
    E('pvsystem.singlediode', sdm, opt(method=('lambertw', 'newton')), ALL, nan='local', tag='nan', rtol=2e-5, atol=1e-6),
    E('pvsystem.max_power_point', sdm, opt(method=('brentq', 'newton')), ALL, nan=None, rtol=2e-4, atol=1e-4),
    E('pvsystem.max_power_point', sdm, opt(method=('newton',)), ALL, nan='local', tag='nan', rtol=2e-4, atol=1e-4),
    E('pvsystem.i_from_v', sdmv, opt(method=('lambertw', 'brentq', 'newton')), ALL, nan=None, rtol=1e-6, atol=1e-7, const_ok=False),
    E('pvsystem.i_from_v', sdmv, opt(method=('lambertw', 'newton')), ALL, nan='local', tag='nan', rtol=1e-6, atol=1e-7, const_ok=False),
    E('pvsystem.v_from_i', sdmi, opt(method=('lambertw', 'brentq', 'newton')), ALL, nan=None, rtol=1e-6, atol=1e-7, const_ok=False),
    E('pvsystem.v_from_i', sdmi, opt(method=('lambertw', 'newton')), ALL, nan='local', tag='nan', rtol=1e-6, atol=1e-7, const_ok=False),
    E('singlediode.bishop88', vdep, opt(gradients=(True, False), breakdown_factor=(0., 2e-3), d2mutau=(0, .1), NsVbi=60.), ALL, nan='local'),  # the current at a diode voltage does not involve the series resistance
    E('singlediode.bishop88_i_from_v', sdmv, opt(method=('brentq', 'newton')), ALL, nan=None, rtol=1e-6, atol=1e-7, const_ok=False),
    E('singlediode.bishop88_i_from_v', sdmv, opt(method=('newton',)), ALL, nan='local', tag='nan', rtol=1e-6, atol=1e-7, const_ok=False),
    E('singlediode.bishop88_v_from_i', sdmi, opt(method=('brentq', 'newton')), ALL, nan=None, rtol=1e-6, atol=1e-6, const_ok=False),
    E('singlediode.bishop88_v_from_i', sdmi, opt(method=('newton',)), ALL, nan='local', tag='nan', rtol=1e-6, atol=1e-6, const_ok=False),
    E('singlediode.bishop88_mpp', sdm, opt(method=('brentq', 'newton')), ALL, nan=None, rtol=2e-4, atol=1e-4),
    E('singlediode.bishop88_mpp', sdm, opt(method=('newton',)), ALL, nan='local', tag='nan', rtol=2e-4, atol=1e-4),
    E('spectrum.spectral_factor_firstsolar', U(precipitable_water=(.01, 9, (.1, 8.)), airmass_absolute=(.3, 12, (.58, 10.))), opt(module_type=('cdte', 'multisi', 'cigs', 'asi', 'xsi')), ALL),
    E('spectrum.spectral_factor_caballero', U(precipitable_water=(.1, 6), airmass_absolute=(1, 10), aod500=(0, .5)), opt(module_type=('cdte', 'asi', 'perovskite', 'monosi')), ALL),
    E('spectrum.spectral_factor_pvspec', U(airmass_absolute=(.5, 12), clearsky_index=(.05, 1.2)), opt(module_type=('multisi', 'asi', 'cigs')), ALL),
    E('spectrum.spectral_factor_jrc', U(airmass=(.5, 12), clearsky_index=(.05, 1.2)), opt(module_type=('cdte', 'multisi')), ALL),
    E('spectrum.spectral_factor_sapm', U(airmass_absolute=(.5, 12)), lambda r: dict(module=W.module(r)), ALL, nan='local'),
    E('spectrum.spectral_factor_polo', U(precipitable_water=(.1, 6), airmass_absolute=(1, 10), aod500=(.01, .5), aoi=(0, 85), pressure=(7e4, 1.03e5)), opt(module_type=('cdte', 'monosi')), ALL),
    E('solarposition.solar_zenith_analytical', U(latitude=(-1.5, 1.5), hourangle=(-3.1, 3.1), declination=(-.4, .4)), None, ALL),
    E('solarposition.solar_azimuth_analytical', U(latitude=(-1.4, 1.4), hourangle=(-3.1, 3.1), declination=(-.4, .4), zenith=(.1, 1.5)), None, ALL, nan='local'),
    E('solarposition.equation_of_time_spencer71', U(dayofyear=(1, 366)), None, ALL),
    E('solarposition.equation_of_time_pvcdrom', U(dayofyear=(1, 366)), None, ALL),
    E('solarposition.declination_spencer71', U(dayofyear=(1, 366)), None, ALL),
    E('solarposition.declination_cooper69', U(dayofyear=(1, 366)), None, ALL),
    E('snow.dc_loss_nrel', U(snow_coverage=(0, 1, (0., 1., .5))), opt(num_strings=(1, 2, 4)), ALL),
    E('tools.cosd', U(angle=(-400, 400)), None, ALL), E('tools.sind', U(angle=(-400, 400)), None, ALL), E('tools.tand', U(angle=(-80, 80)), None, ALL),
    E('tools.acosd', U(number=(-1, 1, (1., -1.))), None, ALL), E('tools.asind', U(number=(-1, 1, (1., -1.))), None, ALL), E('tools.atand', U(number=(-9, 9)), None, ALL),
    E('inverter.pvwatts', U(pdc=(0, 1300, (0.,)), pdc0=(500, 1000)), opt(eta_inv_nom=(.96, .9)), ALL),
    E('inverter.sandia', U(v_dc=(25, 58), p_dc=(0, 340, (0., 312.))), lambda r: dict(inverter=dict(W.INV)), ALL, nan='local'),
    E('pvsystem.sapm', U(effective_irradiance=(1, 1300), temp_cell=(-10, 80)), lambda r: dict(module=W.module(r)), ALL, nan='local'),
    E('pvsystem.sapm_effective_irradiance', U(poa_direct=(0, 1000), poa_diffuse=(0, 400), airmass_absolute=(1, 9), aoi=(0, 95)), lambda r: dict(module=W.module(r)), ALL, nan='local'),
]
EXTRA = [e for e in EXTRA if e is not None]


class Drv(Driver):
    """zero-dimensional arrays and lists of one element, besides the engine's forms"""


def extra(m):
    d = Driver(m)
    for e in EXTRA:
        before = sum(m.events.values())
        d.drive(e, n=24, rounds=m.n(3, 40) * e.weight, ref=False)
        m.ev('elementwise', sum(m.events.values()) - before)


def everything(m):
    d = Driver(m)
    for lab, e in W.entries().items():
        before = sum(m.events.values())
        d.drive(e, n=16, rounds=m.n(1, 12), ref=False)
        m.ev('elementwise', sum(m.events.values()) - before)
        m.ev('index', m.events.get(f'{lab}.index', 0))


def zero_d(m):
    """numpy scalars and 0-d arrays are numbers too"""
    for lab, e in list(W.entries().items()) + [(e.label, e) for e in EXTRA]:
        if 'scalar' not in e.forms or 'array' not in e.forms:
            continue
        for rd in range(m.n(1, 6)):
            rng = m.sub('zero', lab, rd)
            a, o = e.gen(rng, 3), e.opts(rng)
            i = int(rng.integers(0, 3))
            ok, r = m.call(f'{lab}.scalar', e.fn, ctx=(lab, o), **{k: float(v[i]) for k, v in a.items()}, **o)
            ok2, r2 = m.call(f'{lab}.npscalar', e.fn, ctx=(lab, o), **{k: np.float64(v[i]) for k, v in a.items()}, **o)
            if ok and ok2:
                from mon.engine import flat
                f1, f2 = flat(e.out(r) if e.out else r), flat(e.out(r2) if e.out else r2)
                for k in f1:
                    m.close('zero_d', np.ravel(f2[k]), np.ravel(f1[k]), max(1e-9, e.rtol * .01), max(1e-10, e.atol * .01), ctx=dict(fn=lab, opts=o, args={k: float(v[i]) for k, v in a.items()}, out=k))


# ---------------------------------------------------------------- functions of time
def close_frames(m, name, got, want, ctx, rtol=1e-9, atol=1e-9):
    if isinstance(want, pd.Series):
        got, want = pd.DataFrame({'x': got}), pd.DataFrame({'x': want})
    if not m.check(name, list(got.columns) == list(want.columns), dict(ctx, got=list(got.columns)), 'columns differ'):
        return
    for c in want.columns:
        if want[c].dtype.kind == 'M' or isinstance(want[c].dtype, pd.DatetimeTZDtype):
            d = (got[c].reset_index(drop=True) - want[c].reset_index(drop=True)).abs().dt.total_seconds().to_numpy()
            n1, n2 = got[c].isna().to_numpy(), want[c].isna().to_numpy()
            m.check(name, np.array_equal(n1, n2) and not (d[~n1] > 2e-3).any(), dict(ctx, col=c), 'times differ')
        else:
            m.close(name, got[c].to_numpy(float), want[c].to_numpy(float), rtol, atol, dict(ctx, col=c))


def times(m):
    S = solarposition
    for rd in range(m.n(10, 120)):
        rng = m.sub('times', rd)
        n = 12
        lat, lon = float(rng.uniform(-65, 65)), float(rng.uniform(-179, 179))
        t0 = pd.Timestamp('1990-01-01', tz='UTC') + pd.Timedelta(seconds=int(rng.integers(0, 1.2e9)))
        t = pd.DatetimeIndex(t0 + pd.to_timedelta(np.cumsum(rng.integers(100, 80000, n)), unit='s')).tz_convert(str(rng.choice(['UTC', 'US/Arizona', 'Asia/Kolkata', 'Europe/Berlin'])))
        loc = pvlib.location.Location(lat, lon, 'UTC', 500)
        days = pd.date_range(t[0].normalize().tz_localize(None), periods=6, freq='D', tz='UTC')
        fs = {
            'nrel_numpy': (lambda x: S.get_solarposition(x, lat, lon), t), 'ephemeris': (lambda x: S.get_solarposition(x, lat, lon, method='ephemeris'), t),
            'pyephem': (lambda x: S.get_solarposition(x, lat, lon, method='pyephem'), t),
            'get_extra_radiation': (lambda x: irradiance.get_extra_radiation(x, method=str(['spencer', 'asce', 'nrel', 'pyephem'][rd % 4])), t),
            'earthsun': (lambda x: pd.Series(np.asarray(S.nrel_earthsun_distance(x)), x), t),
            'loc.solarposition': (lambda x: loc.get_solarposition(x), t), 'loc.airmass': (lambda x: loc.get_airmass(x), t),
            'loc.clearsky': (lambda x: loc.get_clearsky(x, linke_turbidity=3), t),
            'loc.clearsky haurwitz': (lambda x: loc.get_clearsky(x, model='haurwitz'), t), 'loc.clearsky solis': (lambda x: loc.get_clearsky(x, model='simplified_solis'), t),
            'spa days': (lambda x: S.sun_rise_set_transit_spa(x, lat, lon), days), 'ephem days': (lambda x: S.sun_rise_set_transit_ephem(x, lat, lon), days),
            'geometric days': (lambda x: pd.DataFrame(dict(zip('rst', S.sun_rise_set_transit_geometric(x, lat, lon, S.declination_spencer71(x.dayofyear), S.equation_of_time_spencer71(x.dayofyear)))), index=x), days),
            'hour angle': (lambda x: pd.Series(np.asarray(S.hour_angle(x, lon, np.asarray(S.equation_of_time_spencer71(x.dayofyear)))), x), t),
        }
        for k, (f, x) in fs.items():
            if k == 'ephem days' and abs(lat) > 60:
                continue
            cx = dict(fn=k, lat=lat, lon=lon, first=str(x[0]))
            m.case((k, lat, str(x[0])), cx)
            ok, base = m.call('times', f, x, ctx=cx)
            if not ok:
                continue
            if not hasattr(base, 'iloc'):
                g, f = f, lambda x, g=f: pd.Series(np.asarray(g(x), float), x)
                base = f(x)
            m.check('times', base.index.equals(x), cx, 'index of the result')
            for nm, sel in (('one', [int(rng.integers(0, len(x)))]), ('head', list(range(len(x) // 2))), ('tail', list(range(len(x) // 2, len(x)))), ('reversed', list(range(len(x)))[::-1]), ('repeated', [0, 0, 2, 1, 1])):
                ok, r = m.call('times', f, x[sel], ctx=dict(cx, part=nm))
                if ok:
                    close_frames(m, 'times', r, base.iloc[sel], dict(cx, part=nm), 1e-9, 5e-6 if k == 'ephemeris' else 2e-8)  # its Kepler iteration stops for the whole batch at 1e-4 degrees
            if x is t:
                for z in ('UTC', 'Australia/Adelaide'):
                    ok, r = m.call('times', f, x.tz_convert(z), ctx=dict(cx, zone=z))
                    if ok and k != 'hour angle':
                        a = {'loc.clearsky': 1e-2, 'loc.clearsky haurwitz': 1e-9, 'loc.clearsky solis': 1e-2}.get(k, 2e-8)
                        if 'clearsky' in k:
                            continue  # extra radiation follows the local day of year
                        close_frames(m, 'times', r, base, dict(cx, zone=z), 1e-9, a)
                        m.check('times', r.index.equals(x.tz_convert(z)), dict(cx, zone=z), 'index')


def longer(m):
    S = solarposition
    for rd in range(m.n(2, 20)):
        rng = m.sub('longer', rd)
        lat, lon, z = float(rng.uniform(-65, 65)), float(rng.uniform(-179, 179)), str(rng.choice(['UTC', 'US/Arizona', 'Asia/Kolkata', 'Europe/Berlin']))
        loc = pvlib.location.Location(lat, lon, 'UTC', 500)
        for k, f, n in (('nrel_numpy', lambda x: S.get_solarposition(x, lat, lon), 2049), ('ephemeris', lambda x: S.get_solarposition(x, lat, lon, method='ephemeris'), 10007),
                        ('pyephem', lambda x: S.get_solarposition(x, lat, lon, method='pyephem'), 1025), ('spencer', lambda x: irradiance.get_extra_radiation(x), 20011),
                        ('asce', lambda x: irradiance.get_extra_radiation(x, method='asce'), 20011), ('nrel', lambda x: irradiance.get_extra_radiation(x, method='nrel'), 10007),
                        ('pyephem extra', lambda x: irradiance.get_extra_radiation(x, method='pyephem'), 1025),
                        ('loc.airmass', lambda x: loc.get_airmass(x), 2049), ('loc.clearsky', lambda x: loc.get_clearsky(x, linke_turbidity=3), 2049),
                        ('haurwitz', lambda x: loc.get_clearsky(x, model='haurwitz'), 2049), ('solis', lambda x: loc.get_clearsky(x, model='simplified_solis'), 2049),
                        ('hour angle', lambda x: pd.Series(np.asarray(S.hour_angle(x, lon, np.asarray(S.equation_of_time_spencer71(x.dayofyear)))), x), 10007)):
            longrun.judge(m, 'times', f, longrun.instants(rng, n, tz=z), rng, dict(fn=k, lat=lat, lon=lon), atol=5e-6 if k == 'ephemeris' else 1e-2 if 'clearsky' in k or k == 'solis' else 2e-8)
        longrun.judge(m, 'times', lambda x: S.sun_rise_set_transit_spa(x, lat, lon), longrun.days(rng, 1025), rng, dict(fn='spa days', lat=lat, lon=lon))
    for rd in range(m.n(4, 60)):
        rng = m.sub('longer chain', rd)
        s, p = C.spec(rng, temp=str(rng.choice(['sapm', 'pvsyst', 'faiman', 'noct_sam']))), C.site(rng)
        w = C.weather(rng, p, int(rng.choice([600, 1100, 2100])))
        w['precipitable_water'] = 1.3
        w = w.tz_localize(None).tz_localize('UTC') if w.index.tz is None else w

        def go(t):
            mc = C.build_chain(s, p)
            mc.run_model(w.loc[t])
            r = mc.results
            per = lambda v: list(v) if isinstance(v, tuple) else [v]  # noqa: E731
            out = pd.DataFrame({'ac': r.ac})
            for f in ('effective_irradiance', 'cell_temperature', 'aoi', 'aoi_modifier', 'spectral_modifier'):
                for i, v in enumerate(per(getattr(r, f))):
                    out[f'{f}{i}'] = v
            for i, v in enumerate(per(r.dc)):
                out[f'dc{i}'] = v if isinstance(v, pd.Series) else v['p_mp']
            return out
        longrun.judge(m, 'objects', go, w.index, rng, dict(dc=s['dc'], aoi=s['aoi'], spectral=s['spectral'], ac=s['ac'], temp=s['temp'], n=s['n']), rtol=1e-8, atol=1e-7)


# ------------------------------------------------------- tables and objects
def frames(m):
    """DataFrame-returning models, row by row; disc/dirint-like decompositions of single rows"""
    for rd in range(m.n(8, 100)):
        rng = m.sub('frames', rd)
        n = 14
        t = pd.date_range('2021-06-01 06:00', periods=n, freq='1h', tz='UTC')
        z = pd.Series(gen.mix(rng, n, 0, 100, [60., 87., 90.]), t)
        az = pd.Series(rng.uniform(0, 360, n), t)
        ghi = pd.Series(gen.mix(rng, n, 0, 1100, [0.]), t)
        dhi = ghi * rng.uniform(.1, 1, n)
        dni = pd.Series(gen.mix(rng, n, 0, 950, [0.]), t)
        model = str(rng.choice(C.TRANSPOSITION))
        tilt, sa = pd.Series(rng.uniform(0, 90, n), t), pd.Series(rng.uniform(0, 360, n), t)
        am = pd.Series(rng.uniform(1, 9, n), t)
        ex = pd.Series(rng.uniform(1320, 1410, n), t)
        fs = {
            'get_total_irradiance': lambda i: irradiance.get_total_irradiance(tilt.iloc[i], sa.iloc[i], z.iloc[i], az.iloc[i], dni.iloc[i], ghi.iloc[i], dhi.iloc[i], dni_extra=ex.iloc[i], airmass=am.iloc[i], model=model),
            'poa_components': lambda i: irradiance.poa_components(z.iloc[i], dni.iloc[i], dhi.iloc[i], ghi.iloc[i]),
            'disc': lambda i: irradiance.disc(ghi.iloc[i], z.iloc[i], t[i]), 'erbs': lambda i: irradiance.erbs(ghi.iloc[i], z.iloc[i], t[i]), 'erbs_driesse': lambda i: irradiance.erbs_driesse(ghi.iloc[i], z.iloc[i], t[i]),
            'boland': lambda i: irradiance.boland(ghi.iloc[i], z.iloc[i], t[i]), 'orgill_hollands': lambda i: irradiance.orgill_hollands(ghi.iloc[i], z.iloc[i], t[i]), 'louche': lambda i: irradiance.louche(ghi.iloc[i], z.iloc[i], t[i]),
            'dirint': lambda i: irradiance.dirint(ghi.iloc[i], z.iloc[i], t[i], use_delta_kt_prime=False),
            'complete_irradiance': lambda i: irradiance.complete_irradiance(z.iloc[i], ghi=ghi.iloc[i], dhi=dhi.iloc[i]),
            'singleaxis': lambda i: tracking.singleaxis(z.iloc[i], az.iloc[i], axis_tilt=5., axis_azimuth=170., max_angle=60, gcr=.4),
            'ineichen': lambda i: clearsky.ineichen(z.iloc[i], am.iloc[i], pd.Series(3., t).iloc[i], 100., ex.iloc[i]),
            'campbell_norman': lambda i: irradiance.campbell_norman(z.iloc[i], pd.Series(.6, t).iloc[i]),
            'spectrl2': lambda i: pd.DataFrame(spectrum.spectrl2(z.iloc[i].clip(upper=89), z.iloc[i].clip(upper=89), pd.Series(30., t).iloc[i], .2, 1e5, am.iloc[i], am.iloc[i] * .3, .3, am.iloc[i] * .03)['poa_global'].T[:, ::10], index=t[i]),
        }
        for k, f in fs.items():
            cx = dict(fn=k, model=model, round=rd)
            m.case((k, rd, float(z.iloc[0])), cx)
            ok, base = m.call('frame', f, list(range(n)), ctx=cx)
            if not ok:
                continue
            base = pd.DataFrame(base) if not isinstance(base, (pd.Series, pd.DataFrame)) else base
            m.check('index', base.index.equals(t), cx, 'index of the result')
            for nm, sel in (('one', [int(rng.integers(0, n))]), ('tail', list(range(5, n))), ('reversed', list(range(n))[::-1]), ('repeated', [3, 3, 1])):
                ok, r = m.call('frame', f, sel, ctx=dict(cx, part=nm, sel=sel[:3]))
                if ok:
                    r = pd.DataFrame(r) if not isinstance(r, (pd.Series, pd.DataFrame)) else r
                    close_frames(m, 'frame', r, base.iloc[sel], dict(cx, part=nm), 1e-9, 1e-8)


def objects(m):
    """system, array and chain methods treat each time stamp on its own"""
    for rd in range(m.n(10, 150)):
        rng = m.sub('objects', rd)
        s, p = C.spec(rng, temp=str(rng.choice(['sapm', 'pvsyst', 'faiman', 'noct_sam']))), C.site(rng)
        if s['chain'].get('transposition_model') is None:
            pass
        w = C.weather(rng, p, 16)
        cx = dict(dc=s['dc'], aoi=s['aoi'], spectral=s['spectral'], ac=s['ac'], temp=s['temp'], n=s['n'])
        m.case(('chain', rd, str(cx)), cx)

        def go(x):
            # a fixed pressure, temperature and turbidity: nothing depends on the batch
            mc = C.build_chain(s, p)
            mc.run_model(x)
            r = mc.results
            per = lambda v: list(v) if isinstance(v, tuple) else [v]  # noqa: E731
            out = pd.DataFrame({'ac': r.ac})
            for f in ('effective_irradiance', 'cell_temperature', 'aoi', 'aoi_modifier'):
                for i, v in enumerate(per(getattr(r, f))):
                    out[f'{f}{i}'] = v
            for i, v in enumerate(per(r.dc)):
                out[f'dc{i}'] = v if isinstance(v, pd.Series) else v['p_mp']
            return out
        try:
            base = go(w)
        except KeyError:
            continue   # weather without a column the spectral model needs
        # solar position depends on the mean temperature of the batch only through refraction when given per batch
        for nm, sel in (('one', [len(w) // 2]), ('head', list(range(len(w) * 2 // 3))), ('even', list(range(0, len(w), 2)))):
            ok, r = m.call('objects', go, w.iloc[sel], ctx=dict(cx, part=nm))
            if ok:
                m.check('objects', r.index.equals(w.index[sel]), dict(cx, part=nm), 'index')
                for c in base:
                    m.close('objects', r[c].to_numpy(float), base[c].iloc[sel].to_numpy(float), 1e-8, 1e-7, dict(cx, part=nm, col=c))
        # a missing irradiance record affects its own time stamp only
        w2 = w.copy()
        col = str(rng.choice(['dhi', 'ghi', 'dni', 'temp_air', 'wind_speed']))
        if col in w2:
            j = int(rng.integers(0, len(w)))
            w2.iloc[j, w2.columns.get_loc(col)] = np.nan
            ok, r = m.call('objects', go, w2, ctx=dict(cx, missing=col, at=j))
            if ok:
                oth = [i for i in range(len(w)) if i != j]
                for c in base:
                    m.close('objects', r[c].to_numpy(float)[oth], base[c].to_numpy(float)[oth], 1e-8, 1e-7, dict(cx, missing=col, at=j, col=c))


def one_series(m):
    """a single Series among numbers decides the index of a diode table"""
    for rd in range(m.n(4, 40)):
        rng = m.sub('one series', rd)
        n = 6
        p = {k: float(v[0]) for k, v in sdm(rng, 1).items()}
        idx = gen.index_kinds(rng, n)
        for k in p:
            for meth in ('lambertw', 'brentq', 'newton'):
                q = dict(p, **{k: pd.Series(p[k] * rng.uniform(.9, 1.1, n), idx)})
                ok, r = m.call('one_series', pvlib.pvsystem.singlediode, ctx=dict(series=k, method=meth), method=meth, **q)
                if not ok:
                    continue
                m.check('one_series', isinstance(r, pd.DataFrame) and r.index.equals(idx), dict(series=k, method=meth), 'index of the only Series')
                ok, w = m.call('one_series', pvlib.pvsystem.singlediode, method=meth, **{a: np.broadcast_to(np.asarray(b, float), n).copy() for a, b in q.items()})
                for c in ('i_sc', 'v_oc', 'p_mp'):
                    m.close('one_series', r[c], w[c], 1e-7, 1e-8, dict(series=k, method=meth, col=c))


PROBE = '''
import sys, numpy as np, pandas as pd
from pvlib import solarposition as S
t = pd.date_range('2021-06-01 14:00', periods=3, freq='1h', tz='UTC')
S.get_solarposition(t, 32, -110, 700., method=sys.argv[1], **{sys.argv[2]: pd.Series([12., np.nan, 13.], t)})
print('returned')
'''


def conditions(m):
    """a missing temperature or pressure record concerns its own apparent position only, and the call returns"""
    S = solarposition
    for method in ('nrel_numpy', 'ephemeris', 'pyephem'):
        for what in ('temperature', 'pressure'):
            try:
                p = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROBE, method, what], capture_output=True, text=True, timeout=90)
                good = m.check('conditions', 'returned' in p.stdout, dict(method=method, missing=what, err=p.stderr[-300:]), 'raised for a missing record')
            except subprocess.TimeoutExpired:
                good = m.check('conditions', False, dict(method=method, missing=what), 'did not return within 90 s for a missing record')
            if not good:
                continue
            for rd in range(m.n(3, 30)):
                rng = m.sub('cond', method, what, rd)
                t = pd.date_range(f'{rng.integers(1990, 2030)}-0{rng.integers(1, 9)}-15 06:00', periods=10, freq='71min', tz='UTC')
                lat, lon = float(rng.uniform(-60, 60)), float(rng.uniform(-20, 20))
                c = dict(temperature=pd.Series(rng.uniform(-20, 40, 10), t), pressure=pd.Series(rng.uniform(6e4, 1.03e5, 10), t))
                base = S.get_solarposition(t, lat, lon, 300., method=method, **c)
                j = int(rng.integers(0, 10))
                c[what] = c[what].copy()
                c[what].iloc[j] = np.nan
                ok, r = m.call('conditions', S.get_solarposition, t, lat, lon, 300., method=method, ctx=(method, what, j), **c)
                if not ok:
                    continue
                oth = [i for i in range(10) if i != j]
                cx = dict(method=method, missing=what, at=j, lat=lat, lon=lon, t=str(t[0]))
                for col in base:
                    m.close('conditions', r[col].to_numpy(float)[oth], base[col].to_numpy(float)[oth], 1e-9, 2e-8 if method != 'ephemeris' else 5e-6, dict(cx, col=col))
                for col in ('zenith', 'azimuth', 'elevation'):
                    m.close('conditions', float(r[col].iloc[j]), float(base[col].iloc[j]), 1e-9, 2e-8 if method != 'ephemeris' else 5e-6, dict(cx, col=col, own=True))
                for i in (0, 5, 9):   # one record at a time
                    one = S.get_solarposition(t[[i]], lat, lon, 300., method=method, **{k: v.iloc[[i]] for k, v in c.items()})
                    for col in base:
                        m.close('conditions', float(one[col].iloc[0]), float(r[col].iloc[i]), 1e-9, 2e-8 if method != 'ephemeris' else 5e-6, dict(cx, col=col, one=i))


def full(m):
    extra(m)
    conditions(m)
    everything(m)
    one_series(m)
    zero_d(m)
    times(m)
    longer(m)
    frames(m)
    objects(m)


if __name__ == '__main__':
    main(mon, full)
