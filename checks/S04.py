"""S04: analytical sun geometry and extraterrestrial irradiance."""
import datetime as dtm
import math

import numpy as np
import pandas as pd

import pvlib
from mon import gen, sun
from mon.core import Mon, main
from mon.engine import Entry, catalogue

mon = Mon('S04', 'distinct (function, day/instant batch, input kind, method, constants) cases compared with independent formulas',
          ['Spencer, Cooper, PVCDROM and ASCE formulas transcribed from their published form; SPA distance from mon/sun.py; '
           'libastro distance from ephem itself'],
          required=['extra', 'azimuth_vector', 'zenith_vector', 'hour_angle'])
S = pvlib.solarposition


def ang(d, off=1):
    return 2 * math.pi * (d - off) / 365


def eot_s(dayofyear):
    b = ang(dayofyear)
    return 229.1831180523293 * (7.5e-6 + .001868 * math.cos(b) - .032077 * math.sin(b) - .014615 * math.cos(2 * b) - .040849 * math.sin(2 * b))


def eot_p(dayofyear):
    b = 2 * math.pi / 365 * (dayofyear - 81)
    return 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)


def dec_s(dayofyear):
    b = ang(dayofyear)
    return (.006918 - .399912 * math.cos(b) + .070257 * math.sin(b) - .006758 * math.cos(2 * b) + .000907 * math.sin(2 * b)
            - .002697 * math.cos(3 * b) + .00148 * math.sin(3 * b))


def dec_c(dayofyear):
    return math.radians(23.45 * math.sin(2 * math.pi / 365 * (284 + dayofyear)))


def g_doy(rng, n):
    return dict(dayofyear=gen.mix(rng, n, 1, 367, [1, 31, 59, 60, 61, 81, 172, 355, 365, 366], .5))


def zen(latitude, hourangle, declination):
    a = (math.cos(declination) * math.sin(-hourangle), math.sin(declination) * math.cos(latitude) - math.cos(declination) * math.cos(hourangle) * math.sin(latitude),
         math.sin(declination) * math.sin(latitude) + math.cos(declination) * math.cos(hourangle) * math.cos(latitude))
    return math.atan2(math.hypot(a[0], a[1]), a[2]), math.atan2(a[0], a[1]) % (2 * math.pi), a


def g_geo(rng, n):
    lat = np.radians(gen.mix(rng, n, -90, 90, [0, 23.45, -23.45, 66.55, -66.55, 90, -90, 30, -30]))
    ha = np.radians(gen.mix(rng, n, -180, 180, [0, 180, -180, 90, -90, 1e-6, -1e-6, 15]))
    dec = np.radians(gen.mix(rng, n, -23.45, 23.45, [0, 23.45, -23.45]))
    k = rng.random(n) < .1
    dec = np.where(k & (np.abs(lat) < .409), lat, dec)
    ha = np.where(k & (rng.random(n) < .6), 0, ha)
    return dict(latitude=lat, hourangle=ha, declination=dec)


ENT = [
    Entry('solarposition.equation_of_time_spencer71', g_doy, eot_s, int_ok=True, two_d=True, weight=2),
    Entry('solarposition.equation_of_time_pvcdrom', g_doy, eot_p, int_ok=True, two_d=True, weight=2),
    Entry('solarposition.declination_spencer71', g_doy, dec_s, int_ok=True, two_d=True, weight=2),
    Entry('solarposition.declination_cooper69', g_doy, dec_c, int_ok=True, two_d=True, weight=2),
    Entry('solarposition.solar_zenith_analytical', g_geo, lambda **k: zen(**k)[0], rtol=1e-7, atol=3e-8, two_d=True, weight=3),
]


def kinds(rng, t):
    """(input, number of results, kind) forms of UTC instants t (DatetimeIndex)"""
    yield t, 'index'
    yield t.tz_localize(None), 'index'
    z = str(rng.choice(gen.ZONES))
    yield t.tz_convert(z), 'index'
    x = t[0]
    yield x, 'scalar'
    yield x.tz_convert(z), 'scalar'
    yield x.tz_localize(None), 'scalar'
    yield x.to_pydatetime(warn=False).replace(microsecond=x.microsecond), 'scalar'
    yield x.tz_convert(z).to_pydatetime(warn=False), 'scalar'
    yield x.tz_localize(None).to_datetime64(), 'scalar'
    yield x.tz_localize(None).to_datetime64().astype('M8[s]'), 'scalar'


def utc_of(x):
    if isinstance(x, pd.DatetimeIndex):
        return x.tz_localize('UTC') if x.tz is None else x.tz_convert('UTC')
    t = pd.Timestamp(x)
    return pd.DatetimeIndex([t.tz_localize('UTC') if t.tz is None else t.tz_convert('UTC')])


def unix(t):
    return t.as_unit('ns').asi8 / 1e9


def extra_ref(method, t, doy, const, dT):
    if method == 'asce':
        return const * (1 + .033 * np.cos(2 * np.pi * doy / 365))
    if method == 'spencer':
        b = 2 * np.pi * (doy - 1) / 365
        return const * (1.00011 + .034221 * np.cos(b) + .00128 * np.sin(b) + .000719 * np.cos(2 * b) + 7.7e-5 * np.sin(2 * b))
    if method == 'nrel':
        return const / sun.distance(unix(t), dT) ** 2
    import ephem
    out = []
    for x in t:
        s = ephem.Sun()
        s.compute(ephem.Date(x.tz_localize(None).to_pydatetime(warn=False)))
        out.append(const / s.earth_distance ** 2)
    return np.array(out)


def work(m):
    catalogue(m, ENT, n=40, quick=2, thorough=30)
    # azimuth: direction of the sun vector
    for rd in range(m.n(20, 300)):
        rng = m.sub('azi', rd)
        a = g_geo(rng, 60)
        ok, z = m.call('zenith', S.solar_zenith_analytical, ctx=a, **a)
        W = [zen(**{k: v[i] for k, v in a.items()}) for i in range(60)]
        form = int(rng.integers(0, 3))
        zz = np.array([w[0] for w in W])
        m.close('zenith_vector', z, zz, 0, 3e-8, a)
        kw = dict(a, zenith=z)
        m.case(('azi', rd, [round(float(v[0]), 9) for v in a.values()]))
        if form == 1:
            idx = pd.date_range('2020-01-01', periods=60, freq='1h')
            kw = {k: pd.Series(v, index=idx) for k, v in kw.items()}
        elif form == 2:
            kw = {k: np.reshape(v, (6, 10)) for k, v in kw.items()}
        ok, az = m.call('azimuth', S.solar_azimuth_analytical, ctx=kw, **kw)
        if not ok:
            continue
        az = np.asarray(az, float).ravel()
        m.check('azimuth_finite', np.isfinite(az).all() and (az >= -1e-12).all() and (az <= 2 * np.pi + 1e-12).all(),
                {k: v[np.flatnonzero(~np.isfinite(az))[:1]] for k, v in a.items()})
        for i, (w0, w1, v) in enumerate(W):
            h = math.hypot(v[0], v[1])
            if h < 1e-3 or abs(math.cos(a['latitude'][i])) < 1e-6:
                continue        # at the zenith and the poles the direction is conventional
            d = (az[i] - w1 + np.pi) % (2 * np.pi) - np.pi
            m.close('azimuth_vector', d, 0, 0, 1.6e-4, {k: x[i] for k, x in a.items()})
            # west after noon, east before
            if abs(v[0]) > 1e-3:
                m.check('azimuth_side', (az[i] > np.pi) == (a['hourangle'][i] > 0), {k: x[i] for k, x in a.items()})
            m.ev('azimuth_vector')
            if i < 4:
                ok, one = m.call('azimuth_scalar', S.solar_azimuth_analytical, *[float(a[k][i]) for k in a], float(z[i]))
                if ok:
                    m.close('azimuth_scalar', one, az[i], 0, 1e-9)
    a = S.solar_azimuth_analytical(np.array([.5, np.nan, .5, .5]), np.array([.1, .1, np.nan, .1]), np.array([.1, .1, .1, np.nan]),
                                   np.array([.4, .4, .4, .4]))
    m.check('azimuth_nan', np.isnan(a).tolist() == [False, True, True, True], dict(a=a))
    # hour angle: mean solar time at the longitude plus the equation of time
    for rd in range(m.n(60, 900)):
        rng = m.sub('ha', rd)
        z = str(rng.choice([x for x in gen.ZONES if x != 'America/Sao_Paulo']))
        n = 12
        t = gen.instants(rng, n, 1971, 2037).tz_convert(z)
        lon = float(rng.uniform(-180, 180)) if rng.random() < .5 else gen.mix(rng, n, -180, 180, [0, 180, -180])
        eot = float(rng.uniform(-15, 16)) if rng.random() < .5 else rng.uniform(-15, 16, n)
        if rng.random() < .3 and np.ndim(eot):
            eot = pd.Index(eot)
        ctx = dict(tz=z, t=list(t[:3]), lon=lon, eot=eot)
        m.case(('ha', rd, z, t[0]), ctx)
        ok, h = m.call('hour_angle', S.hour_angle, t, lon, eot, ctx=ctx)
        if ok:
            u = unix(t.tz_convert('UTC')) % 86400 / 240.
            d = (np.asarray(h, float) - (u - 180 + np.asarray(lon) + np.asarray(eot) / 4) + 180) % 360 - 180
            m.close('hour_angle', d, np.zeros(n), 0, 2e-6, ctx)
            # continuous through the local day, with the local date's solar noon within half a day of clock noon
            clock = 15 * ((t.hour + t.minute / 60).to_numpy() - 12)
            m.check('hour_angle_date', (np.abs(np.asarray(h) - clock) <= 180 + 22).all(), ctx)
    m.raises('naive', ValueError, S.hour_angle, pd.date_range('2020-01-01', periods=3), 0, 0)
    # distances and extraterrestrial irradiance
    for rd in range(m.n(25, 400)):
        rng = m.sub('extra', rd)
        n = 5
        tu = gen.instants(rng, n)
        tu = pd.DatetimeIndex(tu.as_unit('us').as_unit('ns'))
        for x, kind in kinds(rng, tu):
            t = utc_of(x)
            for method in ('asce', 'spencer', 'pyephem', 'nrel'):
                const = 1366.1
                kw = {}
                if rng.random() < .5:
                    const = float(rng.choice([1361., 1367.7, 1., 1353.]))
                    kw['solar_constant'] = const
                if method != 'spencer' or rng.random() < .7:
                    kw['method'] = method if rng.random() < .8 else method.upper()
                if rng.random() < .3:
                    kw['epoch_year'] = int(rng.integers(1990, 2030))   # no effect on time inputs
                dT = 67.
                if method == 'nrel' and rng.random() < .4:
                    if rng.random() < .5:
                        kw['delta_t'] = dT = float(rng.uniform(0, 120))
                    else:
                        kw['delta_t'] = None
                        dT = np.array([sun.delta_t(y.year, y.month) for y in t])
                ctx = dict(input=repr(x)[:150], kw=kw)
                m.case(('extra', type(x).__name__, method, repr(kw), str(t[0])), ctx)
                ok, r = m.call('extra', pvlib.irradiance.get_extra_radiation, x, ctx=ctx, **kw)
                if not ok:
                    continue
                w = extra_ref(method, t, t.dayofyear.to_numpy(), const, dT)
                m.close('extra', r, w if kind == 'index' else w[0], 1e-8, 0, ctx)
                if kind == 'index':
                    m.check('extra_type', isinstance(r, pd.Series) and r.index.equals(x) and r.index.tz == x.tz, ctx)
                else:
                    m.check('extra_type', np.isscalar(r), ctx)
                if method == 'nrel' and kind == 'index':
                    kk = {k: v for k, v in kw.items() if k == 'delta_t'}
                    ok, d = m.call('nrel_distance', S.nrel_earthsun_distance, x, ctx=ctx, **kk)
                    m.close('nrel_distance', d, sun.distance(unix(t), dT), 1e-9, 0, ctx)
                    m.check('extra_type', isinstance(d, pd.Series) and d.index.equals(x), ctx)
                    m.close('inverse_square', np.asarray(r) * np.asarray(d) ** 2, const, 1e-10, 0, ctx)
                if method == 'nrel' and kind == 'scalar':
                    ok, d = m.call('nrel_distance', S.nrel_earthsun_distance, x, ctx=ctx)
                    m.close('nrel_distance', d, sun.distance(unix(t)), 1e-9, 0, ctx)
                if method == 'pyephem' and kind == 'index':
                    ok, d = m.call('ephem_distance', S.pyephem_earthsun_distance, x, ctx=ctx)
                    m.close('ephem_distance', d, sun.distance(unix(t)), 0, 3e-5, ctx)
                    import ephem
                    e = []
                    for q in t:
                        body = ephem.Sun()
                        body.compute(ephem.Date(q.tz_convert('UTC').tz_localize(None).to_pydatetime(warn=False)) if q.tz else ephem.Date(q.to_pydatetime(warn=False)))
                        e.append(body.earth_distance)
                    m.close('ephem_distance', d, np.array(e), 1e-12, 0, ctx)
                    m.close('inverse_square', np.asarray(r) * np.asarray(d) ** 2, const, 1e-10, 0, ctx)
                    m.check('extra_type', isinstance(d, pd.Series) and d.index.equals(x), ctx)
        # dates
        d = tu[0].date()
        # days of year
        yr = int(rng.integers(1960, 2040))
        for doy in (int(rng.integers(1, 367)), float(rng.uniform(1, 366)), np.int64(rng.integers(1, 366)), np.float32(rng.integers(1, 366)),
                    rng.integers(1, 367, 4), rng.uniform(1, 366, 4), list(map(float, rng.integers(1, 366, 3))),
                    pd.Series(rng.integers(1, 366, 4)), d):
            for method in ('asce', 'spencer', 'pyephem', 'nrel'):
                if isinstance(doy, list) and method in ('asce', 'spencer'):
                    continue
                const = float(rng.choice([1366.1, 1361.]))
                kw = dict(method=method, solar_constant=const, epoch_year=yr)
                isd = isinstance(doy, dtm.date)
                if isd:
                    t = pd.DatetimeIndex([pd.Timestamp(doy)])
                    dd = t.dayofyear.to_numpy()
                else:
                    dd = np.atleast_1d(np.asarray(doy, float))
                    t = pd.DatetimeIndex([pd.Timestamp(f'{yr}-01-01') + pd.Timedelta(seconds=round((float(q) - 1) * 86400 * 1e6) / 1e6) for q in dd])
                ctx = dict(doy=doy, kw=kw)
                m.case(('doy', type(doy).__name__, method, yr, float(dd[0])), ctx)
                ok, r = m.call('extra_doy', pvlib.irradiance.get_extra_radiation, doy, ctx=ctx, **kw)
                if ok:
                    w = extra_ref(method, t.tz_localize('UTC'), dd, const, 67.)
                    m.close('extra_doy', r, w[0] if (isd or np.isscalar(doy)) else w, 1e-6, 0, ctx)
                    if np.isscalar(doy) or isd:
                        m.check('extra_type', np.isscalar(r), ctx)
                    elif not isinstance(doy, pd.Series) or method in ('pyephem', 'nrel'):
                        m.check('extra_type', isinstance(r, np.ndarray), ctx)
    ok, a = m.call('extra', pvlib.irradiance.get_extra_radiation, 100, method='pyephem')
    ok, b = m.call('extra', pvlib.irradiance.get_extra_radiation, pd.Timestamp('2014-04-10'), method='pyephem')
    m.close('epoch_default', a, b, 1e-12)
    m.raises('bad_method', ValueError, pvlib.irradiance.get_extra_radiation, 100, method='invalid')


main(mon, lambda m: work(m))
