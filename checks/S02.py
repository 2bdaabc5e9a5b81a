import datetime as dtm
import zoneinfo

import numpy as np
import pandas as pd

import pvlib
from mon import gen, sun
from mon.core import Mon, main
from mon.engine import flat, snap

mon = Mon('S02', 'distinct (function, site, instants, index dress) pairs of runs: same instants in another zone, offset, resolution, '
          'order, with duplicates or split must give the same values and carry the index passed in',
          required=['same_value', 'same_index', 'chain', 'rise_set'])
DST = ['2021-03-14 06:30', '2021-03-14 07:30', '2021-11-07 05:30', '2021-11-07 06:30', '2020-10-25 00:30', '2020-10-25 01:30',
       '2021-03-28 00:59:59', '2021-03-28 01:00', '2020-02-29 23:59:59', '2020-12-31 23:30', '2021-01-01 00:00', '2021-04-03 14:30',
       '2021-10-02 16:00', '2021-10-02 15:59', '2024-02-29 12:00', '2019-12-31 18:30', '2020-01-01 05:00', '2023-12-31 13:00']


def instants(rng, n):
    t = gen.instants(rng, n)
    if rng.random() < .5:
        k = rng.integers(0, len(DST), n // 3)
        t = t.append(pd.DatetimeIndex([pd.Timestamp(DST[i], tz='UTC') for i in k]).as_unit('ns'))
    if rng.random() < .5:
        t = t.floor('1s')
    return pd.DatetimeIndex(t).sort_values().unique()


def variants(rng, t, naive=True):
    """(name, index, positions in t) triples."""
    n = len(t)
    out = []
    ar = np.arange(n)
    for z in rng.choice(gen.ZONES, 3, replace=False):
        out.append((f'zone {z}', t.tz_convert(str(z)), ar))
    out.append(('offset', t.tz_convert(dtm.timezone(dtm.timedelta(minutes=int(rng.integers(-839, 839))))), ar))
    out.append(('zoneinfo', t.tz_convert(zoneinfo.ZoneInfo('Asia/Kathmandu')), ar))
    out.append(('dt.utc', t.tz_convert(dtm.timezone.utc), ar))
    if (t == t.floor('1s')).all():
        out.append(('unit s', t.as_unit('s').tz_convert('America/New_York'), ar))
        out.append(('unit ms', t.as_unit('ms'), ar))
    if (t == t.floor('1us')).all():
        out.append(('unit us', t.as_unit('us').tz_convert('Australia/Adelaide'), ar))
    if naive:
        out.append(('naive', t.tz_localize(None), ar))
    p = rng.permutation(n)
    out.append(('permuted', t[p].tz_convert('Europe/Berlin'), p))
    d = np.sort(rng.integers(0, n, n))
    out.append(('duplicated', t[d].tz_convert('US/Arizona'), d))
    c = int(rng.integers(1, n))
    out.append(('head', t[:c], ar[:c]))
    out.append(('tail', t[c:].tz_convert('Pacific/Auckland'), ar[c:]))
    i = int(rng.integers(0, n))
    out.append(('single', t[i:i + 1].tz_convert('Asia/Kolkata'), ar[i:i + 1]))
    return out


def functions(rng, lat, lon, alt, n):
    """name -> (fn(index, positions), uses_extra_arrays, localized_only, circular columns)"""
    S, I = pvlib.solarposition, pvlib.irradiance
    loc = pvlib.location.Location(lat, lon, 'UTC', alt)
    ghi = rng.uniform(0, 1100, n)
    zen = rng.uniform(0, 100, n)
    eot = rng.uniform(-16, 16, n)
    f = {}
    for m in ('nrel_numpy', 'pyephem', 'ephemeris'):
        f['get_solarposition ' + m] = lambda t, p, m=m: S.get_solarposition(t, lat, lon, alt, method=m)
    f['spa_python deltaT'] = lambda t, p: S.spa_python(t, lat, lon, delta_t=None)
    f['nrel_earthsun_distance'] = lambda t, p: S.nrel_earthsun_distance(t)
    f['nrel_earthsun_distance deltaT'] = lambda t, p: S.nrel_earthsun_distance(t, delta_t=None)
    f['pyephem_earthsun_distance'] = lambda t, p: S.pyephem_earthsun_distance(t)
    for m in ('asce', 'spencer', 'pyephem', 'nrel'):
        f['get_extra_radiation ' + m] = lambda t, p, m=m: I.get_extra_radiation(t, method=m)
    f['Location.get_solarposition'] = lambda t, p: loc.get_solarposition(t)
    for m in ('kastenyoung1989', 'kasten1966'):
        f['Location.get_airmass ' + m] = lambda t, p, m=m: loc.get_airmass(t, model=m)
    f['Location.get_clearsky ineichen'] = lambda t, p: loc.get_clearsky(t, linke_turbidity=3.)
    f['Location.get_clearsky haurwitz'] = lambda t, p: loc.get_clearsky(t, model='haurwitz')
    f['Location.get_clearsky solis'] = lambda t, p: loc.get_clearsky(t, model='simplified_solis')
    f['erbs'] = lambda t, p: I.erbs(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['erbs_driesse'] = lambda t, p: I.erbs_driesse(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['orgill_hollands'] = lambda t, p: I.orgill_hollands(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['boland'] = lambda t, p: I.boland(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['louche'] = lambda t, p: I.louche(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['disc'] = lambda t, p: I.disc(pd.Series(ghi[p], t), pd.Series(zen[p], t), t)
    f['hour_angle'] = lambda t, p: S.hour_angle(t, lon, eot[p])
    return f


def values(r):
    if isinstance(r, dict) and not isinstance(r, pd.DataFrame):
        r = dict(r)
    return flat(r)


def work(m):
    S = pvlib.solarposition
    for rd in range(m.n(6, 120)):
        rng = m.sub('rel', rd)
        lat, lon, alt = gen.site(rng)
        alt = max(alt, 0.)
        t = instants(rng, 24)
        fs = functions(rng, lat, lon, alt, len(t))
        vs = variants(rng, t)
        for name, fn in fs.items():
            ok, r0 = m.call(name, fn, t, np.arange(len(t)), ctx=dict(lat=lat, lon=lon))
            if not ok:
                continue
            b = values(r0)
            for vn, tv, pos in vs:
                if name == 'hour_angle' and tv.tz is None:
                    continue
                ctx = dict(fn=name, lat=lat, lon=lon, alt=alt, variant=vn, tz=str(tv.tz), unit=tv.unit)
                if name == 'hour_angle':
                    try:
                        tv.tz_localize(None).normalize().tz_localize(tv.tz, nonexistent='shift_forward')
                    except ValueError:
                        continue       # documented: ambiguous midnight is refused
                s0 = snap(tv)
                ok, r = m.call(name, fn, tv, pos, ctx=ctx)
                m.check('index_unmodified', snap(tv) == s0, ctx)
                if not ok:
                    continue
                m.case((name, vn, lat, lon), ctx)
                g = values(r)
                m.check('same_keys', list(g) == list(b), ctx)
                for k in b:
                    if k not in g:
                        continue
                    want = np.asarray(b[k])[pos]
                    got = g[k]
                    kk = str(k)
                    if name == 'hour_angle' or 'azimuth' in kk:
                        dd = (got - want + 180) % 360 - 180
                        m.close('same_value', dd, 0 * dd, 0, 1e-6 if 'ephemeris' not in name else 1e-3, dict(**ctx, col=k))
                    else:
                        tol = 1e-8 if 'ephemeris' not in name else 2e-5
                        m.close('same_value', got, want, tol, tol, dict(**ctx, col=k))
                o = list(r.values())[0] if isinstance(r, dict) else r
                if isinstance(o, (pd.Series, pd.DataFrame)):
                    m.check('same_index', o.index.equals(tv) and str(o.index.tz) == str(tv.tz) and o.index.dtype == tv.dtype,
                            dict(**ctx, got=o.index), 'returned index is not the one passed in')
                elif name != 'hour_angle':
                    m.violate('same_index', f'no pandas result from {name}', ctx)
    # single instants: datetime / Timestamp spellings, DatetimeIndex
    for rd in range(m.n(25, 500)):
        rng = m.sub('one', rd)
        lat, lon, alt = gen.site(rng)
        t = instants(rng, 4).floor('1us')[:1]
        z = str(rng.choice(gen.ZONES))
        m.case(('one', lat, lon, z), dict(lat=lat, t=t, z=z))
        for meth in ('nrel_numpy', 'pyephem', 'ephemeris'):
            b = S.get_solarposition(t, lat, lon, method=meth)
            for x in (t[0], t[0].to_pydatetime(), t.tz_convert(z)[0], t.tz_convert(z)[0].to_pydatetime(), t.tz_localize(None)[0],
                      t.tz_localize(None)[0].to_pydatetime()):
                ctx = dict(lat=lat, lon=lon, method=meth, time=x)
                ok, r = m.call('single', S.get_solarposition, x, lat, lon, method=meth, ctx=ctx)
                if ok:
                    m.close('same_value', (r.to_numpy() - b.to_numpy() + 180) % 360 - 180, np.zeros(b.shape), 0, 1e-6 if meth != 'ephemeris' else 1e-3, ctx)
        for meth in ('asce', 'spencer', 'pyephem', 'nrel'):
            b = float(pvlib.irradiance.get_extra_radiation(t, method=meth).iloc[0])
            u = t[0]
            for x in (u, u.to_pydatetime(), u.tz_convert(z), u.tz_convert(z).to_pydatetime(), u.tz_localize(None), u.tz_localize(None).to_pydatetime(),
                      u.tz_localize(None).to_datetime64()):
                ctx = dict(method=meth, time=x)
                ok, r = m.call('single_extra', pvlib.irradiance.get_extra_radiation, x, method=meth, ctx=ctx)
                if ok:
                    m.check('scalar_out', np.isscalar(r), dict(**ctx, r=r))
                    m.close('same_value', r, b, 1e-9, 0, ctx)
        # julian dates
        for x in (t[0].to_pydatetime(), t.tz_convert(z)[0].to_pydatetime(), t.tz_localize(None)[0].to_pydatetime()):
            ok, dj = m.call('djd', pvlib.tools.datetime_to_djd, x)
            if ok:
                m.close('djd', dj, sun_djd(t[0]), 0, 1e-9, x)
                for zz in ('UTC', z):
                    back = pvlib.tools.djd_to_datetime(dj, zz)
                    m.close('djd', back.timestamp(), t[0].timestamp(), 0, 1e-3, dict(x=x, tz=zz))
                    m.check('djd_tz', back.utcoffset() == t[0].tz_convert(zz).to_pydatetime().utcoffset(), dict(x=x, tz=zz, back=back))
        L = pvlib.location.Location(lat, lon, z)
        loc_naive = t.tz_convert(z).tz_localize(None)
        try:
            amb = loc_naive.tz_localize(z)
        except ValueError:
            amb = None
        if amb is not None:
            for x in (t.tz_convert(z), loc_naive, t):
                ok, r = m.call('localize', pvlib.tools.localize_to_utc, x, L, ctx=dict(x=x, z=z))
                if ok:
                    m.check('localize', (pd.DatetimeIndex(r) == t).all() and str(r.tz) == 'UTC', dict(x=x, z=z, r=r))
            for x in (t.tz_convert(z)[0].to_pydatetime(), loc_naive[0].to_pydatetime()):
                ok, r = m.call('localize', pvlib.tools.localize_to_utc, x, L, ctx=dict(x=x, z=z))
                if ok:
                    m.check('localize', pd.Timestamp(r) == t[0] and r.utcoffset() == dtm.timedelta(0), dict(x=x, z=z, r=r))
            s = pd.Series([1.], t.tz_convert(z))
            r = pvlib.tools.localize_to_utc(s, L)
            m.check('localize', r.index.equals(t.tz_convert('UTC')), dict(z=z))
    # sun events: same local zone, other dress
    for rd in range(m.n(14, 200)):
        rng = m.sub('ev', rd)
        lat, lon = float(rng.uniform(-58, 58)), float(rng.uniform(-180, 180))
        z = str(rng.choice(gen.ZONES))
        t = instants(rng, 12).floor('1s').tz_convert(z)
        m.case(('ev', lat, lon, z), dict(lat=lat, lon=lon, z=z))
        eot, dec = rng.uniform(-16, 16, len(t)), rng.uniform(-.4, .4, len(t))
        L = pvlib.location.Location(lat, lon, z)
        fs = dict(spa=lambda x, p: S.sun_rise_set_transit_spa(x, lat, lon),
                  spa_dT=lambda x, p: S.sun_rise_set_transit_spa(x, lat, lon, delta_t=None),
                  ephem=lambda x, p: S.sun_rise_set_transit_ephem(x, lat, lon),
                  loc=lambda x, p: L.get_sun_rise_set_transit(x, method='spa'))
        fs['geo'] = lambda x, p: L.get_sun_rise_set_transit(x, method='geometric', declination=dec[p], equation_of_time=eot[p])
        n = len(t)
        perm, dup, c = rng.permutation(n), np.sort(rng.integers(0, n, n)), int(rng.integers(1, n))
        for fnm, fn in fs.items():
            if fnm == 'geo':
                try:
                    t.tz_localize(None).normalize().tz_localize(z, nonexistent='shift_forward')
                except ValueError:
                    continue
            ok, b = m.call('rise_set', fn, t, np.arange(n), ctx=dict(fn=fnm, lat=lat, lon=lon, z=z))
            if not ok:
                continue
            for vn, x, pos in (('us', t.as_unit('us'), np.arange(n)), ('s', t.as_unit('s'), np.arange(n)), ('perm', t[perm], perm),
                               ('dup', t[dup], dup), ('head', t[:c], np.arange(c)), ('tail', t[c:], np.arange(c, n)),
                               ('zi', t.tz_convert(zoneinfo.ZoneInfo(z)), np.arange(n))):
                ctx = dict(fn=fnm, lat=lat, lon=lon, z=z, variant=vn)
                ok, r = m.call('rise_set', fn, x, pos, ctx=ctx)
                if not ok:
                    continue
                m.check('rise_set_index', r.index.equals(x), ctx)
                for col in ('sunrise', 'sunset', 'transit'):
                    m.check('rise_set_tz', all(pd.isna(v) or v.utcoffset() == pd.Timestamp(v).tz_convert(z).utcoffset() for v in r[col]), ctx)
                    g = pd.to_datetime(r[col].tolist(), utc=True).as_unit('ns').asi8
                    w = pd.to_datetime(b[col].tolist(), utc=True).as_unit('ns').asi8[pos]
                    m.close('rise_set', g - w, 0. * w, 0, 2e4, dict(**ctx, col=col))
    # whole chains
    for rd in range(m.n(4, 60)):
        chain_case(m, m.sub('chain', rd), rd)


def sun_djd(t):
    return (t.timestamp() + 2209032000.0) / 86400.0


def chain_case(m, rng, rd):
    lat, lon = float(rng.uniform(-60, 60)), float(rng.uniform(-180, 180))
    z0 = pd.Timestamp('2021-03-27', tz='UTC') + pd.Timedelta(days=int(rng.integers(0, 900)))
    t = pd.date_range(z0, periods=30, freq='47min')
    from pvlib.modelchain import ModelChain
    from pvlib.pvsystem import PVSystem, Array, FixedMount, SingleAxisTrackerMount
    mount = FixedMount(25, 170) if rd % 2 else SingleAxisTrackerMount(0, 180, 60, True, .35)
    arr = Array(mount, module_parameters=dict(pdc0=220, gamma_pdc=-.004), temperature_model_parameters=dict(a=-3.47, b=-.0594, deltaT=3))
    w = pd.DataFrame(dict(ghi=rng.uniform(0, 1000, 30), dni=rng.uniform(0, 900, 30), dhi=rng.uniform(0, 300, 30),
                          temp_air=rng.uniform(-5, 35, 30), wind_speed=rng.uniform(0, 12, 30)), index=t)

    def run(idx, pos, tz):
        L = pvlib.location.Location(lat, lon, tz, 500)
        mc = ModelChain(PVSystem([arr], inverter_parameters=dict(pdc0=200, eta_inv_nom=.96)), L, aoi_model='physical', spectral_model='no_loss')
        ww = w.iloc[pos].copy()
        ww.index = idx
        return mc.run_model(ww).results
    b = run(t, np.arange(30), 'UTC')
    for vn, x, pos in variants(rng, t, naive=False):
        if vn == 'duplicated':
            continue
        ctx = dict(lat=lat, lon=lon, variant=vn)
        m.case(('chain', lat, lon, vn), ctx)
        ok, r = m.call('chain', run, x, pos, str(rng.choice(gen.ZONES)), ctx=ctx)
        if ok:
            for k in ('ac', 'cell_temperature', 'effective_irradiance', 'aoi', 'dc'):
                g, w0 = getattr(r, k), getattr(b, k)
                g = g if isinstance(g, pd.Series) else g['p_mp'] if isinstance(g, pd.DataFrame) else g
                w0 = w0 if isinstance(w0, pd.Series) else w0['p_mp'] if isinstance(w0, pd.DataFrame) else w0
                m.close('chain', g.to_numpy(float), w0.to_numpy(float)[pos], 1e-7, 1e-7, dict(**ctx, q=k))
                m.check('chain_index', g.index.equals(x), dict(**ctx, q=k))


main(mon, work)
