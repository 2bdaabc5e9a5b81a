"""Y04: a Location evaluates every quantity for its own coordinates and clock."""
import datetime
import zoneinfo

import h5py
import numpy as np
import pandas as pd
import pytz

import pvlib
from pvlib import atmosphere, clearsky, irradiance, solarposition
from pvlib.location import Location, lookup_altitude

from mon import chain as C
from mon import turbidity
from mon.core import Mon, main
from mon.engine import snap

mon = Mon('Y04', 'distinct (site, clock, method, options) cases',
          ['the underlying functions with the coordinates and pressure written out', 'direct reading of the altitude table', 'pytz and datetime offsets'],
          required=['get_solarposition', 'get_airmass', 'get_clearsky', 'tabulated turbidity', 'rise_set', 'time zone', 'altitude', 'from metadata', 'rejected'])


def pressure(alt):
    return 100 * ((44331.514 - alt) / 11880.516) ** (1 / .1902632)


def table(m, clause, got, want, ctx, rtol=1e-12, atol=1e-10):
    m.check(clause, isinstance(got, pd.DataFrame) and set(got.columns) == set(want.columns), dict(ctx, type=type(got)), 'columns')
    m.check(clause, got.index.equals(want.index), ctx, 'index')
    for c in want.columns:
        if c not in got:
            continue
        if str(want[c].dtype).startswith('datetime'):
            d = (got[c] - want[c]).abs().dt.total_seconds()
            m.check(clause, bool(((d <= 1e-3) | (got[c].isna() & want[c].isna())).all()) and str(got[c].dt.tz) == str(want[c].dt.tz), dict(ctx, col=c), 'instants differ')
        else:
            m.close(clause, got[c], want[c], rtol, atol, dict(ctx, col=c))


def times(rng, tz):
    n = int(rng.choice([1, 6, 24])) if rng.random() < .96 else 2049
    t0 = pd.Timestamp(f'{int(rng.integers(1990, 2035))}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 28)):02d} {int(rng.integers(0, 24)):02d}:{int(rng.integers(0, 60)):02d}')
    idx = pd.date_range(t0, periods=n, freq=str(rng.choice(['1h', '37min', '5h'])), tz='UTC')
    return idx.tz_convert(tz) if rng.random() < .8 else idx


def methods(m):
    for rd in range(m.n(130, 2500)):
        rng = m.sub('methods', rd)
        lat, lon = float(rng.uniform(-89, 89)), float(rng.uniform(-180, 180))
        alt = float(rng.choice([0., -400., 250.5, 1828., 4500., 8800.]))
        tz = str(rng.choice(['UTC', 'Etc/GMT+7', 'America/Denver', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Asia/Kathmandu']))
        loc = Location(lat, lon, tz, alt, name='x')
        t = times(rng, tz)
        P = pressure(alt)
        ctx = dict(lat=lat, lon=lon, alt=alt, tz=tz, t0=t[0], n=len(t))
        m.case(('methods', rd, round(lat, 4), round(lon, 4), alt, tz))
        kw = dict(method=str(rng.choice(['nrel_numpy', 'ephemeris', 'pyephem'])))
        fkw = dict(pressure=P)
        k = rng.random()
        if k < .3:
            kw['pressure'] = fkw['pressure'] = float(rng.uniform(50000, 104000))
        if rng.random() < .4:
            kw['temperature'] = fkw['temperature'] = float(rng.uniform(-30, 45))
        want = solarposition.get_solarposition(t, lat, lon, altitude=alt, method=kw['method'], **fkw)
        before = snap(t)
        ok, sp = m.call('get_solarposition', loc.get_solarposition, t, ctx=dict(ctx, **kw), **kw)
        if ok:
            table(m, 'get_solarposition', sp, want, dict(ctx, **kw))
        # default method
        std = solarposition.get_solarposition(t, lat, lon, altitude=alt, pressure=P)
        ok, sp = m.call('get_solarposition', loc.get_solarposition, t, ctx=ctx)
        if ok:
            table(m, 'get_solarposition', sp, std, ctx)
        # air mass, from times or a given position
        am = C.AIRMASS[rd % len(C.AIRMASS)]
        src = std if rng.random() < .6 else want
        for model in {am, 'kastenyoung1989'}:
            zen = src['zenith' if model in C.TRUE_Z else 'apparent_zenith']
            rel = atmosphere.get_relative_airmass(zen, model)
            w = pd.DataFrame(dict(airmass_relative=rel, airmass_absolute=rel * P / 101325.), index=t)
            a = ((t,), {}) if src is std and rng.random() < .5 else ((), dict(solar_position=src))
            if rng.random() < .2 and not a[0]:
                a = ((times(rng, 'UTC'),), a[1])
            ok, r = m.call('get_airmass', loc.get_airmass, *a[0], ctx=dict(ctx, model=model), **a[1], **(dict(model=model) if model != 'kastenyoung1989' else {}))
            if ok:
                table(m, 'get_airmass', r, w, dict(ctx, model=model))
        # clear sky
        ex = irradiance.get_extra_radiation(t)
        given = {}
        if rng.random() < .4:
            given['solar_position'] = want
        if rng.random() < .3:
            given['dni_extra'] = ex = float(rng.uniform(1320, 1415))
        for model in ('ineichen', 'haurwitz', 'simplified_solis'):
            kw = dict(given)
            sp = want if 'solar_position' in given else std
            if model == 'ineichen':
                tl = float(rng.uniform(1.5, 7))
                kw['linke_turbidity'] = tl if rng.random() < .5 else pd.Series(tl, t)
                rel = atmosphere.get_relative_airmass(sp['apparent_zenith'])
                ab = rel * P / 101325.
                if rng.random() < .3:
                    kw['airmass_absolute'] = ab = ab * 1.1
                opt = {}
                if rng.random() < .3:
                    opt['perez_enhancement'] = True
                kw.update(opt)
                w = clearsky.ineichen(sp['apparent_zenith'], ab, tl, altitude=alt, dni_extra=ex, **opt)
            elif model == 'haurwitz':
                w = clearsky.haurwitz(sp['apparent_zenith'])
            else:
                opt, p = {}, P
                if rng.random() < .5:
                    opt = dict(aod700=float(rng.uniform(.02, .4)), precipitable_water=float(rng.uniform(.3, 5)))
                if rng.random() < .4:
                    p = float(rng.uniform(60000, 104000))
                    if 'solar_position' not in given:
                        sp = solarposition.get_solarposition(t, lat, lon, altitude=alt, pressure=p)
                    opt['pressure'] = p
                kw.update(opt)
                w = clearsky.simplified_solis(sp['apparent_elevation'], dni_extra=ex, **{**opt, 'pressure': p})
            b = snap((t, kw))
            ok, r = m.call('get_clearsky', loc.get_clearsky, t, model=model, ctx=dict(ctx, model=model, kw=list(kw)), **kw)
            m.check('get_clearsky', snap((t, kw)) == b, ctx, 'arguments modified')
            if ok:
                table(m, 'get_clearsky', r, w, dict(ctx, model=model, kw=list(kw)), 1e-9, 1e-8)
        # rise, set, transit
        if abs(lat) < 60:
            tt = t if rng.random() < .5 else t.normalize()
            for meth in ('spa', 'pyephem', 'geometric'):
                kw = {}
                if meth == 'spa':
                    w = solarposition.sun_rise_set_transit_spa(tt, lat, lon)
                elif meth == 'pyephem':
                    if rng.random() < .5:
                        kw['next_or_previous'] = 'previous'
                    w = solarposition.sun_rise_set_transit_ephem(tt, lat, lon, **kw)
                else:
                    doy = tt.dayofyear
                    kw = dict(declination=solarposition.declination_spencer71(doy) if False else np.asarray(solarposition.declination_cooper69(doy)), equation_of_time=np.asarray(solarposition.equation_of_time_spencer71(doy)))
                    sr, ss, tr = solarposition.sun_rise_set_transit_geometric(tt, lat, lon, **kw)
                    w = pd.DataFrame(dict(sunrise=sr, sunset=ss, transit=tr), index=tt)
                ok, r = m.call('rise_set', loc.get_sun_rise_set_transit, tt, ctx=dict(ctx, method=meth), **(dict(method=meth) if meth != 'spa' or rng.random() < .5 else {}), **kw)
                if ok:
                    table(m, 'rise_set', r, w[['sunrise', 'sunset', 'transit']], dict(ctx, method=meth))
        m.check('get_solarposition', snap(t) == before, ctx, 'times modified')
        m.check('identity', (loc.latitude, loc.longitude, loc.altitude, loc.tz, loc.name) == (lat, lon, alt, tz, 'x'), ctx, 'attributes changed')
        if rd % 10 == 0:
            m.raises('rejected', ValueError, loc.get_airmass, t, model='nosuch')
            m.raises('rejected', ValueError, loc.get_clearsky, t, model='nosuch')
            m.raises('rejected', ValueError, loc.get_sun_rise_set_transit, t, method='nosuch')
            m.raises('rejected', ValueError, loc.get_solarposition, t, method='nosuch')


def default_turbidity(m):
    """Ineichen clear sky with the tabulated turbidity of the site's own cell."""
    rng = m.sub('turbidity')
    sites = [(float(rng.uniform(-65, 65)), float(rng.uniform(-179, 179))) for _ in range(m.n(25, 300))]
    cells = {x: rng.integers(30, 140, 12) for x in sites}
    with turbidity.table(cells) as path:
        for lat, lon in sites:
            alt, tz = float(rng.choice([0., 1200.])), str(rng.choice(['UTC', 'Asia/Kolkata', 'America/Denver']))
            t = times(rng, tz)
            loc = Location(lat, lon, tz, alt)
            for interp in (True, False):
                tl = clearsky.lookup_linke_turbidity(t, lat, lon, filepath=path, interp_turbidity=interp)
                sp = solarposition.get_solarposition(t, lat, lon, altitude=alt, pressure=pressure(alt))
                ab = atmosphere.get_relative_airmass(sp['apparent_zenith']) * pressure(alt) / 101325.
                w = clearsky.ineichen(sp['apparent_zenith'], ab, tl, altitude=alt, dni_extra=irradiance.get_extra_radiation(t))
                ctx = dict(lat=lat, lon=lon, tz=tz, interp=interp, t0=t[0])
                ok, r = m.call('tabulated turbidity', loc.get_clearsky, t, ctx=ctx, **({} if interp and rng.random() < .5 else dict(interp_turbidity=interp)))
                m.case(('turbidity', round(lat, 4), round(lon, 4), interp))
                if ok:
                    table(m, 'tabulated turbidity', r, w, ctx, 1e-9, 1e-8)


def zones(m):
    probe = [pd.Timestamp(x, tz='UTC').to_pydatetime() for x in ('2021-01-15 07:00', '2021-07-15 21:30', '2021-03-14 09:30', '2021-11-07 08:30')]
    names = ['UTC', 'Etc/GMT+12', 'Etc/GMT-14', 'Etc/GMT+7', 'Etc/GMT-3', 'America/Denver', 'US/Arizona', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'America/St_Johns']

    def offsets(loc):
        z = zoneinfo.ZoneInfo(loc.tz)
        return [d.astimezone(z).utcoffset() for d in probe]

    for name in names:
        want = [d.astimezone(pytz.timezone(name)).utcoffset() for d in probe]
        for give in (name, zoneinfo.ZoneInfo(name), pytz.timezone(name)):
            ok, loc = m.call('time zone', Location, 10, 20, give, 5, ctx=(name, type(give)))
            m.case(('zone', name, type(give).__name__))
            if ok:
                m.check('time zone', isinstance(loc.tz, str) and loc.tz == name, (name, type(give), loc.tz), 'name of the zone')
                m.check('time zone', offsets(loc) == want, (name, type(give)), 'offset of the zone')
                # set again on an existing location
                loc.tz = 'Asia/Tokyo'
                m.check('time zone', offsets(loc) == [datetime.timedelta(hours=9)] * 4, name, 'tz set later')
                loc.tz = give
                m.check('time zone', offsets(loc) == want, (name, type(give)), 'tz set later')
                m.check('time zone', 'tz: ' + name in repr(loc), name, 'repr')
    for h in range(-12, 15):
        for give in (h, float(h), np.float64(h)):
            ok, loc = m.call('time zone', Location, 10, 20, give, 5, ctx=(h, type(give)))
            m.case(('hours', h, type(give).__name__))
            if ok:
                m.check('time zone', offsets(loc) == [datetime.timedelta(hours=h)] * 4, (h, type(give), loc.tz), 'whole-hour offset')
                t = pd.date_range('2021-05-05', periods=3, freq='1h', tz=loc.tz)
                m.check('time zone', t[0].utcoffset() == datetime.timedelta(hours=h), (h, loc.tz), 'zone usable for an index')
    ok, loc = m.call('time zone', Location, 10, 20, datetime.timezone.utc, 5, ctx='datetime utc')
    if ok:
        m.check('time zone', offsets(loc) == [datetime.timedelta(0)] * 4, loc.tz, 'utc')
    ok, loc = m.call('time zone', Location, 10, 20, ctx='default', altitude=3)
    if ok:
        m.check('time zone', loc.tz == 'UTC', loc.tz, 'default zone')
    for bad in (5.5, -3.25, np.float64(5.75), None, [1], b'UTC', {}):
        m.raises('rejected', TypeError, Location, 10, 20, bad, 5, ctx=('tz', bad))
    for bad in ('nosuch/zone', 'GMT+99', 15, -13, 99, 25.):
        m.raises('rejected', (ValueError, zoneinfo.ZoneInfoNotFoundError), Location, 10, 20, bad, 5, ctx=('tz', bad))


def altitude(m):
    import os
    with h5py.File(os.path.join(os.path.dirname(pvlib.__file__), 'data', 'Altitude.h5'), 'r') as f:
        A = f['Altitude'][:]
    rng = m.sub('altitude')
    pts = [(float(np.degrees(np.arcsin(rng.uniform(-1, 1)))), float(rng.uniform(-180, 180))) for _ in range(m.n(900, 20000))]
    # land, high and low cells, sea
    for v in (255, int(A[A < 255].max()), int(A.min()), 16, 17, 254):
        r, c = np.nonzero(A == v)
        for k in rng.integers(0, len(r), m.n(20, 300)) if len(r) else []:
            pts.append((90 - (r[k] + float(rng.uniform(.05, .95))) / 12, -180 + (c[k] + float(rng.uniform(.05, .95))) / 12))
    pts += [(90., 0.01), (-90., .01), (40.01, 180.), (40.01, -180.), (89.99, 179.99), (-89.99, -179.99), (0.01, 0.01), (-.01, -.01)]
    seen = set()
    for lat, lon in pts:
        i, j = (90 - lat) * 12, (lon + 180) * 12
        if any(abs(x - round(x)) < 1e-4 and 0 < round(x) < n for x, n in ((i, 2160), (j, 4320))):
            continue
        i, j = min(int(i), 2159), min(int(j), 4319)
        raw = int(A[i, j])
        want = 0. if raw == 255 else raw * 28 - 450
        ok, got = m.call('altitude', lookup_altitude, lat, lon, ctx=(lat, lon))
        seen.add(raw)
        if ok:
            m.check('altitude', np.isscalar(got) and abs(got - want) < 1e-9, dict(lat=lat, lon=lon, got=got, want=want), 'elevation stored for the cell')
    m.case(('altitude', len(pts), len(seen)))
    for lat, lon in pts[:m.n(60, 600)] + pts[-140:]:
        i, j = (90 - lat) * 12, (lon + 180) * 12
        if any(abs(x - round(x)) < 1e-4 and 0 < round(x) < n for x, n in ((i, 2160), (j, 4320))):
            continue
        raw = int(A[min(int(i), 2159), min(int(j), 4319)])
        want = 0. if raw == 255 else raw * 28 - 450
        loc = Location(lat, lon)
        m.check('altitude', loc.altitude == want, dict(lat=lat, lon=lon, got=loc.altitude, want=want), 'altitude of a location without one')
        m.check('altitude', Location(lat, lon, altitude=0).altitude == 0 and Location(lat, lon, altitude=-12.5).altitude == -12.5, (lat, lon), 'given altitude replaced')
    for lat, lon in ((90.2, 0), (-90.2, 0), (0, 180.2), (0, -180.2), (95, 0), (0, 400)):
        m.raises('rejected', ValueError, lookup_altitude, lat, lon, ctx=(lat, lon))


def metadata(m):
    for rd in range(m.n(40, 400)):
        rng = m.sub('meta', rd)
        lat, lon, alt = float(np.round(rng.uniform(-80, 80), 3)), float(np.round(rng.uniform(-180, 180), 3)), float(np.round(rng.uniform(0, 3000), 1))
        if rng.random() < .25:
            # a file at sea level, in a place the altitude map puts higher
            lat, lon, alt = float(np.round(rng.uniform(38, 42), 3)), float(np.round(rng.uniform(-112, -102), 3)), float(rng.choice([0., 0., -3.]))
        h = int(rng.integers(-12, 15))
        data = pd.DataFrame(dict(ghi=[1., 2.]))
        tz = h if rng.random() < .5 else float(h)
        for kind in ('tmy3', 'tmy2', 'epw'):
            if kind == 'epw':
                meta = dict(latitude=lat, longitude=lon, altitude=alt, TZ=tz, city='Epwcity', loc='LOCATION')
                f, name = Location.from_epw, 'Epwcity'
            elif kind == 'tmy2':
                meta = dict(latitude=lat, longitude=lon, altitude=alt, TZ=tz, City='Tmycity', State='XX', WBAN='1')
                f, name = Location.from_tmy, 'Tmycity'
            else:
                meta = dict(latitude=lat, longitude=lon, altitude=alt, TZ=tz, Name='"Tmy3city"', State='YY', USAF=723)
                f, name = Location.from_tmy, '"Tmy3city"'
            before = snap((meta, data))
            ok, loc = m.call('from metadata', f, meta, data, ctx=(kind, meta))
            m.case(('meta', kind, rd, lat, lon, alt, h))
            if not ok:
                continue
            m.check('from metadata', snap((meta, data)) == before, kind, 'metadata modified')
            m.check('from metadata', (loc.latitude, loc.longitude, loc.altitude, loc.name) == (lat, lon, alt, name), dict(kind=kind, meta=meta, got=repr(loc)), 'coordinates of the file')
            z = zoneinfo.ZoneInfo(loc.tz)
            m.check('from metadata', datetime.datetime(2021, 7, 1, tzinfo=z).utcoffset() == datetime.timedelta(hours=h), dict(kind=kind, tz=tz, got=loc.tz), 'offset of the file')
            m.check('from metadata', loc.weather is data or loc.weather.equals(data), kind, 'data of the file')
            ok, bare = m.call('from metadata', f, meta, ctx=(kind, 'no data'))
            if ok:
                m.check('from metadata', not hasattr(bare, 'weather'), kind, 'weather without data')


def work(m):
    methods(m)
    default_turbidity(m)
    zones(m)
    altitude(m)
    metadata(m)


if __name__ == '__main__':
    main(mon, work)
