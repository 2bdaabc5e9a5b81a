import datetime as dtm
import zoneinfo

import ephem
import numpy as np
import pandas as pd

import pvlib
from mon import gen, longrun, sun
from mon.core import Mon, main

mon = Mon('S03', 'distinct (site, zone, dates, method) batches; every returned event judged for its local date, order, the sun\'s '
          'elevation there by an own ephemeris, agreement with an own SPA event solver / direct libastro, and between methods',
          assumptions=['an index must be localized to the zone of the site (documented); transit dates are judged only when '
                       'the site\'s solar noon is more than a minute from local midnight'],
          required=['spa_events', 'spa_elevation', 'transit_date', 'ephem_events', 'geometric', 'polar', 'methods_agree'])
ZLON = {'UTC': 0, 'US/Arizona': -110, 'America/New_York': -75, 'Europe/Berlin': 12, 'Asia/Kolkata': 80, 'Asia/Kathmandu': 85,
        'Australia/Adelaide': 138, 'Pacific/Auckland': 175, 'Pacific/Kiritimati': -157.4, 'Pacific/Pago_Pago': -170.7,
        'America/St_Johns': -54, 'Etc/GMT+7': -105, 'Etc/GMT-5': 75, 'America/Sao_Paulo': -47, 'Australia/Lord_Howe': 159,
        'Asia/Tokyo': 139, 'Africa/Casablanca': -7, 'Pacific/Fiji': 178, 'Pacific/Tongatapu': -175.2, 'Etc/GMT+12': -180, 'Etc/GMT-12': 179,
        'Pacific/Chatham': -176.5, 'Atlantic/Reykjavik': -21, 'Europe/Oslo': 25, 'Antarctica/Vostok': 106, 'America/Anchorage': -150}


def ns(x):
    """Event times in seconds (NaN where missing)."""
    return np.array([np.nan if pd.isna(v) else pd.Timestamp(v).timestamp() for v in x])


def local_dates(rng, z, n):
    y = rng.integers(1960, 2045, n)
    base = pd.DatetimeIndex([pd.Timestamp(int(v), 1, 1) for v in y])
    d = base + pd.to_timedelta(rng.integers(0, 365, n), unit='D')
    k = rng.random(n) < .2
    sp = pd.DatetimeIndex(rng.choice(np.array(['2021-03-14', '2021-11-07', '2020-10-25', '2021-03-28', '2020-02-29', '2020-12-31', '2021-01-01',
                                               '2021-04-04', '2021-10-03', '2021-11-04', '2021-02-11'], dtype='datetime64[ns]'), n))
    d = pd.DatetimeIndex(np.where(k, sp.as_unit('ns'), d.as_unit('ns')))
    tod = pd.to_timedelta(np.where(rng.random(n) < .3, rng.choice([0, 1, 43200, 86399], n), rng.integers(0, 86400, n)), unit='s')
    return (d + tod).tz_localize(z, ambiguous='NaT', nonexistent='NaT').dropna()


def label_utc(t):
    """00:00 UTC of the local calendar date, seconds."""
    return np.array([dtm.datetime(x.year, x.month, x.day, tzinfo=dtm.timezone.utc).timestamp() for x in t])


def spa_ref(t, lat, lon, dT):
    """Events of the solar day whose transit is on the local date, with tie flags."""
    day = label_utc(t)
    off = np.array([x.utcoffset().total_seconds() for x in t])
    T, R, S, ca = sun.events(day, lat, lon, dT)
    tz = t.tz
    loc = np.array([pd.Timestamp(int(round(v)), unit='s', tz='UTC').tz_convert(tz).tz_localize(None).normalize().value for v in T]) / 1e9
    loc = np.array([pd.Timestamp(int(round(v)), unit='s', tz='UTC').tz_convert(tz).tz_localize(None).normalize().timestamp() for v in T])
    sh = day - loc
    if np.any(sh):
        T2, R2, S2, ca2 = sun.events(day + sh, lat, lon, dT)
        T, R, S, ca = T2, R2, S2, ca2
    # distance of the transit from local midnight
    sec = np.array([(lambda q: (q - q.normalize()).total_seconds())(pd.Timestamp(v, unit='s', tz='UTC').tz_convert(tz).tz_localize(None)) for v in T])
    tie = (np.minimum(sec, 86400 - sec) < 90) | (np.abs(np.abs(ca) - 1) < 1e-6)
    return T, R, S, ca, tie, off


def work(m):
    S = pvlib.solarposition
    for rd in range(m.n(60, 900)):
        rng = m.sub('spa', rd)
        z = list(ZLON)[int(rng.integers(0, len(ZLON)))]
        lon = float((ZLON[z] + rng.uniform(-6, 6) + 180) % 360 - 180)
        k = rng.random()
        lat = float(rng.uniform(-60, 60) if k < .6 else rng.choice([0., 66.56, -66.6, 78., -78., 70., 23.44]) if k < .85 else rng.uniform(-89, 89))
        if rng.random() < .1:
            z = dtm.timezone(dtm.timedelta(hours=round(lon / 15 * 4) / 4)) if abs(lon) < 180 else z
        t = local_dates(rng, z, 20)
        dT, kw = 67., {}
        r = rng.random()
        if r < .2:
            dT = float(rng.uniform(20, 100))
            kw['delta_t'] = dT
        elif r < .4:
            kw['delta_t'] = None
            u = t.tz_convert('UTC')
            dT = np.array([sun.delta_t(x.year, x.month) for x in u])
        ctx = dict(lat=lat, lon=lon, tz=str(z), kw=kw)
        m.case(('spa', lat, lon, str(z)), ctx)
        ok, r = m.call('spa_events', S.sun_rise_set_transit_spa, t, lat, lon, ctx=ctx, **kw)
        if not ok:
            continue
        m.check('spa_frame', r.index.equals(t) and set(r.columns) == {'sunrise', 'sunset', 'transit'}, ctx)
        g = {c: ns(r[c]) for c in r.columns}
        T, R, Sx, ca, tie, off = spa_ref(t, lat, lon, dT)
        for c, w in (('transit', T), ('sunrise', R), ('sunset', Sx)):
            # near-grazing sun amplifies rounding: 1e-7 deg over the crossing speed
            m.close('spa_events', (g[c] - w)[~tie], np.where(np.isnan(w), np.nan, 0.)[~tie], 0, 2e-2, dict(**ctx, col=c, t=t[:3]))
            for v in r[c]:
                m.check('event_zone', pd.isna(v) or v.utcoffset() == v.tz_convert('UTC').tz_convert(t.tz).utcoffset(), dict(**ctx, v=v))
        # independent physics
        for i in np.flatnonzero(~tie):
            tl = r['transit'].iloc[i]
            su = g['transit'][i] % 86400
            m.check('transit_date' if 120 < su < 86280 else 'transit_at_utc_midnight',
                    (tl.year, tl.month, tl.day) == (t[i].year, t[i].month, t[i].day), dict(**ctx, want=t[i], got=tl))
            h, H, _ = sun.geo_elevation(g['transit'][i], lat, lon, dT if np.isscalar(dT) else dT[i])
            m.close('spa_elevation', H[0], 0, 0, .01, dict(**ctx, t=t[i], event='transit'))
            for c in ('sunrise', 'sunset'):
                if np.isnan(g[c][i]):
                    continue
                if abs(ca[i]) < .98:     # a grazing sun makes the algorithm's single Newton step overshoot
                    m.check('order', (g[c][i] < g['transit'][i]) == (c == 'sunrise') and abs(g[c][i] - g['transit'][i]) < 43200 + 1200, dict(**ctx, t=t[i], c=c))
                # the algorithm evaluates the event on the UTC day of the transit and carries it by whole
                # days (as the reference SPA calculator does, pinned by the test suite)
                ut = g['transit'][i] // 86400 * 86400
                if not 120 < g['transit'][i] - ut < 86280:
                    continue
                h, H, de = sun.geo_elevation(g[c][i], lat, lon, dT if np.isscalar(dT) else dT[i])
                if abs(lat) < 60:
                    m.check('spa_elevation_date', abs(h[0] + .8333) < .6, dict(**ctx, t=t[i], event=c, h=h))
                carry = 86400 if g[c][i] < ut else -86400 if g[c][i] >= ut + 86400 else 0
                if min(abs(g[c][i] - ut), abs(g[c][i] - ut - 86400)) < 1800:
                    continue     # either day may have been used
                h, H, de = sun.geo_elevation(g[c][i] + carry, lat, lon, dT if np.isscalar(dT) else dT[i])
                sl = np.cos(np.radians(lat)) * np.cos(np.radians(de[0])) * abs(np.sin(np.radians(H[0])))
                if sl > .05 and abs(ca[i]) < .95:
                    m.close('spa_elevation', h[0], -.8333, 0, .004 + .012 * (.3 / sl) ** 2, dict(**ctx, t=t[i], event=c))
                    # the sun comes up before and goes down after
                    m.check('spa_side', (H[0] < 0) == (c == 'sunrise'), dict(**ctx, t=t[i], H=H))
            if abs(ca[i]) > 1.02:
                m.check('polar', np.isnan(g['sunrise'][i]) and np.isnan(g['sunset'][i]), dict(**ctx, t=t[i], got=g['sunrise'][i]))
            elif abs(ca[i]) < .98:
                m.check('polar', np.isfinite(g['sunrise'][i]) and np.isfinite(g['sunset'][i]), dict(**ctx, t=t[i]))
    for rd in range(m.n(2, 15)):
        rng = m.sub('long', rd)
        lat, lon, z = float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170)), str(rng.choice(['UTC', 'Etc/GMT+7', 'Etc/GMT-5']))
        for f, n in ((lambda x: S.sun_rise_set_transit_spa(x, lat, lon), int(rng.choice(longrun.SIZES[:3]))), (lambda x: S.sun_rise_set_transit_ephem(x, lat, lon), 370),
                     (lambda x: pd.DataFrame(dict(zip('rst', S.sun_rise_set_transit_geometric(x, lat, lon, S.declination_spencer71(x.dayofyear), S.equation_of_time_spencer71(x.dayofyear)))), index=x), 1025)):
            longrun.judge(m, 'long', f, longrun.days(rng, n, z), rng, dict(lat=lat, lon=lon, tz=z))
    # the listed known finding, on its own input
    t = pd.DatetimeIndex(['1976-09-27 08:00']).tz_localize('Etc/GMT-12')
    r = S.sun_rise_set_transit_spa(t, -38.995849682867906, 177.82466498669743)
    m.check('transit_at_utc_midnight', r['transit'].iloc[0].day == 27, dict(got=r['transit'].iloc[0]))
    m.raises('naive', ValueError, S.sun_rise_set_transit_spa, pd.date_range('2020-01-01', periods=2), 0, 0)
    m.raises('naive', ValueError, S.sun_rise_set_transit_ephem, pd.date_range('2020-01-01', periods=2), 0, 0)
    m.raises('naive', ValueError, S.sun_rise_set_transit_geometric, pd.date_range('2020-01-01', periods=2), 0, 0, 0, 0)
    # ------------------------------------------------------------- libastro
    for rd in range(m.n(40, 500)):
        rng = m.sub('eph', rd)
        z = list(ZLON)[int(rng.integers(0, len(ZLON)))]
        lon = float((ZLON[z] + rng.uniform(-6, 6) + 180) % 360 - 180)
        lat = float(rng.uniform(-58, 58))
        t = local_dates(rng, z, 8)
        which = 'next' if rng.random() < .5 else 'previous'
        kw = {k: v for k, v in dict(altitude=float(rng.choice([0., 1800.])), pressure=float(rng.choice([101325., 0., 80000.])),
                                    temperature=float(rng.choice([12., -20., 40.])), horizon=str(rng.choice(['0:00', '-0:34', '+5:00']))).items() if rng.random() < .4}
        w_arg = which if rng.random() < .7 else which.upper()
        pos = {} if (which == 'next' and rng.random() < .3) else dict(next_or_previous=w_arg)
        ctx = dict(lat=lat, lon=lon, tz=z, which=pos, kw=kw)
        m.case(('eph', lat, lon, z), ctx)
        ok, r = m.call('ephem_events', S.sun_rise_set_transit_ephem, t, lat, lon, ctx=ctx, **pos, **kw)
        if not ok:
            continue
        m.check('ephem_frame', r.index.equals(t) and set(r.columns) == {'sunrise', 'sunset', 'transit'}, ctx)
        o = ephem.Observer()
        o.lat, o.lon, o.elevation = str(lat), str(lon), kw.get('altitude', 0.)
        o.pressure, o.temp, o.horizon = kw.get('pressure', 101325.) / 100, kw.get('temperature', 12.), kw.get('horizon', '0:00')
        for i, x in enumerate(t):
            nowt = x.timestamp()
            for c, meth in (('sunrise', 'rising'), ('sunset', 'setting'), ('transit', 'transit')):
                o.date = ephem.Date(x.tz_convert('UTC').to_pydatetime())
                want = getattr(o, f'{which}_{meth}')(ephem.Sun()).datetime().replace(tzinfo=dtm.timezone.utc).timestamp()
                got = r[c].iloc[i]
                m.close('ephem_events', got.timestamp() - want, 0, 0, 2e-3, dict(**ctx, t=x, c=c))
                m.check('event_zone', got.utcoffset() == pd.Timestamp(got).tz_convert('UTC').tz_convert(z).utcoffset(), dict(**ctx, got=got))
                dt = got.timestamp() - nowt
                m.check('nearest', (0 <= dt < 86400 + 900) if which == 'next' else (-86400 - 900 < dt <= 0), dict(**ctx, t=x, c=c, dt=dt))
                h, H, _ = sun.geo_elevation(got.timestamp(), lat, lon)
                if c == 'transit':
                    m.close('ephem_elevation', H[0], 0, 0, .02, dict(**ctx, t=x))
                else:
                    hz = dict([('0:00', 0.), ('-0:34', -34 / 60), ('+5:00', 5.)])[kw.get('horizon', '0:00')]
                    m.check('ephem_elevation', hz - 1.35 < h[0] < hz - .2 and (H[0] < 0) == (c == 'sunrise'), dict(**ctx, t=x, c=c, h=h, H=H))
    m.raises('bad_which', ValueError, S.sun_rise_set_transit_ephem, pd.date_range('2020-01-01', periods=2, tz='UTC'), 0, 0, 'later')
    # ------------------------------------------------------------ geometric
    for rd in range(m.n(60, 600)):
        rng = m.sub('geo', rd)
        z = list(ZLON)[int(rng.integers(0, len(ZLON)))]
        lon = float((ZLON[z] + rng.uniform(-6, 6) + 180) % 360 - 180)
        lat = float(rng.uniform(-60, 60) if rng.random() < .8 else rng.choice([75., -80., 0.]))
        t = local_dates(rng, z, 20)
        # documented: dates whose local midnight is ambiguous are refused
        mid = t.tz_localize(None).normalize()
        t = t[~mid.tz_localize(z, ambiguous='NaT', nonexistent='shift_forward').isna()]
        u = t.tz_convert('UTC')
        doy = np.array([x.timetuple().tm_yday for x in u], float)
        dec = S.declination_spencer71(doy) if rng.random() < .8 else rng.uniform(-.41, .41, len(t))
        eot = S.equation_of_time_spencer71(doy) if rng.random() < .8 else rng.uniform(-16, 16, len(t))
        if rng.random() < .15:
            dec, eot = float(dec[0]), float(eot[0])
        ctx = dict(lat=lat, lon=lon, tz=z)
        m.case(('geo', lat, lon, z), ctx)
        ok, r = m.call('geometric', S.sun_rise_set_transit_geometric, t, lat, lon, dec, eot, ctx=ctx)
        if not ok:
            continue
        d_, e_ = np.broadcast_to(dec, len(t)), np.broadcast_to(eot, len(t))
        for i, x in enumerate(t):
            tr = 12 - lon / 15 - e_[i] / 60      # hours UTC of some day
            c = -np.tan(d_[i]) * np.tan(np.radians(lat))
            half = np.degrees(np.arccos(c)) / 15 if abs(c) <= 1 else np.nan
            day = label_utc(t[i:i + 1])[0]
            # the transit on the local calendar date: hours on the clock that holds at local midnight
            mid = pd.Timestamp(x.year, x.month, x.day).tz_localize(t.tz, nonexistent='shift_forward')
            off = (pd.Timestamp(x.year, x.month, x.day).timestamp() - mid.timestamp()) / 3600
            lh = tr + off
            if min(lh % 24, 24 - lh % 24) < .03 or abs(abs(c) - 1) < 1e-9:
                continue
            tu = day + 3600 * ((lh % 24) - off)
            got = [ns([q[i]])[0] for q in r]
            for g, w, nm in zip(got, (tu - 3600 * half, tu + 3600 * half, tu), ('sunrise', 'sunset', 'transit')):
                m.close('geometric', g, w, 0, 1e-3, dict(**ctx, t=x, c=nm))
            T = r[2][i]
            m.check('geometric_date', (T.year, T.month, T.day) == (x.year, x.month, x.day) or
                    abs((T - x.normalize() if not pd.isna(x) else 0).total_seconds()) > 82800, dict(**ctx, t=x, T=T))
        m.check('geometric_zone', all(str(q.tz) == str(t.tz) for q in r), ctx)
        # agreement of methods through Location
        if abs(lat) < 50 and not np.isscalar(dec) and len(t) and z not in ('Pacific/Chatham',):
            L = pvlib.location.Location(lat, lon, z)
            dec = S.declination_spencer71(doy)
            eot = S.equation_of_time_spencer71(doy)
            a = L.get_sun_rise_set_transit(t, method='geometric', declination=dec, equation_of_time=eot)
            b = L.get_sun_rise_set_transit(t)
            mdn = t.tz_localize(None).normalize().tz_localize(z, ambiguous='NaT', nonexistent='shift_forward')
            e = L.get_sun_rise_set_transit(mdn, method='pyephem')
            for c in ('sunrise', 'sunset', 'transit'):
                A, B, E = ns(a[c]), ns(b[c]), ns(e[c])
                far = np.abs((ns(b['transit']) + 43200) % 86400 - 43200) > 120     # known finding otherwise
                A, B, E = A[far], B[far], E[far]
                m.check('methods_agree', np.all(np.abs(A - B) < 20 * 60), dict(**ctx, c=c, d=A - B, t=t[far][:3]))
                if c == 'transit':      # next after local midnight
                    m.check('methods_agree', np.all(np.abs(B - E) < 60), dict(**ctx, c=c, d=B - E, t=t[:3]))
                else:
                    dd = (B - E + 43200) % 86400 - 43200
                    m.check('methods_agree', np.all(np.abs(dd) < 300), dict(**ctx, c=c, d=dd))
    L = pvlib.location.Location(10, 10)
    m.raises('bad_method', ValueError, L.get_sun_rise_set_transit, pd.date_range('2020-01-01', periods=2, tz='UTC'), method='eqn')


main(mon, work)
