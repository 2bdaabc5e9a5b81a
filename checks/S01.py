import datetime as dtm

import ephem
import numpy as np
import pandas as pd

import pvlib
from mon import gen, longrun, sun
from mon.core import Mon, main

mon = Mon('S01', 'distinct (site, options, method, form of time input) batches of random and adversarial instants 1955-2049, '
          'each judged elementwise against an own SPA implementation, an own epoch-1900 ephemeris and direct libastro calls',
          assumptions=['SPA periodic-term tables as published, stored in /verif/data', 'libastro (ephem) as second ephemeris'],
          required=['spa_python', 'nrel_numba', 'pyephem', 'ephemeris', 'spa_vs_libastro', 'dispatch', 'calc_time', 'location'])
COLS = dict(spa={'apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth', 'equation_of_time'},
            pyephem={'apparent_elevation', 'apparent_azimuth', 'elevation', 'azimuth', 'apparent_zenith', 'zenith'},
            ephemeris={'apparent_elevation', 'elevation', 'azimuth', 'apparent_zenith', 'zenith', 'solar_time'})


def secs(t):
    t = t.tz_localize('UTC') if t.tz is None else t
    return t.tz_convert('UTC').as_unit('ns').asi8 / 1e9


def angdiff(a, b):
    return (np.asarray(a) - np.asarray(b) + 180) % 360 - 180


def judge(m, name, got, want, tol, ctx, cols, tie=None, index=None):
    m.check(name + '.columns', set(got.columns) == cols, dict(**ctx, cols=list(got.columns)))
    if index is not None:
        m.check(name + '.index', got.index.equals(index), ctx)
    keep = np.ones(len(got), bool) if tie is None else ~tie
    for k in want:
        if k not in got:
            continue
        g, w = got[k].to_numpy(float), np.asarray(want[k])
        if 'azimuth' in k:
            m.check(name + '.azimuth_range', np.all((g >= 0) & (g <= 360)), ctx)
            d = angdiff(g, w) * np.sin(np.radians(want['zenith']))
            m.close(name, d, 0 * d, 0, tol * 3, dict(**ctx, col=k, got=g, want=w))
        elif 'apparent' in k:
            m.close(name, g[keep], w[keep], 0, tol, dict(**ctx, col=k))
        else:
            m.close(name, g, w, 0, tol, dict(**ctx, col=k))
    m.check(name + '.complement', np.allclose(got['zenith'] + got['elevation'], 90, atol=1e-9)
            and np.allclose(got['apparent_zenith'] + got['apparent_elevation'], 90, atol=1e-9), ctx)


def libastro(t, lat, lon, elev, p, T):
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.temp = str(lat), str(lon), elev, T
    out = {k: [] for k in ('elevation', 'azimuth', 'apparent_elevation', 'apparent_azimuth')}
    for x in t:
        o.date = ephem.Date(x.tz_convert('UTC').to_pydatetime() if x.tzinfo else x.to_pydatetime())
        for pre, pr in (('', 0.), ('apparent_', p / 100)):
            o.pressure = pr
            s = ephem.Sun(o)
            out[pre + 'elevation'].append(np.degrees(float(s.alt)))
            out[pre + 'azimuth'].append(np.degrees(float(s.az)))
    out = {k: np.array(v) for k, v in out.items()}
    out['zenith'], out['apparent_zenith'] = 90 - out['elevation'], 90 - out['apparent_elevation']
    return out


def dress(rng, t):
    """The same instants under another index dress."""
    k = int(rng.integers(0, 5))
    if k == 0:
        return t
    if k == 1:
        return t.tz_localize(None)
    if k == 2:
        return t.tz_convert(str(rng.choice(gen.ZONES)))
    if k == 3:
        return t.tz_convert(dtm.timezone(dtm.timedelta(minutes=int(rng.integers(-800, 800)))))
    return t.as_unit('us').tz_convert(str(rng.choice(gen.ZONES)))


def spa_case(m, rng, how, nn):
    S = pvlib.solarposition
    lat, lon, elev = gen.site(rng)
    t = gen.instants(rng, nn)
    # land some instants on the horizon, where refraction switches
    tt = dress(rng, t)
    u = secs(tt)
    p, T = float(rng.choice([101325., 60000., 0., 108000.])), float(rng.choice([12., -40., 45.]))
    opts, kw = {}, dict(altitude=elev, pressure=p, temperature=T)
    dT, refr = 67., .5667
    r = rng.random()
    if r < .25:
        dT = float(rng.uniform(20, 100))
        opts['delta_t'] = dT
    elif r < .5:
        opts['delta_t'] = None
        dT = np.array([sun.delta_t(x.year, x.month) for x in t])
    elif r < .6:
        dT = rng.uniform(20, 100, nn)
        opts['delta_t'] = dT
    if rng.random() < .4:
        v = [None, 0., .3, 1.0, 0][int(rng.integers(0, 5))]
        opts['atmos_refract'] = v
        refr = .5667 if v is None else v
    if rng.random() < .3:
        opts['numthreads'] = int(rng.integers(1, 9))
    if rng.random() < .3:
        kw = {k: v for k, v in kw.items() if rng.random() < .5}
    ctx = dict(lat=lat, lon=lon, how=how, tz=str(tt.tz), opts=opts, kw=kw)
    want = sun.spa(u, lat, lon, kw.get('altitude', 0.), kw.get('pressure', 101325.) / 100, kw.get('temperature', 12.), dT, refr)
    ok, r = m.call('spa_python', S.spa_python, tt, lat, lon, how=how, ctx=ctx, **kw, **opts)
    name = 'spa_python' if how == 'numpy' else 'nrel_numba'
    tie = np.abs(want['elevation'] + .26667 + refr) < 1e-5
    m.case((name, lat, lon, sorted(opts), sorted(kw)), ctx)
    if ok:
        judge(m, name, r, want, 2e-6, ctx, COLS['spa'], tie, tt)


def work(m):
    S = pvlib.solarposition
    for rd in range(m.n(60, 800)):
        rng = m.sub('spa', rd)
        spa_case(m, rng, 'numpy', 40)
    for rd in range(m.n(2, 12)):
        rng = m.sub('long', rd)
        spa_case(m, rng, 'numpy', int(rng.choice(longrun.SIZES)))
        lat, lon, elev = gen.site(rng)
        for f, n, a in ((S.ephemeris, 4100, 5e-6), (S.pyephem, 1025, 2e-8)):
            longrun.judge(m, f.__name__, lambda x, f=f: f(x, lat, lon), longrun.instants(rng, n), rng, dict(lat=lat, lon=lon), atol=a)
    # horizon sweep: instants around sunrise/sunset where the refraction term switches
    for rd in range(m.n(15, 150)):
        rng = m.sub('hor', rd)
        lat, lon = float(rng.uniform(-60, 60)), float(rng.uniform(-180, 180))
        d0 = int(rng.integers(-3e8 // 86400, 25e8 // 86400)) * 86400
        _, sr, ss, _ = sun.events(d0, lat, lon)
        u = np.concatenate([np.linspace(x[0] - 400, x[0] + 400, 41) for x in (sr, ss) if np.isfinite(x[0])] or [np.array([d0])])
        t = pd.DatetimeIndex(np.round(u * 1e9).astype('int64')).tz_localize('UTC')
        refr = [None, 0., .2, .5667, 1.][rd % 5]
        want = sun.spa(secs(t), lat, lon, 0, 1013.25, 12, 67, .5667 if refr is None else refr)
        ok, r = m.call('spa_python', S.spa_python, t, lat, lon, atmos_refract=refr)
        m.case(('hor', lat, lon), dict(lat=lat, lon=lon, refr=refr))
        if ok:
            tie = np.abs(want['elevation'] + .26667 + (.5667 if refr is None else refr)) < 1e-5
            judge(m, 'spa_python', r, want, 2e-6, dict(lat=lat, lon=lon, refr=refr), COLS['spa'], tie, t)
        ok, r = m.call('ephemeris', S.ephemeris, t, lat, lon)
        w = pd.DataFrame([sun.michalsky_ephemeris(x.to_pydatetime(), lat, lon) for x in t])
        if ok:
            tie = np.any([np.abs(w['elevation'] - e) < 1e-4 for e in (-1, -.575, 5, 85)], axis=0)
            judge(m, 'ephemeris', r, w, 2e-5, dict(lat=lat, lon=lon), COLS['ephemeris'], tie, t)
    # accuracy against a second ephemeris, dates with their own delta T
    for rd in range(m.n(25, 250)):
        rng = m.sub('lib', rd)
        lat, lon, elev = gen.site(rng)
        elev = max(elev, 0.)
        t = gen.instants(rng, 30)
        tt = dress(rng, t)
        p, T = float(rng.choice([101325., 60000., 0.])), float(rng.choice([12., -40., 45.]))
        dT = np.array([ephem.delta_t(x.to_pydatetime()) for x in t])
        want = libastro(t, lat, lon, elev, p, T)
        ctx = dict(lat=lat, lon=lon, elev=elev, p=p, T=T, tz=str(tt.tz))
        m.case(('lib', lat, lon), ctx)
        ok, r = m.call('spa_python', S.spa_python, tt, lat, lon, elev, p, T, dT)
        if ok:
            m.close('spa_vs_libastro', r['elevation'], want['elevation'], 0, 4e-4, ctx)
            m.close('spa_vs_libastro', angdiff(r['azimuth'], want['azimuth']) * np.cos(np.radians(want['elevation'])), np.zeros(30), 0, 5e-4, ctx)
        ok, r = m.call('pyephem', S.pyephem, tt, lat, lon, elev, p, T)
        if ok:
            judge(m, 'pyephem', r, want, 1e-9, ctx, COLS['pyephem'], None, tt)
        pk = {k: v for k, v in dict(altitude=elev, pressure=p, temperature=T, horizon='-0:34').items() if rng.random() < .5}
        ok, r = m.call('pyephem', S.pyephem, tt[:8], lat, lon, **pk)
        if ok:
            w = libastro(t[:8], lat, lon, pk.get('altitude', 0.), pk.get('pressure', 101325.), pk.get('temperature', 12.))
            judge(m, 'pyephem', r, w, 1e-9, ctx, COLS['pyephem'], None, tt[:8])
        ok, r = m.call('ephemeris', S.ephemeris, tt, lat, lon, p, T)
        if ok:
            w = pd.DataFrame([sun.michalsky_ephemeris(x.to_pydatetime(), lat, lon, p, T) for x in t])
            tie = np.any([np.abs(w['elevation'] - e) < 1e-4 for e in (-1, -.575, 5, 85)], axis=0)
            judge(m, 'ephemeris', r, w, 2e-5, ctx, COLS['ephemeris'], tie, tt)
            m.close('ephemeris_accuracy', r['elevation'], want['elevation'], 0, .03, ctx)
    # dispatch: defaults, altitude <-> pressure, method names in any case, kinds of time
    def alt2p(a):
        return 100 * ((44331.514 - a) / 11880.516) ** (1 / .1902632)

    def p2alt(p):
        return 44331.5 - 4946.62 * p ** .190263
    for rd in range(m.n(40, 400)):
        rng = m.sub('disp', rd)
        lat, lon, elev = gen.site(rng)
        elev = max(elev, 0.)
        t = gen.instants(rng, 12)
        tt = dress(rng, t)
        if rng.random() < .3:
            tt, t = tt[:1], t[:1]
            arg = [tt[0], tt[0].to_pydatetime(), tt][int(rng.integers(0, 3))]
        else:
            arg = tt
        p = float(rng.choice([101325., 70000.]))
        kw = {k: v for k, v in dict(altitude=elev, pressure=p, temperature=float(rng.choice([5., 30.]))).items() if rng.random() < .5}
        a, pp = kw.get('altitude'), kw.get('pressure')
        if a is None and pp is None:
            a, pp = 0., 101325.
        elif a is None:
            a = p2alt(pp)
        elif pp is None:
            pp = alt2p(a)
        T = kw.get('temperature', 12.)
        meth = str(rng.choice(['nrel_numpy', 'NREL_numpy', 'pyephem', 'PyEphem', 'ephemeris', None]))
        ctx = dict(lat=lat, lon=lon, kw=kw, method=meth, arg=str(arg)[:80])
        m.case(('disp', lat, lon, meth, sorted(kw)), ctx)
        mk = {} if meth == 'None' else {'method': meth}
        ok, r = m.call('dispatch', S.get_solarposition, arg, lat, lon, ctx=ctx, **kw, **mk)
        if not ok:
            continue
        ml = 'nrel_numpy' if meth == 'None' else meth.lower()
        us = secs(tt)
        if isinstance(arg, dtm.datetime) and not isinstance(arg, pd.Timestamp):
            us = secs(pd.DatetimeIndex([arg]))
        if ml == 'nrel_numpy':
            w = sun.spa(us, lat, lon, a, pp / 100, T)
            judge(m, 'dispatch', r, w, 2e-6, ctx, COLS['spa'], np.abs(w['elevation'] + .83337) < 1e-5)
        elif ml == 'pyephem':
            w = libastro(pd.DatetimeIndex([pd.Timestamp(x).floor('us') for x in tt]), lat, lon, a, pp, T)
            judge(m, 'dispatch', r, w, 1e-6, ctx, COLS['pyephem'])
        else:
            w = pd.DataFrame([sun.michalsky_ephemeris(x.to_pydatetime(), lat, lon, pp, T) for x in t])
            tie = np.any([np.abs(w['elevation'] - e) < 1e-4 for e in (-1, -.575, 5, 85)], axis=0)
            judge(m, 'dispatch', r, w, 2e-5, ctx, COLS['ephemeris'], tie)
        loc = pvlib.location.Location(lat, lon, 'UTC', elev)
        if isinstance(arg, pd.DatetimeIndex):
            pl = pp if 'pressure' in kw else alt2p(elev)
            ok, r = m.call('location', loc.get_solarposition, tt, ctx=ctx, **{k: v for k, v in kw.items() if k != 'altitude'})
            if ok:
                w = sun.spa(secs(tt), lat, lon, elev, pl / 100, T)
                judge(m, 'location', r, w, 2e-6, ctx, COLS['spa'], np.abs(w['elevation'] + .83337) < 1e-5, tt)
    t = pd.date_range('2020-01-01', periods=2, tz='UTC')
    for bad in ('nrel', '', 'spa', 'numpy'):
        m.raises('bad_method', ValueError, S.get_solarposition, t, 0, 0, method=bad)
    m.raises('bad_method', ValueError, S.spa_python, t, 0, 0, how='c')
    # calc_time inverts the ephemeris
    for rd in range(m.n(25, 250)):
        rng = m.sub('calc', rd)
        lat, lon = float(rng.uniform(-55, 55)), float(rng.uniform(-180, 180))
        d0 = int(rng.integers(0, 22e8 // 86400)) * 86400
        tr, sr, ss, _ = sun.events(d0, lat, lon)
        lo, hi = (sr[0], tr[0]) if rng.random() < .5 else (tr[0], ss[0])
        mid = rng.uniform(lo + 600, hi - 1800)
        p = float(rng.choice([101325., 0., 80000.]))
        alt = float(rng.choice([0., 2000.]))
        at = 'alt' if rng.random() < .8 else 'az'
        q = libastro(pd.DatetimeIndex([int(mid * 1e9)]).tz_localize('UTC'), lat, lon, alt, p, 12.)
        val = np.radians(q['apparent_elevation'][0] if at == 'alt' else q['apparent_azimuth'][0])
        if at == 'az':
            a0, a1 = (libastro(pd.DatetimeIndex([int(x * 1e9)]).tz_localize('UTC'), lat, lon, alt, p, 12.)['apparent_azimuth'][0] for x in (lo, hi))
            if not min(a0, a1) < np.degrees(val) < max(a0, a1) or abs(a0 - a1) > 170:
                continue
        mk = lambda s: dtm.datetime.fromtimestamp(s, dtm.timezone.utc)  # noqa: E731
        lob, hib = mk(lo), mk(hi)
        if rng.random() < .3:
            lob, hib = lob.replace(tzinfo=None), hib.replace(tzinfo=None)
        elif rng.random() < .5:
            z = dtm.timezone(dtm.timedelta(hours=5.5))
            lob, hib = lob.astimezone(z), hib.astimezone(z)
        ctx = dict(lat=lat, lon=lon, at=at, val=val, lo=lob, hi=hib)
        kw = {} if (p == 101325. and alt == 0 and rng.random() < .5) else dict(altitude=alt, pressure=p)
        m.case(('calc', lat, lon), ctx)
        ok, r = m.call('calc_time', S.calc_time, lob, hib, lat, lon, at, val, ctx=ctx, **kw)
        if ok:
            w = libastro(pd.DatetimeIndex([pd.Timestamp(r)]), lat, lon, alt, p, 12.)
            g = w['apparent_elevation' if at == 'alt' else 'apparent_azimuth'][0]
            m.close('calc_time', g, np.degrees(val), 0, 2e-4 if at == 'alt' else 2e-3, ctx)
            m.check('calc_time.bounds', lo - 1 <= r.timestamp() <= hi + 1, dict(**ctx, r=r))
    # compiled back end (one reload)
    for rd in range(m.n(40, 400)):
        rng = m.sub('numba', rd)
        spa_case(m, rng, 'numba', int(rng.choice([1, 2, 3, 7, 8, 40])) if rd % 20 else int(rng.choice(longrun.SIZES[:3])))
    rng = m.sub('nb2')
    for rd in range(m.n(10, 60)):
        lat, lon, elev = gen.site(rng)
        t = gen.instants(rng, 20)
        ok, r = m.call('nrel_numba', S.get_solarposition, t, lat, lon, max(elev, 0.), method='nrel_numba')
        if ok:
            w = sun.spa(secs(t), lat, lon, max(elev, 0.), alt2p(max(elev, 0)) / 100)
            judge(m, 'nrel_numba', r, w, 2e-6, dict(lat=lat, lon=lon), COLS['spa'], np.abs(w['elevation'] + .83337) < 1e-5, t)


main(mon, work)
