"""Remote data sources: for each, a request the caller makes, what has to go over
the wire, what the service answers, and what the caller has to get back."""
import datetime as dt
import io
import json
import zipfile

import numpy as np
import pandas as pd

import pvlib.iotools as iot

from mon import formats as F
from mon.fjudge import judge as fjudge, same_stamps
from mon.formats import NAN, fnum, pick, column, fixed
from mon.net import Step, Fault, Ftp

JSON = 'application/json'


class Job:
    def __init__(self, name, call, steps, judge, cfg=None, ftp=None, multi=None, errdoc=None, partial=None, data_steps=None):
        self.name, self.call, self.steps, self.judge = name, call, steps, judge
        self.cfg = cfg or {}
        self.ftp = ftp
        self.multi = multi          # {step index: file name} of downloads that may be missing
        self.errdoc = errdoc        # (status, ctype, body) an error looks like at this service
        self.partial = partial      # judge of a result in which some files are missing: f(m, out, missing, ctx)
        self.data_steps = data_steps if data_steps is not None else list(range(len(steps)))


def latlon(rng):
    k = rng.random()
    if k < .15:
        return int(rng.integers(-60, 61)), int(rng.integers(-179, 180))
    if k < .25:
        return float(pick(rng, [0., -0.00004, 89.99996, -33.856784])), float(pick(rng, [0., 180., -180., 151.215297]))
    nd = int(pick(rng, [1, 2, 4]))
    return round(float(rng.uniform(-60, 60)), nd), round(float(rng.uniform(-179, 179)), nd)


def word(rng, k=12):
    return ''.join(pick(rng, 'abcdefghijkmnpqrstuvwxyzABCDEF0123456789') for _ in range(k))


def when(rng, t):
    """The same day written as str, Timestamp, datetime or datetime64."""
    t = pd.Timestamp(t)
    k = int(rng.integers(0, 5))
    if k == 0:
        return t.strftime('%Y-%m-%d')
    if k == 1:
        return t
    if k == 2:
        return t.to_pydatetime()
    if k == 3:
        return t.to_datetime64()
    return t.strftime('%Y%m%d')


def when_at(rng, t):
    """An instant within the day."""
    t = pd.Timestamp(t) + pd.Timedelta(minutes=int(rng.integers(0, 1440)))
    return pick(rng, [t, t.to_pydatetime(), t.strftime('%Y-%m-%d %H:%M')])


def span(rng, lo=1998, hi=2024, days=(0, 40)):
    y = int(rng.integers(lo, hi))
    a = dt.datetime(y, 1, 1) + dt.timedelta(days=int(rng.integers(0, 365)))
    if rng.random() < .3:
        a = dt.datetime(y, *pick(rng, [(12, 30), (2, 27), (1, 1)]))
    return a, a + dt.timedelta(days=int(rng.integers(days[0], days[1] + 1)))


def frame_check(m, name, data, index, cols, ctx, exact=True):
    """A table against stamps and columns known exactly."""
    if not m.check(f'{name}: records', len(data) == len(index), dict(ctx, got=len(data), want=len(index)), 'records lost or invented'):
        return
    m.ev('stamps', len(index))
    if isinstance(index, pd.DatetimeIndex):
        ok, why = same_stamps(data.index, index)
        if not ok:
            m.violate(f'{name}: stamps', why, ctx)
    else:
        m.check(f'{name}: index', list(data.index) == list(index), ctx, f'{list(data.index)[:3]} != {list(index)[:3]}')
    if exact:
        d = set(data.columns) ^ set(cols)
        m.check(f'{name}: columns', not d, dict(ctx, got=list(data.columns)), f'differ: {sorted(map(str, d))}')
    for k, v in cols.items():
        if k not in data.columns:
            m.violate(f'{name}: columns', f'no column {k!r}', dict(ctx, got=list(data.columns)))
            continue
        v = np.asarray(v)
        m.ev('values', len(v))
        if v.dtype == object:
            bad = [(a, b) for a, b in zip(data[k], v) if a != b]
            if bad:
                m.violate(f'{name}: values', f'{k}: {bad[0][0]!r} != {bad[0][1]!r}', ctx)
            continue
        try:
            g = pd.to_numeric(data[k]).to_numpy(dtype=float, na_value=np.nan)
        except (TypeError, ValueError) as e:
            m.violate(f'{name}: values', f'{k}: {e}', ctx)
            continue
        bad = ~((np.abs(g - v) <= 1e-9 * np.maximum(1, np.abs(v))) | (np.isnan(g) & np.isnan(v)))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            m.violate(f'{name}: values', f'{k}: {int(bad.sum())}/{len(bad)} differ, first at {i}: got {g[i]!r} want {v[i]!r}', ctx)


def meta_check(m, name, meta, want, ctx):
    for k, v in want.items():
        m.ev('metadata')
        try:
            g = F.meta_get(meta, k)
        except (KeyError, TypeError):
            m.violate(f'{name}: metadata', f'no {k!r} in {sorted(map(str, meta))[:30] if hasattr(meta, "keys") else meta!r}', ctx)
            continue
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            try:
                ok = abs(float(g) - v) <= 1e-9 * max(1, abs(v)) and not isinstance(g, str)
            except (TypeError, ValueError):
                ok = False
        else:
            ok = g == v
        if not ok:
            m.violate(f'{name}: metadata', f'{k}: got {g!r} want {v!r}', ctx)


def opts(rng, p=.5, **choices):
    """A random subset of keyword options."""
    return {k: (v() if callable(v) else v) for k, v in choices.items() if rng.random() < p}


# ------------------------------------------------------------------ NSRDB PSM4
NSRDB = 'https://developer.nlr.gov/api/nsrdb/v2/solar/'
PSM4 = dict(get_nsrdb_psm4_aggregated='nsrdb-GOES-aggregated-v4-0-0-download.csv',
            get_nsrdb_psm4_tmy='nsrdb-GOES-tmy-v4-0-0-download.csv',
            get_nsrdb_psm4_conus='nsrdb-GOES-conus-v4-0-0-download.csv',
            get_nsrdb_psm4_full_disc='nsrdb-GOES-full-disc-v4-0-0-download.csv',
            get_nsrdb_psm4_polar='nsrdb-polar-v4-0-0-download.csv',
            get_nsrdb_psm4_polar_tmy='nsrdb-polar-tmy-v4-0-0-download.csv')
PSM4_REQ = {'ghi': 'ghi', 'dhi': 'dhi', 'dni': 'dni', 'ghi_clear': 'clearsky_ghi', 'dhi_clear': 'clearsky_dhi',
            'dni_clear': 'clearsky_dni', 'solar_zenith': 'solar_zenith_angle', 'temp_air': 'air_temperature',
            'temp_dew': 'dew_point', 'relative_humidity': 'relative_humidity', 'pressure': 'surface_pressure',
            'wind_speed': 'wind_speed', 'wind_direction': 'wind_direction', 'albedo': 'surface_albedo',
            'precipitable_water': 'total_precipitable_water', 'aod': 'aod'}
PSM4_DEF = ['air_temperature', 'dew_point', 'dhi', 'dni', 'ghi', 'surface_albedo', 'surface_pressure',
            'wind_direction', 'wind_speed']


def psm4(rng):
    fn = pick(rng, list(PSM4))
    lat, lon = latlon(rng)
    tmy = fn.endswith('tmy')
    c = F.psm4(rng)
    kw = opts(rng, leap_day=bool(rng.random() < .5), utc=bool(rng.random() < .5), full_name=pick(rng, ['A Person', 'x', 'pv & co']),
              affiliation=pick(rng, ['Some Lab', 'a=b']), time_step=int(pick(rng, [5, 15, 30, 60])), timeout=int(rng.integers(1, 99)),
              url=pick(rng, ['https://example.org/api/psm.csv', 'https://developer.nlr.gov/api/nsrdb/v2/solar/himawari-download.csv']))
    kw['map_variables'] = c.cfg['mapped']
    if rng.random() < .6:
        names = list(PSM4_REQ) + ['cloud_type', 'ozone', 'surface_albedo', 'air_temperature']
        kw['parameters'] = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 9))]]
        if rng.random() < .3:
            kw['parameters'] = tuple(kw['parameters'])
    attrs = [PSM4_REQ.get(a, a) for a in kw.get('parameters', PSM4_DEF)]
    key, mail = word(rng), pick(rng, ['me@example.org', 'first.last+tag@site.co.uk'])
    if tmy:
        year = pick(rng, [None, 'tmy', 'tmy-2020', 'tgy-2022'])
        a, yr = ([] if year is None else [year]), year or 'tmy'
    else:
        yr = pick(rng, [2001, 2020, '2019'])
        a = [yr]

    def wkt(v):
        try:
            x, y = v[v.index('(') + 1:v.index(')')].split()
            if not v.startswith('POINT(') or abs(float(x) - lon) > 6e-5 or abs(float(y) - lat) > 6e-5:
                return f'{v!r} instead of POINT({lon} {lat})'
        except (ValueError, AttributeError):
            return f'{v!r} is not a point'

    def reason(v):
        return None if v else 'empty'
    q = dict(api_key=key, full_name=kw.get('full_name', 'pvlib python'), email=mail,
             affiliation=kw.get('affiliation', 'pvlib python'), reason='pvlib python', mailing_list='false',
             names=yr, attributes=attrs, leap_day=str(kw.get('leap_day', not tmy)).lower(),
             utc=str(kw.get('utc', False)).lower(), interval=kw.get('time_step', 60))
    step = Step(kw.get('url', NSRDB + PSM4[fn]), c.raw, query=q, fuzzy={'wkt': wkt}, timeout=kw.get('timeout', 30))
    return Job(fn, lambda: getattr(iot, fn)(lat, lon, key, mail, *a, **kw), [step],
               lambda m, out, ctx: fjudge(m, c, out, ctx), cfg=dict(fn=fn, lat=lat, lon=lon, year=yr, kw=kw),
               errdoc=[(400, JSON, b'{"errors": ["Data processing failure."], "status": 400}'),
                       (403, JSON, b'{"error": {"code": "API_KEY_INVALID"}}'), (429, 'text/plain', b'OVER_RATE_LIMIT')])


# ------------------------------------------------------------------------ PVGIS
PVGIS = 'https://re.jrc.ec.europa.eu/api/'
PVGIS_ERR = [(400, JSON, b'{"message": "Location over the sea. Please, select another location", "status": 400}'),
             (529, 'text/html', b'<html>overloaded</html>')]


def horizon_list(rng):
    return [float(x) if rng.random() < .5 else int(x) for x in np.round(rng.uniform(0, 40, int(rng.integers(4, 13))), 1)]


def pvgis_hourly(rng):
    fmt = pick(rng, ['json', 'csv'])
    lat, lon = latlon(rng)
    c = F.pvgis_hourly(rng, fmt=fmt, as_read=False)
    kw = opts(rng, .45, raddatabase=pick(rng, ['PVGIS-SARAH2', 'PVGIS-ERA5', 'PVGIS-NSRDB']), components=bool(rng.random() < .4),
              surface_tilt=float(np.round(rng.uniform(0, 90), 1)), surface_azimuth=int(rng.integers(0, 361)),
              usehorizon=bool(rng.random() < .4), userhorizon=lambda: horizon_list(rng), pvcalculation=bool(rng.random() < .6),
              peakpower=float(np.round(rng.uniform(.5, 9), 2)), pvtechchoice=pick(rng, ['crystSi', 'CIS', 'CdTe', 'Unknown']),
              mountingplace=pick(rng, ['free', 'building']), loss=float(np.round(rng.uniform(0, 30), 1)),
              trackingtype=int(rng.integers(0, 6)), optimal_surface_tilt=bool(rng.random() < .6),
              optimalangles=bool(rng.random() < .6), url=pick(rng, ['https://re.jrc.ec.europa.eu/api/v5_2/', 'https://example.org/']),
              timeout=int(rng.integers(1, 99)))
    y0, y1 = sorted(int(x) for x in rng.integers(2005, 2024, 2))

    def year(y):
        k = int(rng.integers(0, 6))
        return [y, pd.Timestamp(y, 6, 1), f'{y}-03-04', dt.datetime(y, 12, 31, 23), f'{y}-01-01', pd.Timestamp(y, 1, 1, 0, 30)][k]
    if rng.random() < .6:
        kw['start'] = year(y0)
    else:
        y0 = None
    if rng.random() < .6:
        kw['end'] = year(y1)
    else:
        y1 = None
    if fmt == 'csv' or rng.random() < .5:
        kw['outputformat'] = fmt
    if rng.random() < .5 or not c.cfg['mapped']:
        kw['map_variables'] = c.cfg['mapped']
    if not kw.get('map_variables', True) == c.cfg['mapped']:
        kw['map_variables'] = c.cfg['mapped']
    g = kw.get
    q = dict(lat=lat, lon=lon, outputformat=fmt, angle=g('surface_tilt', 0), aspect=g('surface_azimuth', 180) - 180,
             pvcalculation=int(g('pvcalculation', False)), pvtechchoice=g('pvtechchoice', 'crystSi'),
             mountingplace=g('mountingplace', 'free'), trackingtype=g('trackingtype', 0), components=int(g('components', True)),
             usehorizon=int(g('usehorizon', True)), optimalangles=int(g('optimalangles', False)),
             optimalinclination=int(g('optimal_surface_tilt', False)), loss=g('loss', 0), userhorizon=g('userhorizon'),
             raddatabase=g('raddatabase'), startyear=y0, endyear=y1, peakpower=g('peakpower'))
    step = Step(g('url', PVGIS) + 'seriescalc', c.raw, query=q, timeout=g('timeout', 30), ctype=JSON if fmt == 'json' else 'text/csv')
    return Job('get_pvgis_hourly', lambda: iot.get_pvgis_hourly(lat, lon, **kw), [step],
               lambda m, out, ctx: fjudge(m, c, out, ctx), cfg=dict(lat=lat, lon=lon, kw=kw), errdoc=PVGIS_ERR)


def pvgis_tmy(rng):
    fmt = pick(rng, ['json', 'csv', 'epw'])
    lat, lon = latlon(rng)
    c = F.pvgis_tmy(rng, fmt=fmt)
    kw = opts(rng, .45, usehorizon=bool(rng.random() < .4), userhorizon=lambda: horizon_list(rng), startyear=int(rng.integers(2005, 2010)),
              endyear=int(rng.integers(2015, 2021)), timeout=int(rng.integers(1, 99)), url='https://re.jrc.ec.europa.eu/api/v5_2/')
    mode = int(rng.integers(0, 5))
    if mode == 0:
        kw['coerce_year'] = None
    elif mode == 1:
        kw['coerce_year'] = int(rng.integers(1970, 2040))
    elif mode >= 3:
        kw['roll_utc_offset'] = int(rng.integers(-11, 13)) if mode == 3 or rng.random() < .7 else 0
        kw['coerce_year'] = pick(rng, [None, 2012, 2021])
    if fmt != 'json' or rng.random() < .5:
        kw['outputformat'] = fmt
    kw['map_variables'] = c.cfg['mapped']
    q = dict(lat=lat, lon=lon, outputformat=fmt, usehorizon=(0 if kw.get('usehorizon') is False else None),
             userhorizon=kw.get('userhorizon'), startyear=kw.get('startyear'), endyear=kw.get('endyear'))
    # the horizon is used unless it is switched off; sending the default explicitly means the same
    fuzzy = {'usehorizon': lambda v: None if (v in (None, '1') if kw.get('usehorizon', True) else v == '0') else f'{v!r}'}
    q.pop('usehorizon')
    cy, roll = kw.get('coerce_year', 1990), kw.get('roll_utc_offset')
    if not (cy is None and roll is None):
        y, r = cy or 1990, roll or 0
        base = pd.date_range(f'{y}-01-01', f'{y}-12-31 23:00', freq='h')
        c.index = base[~((base.month == 2) & (base.day == 29))].tz_localize(fixed(r))
        c.cols = {k: np.roll(v, r) for k, v in c.cols.items()}
    step = Step(kw.get('url', PVGIS) + 'tmy', c.raw, query=q, fuzzy=fuzzy, timeout=kw.get('timeout', 30),
                ctype=JSON if fmt == 'json' else 'text/csv')
    return Job('get_pvgis_tmy', lambda: iot.get_pvgis_tmy(lat, lon, **kw), [step],
               lambda m, out, ctx: fjudge(m, c, out, ctx), cfg=dict(lat=lat, lon=lon, kw=kw), errdoc=PVGIS_ERR)


def pvgis_horizon(rng):
    lat, lon = latlon(rng)
    n = int(pick(rng, [8, 36, 48]))
    az = np.linspace(-180, 180, n + 1)
    h = np.round(rng.uniform(0, 60, n + 1), 1)
    h[-1] = h[0]
    doc = dict(inputs={}, outputs=dict(horizon_profile=[dict(A=a, H_hor=b) for a, b in zip(az.tolist(), h.tolist())],
                                       winter_solstice=[dict(A_sun=0., H_sun=1.)]), meta=dict(inputs=dict(x=word(rng)), outputs={}))
    kw = opts(rng, url='https://example.org/api/', timeout=int(rng.integers(1, 99)))

    def judge(m, out, ctx):
        s, meta = out
        m.check('horizon: series', isinstance(s, pd.Series) and len(s) == n, ctx, f'{type(s)} of {len(s)} for {n}')
        m.ev('values', n)
        m.close('horizon: azimuth', s.index.to_numpy(float), az[:-1] + 180, ctx=ctx)
        m.close('horizon: elevation', s.to_numpy(float), h[:-1], ctx=ctx)
        m.check('horizon: metadata', meta == doc['meta'], ctx)
    step = Step(kw.get('url', PVGIS) + 'printhorizon', json.dumps(doc), query=dict(lat=lat, lon=lon, outputformat='json'),
                timeout=kw.get('timeout'), ctype=JSON)
    return Job('get_pvgis_horizon', lambda: iot.get_pvgis_horizon(lat, lon, **kw), [step], judge,
               cfg=dict(lat=lat, lon=lon, kw=kw), errdoc=PVGIS_ERR)


# ------------------------------------------------------------------------- CAMS
def cams(rng):
    lat, lon = latlon(rng)
    ident = pick(rng, ['mcclear', 'cams_radiation'])
    step = pick(rng, list(F.CAMS_STEPS))
    ref = pick(rng, ['UT', 'TST'])
    verbose = bool(rng.random() < .4)
    real = verbose and step == '1min' and ref == 'UT'
    c = F.cams(rng, step=step, ident='verbose' if real else ident)
    a, b = span(rng, 2004)
    mail = pick(rng, ['me@example.org', 'first.last@site.co.uk'])
    kw = opts(rng, altitude=0 if rng.random() < .25 else float(np.round(rng.uniform(-400, 3000), 1)), timeout=int(rng.integers(1, 99)), url='api.example.org')
    kw.update(identifier=ident, time_step=step, time_ref=ref, verbose=verbose, integrated=c.params['integrated'],
              label=c.params['label'], map_variables=c.params['mapped'])
    want = dict(latitude=lat, longitude=lon, altitude=kw.get('altitude', -999), date_begin=f'{a:%Y-%m-%d}', date_end=f'{b:%Y-%m-%d}',
                time_ref=ref, summarization={'1min': 'PT01M', '15min': 'PT15M', '1h': 'PT01H', '1d': 'P01D', '1M': 'P01M'}[step],
                username=mail.replace('@', '%40'), verbose=str(real).lower())

    def inputs(v):
        try:
            d = dict(x.split('=', 1) for x in v.split(';'))
        except (AttributeError, ValueError):
            return f'{v!r}'
        from mon.net import same
        out = [f'{k}: {d.get(k)!r} instead of {want.get(k)!r}' for k in sorted(set(d) | set(want))
               if k not in d or k not in want or not same(d[k], want[k])]
        return '; '.join(out) or None
    st = Step(f'https://{kw.get("url", "api.soda-solardata.com")}/service/wps', c.raw,
              query=dict(Service='WPS', Request='Execute', Identifier='get_' + ident, version='1.0.0', RawDataOutput='irradiation'),
              fuzzy={'DataInputs': inputs}, timeout=kw.get('timeout', 30), ctype='text/csv')
    x, y = when(rng, a), when(rng, b)
    doc = (b'<?xml version="1.0" encoding="utf-8"?><ows:ExceptionReport><ows:Exception exceptionCode="NoApplicableCode">'
           b'<ows:ExceptionText>Failed to execute WPS process [get_mcclear]: quota exceeded</ows:ExceptionText>'
           b'</ows:Exception></ows:ExceptionReport>')
    return Job('get_cams', lambda: iot.get_cams(lat, lon, x, y, mail, **kw), [st],
               lambda m, out, ctx: fjudge(m, c, out, ctx), cfg=dict(lat=lat, lon=lon, start=x, end=y, kw=kw),
               errdoc=[(500, 'text/xml', doc), (400, 'text/xml', doc), (200, 'text/xml', doc)])


# ------------------------------------------------------- files: one per day/month
def joined(parts):
    """The concatenation of the cases' contents, in order."""
    idx = parts[0].index
    for p in parts[1:]:
        idx = idx.append(p.index)
    keys = list(dict.fromkeys(k for p in parts for k in p.cols))
    cols = {k: np.concatenate([np.asarray(p.cols.get(k, np.full(len(p.index), NAN))) for p in parts]) for k in keys}
    return idx, cols


class _Joined:
    """Looks like a Case for the judge."""

    def __init__(self, parts, meta):
        self.fmt, self.meta, self.cols_only = parts[0].fmt, meta, parts[0].cols_only
        self.index, self.cols = joined(parts)
        if hasattr(parts[0], 'last_col'):
            self.last_col = parts[0].last_col
            self.last_texts = [t for p in parts for t in p.last_texts]


def daily(rng, kind):
    st = pick(rng, ['bon', 'tbl', 'psu', 'dra'] if kind == 'surfrad' else ['abq', 'msn', 'ste', 'bis'])
    a, b = span(rng, 1998, 2024, (0, 3))
    days = [a + dt.timedelta(days=i) for i in range((b - a).days + 1)]
    n = int(rng.integers(2, 14))
    kw = opts(rng, url=f'https://example.org/{kind}/')
    if kind == 'surfrad':
        hd = ('Bondville', fnum(rng, 20, 60, 2), fnum(rng, -130, 130, 2), int(rng.integers(0, 3000)))
        mapped = bool(rng.random() < .6)
        parts = [F.surfrad(rng, day=d, mapped=mapped, header=hd, n=n) for d in days]
        if not mapped or rng.random() < .5:
            kw['map_variables'] = mapped
    else:
        hd = ('Somewhere', fnum(rng, 20, 60, 5), fnum(rng, -130, -60, 5), int(rng.integers(0, 3000)), int(rng.integers(-10, -3)))
        parts = [F.solrad(rng, day=d, station=st, header=hd, n=n, last0=True) for d in days]
    base = kw.get('url', f'https://gml.noaa.gov/aftp/data/radiation/{kind}/')
    names = [f'{st}/{d.year}/{st}{d:%y}{d.timetuple().tm_yday:03d}.dat' for d in days]
    steps = [Step(base + f, p.raw, label=f) for f, p in zip(names, parts)]
    hours = int(rng.integers(0, 24)) if rng.random() < .3 else 0
    x = when(rng, a) if not hours else pd.Timestamp(a) + pd.Timedelta(hours=hours)
    y = when(rng, b) if not hours or rng.random() < .5 else pd.Timestamp(b) + pd.Timedelta(hours=hours)
    # the station is accepted in any case
    name = st.upper() if rng.random() < .4 else st
    fn = getattr(iot, 'get_' + kind)

    def judge(m, out, ctx):
        partial(m, out, [], ctx)

    def partial(m, out, missing, ctx):
        keep = [p for i, p in enumerate(parts) if i not in missing]
        meta = dict(keep[0].meta, station=st)
        fjudge(m, _Joined(keep, meta), out, ctx)
        m.check(f'{kind}: file names', list(out[1].get('filenames', [])) == names, ctx, f'{out[1].get("filenames")}')
    return Job('get_' + kind, lambda: fn(name, x, y, **kw), steps, judge, cfg=dict(station=name, start=x, end=y, kw=kw),
               multi=dict(enumerate(names)), partial=partial)


def surfrad(rng):
    return daily(rng, 'surfrad')


def solrad(rng):
    return daily(rng, 'solrad')


def months_of(rng, lo, hi, maxn=3):
    y, mth = int(rng.integers(lo, hi)), int(rng.integers(1, 13))
    k = int(rng.integers(1, maxn + 1))
    out = [((y + (mth - 1 + i) // 12), (mth - 1 + i) % 12 + 1) for i in range(k)]
    d0, d1 = int(rng.integers(1, 29)), int(rng.integers(1, 29))
    if k == 1 and d1 < d0:
        d0, d1 = d1, d0
    a, b = dt.datetime(*out[0], d0), dt.datetime(*out[-1], d1)
    return out, a, b


def srml(rng):
    st = pick(rng, ['EU', 'BU', 'ST'])
    ft = pick(rng, ['PO', 'RO', 'PQ', 'RF'])
    months, a, b = months_of(rng, 1995, 2024)
    mapped = bool(rng.random() < .6)
    els = [(e + '1', s) for e, s in F.SRML_EL[:int(rng.integers(1, 6))]]
    step = int(pick(rng, [5, 15]))
    parts = [F.srml(rng, year=y, month=mm, step=step, days=1, els=els, mapped=mapped) for y, mm in months]
    kw = opts(rng, url='https://example.org/srml/')
    if ft != 'PO' or rng.random() < .5:
        kw['filetype'] = ft
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    base = kw.get('url', 'http://solardata.uoregon.edu/download/Archive/')
    names = [f'{st}{ft}{y % 100:02d}{mm:02d}.txt' for y, mm in months]
    steps = [Step(base + f, p.raw, label=f) for f, p in zip(names, parts)]
    x, y = when(rng, a), when(rng, b)

    def partial(m, out, missing, ctx):
        keep = [p for i, p in enumerate(parts) if i not in missing]
        j = _Joined(keep, dict(filetype=ft, station=st))
        fjudge(m, j, out, ctx)
        m.check('srml: file names', list(out[1].get('filenames', [])) == names, ctx, f'{out[1].get("filenames")}')
    return Job('get_srml', lambda: iot.get_srml(st, x, y, **kw), steps, lambda m, out, ctx: partial(m, out, [], ctx),
               cfg=dict(station=st, start=x, end=y, kw=kw), multi=dict(enumerate(names)), partial=partial)


def url_file(rng):
    """Readers that accept an address instead of a path."""
    fmt = pick(rng, ['epw', 'surfrad', 'solrad', 'srml', 'crn'])
    c = F.ALL[fmt](rng, **(dict(last0=True) if fmt == 'solrad' else {}))
    url = f'https://example.org/{"msn" if c.cfg.get("station") == "msn" else "data"}/{c.name}{c.suffix}'
    return Job('read_' + fmt + ' (url)', lambda: c.read(url), [Step(url, c.raw)], lambda m, out, ctx: fjudge(m, c, out, ctx),
               cfg=dict(url=url, c=c.cfg))


def bsrn(rng):
    import gzip
    st = pick(rng, ['cab', 'tat', 'spo', 'gvn'])
    months, a, b = months_of(rng, 1995, 2024)
    lrs = pick(rng, [['0100'], ['0100'], ['0100', '0300'], ['0100', '0300', '0500']])
    hd = (int(rng.integers(1, 99)), fnum(rng, 0, 180, 3), fnum(rng, 0, 360, 3), int(rng.integers(0, 3500)), 3)
    sel = tuple(lrs)
    parts = [F.bsrn(rng, station=st, year=y, month=mm, lrs=lrs, select=sel, n=int(rng.integers(1, 12)), header=hd) for y, mm in months]
    names = [f'{st}{mm:02d}{y % 100:02d}.dat.gz' for y, mm in months]
    files = {f'/{st}/{f}': gzip.compress(p.raw) for f, p in zip(names, parts)}
    files[f'/{st}/readme.txt'] = b'x'
    user, pw = word(rng, 6), word(rng, 9)
    ftp = Ftp('ftp.bsrn.awi.de', files, user, pw)
    kw = {} if sel == ('0100',) and rng.random() < .5 else dict(logical_records=sel)
    x, y = when(rng, a), when(rng, b)
    name = st.upper() if rng.random() < .4 else st

    def partial(m, out, missing, ctx):
        keep = [p for i, p in enumerate(parts) if i not in missing]
        j = _Joined(keep, {k: v for k, v in keep[-1].meta.items() if k not in ('start date', 'horizon')})
        if len(sel) > 1:      # the order of stamps inside one file is not documented for several records
            out = (out[0].sort_index(), out[1])
            o = np.argsort(j.index.asi8, kind='stable')
            j.index = j.index[o]
            j.cols = {k: v[o] for k, v in j.cols.items()}
        fjudge(m, j, out, ctx)
    job = Job('get_bsrn', lambda **k: iot.get_bsrn(name, x, y, user, pw, **kw, **k), [], lambda m, out, ctx: partial(m, out, [], ctx),
              cfg=dict(station=name, start=x, end=y, kw=kw), ftp=ftp, multi=dict(enumerate(names)), partial=partial)
    job.files = [f'/{st}/{f}' for f in names]
    job.sel = sel
    return job


# ------------------------------------------------------------------------ MIDC
def midc(rng):
    c = F.midc(rng, raw=True)
    a, b = span(rng)
    site = pick(rng, ['UAT', 'BMS', 'NWTC', 'UNLV'])
    x, y = when(rng, a), when(rng, b)
    if rng.random() < .3:            # the date of an instant
        x, y = when_at(rng, a), when_at(rng, b)
    vmap = {'Global Horizontal [W/m^2]': 'ghi', 'Air Temperature [deg C]': 'temp_air'} if c.cfg['vmap'] else {}
    kw = opts(rng, timeout=int(rng.integers(1, 99)))
    if vmap:
        kw['variable_map'] = vmap
    st = Step('https://midcdmz.nlr.gov/apps/data_api.pl', c.raw, query=dict(site=site, begin=f'{a:%Y%m%d}', end=f'{b:%Y%m%d}'),
              timeout=kw.get('timeout', 30), ctype='text/plain')
    return Job('read_midc_raw_data_from_nrel', lambda: iot.read_midc_raw_data_from_nrel(site, x, y, **kw), [st],
               lambda m, out, ctx: fjudge(m, c, out, ctx), cfg=dict(site=site, start=x, end=y, kw=kw, c=c.cfg),
               errdoc=[(404, 'text/html', b'<html>no such site</html>')])


# ------------------------------------------------------------------------ ACIS
ACIS_MAP = {'pcpn': 'precipitation', 'maxt': 'temp_air_max', 'avgt': 'temp_air_average', 'obst': 'temp_air_observation',
            'mint': 'temp_air_min', 'cdd': 'cooling_degree_days', 'hdd': 'heating_degree_days', 'gdd': 'growing_degree_days',
            'snow': 'snowfall', 'snwd': 'snowdepth'}
ACIS_ERR = [(200, JSON, b'{"error": "no data available"}'), (400, 'text/plain', b'invalid element'), (500, 'text/html', b'<html/>')]


def acis_elems(names):
    def elem(name):
        unit = {'pcpn': ('mm',), 'snow': ('cm', 'mm'), 'snwd': ('cm', 'mm')}.get(name, ('degreeC',))
        return lambda g: None if (isinstance(g, dict) and g.get('name') == name and g.get('interval') == 'dly'
                                  and g.get('units') in unit) else f'{g!r} for daily {name} in {unit}'

    def check(got):
        if not isinstance(got, list) or sorted(str(e.get('name')) for e in got) != sorted(names):
            return f'elements {got!r}'
        return '; '.join(filter(None, (elem(e['name'])(e) for e in got))) or None
    return check


def acis(rng):
    kind = pick(rng, ['prism', 'nrcc', 'mpe', 'station_data', 'available_stations'])
    lat, lon = latlon(rng)
    a, b = span(rng, 1990, 2024, (0, 25))
    x, y = when(rng, a), when(rng, b)
    kw = opts(rng, .4, url='https://example.org/acis', timeout=int(rng.integers(1, 99)))
    hdr = {'Content-Type': 'application/json'}
    to = kw.get('timeout')
    if kind == 'available_stations':
        la, lo = sorted(np.round(rng.uniform(20, 60, 2), 3).tolist()), sorted(np.round(rng.uniform(-120, -60, 2), 3).tolist())
        n = int(rng.integers(0, 6))
        recs = [dict(name=word(rng), state='CO', sids=[word(rng), word(rng)], sid_dates=[], ll=[fnum(rng, -120, -60, 3)[1], fnum(rng, 20, 60, 3)[1]],
                     elev=float(int(rng.integers(0, 9000))), uid=int(rng.integers(1, 99999)), county='08001', climdiv='CO04', tzo=-7,
                     network='x') for _ in range(n)]
        dates = bool(rng.random() < .5)
        pay = dict(bbox=lambda v: None if [float(z) for z in str(v).split(',')] == [lo[0], la[0], lo[1], la[1]] else f'{v!r}',
                   meta=lambda v: None if {'sids', 'll', 'elev', 'name'} <= set(v.split(',') if isinstance(v, str) else v) else f'{v!r}')
        if dates:
            pay.update(elems=lambda v: None if isinstance(v, list) and v else f'{v!r}', sdate=f'{a:%Y-%m-%d}', edate=f'{b:%Y-%m-%d}')
        st = Step(kw.get('url', 'https://data.rcc-acis.org/StnMeta'), json.dumps(dict(meta=recs)), method='POST', payload=pay,
                  headers=hdr, timeout=to, ctype=JSON)

        def judge(m, out, ctx):
            m.check('acis: stations', len(out) == n, ctx, f'{len(out)} stations for {n}')
            for i, r in enumerate(recs[:len(out)]):
                m.ev('values', 4)
                got = out.iloc[i]
                bad = [k for k, v in dict(name=r['name'], sids=r['sids'], longitude=r['ll'][0], latitude=r['ll'][1], uid=r['uid']).items()
                       if k not in out.columns or got[k] != v]
                # feet as delivered, or metres: the unit is not documented
                alt = float(got['altitude'])
                if not (abs(alt - r['elev']) < 1e-6 or abs(alt - .3048 * r['elev']) < 1e-6):
                    bad.append('altitude')
                m.check('acis: station record', not bad, dict(ctx, got=dict(got), want=r), f'{bad} differ')
        args = [la, lo] + ([x, y] if dates else [])
        return Job('get_acis_available_stations', lambda: iot.get_acis_available_stations(*args, **kw), [st], judge,
                   cfg=dict(args=args, kw=kw), errdoc=ACIS_ERR)
    n = (b - a).days + 1
    dates = [a + dt.timedelta(days=i) for i in range(n)]
    names = {'mpe': ['pcpn'], 'station_data': ['maxt', 'mint', 'avgt', 'obst', 'pcpn', 'snow', 'snwd', 'cdd', 'hdd', 'gdd']}.get(
        kind, ['pcpn', 'maxt', 'mint', 'avgt', 'cdd', 'hdd', 'gdd'])
    mapped = bool(rng.random() < .6)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    trace = .001
    if kind == 'station_data' and rng.random() < .5:
        trace = kw['trace_val'] = pick(rng, [0, .05, .25])
    cols = {k: [] for k in names}
    table = {}
    for k in names:
        vals, raw = [], []
        for _ in range(n):
            u = rng.random()
            if kind == 'station_data':
                if u < .1:
                    raw.append('M')
                    vals.append(NAN)
                elif u < .25 and k in ('pcpn', 'snow', 'snwd'):
                    raw.append('T')
                    vals.append(float(trace))
                else:
                    t, v = fnum(rng, -30, 40, 1)
                    raw.append(t)
                    vals.append(v)
            elif u < .1:
                raw.append(-999)
                vals.append(NAN)
            elif u < .15:
                raw.append(-99.9)
                vals.append(-99.9)
            else:
                v = fnum(rng, -30, 40, 1)[1]
                raw.append(v)
                vals.append(v)
        table[k], cols[k] = raw, np.array(vals)
    elev = int(rng.integers(-200, 12000))
    meta = dict(ll=[lon, lat], elev=elev)
    if kind == 'mpe':
        meta.pop('elev')
    if kind == 'station_data':
        meta.update(name=word(rng), sids=[word(rng)], state='IL')
    pay = dict(sdate=f'{a:%Y-%m-%d}', edate=f'{b:%Y-%m-%d}', output='json')
    if kind == 'station_data':
        sid = pick(rng, ['ORD', '369367', 369367])
        pay.update(sid=str(sid))
        pay['meta'] = lambda v: None if {'ll', 'elev', 'name', 'sids'} <= set(v.split(',') if isinstance(v, str) else v) else f'{v!r}'
        url = 'https://data.rcc-acis.org/StnData'
        args = [sid, x, y]
        label = 'get_acis_station_data'
    else:
        grid = {'prism': '21', 'mpe': '2'}.get(kind) or int(pick(rng, [1, 3]))
        pay.update(loc=lambda v: None if [float(z) for z in str(v).split(',')] == [lon, lat] else f'{v!r} for {lon},{lat}',
                   grid=lambda v: None if str(v) == str(grid) else f'{v!r}')
        pay['meta'] = lambda v: None if 'll' in v and ('elev' in v) == (kind != 'mpe') else f'{v!r}'
        url = 'https://data.rcc-acis.org/GridData'
        args = [lat, lon, x, y] + ([grid] if kind == 'nrcc' else [])
        label = 'get_acis_' + kind
    # the order of the elements is the caller's: answer in the order that was asked for
    pay['elems'] = acis_elems(names)

    def judge(m, out, ctx):
        data, got = out
        want = {(ACIS_MAP[k] if mapped else k): cols[k] for k in names}
        frame_check(m, 'acis', data, pd.DatetimeIndex(dates), want, ctx)
        w = {('latitude' if mapped else 'lat'): lat, ('longitude' if mapped else 'lon'): lon}
        if kind != 'mpe':
            w['altitude' if mapped else 'elev'] = elev * .3048
        if kind == 'station_data':
            w.update(name=meta['name'], sids=meta['sids'])
        meta_check(m, 'acis', got, w, ctx)

    class S(Step):
        def answer_for(self, r):
            try:
                order = [e['name'] for e in json.loads(r['body'])['elems']]
                rows = [[f'{d:%Y-%m-%d}'] + [table[k][i] for k in order] for i, d in enumerate(dates)]
                return json.dumps(dict(meta=meta, data=rows)).encode()
            except (KeyError, ValueError, TypeError):
                return b'{"error": "bad request"}'
    st = S(kw.get('url', url), b'', method='POST', payload=pay, headers=hdr, timeout=to, ctype=JSON)
    return Job(label, lambda: getattr(iot, label)(*args, **kw), [st], judge, cfg=dict(args=args, kw=kw), errdoc=ACIS_ERR)


# ------------------------------------------------------------------- Meteonorm
MN_MAP = {"global_horizontal_irradiance": "ghi", "diffuse_horizontal_irradiance": "dhi", "direct_normal_irradiance": "dni",
          "direct_horizontal_irradiance": "bhi", "global_clear_sky_irradiance": "ghi_clear",
          "diffuse_clear_sky_irradiance": "dhi_clear", "direct_normal_clear_sky_irradiance": "dni_clear",
          "direct_horizontal_clear_sky_irradiance": "bhi_clear", "diffuse_tilted_irradiance": "poa_diffuse",
          "direct_tilted_irradiance": "poa_direct", "global_tilted_irradiance": "poa", "temperature": "temp_air",
          "dew_point_temperature": "temp_dew"}


def instant(rng, lo=2000, hi=2030):
    """(what the caller writes, the instant in UTC)"""
    t = pd.Timestamp(int(rng.integers(lo, hi)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(0, 24)), int(pick(rng, [0, 30])))
    k = int(rng.integers(0, 5))
    if k == 0:
        return t, t
    if k == 1:
        return t.isoformat(), t
    if k == 2:
        return t.tz_localize('UTC'), t
    z = pick(rng, ['Etc/GMT+7', 'Asia/Kolkata', 'America/New_York', 'Europe/Copenhagen', 'Etc/GMT-5'])
    loc = t.tz_localize('UTC').tz_convert(z)
    return (loc if k == 3 else loc.isoformat()), t


def meteonorm(rng):
    kind = pick(rng, ['forecast_basic', 'forecast_precision', 'observation_realtime', 'observation_training', 'tmy'])
    lat, lon = latlon(rng)
    key = word(rng)
    kw = opts(rng, .45, surface_tilt=float(np.round(rng.uniform(0, 90), 1)), surface_azimuth=int(rng.integers(0, 361)),
              horizon=pick(rng, ['flat', 'auto', [int(x) for x in rng.integers(0, 30, 360)]]), url='https://example.org/v1/',
              interval_index=bool(rng.random() < .6))
    names = [pick(rng, [k, v]) for k, v in MN_MAP.items()] + ['wind_speed', 'relative_humidity']
    sel = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 8))]]
    args = [lat, lon]
    q = dict(lat=lat, lon=lon, surface_tilt=kw.get('surface_tilt', 0), surface_azimuth=kw.get('surface_azimuth', 180),
             horizon=kw.get('horizon', 'auto'), response_format='json')
    if kind != 'tmy':
        for nm in ('start', 'end'):
            if rng.random() < .3:
                v = pick(rng, ['now', '+3hours', '-2days'])
                args.append(v)
                q[nm] = v
            else:
                v, t = instant(rng)
                args.append(v)
                q[nm] = t.strftime('%Y-%m-%dT%H:%M:%SZ')
    steps = {'forecast_basic': None, 'tmy': '1h'}.get(kind, '15min')
    if kind != 'forecast_basic':
        if rng.random() < .6:
            kw['time_step'] = steps = pick(rng, ['1h', '1min', '15min'] if kind != 'tmy' else ['1h', '1min'])
        q['frequency'] = {'1h': '1_hour', '15min': '15_minutes', '1min': '1_minute'}[steps]
    args.append(key)
    if rng.random() < .7:
        if rng.random() < .2:
            sel = sel[:1]
            args.append(sel[0] if rng.random() < .5 else sel)
        else:
            args.append(sel)
        inv = {v: k for k, v in MN_MAP.items()}
        q['parameters'] = [inv.get(p, p) for p in sel]
    else:
        q['parameters'] = 'all'
        inv = {v: k for k, v in MN_MAP.items()}
    if kind == 'tmy':
        x = opts(rng, .45, terrain_situation=pick(rng, ['open', 'city', 'slope_south']), albedo=float(np.round(rng.uniform(.1, .9), 2)),
                 turbidity=pick(rng, ['auto', [float(v) for v in np.round(rng.uniform(1, 7, 12), int(pick(rng, [1, 3])))]]),
                 random_seed=int(rng.integers(0, 999)), clear_sky_radiation_model=pick(rng, ['esra', 'solis']),
                 future_scenario=pick(rng, ['ssp1_26', 'ssp5_85']), future_year=int(rng.integers(2030, 2060)))
        kw.update(x)
        q.update(situation=x.get('terrain_situation', 'open'), turbidity=x.get('turbidity', 'auto'), albedo=x.get('albedo'),
                 clear_sky_radiation_model=x.get('clear_sky_radiation_model', 'esra'), random_seed=x.get('random_seed'),
                 future_scenario=x.get('future_scenario'), future_year=x.get('future_year'))
    n = int(rng.integers(1, 30))
    mins = {'1h': 60, '15min': 15, '1min': 1, None: 60}[steps]
    t0 = pd.Timestamp(int(rng.integers(2000, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), tz='UTC')
    st = pd.date_range(t0, periods=n, freq=f'{mins}min')
    en = st + pd.Timedelta(minutes=mins)
    cols = [inv.get(p, p) for p in sel]
    vals = {c: np.round(rng.uniform(-5, 1000, n), 2) for c in cols}
    if n > 1:
        for c in cols:
            if rng.random() < .25:              # some values may be missing, the first as well
                vals[c][rng.integers(0, n) if rng.random() < .5 else 0] = np.nan
    doc = dict(meta=dict(lat=lat, lon=lon, altitude=int(rng.integers(0, 3000)), timezone='UTC', id=word(rng)),
               values={c: [None if np.isnan(x) else x for x in v.tolist()] for c, v in vals.items()},
               start_times=[t.isoformat() for t in st], end_times=[t.isoformat() for t in en])
    empty = rng.random() < .4
    if empty:
        doc['values']['wet_bulb'] = None
    mapped = bool(rng.random() < .6)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped

    def judge(m, out, ctx):
        data, meta = out
        want = {(MN_MAP.get(c, c) if mapped else c): v for c, v in vals.items()}
        if kw.get('interval_index'):
            ok = isinstance(data.index, pd.IntervalIndex) and len(data) == n and \
                same_stamps(data.index.left, st)[0] and same_stamps(data.index.right, en)[0]
            m.check('meteonorm: interval index', ok, ctx, f'{data.index[:2]}')
            data = data.set_axis(st + pd.Timedelta(minutes=mins) / 2)
        frame_check(m, 'meteonorm', data, st + pd.Timedelta(minutes=mins) / 2, want, ctx)
        w = dict(altitude=doc['meta']['altitude'], id=doc['meta']['id'])
        w.update({'latitude': lat, 'longitude': lon} if mapped else {'lat': lat, 'lon': lon})
        meta_check(m, 'meteonorm', meta, w, ctx)
    path = {'tmy': 'climate/tmy'}.get(kind) or kind.replace('_', '/', 1)
    s = Step(kw.get('url', 'https://api.meteonorm.com/v1/') + path, json.dumps(doc), query=q, headers={'Authorization': 'Bearer ' + key}, ctype=JSON)
    fn = 'get_meteonorm_' + kind
    return Job(fn, lambda: getattr(iot, fn)(*args, **kw), [s], judge, cfg=dict(args=args, kw=kw),
               errdoc=[(400, JSON, b'{"error": {"message": "invalid latitude"}}'), (401, JSON, b'{"error": {"message": "invalid key"}}')])


# ------------------------------------------------------------------ NASA POWER
NP_MAP = {'ALLSKY_SFC_SW_DWN': 'ghi', 'ALLSKY_SFC_SW_DIFF': 'dhi', 'ALLSKY_SFC_SW_DNI': 'dni', 'ALLSKY_SRF_ALB': 'albedo',
          'ALLSKY_SFC_LW_DWN': 'longwave_down', 'CLRSKY_SFC_SW_DIFF': 'dhi_clear', 'CLRSKY_SFC_SW_DNI': 'dni_clear',
          'CLRSKY_SFC_SW_DWN': 'ghi_clear', 'PS': 'pressure', 'RH2M': 'relative_humidity', 'T2M': 'temp_air', 'T2MDEW': 'temp_dew',
          'TQV': 'precipitable_water', 'TOA_SW_DWN': 'ghi_extra', 'WS2M': 'wind_speed_2m', 'WS10M': 'wind_speed'}


def nasa_power(rng):
    lat, lon = latlon(rng)
    a, b = span(rng, 2001, 2024, (0, 3))
    x, y = when(rng, a), when(rng, b)
    names = [pick(rng, [k, v]) for k, v in NP_MAP.items()] + ['U10M']
    sel = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 9))]]
    kw = opts(rng, .4, community=pick(rng, ['re', 'ag', 'sb']), elevation=0 if rng.random() < .25 else int(rng.integers(-50, 3000)), wind_height=int(rng.integers(10, 300)),
              wind_surface=pick(rng, ['vegtype_1', 'airportgrass']), url='https://example.org/power')
    inv = {v: k for k, v in NP_MAP.items()}
    if rng.random() < .75:
        kw['parameters'] = sel
    else:
        sel = ['dni', 'dhi', 'ghi', 'temp_air', 'wind_speed']
    raw = [inv.get(p, p) for p in sel]
    mapped = bool(rng.random() < .65)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    n = 24 * ((b - a).days + 1)
    idx = pd.date_range(a, periods=n, freq='h', tz='UTC')
    fill = float(pick(rng, [-999.0, -9999.0]))
    other = -9999.0 if fill == -999. else -999.
    vals, doc = {}, {}
    for c in raw:
        v = np.round(rng.uniform(-20, 1000, n), 2)
        miss = rng.random(n) < .07
        near = (rng.random(n) < .03) & ~miss
        v[near] = pick(rng, [other, -99.0])
        doc[c] = {t.strftime('%Y%m%d%H'): (fill if z else float(w)) for t, w, z in zip(idx, v, miss)}
        vals[c] = np.where(miss, NAN, v)
    alt = float(np.round(rng.uniform(0, 3000), 2))
    body = dict(type='Feature', geometry=dict(type='Point', coordinates=[lon, lat, alt]), properties=dict(parameter=doc),
                header=dict(title='NASA/POWER', api=dict(version='v2'), fill_value=fill, start=f'{a:%Y%m%d}', end=f'{b:%Y%m%d}'),
                messages=[], parameters={c: dict(units='W/m^2', longname=c) for c in raw}, times=dict(data=1.2, process=.1))
    q = dict(latitude=lat, longitude=lon, start=f'{a:%Y%m%d}', end=f'{b:%Y%m%d}', community=kw.get('community', 're'), parameters=raw,
             format='json', header='True', **{'time-standard': 'utc', 'site-elevation': kw.get('elevation'),
                                              'wind-elevation': kw.get('wind_height'), 'wind-surface': kw.get('wind_surface')})

    def judge(m, out, ctx):
        data, meta = out
        want = {}
        for c, v in vals.items():
            f = {'PS': 1000., 'TQV': .1}.get(c, 1.) if mapped else 1.
            want[NP_MAP.get(c, c) if mapped else c] = v * f
        frame_check(m, 'nasa_power', data, idx, want, ctx)
        meta_check(m, 'nasa_power', meta, dict(latitude=lat, longitude=lon, altitude=alt, fill_value=fill, title='NASA/POWER',
                                               parameters=body['parameters']), ctx)
    s = Step(kw.get('url', 'https://power.larc.nasa.gov/api/temporal/hourly/point'), json.dumps(body), query=q, ctype=JSON,
             fuzzy={'header': lambda v: None if str(v).lower() == 'true' else f'{v!r}'})
    s.query.pop('header')
    return Job('get_nasa_power', lambda: iot.get_nasa_power(lat, lon, x, y, **kw), [s], judge, cfg=dict(lat=lat, lon=lon, start=x, end=y, kw=kw),
               errdoc=[(422, JSON, b'{"header": "The POWER Hourly API could not complete your request", "messages": ["bad date"]}')])


# ------------------------------------------------------------------- Solargis
SG = {'GHI': ('ghi', None), 'GHIc': ('ghi_clear', None), 'GHI_C': ('ghi_clear', None), 'DNI': ('dni', None), 'DNIc': ('dni_clear', None),
      'DIF': ('dhi', None), 'GTI': ('poa_global', None), 'SE': ('solar_elevation', None), 'SA': ('solar_azimuth', lambda x: x + 180),
      'TEMP': ('temp_air', None), 'TD': ('temp_dew', None), 'AP': ('pressure', lambda x: x * 100), 'RH': ('relative_humidity', None),
      'WS': ('wind_speed', None), 'WD': ('wind_direction', None), 'INC': ('aoi', None), 'PWAT': ('precipitable_water', lambda x: x / 10),
      'KT': ('KT', None), 'PREC': ('PREC', None), 'SDWE': ('SDWE', None)}
SG_NA = {'GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'KT', 'PAR', 'PREC', 'PWAT', 'SDWE', 'SFWE'}
SG_RES = {5: 'MIN_5', 10: 'MIN_10', 15: 'MIN_15', 30: 'MIN_30', 60: 'HOURLY', 'PT05M': 'MIN_5', 'PT5M': 'MIN_5', 'PT10M': 'MIN_10',
          'PT15M': 'MIN_15', 'PT60M': 'HOURLY', 'PT1H': 'HOURLY', 'P1D': 'DAILY', 'P1M': 'MONTHLY', 'P1Y': 'YEARLY', 'HOURLY': 'HOURLY',
          'hourly': 'HOURLY', 'MIN_30': 'MIN_30'}


def solargis(rng):
    import xml.etree.ElementTree as ET
    lat, lon = latlon(rng)
    a, b = span(rng, 2000, 2024)
    x, y = when(rng, a), when(rng, b)
    names = [k for k in SG if k != 'GHI_C'] if rng.random() < .7 else [k for k in SG if k != 'GHIc']
    sel = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 10))]]
    res = pick(rng, list(SG_RES))
    kw = opts(rng, .45, timestamp_type=pick(rng, ['center', 'start', 'end', 'CENTER']), tz=pick(rng, ['GMT+00', 'GMT-05', 'GMT+09']),
              terrain_shading=bool(rng.random() < .4), url='https://example.org/ws', timeout=int(rng.integers(1, 99)))
    mapped = bool(rng.random() < .6)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    key = word(rng)
    n = int(rng.integers(1, 30))
    off = int(pick(rng, [0, 0, -5, 9]))
    t0 = dt.datetime(a.year, a.month, a.day, 0, 30)
    times = [t0 + dt.timedelta(hours=i) for i in range(n)]
    vals, texts = {}, {}
    for c in sel:
        t, v = column(rng, n, -20, 1000, int(pick(rng, [0, 1, 2])))
        v = np.where(v == -9., -8., v)
        t = [('-8' if float(w) == -9. else w) for w in t]
        miss = rng.random(n) < .1
        t = ['-9' if z else w for w, z in zip(t, miss)]
        if rng.random() < .5:
            t = ['-9.0' if w == '-9' else w for w in t]
        v = np.where(miss, NAN if c in SG_NA else -9., v)
        vals[c], texts[c] = v, t
    alt = round(float(rng.uniform(0, 3000)), 1)
    zone = f'{off:+03d}:00' if off else '.000Z'
    stamp = [f'{t:%Y-%m-%dT%H:%M:%S}' + ('.000' + zone if off else zone) for t in times]
    meta = (f'#15 MINUTE VALUES OF SOLAR RADIATION\n#\n#Issued: 2022-11-28 13:26\n#\n#METADATA\n#Site name: Site_{word(rng)}\n'
            f'#Latitude: {lat:.6f}\n#Longitude: {lon:.6f}\n#Elevation: {alt} m a.s.l.\n#http://solargis.info/ws\n#\n'
            '#Output from the climate database: Solargis v2.1.49\n#Summarization type: interpolated\n#Summarization period: x - y\n')
    rows = ''.join(f'<row dateTime="{s}" values="{" ".join(texts[c][i] for c in sel)}"/>' for i, s in enumerate(stamp))
    xml = ('<?xml version="1.0"?><dataDeliveryResponse xmlns="http://geomodel.eu/schema/ws/data" xmlns:ns2="http://geomodel.eu/schema/common/geo">'
           f'<site id="site_{word(rng)}" lat="{lat}" lng="{lon}"><metadata>{meta}</metadata><columns>{" ".join(sel)}</columns>{rows}</site>'
           '</dataDeliveryResponse>')

    def check(r):
        out = []
        try:
            root = ET.fromstring(r['body'])
        except (ET.ParseError, TypeError) as e:
            return [f'body is not XML: {e}']
        loc = {}
        for e in root.iter():
            loc.setdefault(e.tag.split('}')[-1], e)
        site, proc = loc.get('site'), loc.get('processing')
        if site is None or proc is None:
            return ['no site or processing element']
        for nm, got, want in (('dateFrom', root.get('dateFrom'), f'{a:%Y-%m-%d}'), ('dateTo', root.get('dateTo'), f'{b:%Y-%m-%d}'),
                              ('variables', proc.get('key'), ' '.join(sel)), ('summarization', proc.get('summarization'), SG_RES[res]),
                              ('terrainShading', proc.get('terrainShading'), str(kw.get('terrain_shading', True)).lower()),
                              ('timestampType', loc['timestampType'].text if 'timestampType' in loc else None, kw.get('timestamp_type', 'center').upper()),
                              ('timeZone', loc['timeZone'].text if 'timeZone' in loc else None, kw.get('tz', 'GMT+00'))):
            if got != want:
                out.append(f'{nm}: {got!r} instead of {want!r}')
        try:
            if float(site.get('lat')) != lat or float(site.get('lng')) != lon:
                out.append(f'site {site.attrib} instead of {lat}, {lon}')
        except (TypeError, ValueError):
            out.append(f'site {site.attrib}')
        return out

    def judge(m, out, ctx):
        data, got = out
        want = {}
        for c in sel:
            nm, f = SG[c]
            want[nm if mapped else c] = f(vals[c]) if (f and mapped) else vals[c]
        idx = pd.DatetimeIndex(times).tz_localize(fixed(off))
        frame_check(m, 'solargis', data, idx, want, ctx)
        meta_check(m, 'solargis', got, dict(latitude=round(float(lat), 6), longitude=round(float(lon), 6), altitude=alt), ctx)
        m.check('solargis: metadata text', 'interpolated' in str(got.get('summarization type')) and '2022-11-28 13:26' in str(got.get('issued')), ctx, str(got))
    s = Step(kw.get('url', 'https://solargis.info/ws/rest/datadelivery/request'), xml, method='POST', query=dict(key=key), check=check,
             headers={'Content-Type': 'application/xml'}, timeout=kw.get('timeout', 30), ctype='application/xml')
    return Job('get_solargis', lambda: iot.get_solargis(lat, lon, x, y, sel, key, res, **kw), [s], judge,
               cfg=dict(lat=lat, lon=lon, start=x, end=y, sel=sel, res=res, kw=kw),
               errdoc=[(400, JSON, b'{"message": "bad request"}'), (401, 'text/html', b'<html>no</html>'),
                       (200, 'application/xml', b'<?xml version="1.0"?><dataDeliveryResponse xmlns="http://geomodel.eu/schema/ws/data"></dataDeliveryResponse>')])


# -------------------------------------------------------------------- Solcast
SC = {'air_temp': ('temp_air', None), 'surface_pressure': ('pressure', lambda x: x * 100), 'dewpoint_temp': ('temp_dew', None),
      'gti': ('poa_global', None), 'wind_speed_10m': ('wind_speed', None), 'wind_direction_10m': ('wind_direction', None),
      'azimuth': ('solar_azimuth', lambda x: np.mod(-x, 360)), 'precipitable_water': ('precipitable_water', lambda x: x / 10),
      'zenith': ('solar_zenith', None), 'clearsky_dhi': ('dhi_clear', None), 'clearsky_dni': ('dni_clear', None),
      'clearsky_ghi': ('ghi_clear', None), 'clearsky_gti': ('poa_global_clear', None), 'ghi': ('ghi', None), 'dni': ('dni', None),
      'dhi': ('dhi', None), 'albedo': ('albedo', None), 'relative_humidity': ('relative_humidity', None)}


def solcast(rng):
    kind = pick(rng, ['tmy', 'historic', 'forecast', 'live'])
    lat, lon = latlon(rng)
    key = word(rng)
    names = list(SC)
    sel = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 10))]]
    mins = int(pick(rng, [5, 10, 15, 30, 60]))
    n = int(rng.integers(1, 40))
    end = pd.date_range(pd.Timestamp(int(rng.integers(2007, 2025)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), tz='UTC')
                        + pd.Timedelta(minutes=mins), periods=n, freq=f'{mins}min')
    vals = {c: (np.round(rng.uniform(-180, 180, n), 1) if c == 'azimuth' else np.round(rng.uniform(0, 1000, n), 1)) for c in sel}
    pt = {5: 'PT5M', 10: 'PT10M', 15: 'PT15M', 30: 'PT30M', 60: pick(rng, ['PT60M', 'PT1H'])}[mins]
    recs = [dict(period_end=t.strftime('%Y-%m-%dT%H:%M:%S.0000000Z'), period=pt, **{c: float(vals[c][i]) for c in sel}) for i, t in enumerate(end)]
    body = {{'tmy': 'estimated_actuals', 'historic': 'estimated_actuals', 'forecast': 'forecasts', 'live': 'estimated_actuals'}[kind]: recs}
    kw = opts(rng, .4, output_parameters=','.join(sel), time_zone=int(rng.integers(-8, 9)), tilt=float(np.round(rng.uniform(0, 60), 1)), hours=int(rng.integers(1, 99)))
    q = dict(latitude=lat, longitude=lon, format='json', **kw)
    fuzzy = {}
    args = [lat, lon]
    if kind == 'historic':
        s0 = pick(rng, ['2007-01-01T00:00Z', '2021-05-06'])
        args += [s0]
        q['start'] = s0
        if rng.random() < .5:
            kw['end'] = q['end'] = '2007-01-02T00:00Z'
        else:
            kw['duration'] = q['duration'] = 'P1D'
        fuzzy['api_key'] = lambda v: None if v in (None, key) else f'{v!r}'
    args.append(key)
    mapped = bool(rng.random() < .65)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped

    def judge(m, out, ctx):
        data, meta = out
        meta_check(m, 'solcast', meta, dict(latitude=lat, longitude=lon), ctx)
        if mapped:
            want = {SC[c][0]: (SC[c][1](vals[c]) if SC[c][1] else vals[c]) for c in sel}
            frame_check(m, 'solcast', data, end - pd.Timedelta(minutes=mins) / 2, want, ctx)
        else:
            m.check('solcast: raw columns', set(data.columns) >= set(sel) | {'period_end', 'period'}, ctx, str(list(data.columns)))
            frame_check(m, 'solcast', data.reset_index(drop=True), list(range(n)), {c: vals[c] for c in sel if c in data}, ctx, exact=False)
            m.check('solcast: raw times', [str(v) for v in data.get('period_end', [])] == [r['period_end'] for r in recs], ctx)
    path = {'tmy': 'tmy', 'historic': 'historic', 'forecast': 'forecast', 'live': 'live'}[kind]
    s = Step(f'https://api.solcast.com.au/data/{path}/radiation_and_weather', json.dumps(body), query=q, fuzzy=fuzzy,
             headers={'Authorization': 'Bearer ' + key}, ctype=JSON)
    fn = 'get_solcast_' + kind
    return Job(fn, lambda: getattr(iot, fn)(*args, **kw), [s], judge, cfg=dict(args=args, kw=kw),
               errdoc=[(401, JSON, b'{"response_status": {"error_code": "Unauthorized", "message": "x", "errors": []}}'),
                       (402, JSON, b'{"response_status": {"error_code": "PaymentRequired", "message": "x", "errors": []}}')])


# ----------------------------------------------------------------------- ERA5
ERA = {'t2m': ('temp_air', '2m_temperature', lambda x: x - 273.15), 'd2m': ('temp_dew', '2m_dewpoint_temperature', lambda x: x - 273.15),
       'sp': ('pressure', 'surface_pressure', None), 'ssrd': ('ghi', 'surface_solar_radiation_downwards', lambda x: x / 3600),
       'fdir': ('bhi', 'total_sky_direct_solar_radiation_at_surface', lambda x: x / 3600), 'tp': ('precipitation', 'total_precipitation', lambda x: x * 100),
       'strd': ('longwave_down', 'surface_thermal_radiation_downwards', lambda x: x / 3600), 'u10': ('u10', '10m_u_component_of_wind', None)}


def day_any_tz(rng, d):
    """A date the caller writes with or without a time zone, and the UTC date it means."""
    if rng.random() < .5:
        return when(rng, d), pd.Timestamp(d)
    z = pick(rng, ['Etc/GMT+7', 'Asia/Kolkata', 'UTC', 'Etc/GMT-12'])
    t = (pd.Timestamp(d) + pd.Timedelta(hours=int(rng.integers(0, 24)))).tz_localize(z)
    return (t if rng.random() < .6 else t.isoformat()), t.tz_convert('UTC').tz_localize(None)


def era5(rng):
    lat, lon = latlon(rng)
    a, b = span(rng, 1960, 2024)
    x, ua = day_any_tz(rng, a)
    y, ub = day_any_tz(rng, b)
    short = [list(ERA)[i] for i in rng.permutation(len(ERA))[:int(rng.integers(1, 6))]]
    ask = [ERA[s][0] if (rng.random() < .5 and s != 'u10') else ERA[s][1] for s in short]
    key, jid = word(rng), word(rng)
    kw = opts(rng, .4, url='https://example.org/cds/', timeout=int(rng.integers(5, 99)))
    mapped = bool(rng.random() < .65)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    base = kw.get('url', 'https://cds.climate.copernicus.eu/api/retrieve/v1/')
    to = kw.get('timeout', 60)
    n = int(rng.integers(1, 40))
    idx = pd.date_range(f'{ua:%Y-%m-%d}', periods=n, freq='h', tz='UTC')
    vals = {s: np.round(rng.uniform(0, 300, n) * (1e4 if s in ('ssrd', 'fdir', 'strd') else 1), 4) for s in short}
    glat, glon = round(lat * 4) / 4, round(lon * 4) / 4
    head = ','.join(['valid_time'] + short + ['latitude', 'longitude'])
    text = head + '\n' + ''.join(','.join([t.strftime('%Y-%m-%d %H:%M:%S')] + [repr(float(vals[s][i])) for s in short] + [str(glat), str(glon)]) + '\n'
                                 for i, t in enumerate(idx))
    zb = io.BytesIO()
    with zipfile.ZipFile(zb, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr(f'reanalysis-era5-{word(rng)}.csv', text)
    polls = int(pick(rng, [0, 1, 3]))
    h = {'PRIVATE-TOKEN': key}
    link = f'https://object-store.example.org/{word(rng)}/x.zip'

    def dates(v):
        return None if v in ([f'{ua:%Y-%m-%d}/{ub:%Y-%m-%d}'],) else f'{v!r} instead of {ua:%Y-%m-%d}/{ub:%Y-%m-%d}'
    pay = dict(inputs=dict(variable=[ERA[s][1] for s in short], location=dict(longitude=lon, latitude=lat), date=dates, data_format='csv'))
    steps = [Step(base + 'processes/reanalysis-era5-single-levels-timeseries/execution',
                  json.dumps(dict(jobID=jid, status='accepted', metadata=dict(messages=[word(rng)], origin='api'))), method='POST',
                  payload=pay, headers=h, timeout=to, status=201, ctype=JSON, label='submit')]
    steps += [Step(base + 'jobs/' + jid, json.dumps(dict(jobID=jid, status=pick(rng, ['accepted', 'running']))), headers=h, timeout=to, ctype=JSON,
                   label=f'poll {i}') for i in range(polls)]
    steps += [Step(base + 'jobs/' + jid, json.dumps(dict(jobID=jid, status='successful')), headers=h, timeout=to, ctype=JSON, label='poll done'),
              Step(base + f'jobs/{jid}/results', json.dumps(dict(asset=dict(value=dict(href=link, type='application/zip')))), headers=h, timeout=to,
                   ctype=JSON, label='results'),
              Step(link, zb.getvalue(), timeout=to, ctype='application/zip', label='download')]

    def judge(m, out, ctx):
        data, meta = out
        want = {}
        for s in short:
            want[ERA[s][0] if mapped else s] = ERA[s][2](vals[s]) if (mapped and ERA[s][2]) else vals[s]
        frame_check(m, 'era5', data, idx, want, ctx)
        meta_check(m, 'era5', meta, dict(latitude=glat, longitude=glon, jobID=jid), ctx)
    return Job('get_era5', lambda: iot.get_era5(lat, lon, x, y, ask, key, **kw), steps, judge,
               cfg=dict(lat=lat, lon=lon, start=x, end=y, ask=ask, kw=kw, polls=polls), data_steps=[len(steps) - 1],
               errdoc=[(403, JSON, b'{"type": "permission denied", "title": "required licences not accepted", "status": 403}'),
                       (404, JSON, b'{"type": "not found", "title": "job not found", "status": 404}')])


# --------------------------------------------------------------------- MERRA-2
M2 = {'SWGDN': 'ghi', 'SWGDNCLR': 'ghi_clear', 'ALBEDO': 'albedo', 'LWGNT': 'longwave_net', 'LWGAB': 'longwave_down', 'T2M': 'temp_air',
      'PS': 'pressure', 'TOTEXTTAU': 'aod550', 'TQV': 'precipitable_water', 'U10M': 'U10M'}


def merra2(rng):
    lat, lon = latlon(rng)
    lat, lon = float(lat), float(lon)
    y = int(rng.integers(1980, 2024))
    ta = pd.Timestamp(y, int(rng.integers(1, 7)), int(rng.integers(1, 29)), int(rng.integers(0, 24)), 30)
    tb = ta + pd.Timedelta(days=int(rng.integers(0, 60)))

    def write(t):
        k = int(rng.integers(0, 4))
        if k == 0:
            return t
        if k == 1:
            return t.isoformat()
        z = pick(rng, ['Etc/GMT+7', 'Asia/Kolkata', 'UTC'])
        loc = t.tz_localize('UTC').tz_convert(z)
        return loc if k == 2 else loc.isoformat()
    sel = [list(M2)[i] for i in rng.permutation(len(M2))[:int(rng.integers(1, 5))]]
    one = rng.random() < .5
    ds = 'M2T1NXRAD.5.12.4' if one else [pick(rng, ['M2T1NXRAD.5.12.4', 'M2T1NXSLV.5.12.4', 'M2T1NXAER.5.12.4']) for _ in sel]
    user, pw, tok = word(rng), word(rng), word(rng, 30)
    n = int(rng.integers(1, 40))
    idx = pd.date_range(ta, periods=n, freq='h')
    undef = float(pick(rng, [999999986991104., 1e15, -9999.]))
    vals, steps = {}, []
    steps.append(Step('https://urs.earthdata.nasa.gov/api/users/find_or_create_token', json.dumps(dict(access_token=tok, token_type='Bearer')),
                      method='POST', auth=(user, pw), ctype=JSON, label='token'))
    glat, glon = round(lat * 2) / 2, round(lon / .625) * .625
    for i, v in enumerate(sel):
        d = ds if one else ds[i]
        c = np.round(rng.uniform(200, 1000, n), 4)
        miss = rng.random(n) < .08
        head = [f'prod_name,{d}_{v}', f'lat,{glat}', f'lon,{glon}', 'unit,W m-2, maybe', f'undef,{undef!r}', f'long_name,a, b and c']
        body = '\n'.join(head) + '\n\nTimestamp (UTC),Data\n' + ''.join(
            f'{t.isoformat()},{undef!r}\n' if z else f'{t.isoformat()},{w!r}\n' for t, w, z in zip(idx, c.tolist(), miss))
        vals[v] = np.where(miss, NAN, c)
        name = d.replace('.', '_') + '_' + v

        def loc(s):
            try:
                p = json.loads(s)
                return None if abs(p[0] - lat) < 6e-5 and abs(p[1] - lon) < 6e-5 and len(p) == 2 else f'{s!r} for [{lat},{lon}]'
            except (TypeError, ValueError):
                return f'{s!r}'
        steps.append(Step('https://api.giovanni.earthdata.nasa.gov/timeseries', body,
                          query=dict(time=f'{ta.isoformat()}/{tb.isoformat()}', data=name), fuzzy={'location': loc},
                          headers={'Authorization': 'Bearer ' + tok}, ctype='text/csv', label='data ' + v))
    mapped = bool(rng.random() < .6)
    kw = {} if mapped and rng.random() < .5 else dict(map_variables=mapped)

    def judge(m, out, ctx):
        data, meta = out
        want = {(M2[v] if mapped else v): (vals[v] - 273.15 if mapped and v == 'T2M' else vals[v]) for v in sel}
        frame_check(m, 'merra2', data, idx.tz_localize('UTC'), want, ctx)
        meta_check(m, 'merra2', meta, dict(latitude=glat, longitude=glon, dataset=ds), ctx)
        for i, v in enumerate(sel):
            meta_check(m, 'merra2', meta.get(v, {}), {'prod_name': f'{ds if one else ds[i]}_{v}', 'unit': 'W m-2, maybe'}, ctx)
    x, yy = write(ta), write(tb)
    return Job('get_merra2', lambda: iot.get_merra2(lat, lon, x, yy, user, pw, ds, sel, **kw), steps, judge,
               cfg=dict(lat=lat, lon=lon, start=x, end=yy, ds=ds, sel=sel, kw=kw), data_steps=list(range(1, len(steps))),
               errdoc=[(401, JSON, b'{"error": "invalid_credentials"}'), (400, JSON, b'{"message": "unknown variable"}')])


# --------------------------------------------------------------- SolarAnywhere
SA = {'GlobalHorizontalIrradiance_WattsPerMeterSquared': 'ghi', 'DirectNormalIrradiance_WattsPerMeterSquared': 'dni',
      'DiffuseHorizontalIrradiance_WattsPerMeterSquared': 'dhi', 'AmbientTemperature_DegreesC': 'temp_air',
      'WindSpeed_MetersPerSecond': 'wind_speed', 'RelativeHumidity_Percent': 'relative_humidity',
      'ClearSkyGHI_WattsPerMeterSquared': 'ghi_clear', 'Albedo_Unitless': 'albedo'}
SA_DEF = ['StartTime', 'ObservationTime', 'EndTime', 'GlobalHorizontalIrradiance_WattsPerMeterSquared',
          'DirectNormalIrradiance_WattsPerMeterSquared', 'DiffuseHorizontalIrradiance_WattsPerMeterSquared',
          'AmbientTemperature_DegreesC', 'WindSpeed_MetersPerSecond', 'Albedo_Unitless', 'DataVersion']


def solaranywhere(rng):
    lat, lon = latlon(rng)
    key, rid = word(rng), word(rng)
    kw = opts(rng, .4, source=pick(rng, ['SolarAnywhereLatest', 'SolarAnywherePOELatest', 'SolarAnywhere3_2']), time_resolution=int(pick(rng, [60, 30, 15, 5])),
              spatial_resolution=pick(rng, [.1, .01, .005]), true_dynamics=bool(rng.random() < .6), probability_of_exceedance=int(rng.integers(1, 100)),
              missing_data=pick(rng, ['Omit', 'FillAverage']), url='https://example.org/sa')
    if rng.random() < .5:
        names = list(SA)
        kw['variables'] = ['ObservationTime'] + [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 8))]]
    fields = kw.get('variables', SA_DEF)
    opt = {"OutputFields": list(fields), "SummaryOutputFields": [], "SpatialResolution_Degrees": kw.get('spatial_resolution', .01),
           "TimeResolution_Minutes": kw.get('time_resolution', 60), "WeatherDataSource": kw.get('source', 'SolarAnywhereLatest'),
           "MissingDataHandling": kw.get('missing_data', 'FillAverage')}
    if kw.get('true_dynamics'):
        opt['ApplyTrueDynamics'] = True
    if 'probability_of_exceedance' in kw:
        opt['ProbabilityOfExceedance'] = kw['probability_of_exceedance']
    if rng.random() < .6:
        for nm in ('start', 'end'):
            v, t = instant(rng)
            kw[nm] = v

            def same_t(s, t=t):
                try:
                    g = pd.Timestamp(s)
                    return None if g.tzinfo is not None and g.tz_convert('UTC').tz_localize(None) == t else f'{s!r} instead of {t} UTC'
                except (ValueError, TypeError):
                    return f'{s!r}'
            opt[nm.capitalize() + 'Time'] = same_t
    mapped = bool(rng.random() < .6)
    if not mapped or rng.random() < .5:
        kw['map_variables'] = mapped
    base = kw.get('url', 'https://service.solaranywhere.com/api/v2')
    h = {'X-Api-Key': key}
    n = int(rng.integers(1, 30))
    off = int(pick(rng, [0, -5, 9]))
    t0 = dt.datetime(int(rng.integers(2000, 2024)), 3, 4, 0, 30)
    times = [t0 + dt.timedelta(hours=i) for i in range(n)]
    vals = {f: np.round(rng.uniform(-10, 1000, n), 2) for f in fields if f in SA}
    stamp = [f'{t:%Y-%m-%dT%H:%M:%S}{off:+03d}:00' for t in times]
    recs = [dict(ObservationTime=s, **{f: float(v[i]) for f, v in vals.items()}, **({'DataVersion': 'v3.6'} if 'DataVersion' in fields else {}))
            for i, s in enumerate(stamp)]
    alt = int(rng.integers(0, 3000))
    done = dict(Status='Done', WeatherDataResults=[dict(Status='Success', WeatherDataPeriods=dict(WeatherDataPeriods=recs, TimeResolution_Minutes=opt['TimeResolution_Minutes']),
                                                        WeatherSourceInformation=dict(Latitude=lat, Longitude=lon, Elevation_Meters=alt, DataSource='SolarAnywhere3_6'))])
    polls = int(pick(rng, [0, 1, 2]))
    steps = [Step(base + '/WeatherData', json.dumps(dict(WeatherRequestId=rid)), method='POST', headers=h, ctype=JSON, label='submit',
                  payload=dict(Sites=[dict(Latitude=lat, Longitude=lon)], Options=opt))]
    steps += [Step(base + '/WeatherDataResult/' + rid, json.dumps(dict(Status='InProgress')), headers=h, ctype=JSON, label=f'poll {i}') for i in range(polls)]
    steps += [Step(base + '/WeatherDataResult/' + rid, json.dumps(done), headers=h, ctype=JSON, label='result')]

    def judge(m, out, ctx):
        data, meta = out
        want = {(SA[f] if mapped else f): v for f, v in vals.items()}
        frame_check(m, 'solaranywhere', data, pd.DatetimeIndex(times).tz_localize(fixed(off)), want, ctx, exact=False)
        meta_check(m, 'solaranywhere', meta, dict(latitude=lat, longitude=lon, altitude=alt, time_resolution=opt['TimeResolution_Minutes'],
                                                  spatial_resolution=opt['SpatialResolution_Degrees']), ctx)
    fail = json.dumps(dict(Status='Done', WeatherDataResults=[dict(Status='Failure', ErrorMessages=[dict(Message='Invalid site')])])).encode()
    job = Job('get_solaranywhere', lambda: iot.get_solaranywhere(lat, lon, key, **kw), steps, judge, cfg=dict(lat=lat, lon=lon, kw=kw, polls=polls),
              data_steps=[len(steps) - 1], errdoc=[(400, JSON, b'{"Message": "Invalid API key"}'), (500, 'text/html', b'<html/>')])
    job.failure = {len(steps) - 1: (200, JSON, fail)}
    return job


ALL = dict(psm4=psm4, pvgis_hourly=pvgis_hourly, pvgis_tmy=pvgis_tmy, pvgis_horizon=pvgis_horizon, cams=cams, surfrad=surfrad, solrad=solrad,
           srml=srml, url_file=url_file, bsrn=bsrn, midc=midc, acis=acis, meteonorm=meteonorm, nasa_power=nasa_power, solargis=solargis,
           solcast=solcast, era5=era5, merra2=merra2, solaranywhere=solaranywhere)
HEAVY = {'pvgis_tmy': .4}
