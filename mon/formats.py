"""Generators of weather files whose content is known exactly.

Every generator writes a file in the layout its provider documents and, beside
it, says what a reader has to return: the instant of every record, the value of
every column (NaN only where the provider's missing code was written), and the
header's metadata.  Used by D01 (reading), D02 (the same content served by a
fake remote service) and D03 (the same files cut short).
"""
import datetime as dt
import io
import json

import numpy as np
import pandas as pd

import pvlib.iotools as iot

NAN = float('nan')


class Case:
    """A file and what reading it has to give."""

    def __init__(self, fmt, text, suffix, read, index, cols, meta, encoding='utf-8',
                 buffers=('text',), cfg=None, name=None, header=0, rec_starts=None,
                 cols_only=False, index_known=True, read_kw=None):
        self.fmt, self.suffix, self.read = fmt, suffix, read
        self.raw = text if isinstance(text, bytes) else text.encode(encoding)
        self.encoding = encoding
        self.index, self.cols, self.meta = index, cols, meta
        self.buffers, self.cfg = buffers, cfg or {}
        self.name = name or 'file'
        self.header = header            # bytes before the first record
        self.rec_starts = rec_starts    # byte offset at which each record begins
        self.cols_only = cols_only      # columns not listed are not judged
        self.index_known = index_known


def starts(lines_before, lines, encoding='utf-8', nl='\n', per=1):
    """Byte offsets at which the records (of `per` lines each) begin."""
    off = sum(len((x + nl).encode(encoding)) for x in lines_before)
    out = []
    for i, x in enumerate(lines):
        if i % per == 0:
            out.append(off)
        off += len((x + nl).encode(encoding))
    return out


def fnum(rng, lo, hi, nd):
    t = f'{rng.uniform(lo, hi):.{nd}f}'
    return t, float(t)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def tzf(rng):
    """A whole-hour time zone offset, hostile ends included."""
    return int(pick(rng, [-11, -10, -9, -8, -7, -6, -5, -4, -3, -1, 0, 1, 2, 5, 8, 9, 10, 12]))


def tzh(rng):
    """An offset that may hold a half or a quarter of an hour."""
    return pick(rng, [5.5, 9.5, -3.5, 5.75, -9.5]) if rng.random() < .3 else tzf(rng)


def day0(rng, lo, hi):
    """The day a file starts on, in years lo to hi-1: any day, and often a corner of the calendar."""
    y = int(rng.integers(lo, hi))
    if rng.random() < .35:
        if rng.random() < .7:            # a leap year, where there is one
            y = int(pick(rng, [k for k in range(lo, hi) if k % 4 == 0] or [y]))
        leap = y % 4 == 0
        m, d = pick(rng, [(12, 31), (12, 31), (12, 30), (1, 1), (2, 28), (2, 29 if leap else 28), (3, 1), (1, 31),
                          (4, 30), (10, 31), (7, 18)])
        return dt.datetime(y, m, d)
    return dt.datetime(y, 1, 1) + dt.timedelta(days=int(rng.integers(0, 365 + (y % 4 == 0))))


def late(rng, n, step):
    """Minutes into the day of the first of n records `step` apart: sometimes such that midnight is crossed."""
    if rng.random() < .4 and n > 1:
        return max(0, 1440 // step - int(rng.integers(1, n))) * step
    return 0


def fixed(hours):
    return dt.timezone(dt.timedelta(hours=hours))


def column(rng, n, lo, hi, nd, miss=None, p=0.08, near=()):
    """(texts, values): numbers with the missing code at random places."""
    tx, vals = [], []
    for _ in range(n):
        u = rng.random()
        if miss is not None and u < p:
            tx.append(miss)
            vals.append(NAN)
        elif near and u < p + 0.04:
            t = pick(rng, near)
            tx.append(t)
            vals.append(float(t))
        else:
            t, v = fnum(rng, lo, hi, nd)
            tx.append(t)
            vals.append(v)
    return tx, np.array(vals)


# --------------------------------------------------------------------- TMY3
TMY3_MAP = {'GHI (W/m^2)': 'ghi', 'ETR (W/m^2)': 'ghi_extra', 'DNI (W/m^2)': 'dni',
            'ETRN (W/m^2)': 'dni_extra', 'DHI (W/m^2)': 'dhi', 'Pressure (mbar)': 'pressure',
            'Wdir (degrees)': 'wind_direction', 'Wspd (m/s)': 'wind_speed',
            'Dry-bulb (C)': 'temp_air', 'Dew-point (C)': 'temp_dew',
            'RHum (%)': 'relative_humidity', 'Alb (unitless)': 'albedo',
            'Pwat (cm)': 'precipitable_water'}
TMY3_COLS = [('ETR (W/m^2)', 0, 1400, 0), ('ETRN (W/m^2)', 0, 1415, 0), ('GHI (W/m^2)', 0, 1100, 0),
             ('GHI source', 1, 3, 0), ('GHI uncert (%)', 0, 20, 0), ('DNI (W/m^2)', 0, 1000, 0),
             ('DNI source', 1, 3, 0), ('DHI (W/m^2)', 0, 500, 0), ('Dry-bulb (C)', -40, 45, 1),
             ('Dew-point (C)', -45, 30, 1), ('RHum (%)', 0, 100, 0), ('Pressure (mbar)', 700, 1040, 0),
             ('Wdir (degrees)', 0, 360, 0), ('Wspd (m/s)', 0, 30, 1), ('Pwat (cm)', 0, 6, 1),
             ('Alb (unitless)', -9900, 1, 2), ('Lprecip depth (mm)', 0, 30, 0)]


def tmy_hours(rng, full):
    """[(year, month, day, hour-ending 1..24)] of a typical year (or stretches of it)."""
    out = []
    years = [int(rng.integers(1976, 2015)) for _ in range(12)]
    if full:
        months = [(m, 1, None) for m in range(1, 13)]
    else:
        months = [(2, 27, 2), (12, 30, 2)] if rng.random() < .6 else []
        for m in sorted(set(int(x) for x in rng.integers(1, 13, 2))):
            if m in (2, 12):
                continue
            months.append((m, int(rng.integers(1, 26)), int(rng.integers(1, 4))))
        months = sorted(months) or [(6, 29, 2)]
        if rng.random() < .3:
            years[1] = int(pick(rng, [1980, 1996, 2000, 2004]))
    for m, d0, nd in months:
        last = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        d1 = last if nd is None else min(last, d0 + nd - 1)
        for d in range(d0, d1 + 1):
            for h in range(1, 25):
                out.append((years[m - 1], m, d, h))
    return out


def tmy3(rng, full=False):
    rows = tmy_hours(rng, full)
    n = len(rows)
    tz = tzh(rng)
    lat, lon, alt = fnum(rng, -89, 89, 3), fnum(rng, -179, 179, 3), fnum(rng, -50, 3000, 0)
    usaf = int(rng.integers(690000, 726000))
    name = pick(rng, ['"GREENSBORO PIEDMONT TRIAD INT"', 'ADAK NAS', 'St. Mary\'s', 'Point-1 (x)'])
    enc = pick(rng, [None, None, 'utf-8', 'iso-8859-1', 'cp1252'])
    if enc and rng.random() < .5:
        name = 'CAÑON CITY É'
    cols, texts = {}, []
    for c, lo, hi, nd in TMY3_COLS:
        t, v = column(rng, n, lo, hi, nd)
        cols[c] = v
        texts.append(t)
    mapped = bool(rng.random() < .6)
    coerce = None if rng.random() < .45 else int(rng.integers(1950, 2050))
    head = f'{usaf},{name},NC,{float(tz)},{lat[0]},{lon[0]},{alt[0]}'
    hdr = 'Date (MM/DD/YYYY),Time (HH:MM),' + ','.join(c[0] for c in TMY3_COLS)
    lines, idx = [], []
    # midnight ends the day (24:00) or starts the next (00:00); the middle of the hour may be meant
    style = pick(rng, ['24', '24', '00', 'mid'])
    minute = 30 if style == 'mid' else 0
    for i, (y, m, d, h) in enumerate(rows):
        t = dt.datetime(y, m, d) + dt.timedelta(hours=h if style != 'mid' else h - 1, minutes=minute)
        if style == '24':
            w = dt.datetime(y, m, d)
            stamp = f'{h:02d}:00'
        else:
            w, stamp = t, f'{t.hour:02d}:{minute:02d}'
        lines.append(f'{w.month:02d}/{w.day:02d}/{w.year},{stamp},' + ','.join(t_[i] for t_ in texts))
        if t.month == 2 and t.day == 29:        # typical years have no leap day
            t += dt.timedelta(days=1)
        if coerce is not None:
            t = t.replace(year=coerce + (i == n - 1))
        idx.append(t)
    index = pd.DatetimeIndex(idx).tz_localize(fixed(tz))
    want = {(TMY3_MAP.get(k, k) if mapped else k): v for k, v in cols.items()}
    kw = dict(coerce_year=coerce, map_variables=mapped)
    if enc:
        kw['encoding'] = enc
    return Case('tmy3', '\n'.join([head, hdr] + lines) + '\n', '.csv',
                lambda f: iot.read_tmy3(f, **kw), index, want,
                dict(USAF=usaf, State='NC', TZ=float(tz), latitude=lat[1], longitude=lon[1],
                     altitude=alt[1], Name=name), cfg=dict(kw, n=n, full=full, midnight=style), cols_only=True,
                encoding=enc or 'utf-8', header=len((head + hdr).encode(enc or 'utf-8')) + 2,
                rec_starts=starts([head, hdr], lines, encoding=enc or 'utf-8'))


# --------------------------------------------------------------------- TMY2
TMY2_FIELDS = [('ETR', 4, 0, 1400), ('ETRN', 4, 0, 1415), ('GHI', 4, 0, 1100, 1), ('DNI', 4, 0, 1000, 1),
               ('DHI', 4, 0, 500, 1), ('GHillum', 4, 0, 1300, 1), ('DNillum', 4, 0, 1100, 1),
               ('DHillum', 4, 0, 800, 1), ('Zenithlum', 4, 0, 7000, 1), ('TotCld', 2, 0, 10, 1),
               ('OpqCld', 2, 0, 10, 1), ('DryBulb', 4, -500, 500, 1), ('DewPoint', 4, -600, 300, 1),
               ('RHum', 3, 0, 100, 1), ('Pressure', 4, 700, 1100, 1), ('Wdir', 3, 0, 360, 1),
               ('Wspd', 3, 0, 400, 1), ('Hvis', 4, 0, 1609, 1), ('CeilHgt', 5, 0, 30450, 1),
               ('PresentWeather', 10, 0, 999999999), ('Pwat', 3, 0, 100, 1), ('AOD', 3, 0, 240, 1),
               ('SnowDepth', 3, 0, 150, 1), ('LastSnowfall', 2, 0, 88, 1)]


def tmy2(rng, full=False):
    rows = tmy_hours(rng, full)
    n = len(rows)
    tz = tzf(rng)
    one_year = bool(rng.random() < .6)
    if one_year:
        rows = [(rows[0][0], m, d, h) for _, m, d, h in rows]
    city = pick(rng, ['BOULDER', 'NEW_YORK', 'SALT_LAKE_CITY', 'SALT LAKE CITY', 'LOS ANGELES', 'St. Cloud'])
    ns, ew = pick(rng, 'NS'), pick(rng, 'EW')
    la, lm, lo, lom = (int(rng.integers(0, 90)), int(rng.integers(0, 60)), int(rng.integers(0, 180)),
                       int(rng.integers(0, 60)))
    alt = int(rng.integers(-50, 3500))
    head = f' {int(rng.integers(3000, 95000)):05d} {city:22s} CO {tz:3d}  {ns} {la:2d} {lm:2d} {ew} {lo:3d} {lom:2d} {alt:5d}'
    names, vals = ['year', 'month', 'day', 'hour'], []
    for f in TMY2_FIELDS:
        names.append(f[0])
        if len(f) > 4:
            # the last column's published name lacks its final letter in pvlib
            names += [f[0] + 'Source', f[0] + ('Uncertainty' if f[0] != 'LastSnowfall' else 'Uncertaint')]
    lines, table = [], []
    for (y, m, d, h) in rows:
        s = f' {y % 100:2d}{m:2d}{d:2d}{h:2d}'
        rec = [y % 100, m, d, h]
        for f in TMY2_FIELDS:
            v = int(rng.integers(f[2], f[3] + 1))
            if f[0] == 'PresentWeather':
                s += f'{v:010d}'
            else:
                s += f'{v:0{f[1]}d}' if (f[1] == 4 and v >= 0 and rng.random() < .5) else f'{v:{f[1]}d}'
            rec.append(float(v))
            if len(f) > 4:
                a, b = pick(rng, 'ABCDEF?'), int(rng.integers(0, 10))
                s += f'{a}{b}'
                rec += [a, float(b)]
        lines.append(s)
        table.append(rec)
    cols = {nm: (np.array([r[j] for r in table], dtype=object if isinstance(table[0][j], str) else float))
            for j, nm in enumerate(names)}
    year = 1900 + rows[0][0] % 100
    idx = [dt.datetime(year, m, d, h - 1) for _, m, d, h in rows]
    index = pd.DatetimeIndex(idx).tz_localize(fixed(tz))
    meta = dict(City=city, State='CO', TZ=tz, latitude=(la + lm / 60) * (1 if ns == 'N' else -1),
                longitude=(lo + lom / 60) * (1 if ew == 'E' else -1), altitude=float(alt))
    return Case('tmy2', '\n'.join([head] + lines) + '\n', '.tm2', lambda f: iot.read_tmy2(f), index, cols,
                meta, buffers=(), cfg=dict(city=city, tz=tz, ns=ns, ew=ew, one_year=one_year, n=n),
                header=len(head) + 1, rec_starts=starts([head], lines))


# --------------------------------------------------------------------- EPW
EPW_NAMES = ['data_source_unct', 'temp_air', 'temp_dew', 'relative_humidity', 'atmospheric_pressure', 'etr',
             'etrn', 'ghi_infrared', 'ghi', 'dni', 'dhi', 'global_hor_illum', 'direct_normal_illum',
             'diffuse_horizontal_illum', 'zenith_luminance', 'wind_direction', 'wind_speed', 'total_sky_cover',
             'opaque_sky_cover', 'visibility', 'ceiling_height', 'present_weather_observation',
             'present_weather_codes', 'precipitable_water', 'aerosol_optical_depth', 'snow_depth',
             'days_since_last_snowfall', 'albedo', 'liquid_precipitation_depth', 'liquid_precipitation_quantity']


def epw(rng, full=False):
    rows = tmy_hours(rng, full)
    n = len(rows)
    tz = tzh(rng)
    lat, lon, alt = fnum(rng, -89, 89, 2), fnum(rng, -179, 179, 2), fnum(rng, -50, 3000, 1)
    head = [f'LOCATION,AMSTERDAM,-,NLD,IWEC Data,062400,{lat[0]},{lon[0]},{float(tz)},{alt[0]}',
            'DESIGN CONDITIONS,0', 'TYPICAL/EXTREME PERIODS,0', 'GROUND TEMPERATURES,0',
            'HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0', 'COMMENTS 1,"a, b -- c"', 'COMMENTS 2, none',
            'DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31']
    cols, texts = {}, []
    for i, c in enumerate(EPW_NAMES):
        if i == 0:
            t = [pick(rng, ['C9C9C9C9*0?9?9', 'B8B8E8B8?1A1A', '?9?9?9']) for _ in range(n)]
            v = np.array(t, dtype=object)
        elif c == 'present_weather_codes':
            t = [str(int(x)) for x in rng.integers(1, 999999999, n)]
            v = np.array([float(x) for x in t])
        else:
            nd = int(pick(rng, [0, 1, 2, 4])) if c not in ('temp_air',) else 1
            t, v = column(rng, n, -50 if 'temp' in c else 0, 1200, nd, near=('9999', '999999', '99', '0'))
        cols[c] = v
        texts.append(t)
    minute = pick(rng, [0, 60])
    lines = [f'{y},{m},{d},{h},{minute},' + ','.join(t[i] for t in texts) for i, (y, m, d, h) in enumerate(rows)]
    coerce = None if rng.random() < .5 else int(rng.integers(1950, 2050))
    cols.update(year=np.array([coerce if coerce is not None else r[0] for r in rows], float),
                month=np.array([r[1] for r in rows], float), day=np.array([r[2] for r in rows], float),
                hour=np.array([r[3] for r in rows], float))
    index = pd.DatetimeIndex([dt.datetime(coerce if coerce is not None else y, m, d, h - 1)
                              for y, m, d, h in rows]).tz_localize(fixed(tz))
    return Case('epw', '\n'.join(head + lines) + '\n', '.epw', lambda f: iot.read_epw(f, coerce_year=coerce),
                index, cols, dict(latitude=lat[1], longitude=lon[1], altitude=alt[1], TZ=float(tz),
                                  city='AMSTERDAM', country='NLD', WMO_code='062400'),
                cfg=dict(coerce=coerce, tz=tz, n=n), header=sum(len(x) + 1 for x in head), cols_only=True,
                rec_starts=starts(head, lines))


# --------------------------------------------------------------------- PSM4
PSM_MAP = {'GHI': 'ghi', 'DHI': 'dhi', 'DNI': 'dni', 'Clearsky GHI': 'ghi_clear', 'Clearsky DHI': 'dhi_clear',
           'Clearsky DNI': 'dni_clear', 'Solar Zenith Angle': 'solar_zenith', 'Temperature': 'temp_air',
           'Dew Point': 'temp_dew', 'Relative Humidity': 'relative_humidity', 'Pressure': 'pressure',
           'Wind Speed': 'wind_speed', 'Wind Direction': 'wind_direction', 'Surface Albedo': 'albedo',
           'Precipitable Water': 'precipitable_water', 'AOD': 'aod'}


def psm4(rng, full=False, lat=None, lon=None, tz=None, year=None, mapped=None):
    n = 24 * 365 if full else int(rng.integers(1, 80))
    step = int(pick(rng, [5, 15, 30, 60]))
    year = int(year if year is not None else rng.integers(1998, 2024))
    tz = tzf(rng) if tz is None else tz
    t0 = dt.datetime(year, 1, 1, 0, int(pick(rng, [0, step // 2])))
    if not full and rng.random() < .6:
        d = day0(rng, year, year + 1)
        t0 = t0.replace(month=d.month, day=d.day) + dt.timedelta(minutes=late(rng, n, step))
    times = [t0 + dt.timedelta(minutes=step * i) for i in range(n)]
    lat = fnum(rng, -60, 60, 2) if lat is None else (f'{lat}', float(lat))
    lon = fnum(rng, -179, 179, 2) if lon is None else (f'{lon}', float(lon))
    alt = int(rng.integers(-60, 4000))
    avail = list(PSM_MAP) + ['Cloud Type', 'Fill Flag', 'Ozone', 'SSA', 'Cloud Fill Flag']
    k = int(rng.integers(3, len(avail)))
    names = [avail[i] for i in rng.permutation(len(avail))[:k]]
    cols, texts = {}, []
    for c in names:
        if c in ('Cloud Type', 'Fill Flag', 'Cloud Fill Flag'):
            t = [str(int(x)) for x in rng.integers(0, 12, n)]
            v = np.array([float(x) for x in t])
        else:
            t, v = column(rng, n, -30, 1100, int(pick(rng, [0, 1, 2])), near=('0', '0.0', '-9999', '999'))
        cols[c] = v
        texts.append(t)
    trail = ',' * int(pick(rng, [0, 0, 3]))
    keys = ['Source', 'Location ID', 'City', 'State', 'Country', 'Latitude', 'Longitude', 'Time Zone',
            'Elevation', 'Local Time Zone', 'GHI Units', 'Version']
    ltz = tz if rng.random() < .5 else int(rng.integers(-11, 13))      # where the place is, whatever the stamps are in
    vals = ['NSRDB', str(int(rng.integers(1, 1999999))), '-', '-', '-', lat[0], lon[0], str(tz), str(alt),
            str(ltz), 'w/m2', '4.0.0']
    head = [','.join(keys), ','.join(vals), 'Year,Month,Day,Hour,Minute,' + ','.join(names) + trail]
    lines = [f'{t.year},{t.month},{t.day},{t.hour},{t.minute},' + ','.join(x[i] for x in texts) + trail
             for i, t in enumerate(times)]
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    want = {(PSM_MAP.get(c, c) if mapped else c): v for c, v in cols.items()}
    for nm in ('Year', 'Month', 'Day', 'Hour', 'Minute'):
        want[nm] = np.array([getattr(t, nm.lower()) for t in times], float)
    meta = {'Time Zone': tz, 'Local Time Zone': ltz, 'Location ID': vals[1], 'Source': 'NSRDB'}
    meta.update(dict(latitude=lat[1], longitude=lon[1], altitude=alt) if mapped
                else dict(Latitude=lat[1], Longitude=lon[1], Elevation=alt))
    index = pd.DatetimeIndex(times).tz_localize(fixed(tz))
    c = Case('psm4', '\n'.join(head + lines) + '\n', '.csv',
             lambda f: iot.read_nsrdb_psm4(f, map_variables=mapped), index, want, meta,
             cfg=dict(tz=tz, mapped=mapped, n=n, step=step, trail=trail), header=sum(len(x) + 1 for x in head),
             rec_starts=starts(head, lines))
    c.step = step
    return c


# --------------------------------------------------------------------- PVGIS
PVGIS_MAP = {'G(h)': 'ghi', 'Gb(n)': 'dni', 'Gd(h)': 'dhi', 'G(i)': 'poa_global', 'Gb(i)': 'poa_direct',
             'Gd(i)': 'poa_sky_diffuse', 'Gr(i)': 'poa_ground_diffuse', 'H_sun': 'solar_elevation',
             'T2m': 'temp_air', 'RH': 'relative_humidity', 'SP': 'pressure', 'WS10m': 'wind_speed',
             'WD10m': 'wind_direction'}


def pvgis_hourly(rng, fmt=None, lat=None, lon=None, mapped=None, as_read=True):
    fmt = fmt or pick(rng, ['csv', 'json'])
    n = int(rng.integers(1, 60))
    t0 = day0(rng, 2005, 2024) + dt.timedelta(minutes=int(pick(rng, [0, 10, 55, 34])) + late(rng, n, 60))
    times = [t0 + dt.timedelta(hours=i) for i in range(n)]
    lat = fnum(rng, -60, 60, 3) if lat is None else (f'{lat:.3f}', round(float(lat), 3))
    lon = fnum(rng, -179, 179, 3) if lon is None else (f'{lon:.3f}', round(float(lon), 3))
    elev = int(rng.integers(0, 3000))
    names = (['P'] if rng.random() < .4 else []) + list(pick(rng, [['G(i)'], ['Gb(i)', 'Gd(i)', 'Gr(i)']])) \
        + ['H_sun', 'T2m', 'WS10m', 'Int']
    cols, texts = {}, []
    for c in names:
        if c == 'Int':
            t = [pick(rng, ['0.0', '1.0']) for _ in range(n)]
            v = np.array([float(x) for x in t])
        else:
            t, v = column(rng, n, -30 if c == 'T2m' else 0, 1000, 2, near=('0.0',))
        cols[c] = v
        texts.append(t)
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    want = {(PVGIS_MAP.get(c, c) if mapped else c): v for c, v in cols.items()}
    index = pd.DatetimeIndex(times, tz='UTC')
    if fmt == 'csv':
        nl = pick(rng, ['\n', '\r\n']) if as_read else '\n'
        head = [f'Latitude (decimal degrees):\t{lat[0]}', f'Longitude (decimal degrees):\t{lon[0]}',
                f'Elevation (m):\t{elev}', 'Radiation database:\tPVGIS-SARAH2', '', '', 'Slope: 30 deg. ',
                'Azimuth: 0 deg. ', 'time,' + ','.join(names)]
        lines = [t.strftime('%Y%m%d:%H%M') + ',' + ','.join(x[i] for x in texts) for i, t in enumerate(times)]
        tail = [''] + [f'{c}: about {c} (unit)' for c in names] + ['', '', 'PVGIS (c) European Union, 2001-2021']
        text = nl.join(head + lines + tail)
        meta = {'inputs.latitude': lat[1], 'inputs.longitude': lon[1], 'inputs.elevation': float(elev),
                'inputs.radiation_database': 'PVGIS-SARAH2', 'inputs.Slope': '30 deg.',
                'descriptions.T2m': 'about T2m (unit)'}
        hb, rs = sum(len(x) + len(nl) for x in head), starts(head, lines, nl=nl)
    else:
        doc = {'inputs': {'location': {'latitude': lat[1], 'longitude': lon[1], 'elevation': float(elev)},
                          'meteo_data': {'radiation_db': 'PVGIS-SARAH2'}},
               'outputs': {'hourly': [dict(time=t.strftime('%Y%m%d:%H%M'),
                                           **{c: float(cols[c][i]) for c in names})
                                      for i, t in enumerate(times)]},
               'meta': {'inputs': {'location': {'description': 'Selected location'}}, 'outputs': {'hourly': {}}}}
        text = json.dumps(doc)
        meta = {'inputs.location.latitude': lat[1], 'inputs.location.longitude': lon[1],
                'inputs.location.elevation': float(elev), 'inputs.meteo_data.radiation_db': 'PVGIS-SARAH2'}
        hb, rs = 0, None
    kw = dict(map_variables=mapped)
    c = Case('pvgis_hourly_' + fmt, text, '.' + fmt,
             lambda f: iot.read_pvgis_hourly(f, **(kw if isinstance(f, (str,)) or hasattr(f, 'suffix') and
                                                   not hasattr(f, 'read')
                                                   else dict(kw, pvgis_format=fmt))),
             index, want, meta, cfg=dict(fmt=fmt, mapped=mapped, n=n, names=names), header=hb, rec_starts=rs)
    return c


def pvgis_tmy(rng, fmt=None, mapped=None, lat=None, lon=None):
    """A full year (the format's documented length): 8760 hourly records."""
    fmt = fmt or pick(rng, ['csv', 'json', 'epw'])
    names = ['T2m', 'RH', 'G(h)', 'Gb(n)', 'Gd(h)', 'IR(h)', 'WS10m', 'WD10m', 'SP']
    years = [int(rng.integers(2005, 2021)) for _ in range(12)]
    base = pd.date_range('2001-01-01', periods=8760, freq='h')
    times = [dt.datetime(years[t.month - 1], t.month, t.day, t.hour) for t in base]
    n = 8760
    data = np.round(rng.uniform(0, 1000, (n, len(names))), 2)
    lat = fnum(rng, -60, 60, 3) if lat is None else (f'{lat:.3f}', round(float(lat), 3))
    lon = fnum(rng, -179, 179, 3) if lon is None else (f'{lon:.3f}', round(float(lon), 3))
    elev, off = float(int(rng.integers(0, 3000))), round(float(rng.uniform(-1, 1)), 4)
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    want = {(PVGIS_MAP.get(c, c) if mapped else c): data[:, j] for j, c in enumerate(names)}
    index = pd.DatetimeIndex(times, tz='UTC')
    stamp = [t.strftime('%Y%m%d:%H%M') for t in times]
    months = [dict(month=m + 1, year=y) for m, y in enumerate(years)]
    if fmt == 'csv':
        nl = pick(rng, ['\r\n', '\n'])
        head = [f'Latitude (decimal degrees): {lat[0]}', f'Longitude (decimal degrees): {lon[0]}',
                f'Elevation (m): {elev}']
        if rng.random() < .6:
            head.append(f'Irradiance Time Offset (h): {off}')
            head.append('month,year')
            meta = {'inputs.irradiance time offset': off}
        else:
            head.append('month,year')
            meta = {}
        head += [f'{m["month"]},{m["year"]}' for m in months] + ['time(UTC),' + ','.join(names)]
        lines = [s + ',' + ','.join(map(str, row)) for s, row in zip(stamp, data.tolist())]
        tail = [''] + [f'{c}: about {c} (unit)' for c in names] + ['', 'PVGIS (c) European Union, 2001-2025', '']
        text = nl.join(head + lines + tail).encode()
        meta.update({'inputs.latitude': lat[1], 'inputs.longitude': lon[1], 'inputs.elevation': elev,
                     'months_selected': months, 'descriptions.RH': 'about RH (unit)'})
        hb, rs = sum(len(x) + len(nl) for x in head), starts(head, lines, nl=nl)
        buffers = ('bytes',)
    elif fmt == 'json':
        doc = {'inputs': {'location': {'latitude': lat[1], 'longitude': lon[1], 'elevation': elev}},
               'outputs': {'months_selected': months,
                           'tmy_hourly': [dict(zip(['time(UTC)'] + names, [s] + row))
                                          for s, row in zip(stamp, data.tolist())]},
               'meta': {'inputs': {'location': {'description': 'Selected location'}}, 'outputs': {}}}
        text = json.dumps(doc)
        meta = {'inputs.location.latitude': lat[1], 'inputs.location.longitude': lon[1],
                'inputs.location.elevation': elev, 'months_selected': months}
        hb, rs, buffers = 0, None, ('text',)
    else:
        head = [f'LOCATION,unknown,-,unknown,ECMWF/ERA,unknown,{lat[0]},{lon[0]},0,{elev}',
                'DESIGN CONDITIONS,0', 'TYPICAL/EXTREME PERIODS,0', 'GROUND TEMPERATURES,0',
                'HOLIDAYS/DAYLIGHT SAVING,No,0,0,0', 'COMMENTS 1,x', f'COMMENTS 2,Irradiance Time Offset (h):{off}',
                'DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31']
        lines = []
        for t, r in zip(times, data.tolist()):
            f = {'temp_air': r[0], 'relative_humidity': r[1], 'ghi': r[2], 'dni': r[3], 'dhi': r[4],
                 'ghi_infrared': r[5], 'wind_speed': r[6], 'wind_direction': r[7], 'atmospheric_pressure': r[8]}
            lines.append(f'{t.year},{t.month},{t.day},{t.hour + 1},0,B8?1,' +
                         ','.join(str(f.get(nm, 99)) for nm in EPW_NAMES[1:]))
        text = '\n'.join(head + lines) + '\n'
        want = {nm: data[:, j] for j, nm in enumerate(['temp_air', 'relative_humidity', 'ghi', 'dni', 'dhi',
                                                       'ghi_infrared', 'wind_speed', 'wind_direction',
                                                       'atmospheric_pressure'])}
        meta = dict(latitude=lat[1], longitude=lon[1], altitude=elev, TZ=0.0)
        hb, rs, buffers = sum(len(x) + 1 for x in head), starts(head, lines), ('text',)
    kw = dict(map_variables=mapped)
    return Case('pvgis_tmy_' + fmt, text, '.' + fmt,
                lambda f: iot.read_pvgis_tmy(f, **(kw if not hasattr(f, 'read') else dict(kw, pvgis_format=fmt))),
                index, want, meta, buffers=buffers, cfg=dict(fmt=fmt, mapped=mapped), header=hb, rec_starts=rs,
                cols_only=(fmt == 'epw'))


# --------------------------------------------------------------------- SURFRAD
SURF_COLS = ['dw_solar', 'uw_solar', 'direct_n', 'diffuse', 'dw_ir', 'dw_casetemp', 'dw_dometemp', 'uw_ir',
             'uw_casetemp', 'uw_dometemp', 'uvb', 'par', 'netsolar', 'netir', 'totalnet', 'temp', 'rh', 'windspd',
             'winddir', 'pressure']
SURF_MAP = {'zen': 'solar_zenith', 'dw_solar': 'ghi', 'dw_solar_flag': 'ghi_flag', 'direct_n': 'dni',
            'direct_n_flag': 'dni_flag', 'diffuse': 'dhi', 'diffuse_flag': 'dhi_flag', 'temp': 'temp_air',
            'temp_flag': 'temp_air_flag', 'windspd': 'wind_speed', 'windspd_flag': 'wind_speed_flag',
            'winddir': 'wind_direction', 'winddir_flag': 'wind_direction_flag', 'rh': 'relative_humidity',
            'rh_flag': 'relative_humidity_flag'}


def day_times(rng, day=None, step=None, n=None):
    if day is None:
        day = day0(rng, 1998, 2025)
    step = step or int(pick(rng, [1, 3]))
    n = n or int(rng.integers(2, 90))
    return [day + dt.timedelta(minutes=step * (i + 0)) for i in range(n)]


def surfrad(rng, day=None, mapped=None, header=None, n=None):
    times = day_times(rng, day, n=n)
    n = len(times)
    st, lat, lon, el = header or ('Alamosa', fnum(rng, 20, 60, 2), fnum(rng, -130, 130, 2), int(rng.integers(0, 3000)))
    head = [f' {st}', f'   {lat[0]}  {lon[0]} {el} m version 1']
    raw = {'zen': column(rng, n, 0, 180, 2)}
    order = ['zen']
    for c in SURF_COLS:
        raw[c] = column(rng, n, -100, 1200, 1, miss='-9999.9', near=('-999.9', '-99.9', '-9999.0', '9999.9', '-9.9'))
        fl = rng.integers(0, 3, n)
        raw[c + '_flag'] = ([str(int(x)) for x in fl], fl.astype(float))
        order += [c, c + '_flag']
    lines = []
    for i, t in enumerate(times):
        s = f' {t.year} {t.timetuple().tm_yday:3d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.hour + t.minute / 60:6.3f}'
        for c in order:
            x = raw[c][0][i]
            s += f' {x:>6s}' if c == 'zen' else (f' {x}' if c.endswith('_flag') else f' {x:>7s}')
        lines.append(s)
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    want = {(SURF_MAP.get(c, c) if mapped else c): raw[c][1] for c in order}
    want.update(year=np.array([t.year for t in times], float), month=np.array([t.month for t in times], float),
                day=np.array([t.day for t in times], float), hour=np.array([t.hour for t in times], float),
                minute=np.array([t.minute for t in times], float),
                jday=np.array([t.timetuple().tm_yday for t in times], float))
    return Case('surfrad', '\n'.join(head + lines) + '\n', '.dat',
                lambda f: iot.read_surfrad(f, map_variables=mapped), pd.DatetimeIndex(times, tz='UTC'), want,
                dict(name=st, latitude=lat[1], longitude=lon[1], elevation=float(el), surfrad_version=1, tz='UTC'),
                buffers=(), cfg=dict(n=n, day=str(times[0]), mapped=mapped), cols_only=True,
                header=sum(len(x) + 1 for x in head), rec_starts=starts(head, lines))


# --------------------------------------------------------------------- SOLRAD
SOL_BASE = [('solar_zenith', 6, 2), ('ghi', 7, 1), ('ghi_flag', 1, None), ('dni', 7, 1), ('dni_flag', 1, None),
            ('dhi', 7, 1), ('dhi_flag', 1, None), ('uvb', 7, 1), ('uvb_flag', 1, None), ('uvb_temp', 7, 1),
            ('uvb_temp_flag', 1, None)]
SOL_DPIR = [('dpir', 7, 1), ('dpir_flag', 1, None), ('dpirc', 7, 1), ('dpirc_flag', 1, None), ('dpird', 7, 1),
            ('dpird_flag', 1, None)]
SOL_STD = [('std_dw_psp', 9, 3), ('std_direct', 9, 3), ('std_diffuse', 9, 3), ('std_uvb', 9, 3)]
SOL_MSTD = [('std_dpir', 9, 3), ('std_dpirc', 9, 3), ('std_dpird', 9, 3)]


def solrad(rng, day=None, station=None, header=None, n=None, last0=False):
    station = station or pick(rng, ['abq', 'msn', 'ste'])
    mad = station == 'msn'
    fields = SOL_BASE + (SOL_DPIR if mad else []) + SOL_STD + (SOL_MSTD if mad else [])
    times = day_times(rng, day, step=1, n=n)
    n = len(times)
    nm, lat, lon, el, tz = header or ('Albuquerque', fnum(rng, 20, 60, 5), fnum(rng, -130, -60, 5),
                                      int(rng.integers(0, 3000)), int(rng.integers(-10, -3)))
    head = [f' {nm}', f'   {lat[0]} {lon[0]} {el} {tz}  version 1']
    raw = {}
    for c, w, nd in fields:
        if nd is None:
            v = rng.integers(0, 3, n)
            raw[c] = ([str(int(x)) for x in v], v.astype(float))
        elif c == 'solar_zenith':
            raw[c] = column(rng, n, 0, 180, nd)
        else:
            raw[c] = column(rng, n, 0 if nd == 3 else -9, 99 if nd == 3 else 1200, nd,
                            miss='-9999.9' if nd == 1 else '-9999.900',
                            near=('-999.9', '9999.9', '-99.9', '-9.9') if nd == 1 else ('999.900', '0.000'))
            if last0 and c == fields[-1][0]:      # D01's known finding (the last digit is cut) shows no effect
                t = [x if x == '-9999.900' else x[:-1] + '0' for x in raw[c][0]]
                raw[c] = (t, np.array([NAN if x == '-9999.900' else float(x) for x in t]))
    lines = []
    for i, t in enumerate(times):
        s = f' {t.year} {t.timetuple().tm_yday:3d} {t.month:2d} {t.day:2d} {t.hour:2d} {t.minute:2d} {t.hour + t.minute / 60:6.3f}'
        for c, w, nd in fields:
            s += ' ' + raw[c][0][i].rjust(w)
        lines.append(s)
    want = {c: raw[c][1] for c, _, _ in fields}
    want.update(year=np.array([t.year for t in times], float), month=np.array([t.month for t in times], float),
                day=np.array([t.day for t in times], float), hour=np.array([t.hour for t in times], float),
                minute=np.array([t.minute for t in times], float),
                julian_day=np.array([t.timetuple().tm_yday for t in times], float))
    c = Case('solrad', '\n'.join(head + lines) + '\n', '.dat', lambda f: iot.read_solrad(f),
             pd.DatetimeIndex(times, tz='UTC'), want,
             dict(station_name=nm, latitude=lat[1], longitude=lon[1], altitude=float(el), TZ=tz), buffers=(),
             cfg=dict(n=n, day=str(times[0]), station=station), name=station + '19056', cols_only=True,
             header=sum(len(x) + 1 for x in head), rec_starts=starts(head, lines))
    c.last_col = fields[-1][0]
    c.last_texts = raw[fields[-1][0]][0]
    return c


# --------------------------------------------------------------------- CRN
CRN_F = [('AIR_TEMPERATURE', 7, 1, '-9999.0', -40, 45, 'temp_air'), ('PRECIPITATION', 7, 1, '-9999.0', 0, 30, None),
         ('SOLAR_RADIATION', 6, 0, '-99999', 0, 1200, 'ghi'), ('SR_FLAG', 1, None, None, 0, 3, 'ghi_flag'),
         ('SURFACE_TEMPERATURE', 7, 1, '-9999.0', -40, 70, None), ('ST_TYPE', 1, 's', None, 0, 0, None),
         ('ST_FLAG', 1, None, None, 0, 3, None), ('RELATIVE_HUMIDITY', 5, 0, '-9999', 0, 100, 'relative_humidity'),
         ('RH_FLAG', 1, None, None, 0, 3, 'relative_humidity_flag'), ('SOIL_MOISTURE_5', 7, 3, '-99.000', 0, 1, None),
         ('SOIL_TEMPERATURE_5', 7, 1, '-9999.0', -30, 50, None), ('WETNESS', 5, 0, '-9999', 0, 2000, None),
         ('WET_FLAG', 1, None, None, 0, 3, None), ('WIND_1_5', 6, 2, '-99.00', 0, 30, 'wind_speed'),
         ('WIND_FLAG', 1, None, None, 0, 3, 'wind_speed_flag')]


def crn(rng, n=None):
    n = n or int(rng.integers(1, 60))
    t0 = day0(rng, 2005, 2025) + dt.timedelta(hours=int(pick(rng, [int(rng.integers(0, 24)), 0, 23])))
    times = [t0 + dt.timedelta(minutes=5 * i) for i in range(n)]
    tz = int(rng.integers(-10, -3))
    lon, lat = fnum(rng, -170, -60, 2), fnum(rng, 15, 70, 2)
    wb = int(rng.integers(10000, 99999))
    raw = {}
    for c, w, nd, miss, lo, hi, _ in CRN_F:
        if nd is None:
            v = rng.integers(lo, hi + 1, n)
            raw[c] = ([str(int(x)) for x in v], v.astype(float))
        elif nd == 's':
            t = [pick(rng, 'CRU') for _ in range(n)]
            raw[c] = (t, np.array(t, dtype=object))
        else:
            near = {'AIR_TEMPERATURE': ('-99.0', '-99.9'), 'SOLAR_RADIATION': ('-9999', '-99'),
                    'RELATIVE_HUMIDITY': ('-99',), 'WETNESS': ('-99',)}.get(c, ())
            raw[c] = column(rng, n, lo, hi, nd, miss=miss, p=.12, near=near)
    head, lines, kept, rs = [], [], [], []
    off = 0
    for i, t in enumerate(times):
        if rng.random() < .04:          # empty lines occur in published files
            lines.append('')
            off += 1
        if rng.random() < .03:          # so do lines of null characters: dropped, with any data that follow on the line
            lines.append('\0' * int(pick(rng, [6, 6, 1, 40])))
            off += len(lines[-1]) + 1
        lt = t + dt.timedelta(hours=tz)
        s = f'{wb:5d} {t:%Y%m%d} {t:%H%M} {lt:%Y%m%d} {lt:%H%M} {"2.623":>6s} {lon[0]:>7s} {lat[0]:>7s}'
        for c, w, *_ in CRN_F:
            s += ' ' + raw[c][0][i].rjust(w)
        lines.append(s)
        rs.append(off)
        off += len(s) + 1
    mapped = bool(rng.random() < .6)
    want = {((f[6] or f[0]) if mapped else f[0]): raw[f[0]][1] for f in CRN_F}
    want['longitude' if mapped else 'LONGITUDE'] = np.full(n, lon[1])
    want['latitude' if mapped else 'LATITUDE'] = np.full(n, lat[1])
    want['WBANNO'] = np.full(n, float(wb))
    want['LST_TIME'] = np.array([float((t + dt.timedelta(hours=tz)).strftime('%H%M')) for t in times])
    want['UTC_DATE'] = np.array([float(t.strftime('%Y%m%d')) for t in times])
    return Case('crn', '\n'.join(lines) + '\n', '.txt', lambda f: iot.read_crn(f, map_variables=mapped),
                pd.DatetimeIndex(times, tz='UTC'), want, None, cfg=dict(n=n, t0=str(t0), mapped=mapped),
                cols_only=True, rec_starts=rs)


# --------------------------------------------------------------------- SRML
SRML_EL = [('100', 'ghi_'), ('201', 'dni_'), ('300', 'dhi_'), ('920', 'wind_direction_'), ('921', 'wind_speed_'),
           ('930', 'temp_air_'), ('931', 'temp_dew_'), ('933', 'relative_humidity_'), ('937', 'temp_cell_'),
           ('700', None), ('502', None)]


def srml(rng, year=None, month=None, step=None, days=None, els=None, mapped=None):
    year = year or int(rng.integers(1995, 2025) if rng.random() < .6 else rng.integers(2010, 2020))
    month = month or int(pick(rng, [*range(1, 13), 2, 12, 12]))
    step = step or int(pick(rng, [1, 5, 10, 15, 60]))
    first = dt.datetime(year, month, 1)
    if days is None:
        days = 1 if step == 1 else int(rng.integers(1, 4))
        if rng.random() < .4:            # the end of the month
            first = dt.datetime(year + month // 12, month % 12 + 1, 1) - dt.timedelta(days=days)
    n = days * 1440 // step
    if step == 1:
        n = int(rng.integers(61, 400))
    times = [first + dt.timedelta(minutes=step * i) for i in range(n)]       # start of each interval
    if els is None:
        els = [SRML_EL[i] for i in sorted(rng.permutation(len(SRML_EL))[:int(rng.integers(1, 6))])]
        els = [(e + str(int(rng.integers(0, 10))), m) for e, m in els]
        if any(e[:3] == '201' for e, _ in els) and rng.random() < .5:
            # element numbers of the form 201x also are years
            els = [((str(year) if e[:3] == '201' and 2010 <= year < 2020 else e), m) for e, m in els]
    raw = {}
    for e, m in els:
        v = column(rng, n, -20, 1100, int(pick(rng, [0, 1])), near=('99', '0'))
        fl = pick(rng, [[11, 12, 13], [12, 99]])
        f = [int(pick(rng, fl)) for _ in range(n)]
        raw[e] = (v[0], np.where(np.array(f) == 99, NAN, v[1]), np.array(f, float))
    head = ['\t'.join([str(int(rng.integers(94000, 95000))), str(year)] + [x for e, _ in els for x in (e, '0')])]
    lines = []
    for i, t in enumerate(times):
        e_t = t + dt.timedelta(minutes=step)
        hm = (e_t - t.replace(hour=0, minute=0)).total_seconds() / 60
        hm = int(hm // 60 * 100 + hm % 60)
        lines.append('\t'.join([str(t.timetuple().tm_yday), str(hm)]
                               + [x for e, _ in els for x in (raw[e][0][i], str(int(raw[e][2][i])))]))
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    want = {}
    for e, m in els:
        nm = (m + e[3:]) if (mapped and m and not e.startswith('7')) else e
        want[nm] = raw[e][1]
        want[nm + '_flag'] = raw[e][2]
    return Case('srml', '\n'.join(head + lines) + '\n', '.txt', lambda f: iot.read_srml(f, map_variables=mapped),
                pd.DatetimeIndex(times).tz_localize(fixed(-8)), want, None,
                cfg=dict(step=step, n=n, els=[e for e, _ in els], year=year, month=month, mapped=mapped),
                header=len(head[0]) + 1, rec_starts=starts(head, lines))


# --------------------------------------------------------------------- MIDC
MIDC_TZ = {'PST': -8, 'MST': -7, 'CST': -6, 'EST': -5, 'UTC': 0}


def midc(rng, raw=None, tzn=None, days=None, vmap=None, t0=None):
    raw = bool(rng.random() < .5) if raw is None else raw
    tzn = tzn or pick(rng, list(MIDC_TZ))
    n = int(rng.integers(1, 90))
    t0 = t0 or day0(rng, 2000, 2025) + dt.timedelta(minutes=int(pick(rng, [int(rng.integers(0, 1440)), 0, 1440 - n])))
    times = [t0 + dt.timedelta(minutes=i) for i in range(n)]
    names = ['Global Horizontal [W/m^2]', 'Direct Normal [W/m^2]', 'Diffuse Horizontal [W/m^2]',
             'Air Temperature [deg C]', 'Rel Humidity [%]', 'Avg Wind Speed @ 42ft [m/s]']
    names = names[:int(rng.integers(1, len(names) + 1))]
    cols = {c: column(rng, n, -8, 1200, 4, near=('-7999', '0')) for c in names}
    if vmap is None:
        vmap = pick(rng, [{}, {'Global Horizontal [W/m^2]': 'ghi', 'Air Temperature [deg C]': 'temp_air'}])
    if raw:
        head = [f',Year,DOY,{tzn},' + ','.join(names)]
        lines = [f'0,{t.year},{t.timetuple().tm_yday},{t.hour * 100 + t.minute},'
                 + ','.join(cols[c][0][i] for c in names) for i, t in enumerate(times)]
        kw = {}
        if rng.random() < .4:       # stations whose rows have more fields than the header
            lines = [x + ',-7999,0' for x in lines]
            kw = dict(usecols=range(4 + len(names)))
    else:
        head = [f'DATE (MM/DD/YYYY),{tzn},' + ','.join(names)]
        lines = [f'{t:%m/%d/%Y},{t:%H:%M},' + ','.join(cols[c][0][i] for c in names) for i, t in enumerate(times)]
        kw = {}
    want = {vmap.get(c, c): cols[c][1] for c in names}
    return Case('midc_raw' if raw else 'midc', '\n'.join(head + lines) + '\n', '.txt',
                lambda f: iot.read_midc(f, variable_map=vmap, raw_data=raw, **kw),
                pd.DatetimeIndex(times).tz_localize(fixed(MIDC_TZ[tzn])), want, None,
                cfg=dict(raw=raw, tz=tzn, n=n, t0=str(t0), vmap=bool(vmap), kw=str(kw)), cols_only=True,
                header=len(head[0]) + 1, rec_starts=starts(head, lines))


# --------------------------------------------------------------------- CAMS
CAMS_STEPS = {'1min': ('0 year 0 month 0 day 0 h 1 min 0 s', 1 / 60), '15min': ('0 year 0 month 0 day 0 h 15 min 0 s', .25),
              '1h': ('0 year 0 month 0 day 1 h 0 min 0 s', 1.), '1d': ('0 year 0 month 1 day 0 h 0 min 0 s', 24.),
              '1M': ('0 year 1 month 0 day 0 h 0 min 0 s', None)}
CAMS_INT = ['TOA', 'Clear sky GHI', 'Clear sky BHI', 'Clear sky DHI', 'Clear sky BNI', 'GHI', 'BHI', 'DHI', 'BNI',
            'GHI no corr', 'BHI no corr', 'DHI no corr', 'BNI no corr']
CAMS_MAP = {'TOA': 'ghi_extra', 'Clear sky GHI': 'ghi_clear', 'Clear sky BHI': 'bhi_clear',
            'Clear sky DHI': 'dhi_clear', 'Clear sky BNI': 'dni_clear', 'GHI': 'ghi', 'BHI': 'bhi', 'DHI': 'dhi',
            'BNI': 'dni', 'sza': 'solar_zenith'}


def cams(rng, step=None, ident=None, integrated=None, label='?', mapped=None, lat=None, lon=None, alt=None):
    step = step or pick(rng, list(CAMS_STEPS))
    ident = ident or pick(rng, ['mcclear', 'cams_radiation', 'verbose'])
    n = int(rng.integers(1, 50))
    y = int(rng.integers(2005, 2024))
    if step == '1M':
        n = min(n, 30)
        s = [dt.datetime(y + (m // 12), m % 12 + 1, 1) for m in range(n + 1)]
    else:
        mins = {'1min': 1, '15min': 15, '1h': 60, '1d': 1440}[step]
        t0 = day0(rng, 2005, 2024) + dt.timedelta(minutes=0 if step == '1d' else late(rng, n, mins))
        s = [t0 + dt.timedelta(minutes=mins * i) for i in range(n + 1)]
    names = CAMS_INT[:5] if ident == 'mcclear' else CAMS_INT[:9]
    if ident == 'verbose':
        names = CAMS_INT[:5] + ['sza', 'summer/winter split', 'tco3', 'AOD BC'] + CAMS_INT[5:]
    cols, texts = {}, []
    for c in names:
        t, v = column(rng, n, 0, 1000, 4, miss='nan' if c in CAMS_INT[5:] else None)
        cols[c] = v
        texts.append(t)
    lat = fnum(rng, -66, 66, 4) if lat is None else (str(lat), float(lat))
    lon = fnum(rng, -66, 66, 4) if lon is None else (str(lon), float(lon))
    alt = fnum(rng, 0, 3000, 2) if alt is None else (str(alt), float(alt))
    fmt = '%Y-%m-%dT%H:%M:%S.0'
    head = ['# Coding: utf-8', '# File format version: 2', '# Title: CAMS Radiation Service v3.2 all-sky irradiation.',
            '# Content:  A time-series of solar radiation received on horizontal plane.',
            '# Provider: MINES ParisTech (France)', '# More information at: http://www.soda-pro.com/x',
            f'# Date begin (ISO 8601): {s[0]:{fmt}}', f'# Date end (ISO 8601): {s[-1]:{fmt}}',
            f'# Latitude (positive North, ISO 19115): {lat[0]}',
            f'# Longitude (positive East, ISO 19115): {lon[0]}', f'# Altitude (m): {alt[0]}',
            '# Time reference: Universal time (UT)', '#', '# ObservableProperty',
            '#     basePhenomenon:"integral"', f'# Summarization (integration) period: {CAMS_STEPS[step][0]}',
            '# noValue: nan', '#', '# Columns:', '# 1. Observation period (ISO 8601)',
            '# Observation period;' + ';'.join(names)]
    lines = [f'{a:{fmt}}/{b:{fmt}};' + ';'.join(t[i] for t in texts) for i, (a, b) in enumerate(zip(s[:-1], s[1:]))]
    integrated = bool(rng.random() < .5) if integrated is None else integrated
    label = pick(rng, [None, 'left', 'right']) if label == '?' else label
    mapped = bool(rng.random() < .6) if mapped is None else mapped
    eff = label or ('right' if step == '1M' else 'left')
    idx = s[:-1] if eff == 'left' else s[1:]
    index = pd.DatetimeIndex(idx)
    if step == '1M' and eff == 'right':
        index = index - pd.Timedelta(days=1)
    if step not in ('1d', '1M'):
        index = index.tz_localize('UTC')
    want = {}
    for c in names:
        v = cols[c]
        if not integrated and c in CAMS_INT:
            h = CAMS_STEPS[step][1] or np.array([(b - a).total_seconds() / 3600 for a, b in zip(s[:-1], s[1:])])
            v = v / h
        want[CAMS_MAP.get(c, c) if mapped else c] = v
    c = Case('cams', '\n'.join(head + lines) + '\n', '.csv',
             lambda f: iot.read_cams(f, integrated=integrated, label=label, map_variables=mapped), index, want,
             dict(latitude=lat[1], longitude=lon[1], altitude=alt[1], time_step=step,
                  radiation_unit='Wh/m^2' if integrated else 'W/m^2'),
             cfg=dict(step=step, ident=ident, integrated=integrated, label=label, mapped=mapped, n=n), cols_only=True,
             header=sum(len(x) + 1 for x in head), rec_starts=starts(head, lines))
    c.params = dict(step=step, integrated=integrated, label=label, mapped=mapped)
    c.span = (s[0], s[-1])
    return c


# --------------------------------------------------------------------- SolarAnywhere
SA_COLS = [('Global Horizontal Irradiance (GHI) W/m2', 'ghi'), ('Direct Normal Irradiance (DNI) W/m2', 'dni'),
           ('AmbientTemperature (deg C)', 'temp_air'), ('WindSpeed (m/s)', 'wind_speed'),
           ('Relative Humidity (%)', 'relative_humidity'), ('Liquid Precipitation (kg/m2)', None),
           ('Clear Sky GHI', 'ghi_clear'), ('Clear Sky DNI', 'dni_clear'), ('Clear Sky DHI', 'dhi_clear'),
           ('Diffuse Horizontal Irradiance (DIF) W/m2', 'dhi'), ('Albedo', 'albedo'),
           ('Particulate Matter 10 (\u00b5g/m3)', None)]


def solaranywhere(rng):
    n = int(rng.integers(1, 60))
    step = int(pick(rng, [5, 30, 60]))
    t0 = day0(rng, 1998, 2024) + dt.timedelta(minutes=step + late(rng, n, step))
    times = [t0 + dt.timedelta(minutes=step * i) for i in range(n)]
    tz = float(pick(rng, [-8, -5, -5, -3.5, 0, 1, 5.5, 5.75, 9.5]))
    lat, lon, alt = fnum(rng, -60, 60, 4), fnum(rng, -179, 179, 4), fnum(rng, 0, 3000, 0)
    res = fnum(rng, 0, .1, 3)
    tzt = f'{tz:g}'
    head = [f'0,Burlington  United States,NA,{tzt},{lat[0]},{lon[0]},{alt[0]},"Data Version: 3.6 / Type: Timeseries / '
            f'LatLon Resolution: {res[0]} / Time Resolution: {step} minutes / Averaging Method: End of Period / '
            'TD: No / Copyright 2010-2022 Clean Power Research\u00a9, L.L.C. DownloadID=f0-11"']
    names = [c for c, _ in SA_COLS]
    k = sorted(rng.permutation(len(names))[:int(rng.integers(2, len(names) + 1))])
    sel = [SA_COLS[i] for i in k]
    raw = {c: column(rng, n, -20, 1100, int(pick(rng, [0, 1, 4])), miss='-999', near=('-99', '-9999', '999'))
           for c, _ in sel}
    head.append('ObservationTime(LST),' + ','.join(c for c, _ in sel) + ',DataVersion')
    lines = [f'{t:%m/%d/%Y %H:%M},' + ','.join(raw[c][0][i] for c, _ in sel) + ',SolarAnywhere3_6'
             for i, t in enumerate(times)]
    mapped = bool(rng.random() < .6)
    want = {((m or c) if mapped else c): raw[c][1] for c, m in sel}
    want['DataVersion'] = np.array(['SolarAnywhere3_6'] * n, dtype=object)
    return Case('solaranywhere', '\n'.join(head + lines) + '\n', '.csv',
                lambda f: iot.read_solaranywhere(f, map_variables=mapped),
                pd.DatetimeIndex(times).tz_localize(fixed(tz)), want,
                {'latitude': lat[1], 'longitude': lon[1], 'altitude': alt[1], 'TZ': tz, 'USAF': 0,
                 'LatLon Resolution': res[1], 'Type': 'Timeseries', 'state': 'NA'}, encoding='iso-8859-1', buffers=(),
                cfg=dict(tz=tz, n=n, step=step, mapped=mapped), cols_only=True,
                header=sum(len(x.encode('iso-8859-1')) + 1 for x in head),
                rec_starts=starts(head, lines, encoding='iso-8859-1'))


# --------------------------------------------------------------------- BSRN
def _bs(rng, n, kind, lo, hi, p=.08):
    """I4 / F5.1 fields with the format's missing codes."""
    out = []
    for _ in range(n):
        if rng.random() < p:
            out.append(('-999' if kind == 'i' else '-99.9', NAN))
        elif kind == 'i':
            v = int(rng.integers(lo, hi + 1))
            out.append((str(v), float(v)))
        else:
            out.append(fnum(rng, lo, hi, 1))
    return out


def _grp(rng, name):
    return [(name, 'i', -9, 1400), (name + '_std', 'f', 0, 99), (name + '_min', 'i', -9, 1300),
            (name + '_max', 'i', 0, 1500)]


def bsrn(rng, station=None, year=None, month=None, lrs=None, select=None, n=None, header=None):
    year = year or int(rng.integers(1995, 2024))
    month = month or int(pick(rng, [*range(1, 13), 2, 12]))
    full = n is None and rng.random() < .1
    nd = (dt.date(year + (month == 12), month % 12 + 1, 1) - dt.date(year, month, 1)).days
    avail = lrs or pick(rng, [['0100'], ['0100'], ['0100', '0300'], ['0100', '0300', '0500'], ['0100', '0500']])
    recs = {}
    for lr in avail:
        k = n or int(rng.integers(1, 50))
        start = int(pick(rng, [rng.integers(0, nd * 1440 - k)] * 3 + [nd * 1440 - k]))
        recs[lr] = [(start + i) for i in range(k)]
        if full:
            recs[lr] = recs[lr][:1] + list(range(nd * 1440 - 5, nd * 1440))
            recs[lr] = sorted(set(recs[lr]))
    if len(avail) > 1 and rng.random() < .6:          # usually the records cover the same minutes
        recs = {lr: recs['0100'] for lr in avail}
    sid, slat, slon, salt, ver = header or (int(rng.integers(1, 99)), fnum(rng, 0, 180, 3), fnum(rng, 0, 360, 3),
                                            int(rng.integers(0, 3500)), int(rng.integers(1, 9)))
    hz = sorted(set(int(x) for x in rng.integers(0, 360, 17)))
    hzv = [(a, int(rng.integers(0, 40))) for a in hz]
    pairs = [f' {a:3d} {b:2d}' for a, b in (hzv if rng.random() < .6 else [hzv[i] for i in rng.permutation(len(hzv))])]
    while len(pairs) % 11:
        pairs.append('  -1 -1')
    hlines = [''.join(pairs[i:i + 11]) for i in range(0, len(pairs), 11)]
    lines = ['*U0001', f' {sid:2d} {month:2d} {year:4d} {ver:2d}',
             '        2        3        4        5       21       22       23       -1',
             '*U0002', ' -1 -1 -1', 'Someone                                +49 471             +49 471',
             '127.0.0.1       someone@awi.de', ' -1 -1 -1', 'Other                                  XXX',
             '127.0.0.1       other@awi.de', '*U0003', 'XXX', '*U0004', ' -1 -1 -1', '  5  8',
             'Somewhere street 1, 0000', '+49 471             +49 471', '127.0.0.1       a@b.c',
             f' {slat[0]:>7s} {slon[0]:>7s} {salt:4d} 89002', ' -1 -1 -1'] + hlines + \
            ['*U0005', ' -1 -1 -1 Y', 'XXX', '*U0008', ' -1 -1 -1 Y', 'Eppley']
    nhead = len(lines)
    cols, pos = {}, {}
    for lr in ('0100', '0300', '0500'):
        if lr not in avail:
            continue
        lines.append('*U' + lr)
        n = len(recs[lr])
        if lr == '0100':
            g1, g2 = _grp(rng, 'ghi') + _grp(rng, 'dni'), _grp(rng, 'dhi') + _grp(rng, 'lwd')
            x = [('temp_air', 'f', -60, 50), ('relative_humidity', 'f', 0, 100), ('pressure', 'i', 500, 1100)]
        elif lr == '0300':
            g1, g2, x = _grp(rng, 'gri') + _grp(rng, 'lwu') + _grp(rng, 'net_radiation'), None, []
        else:
            def four(a):
                return [(a, 'f', 0, 99), (a + '_std', 'f', 0, 99), (a + '_min', 'f', 0, 99), (a + '_max', 'f', 0, 99)]
            g1, g2 = four('uva_global') + four('uvb_direct'), four('uvb_global') + four('uvb_diffuse') + four('uvb_reflected')
            x = []
        vals = {f[0]: _bs(rng, n, f[1], f[2], f[3]) for f in g1 + (g2 or []) + x}
        pos[lr] = []
        for i, mm in enumerate(recs[lr]):
            d, m = mm // 1440 + 1, mm % 1440
            pos[lr].append(len(lines))
            if lr == '0500':
                lines.append(f' {d:2d} {m:4d}' + ''.join(' ' + vals[f[0]][i][0].rjust(5) for f in g1) + ' -99.9' * 4)
                lines.append('        ' + ''.join(' ' + vals[f[0]][i][0].rjust(5) for f in g2))
                continue

            def grp(fs):
                s = ''
                for j, f in enumerate(fs):
                    s += ('   ' if j % 4 == 0 else ' ') + vals[f[0]][i][0].rjust(5 if f[1] == 'f' else 4)
                return s
            lines.append(f' {d:2d} {m:4d}' + grp(g1))
            if g2:
                t, r, p = (vals[f[0]][i][0] for f in x)
                lines.append('        ' + grp(g2) + f'    {t:>5s} {r:>5s} {p:>4s}')
        cols[lr] = {f[0]: np.array([v[1] for v in vals[f[0]]]) for f in g1 + (g2 or []) + x}
    if rng.random() < .4:          # further logical records follow the ones that are read
        lines.append('*U4000')
        lines += [f' {d:2d} {m:4d}    1.0  2.0  3.0 {d:5d}' for d in (1, 2, 3) for m in (0, 1)][:int(rng.integers(1, 7))]
    sel = select or tuple(pick(rng, [avail, avail, avail[:1]]))
    t0 = pd.Timestamp(year=year, month=month, day=1, tz='UTC')
    frames = [pd.DataFrame(cols[lr], index=t0 + pd.to_timedelta(recs[lr], unit='min')) for lr in ('0100', '0300', '0500')
              if lr in avail and lr in sel]
    want = pd.concat(frames, axis='columns', sort=False)
    want = want.sort_index() if len(frames) > 1 else want
    hor = pd.Series([b for _, b in hzv], index=[a for a, _ in hzv])
    text = '\n'.join(lines) + '\n'
    off = np.concatenate([[0], np.cumsum([len(x) + 1 for x in lines])])
    c = Case('bsrn', text, '.dat', lambda f: iot.read_bsrn(f, logical_records=sel), want.index,
             {k: want[k].to_numpy() for k in want}, {
                 'latitude': slat[1] - 90, 'longitude': slon[1] - 180, 'latitude_bsrn': slat[1],
                 'longitude_bsrn': slon[1], 'altitude': salt, 'station identification number': sid,
                 'version of data': ver, 'surface type': 5, 'topography type': 8, 'start date': t0, 'horizon': hor},
             cfg=dict(lrs=avail, sel=sel, n={k: len(v) for k, v in recs.items()}, year=year, month=month),
             header=int(off[nhead]), rec_starts=None)
    c.multi = len(frames) > 1
    c.order_free = len(frames) > 1
    lr0 = [lr for lr in ('0100', '0300', '0500') if lr in sel and lr in avail]
    c.rec_starts = [int(off[i]) for i in pos[lr0[0]]] if len(lr0) == 1 else None
    return c


# --------------------------------------------------------------------- PAN / OND
def panond(rng):
    def leaf():
        k = int(rng.integers(0, 7))
        if k == 0:
            v = int(rng.integers(-500, 5000)) if rng.random() < .8 else int(rng.integers(2**55, 2**62))
            return str(v), v
        if k == 1:
            t, v = fnum(rng, -100, 500, int(rng.integers(1, 5)))
            return t, v
        if k == 2:
            t = pick(rng, ['ET SOLAR', 'mtSiMono', 'slTwinHalfCells', '$00900243', '06/04/22 12:39', 'Yes', 'v1.2.3', 'rev=2 (x=1)', 'Inf', 'Société Énergie', '25 °C'])
            return t, t
        if k == 3:
            vals = [fnum(rng, 0, 90, 1) for _ in range(int(rng.integers(2, 5)))]
            return ','.join(a for a, _ in vals), [b for _, b in vals]
        if k == 4:
            vals = [int(x) for x in rng.integers(0, 100, 3)]
            return ','.join(map(str, vals)), vals
        if k == 5:
            vals = [fnum(rng, 0, 90, 3)[0], 'abc']
            return ','.join(vals), [float(vals[0]), 'abc']
        return '', ''
    count = [0]

    def body(ind, depth):
        lines, d = [], {}
        for _ in range(int(rng.integers(2, 6))):
            count[0] += 1
            pad = '  ' * ind
            if depth < 3 and rng.random() < .3:
                key, val = f'PVObject_{count[0]}', 'pvThing'
                sub, sd = body(ind + 1, depth + 1)
                lines += [f'{pad}{key}={val}'] + sub + [f'{pad}End of PVObject {val}{count[0]}']
                d[key] = dict({key: val}, **sd)
                d[f'End of PVObject {val}{count[0]}'] = None
                if rng.random() < .5:
                    lines.append('')
            else:
                t, v = leaf()
                key = f'Key{count[0]}'
                lines.append(f'{pad}{key}={t}')
                d[key] = v
        return lines, d
    lines, d = body(1, 0)
    want = {'PVObject_': dict({'PVObject_': 'pvModule'}, **d)}
    text = '\n'.join(['PVObject_=pvModule'] + lines + ['End of PVObject pvModule']) + '\n'
    enc = pick(rng, ['utf-8', 'utf-8-sig', 'latin-1', 'cp1252'])
    return Case('panond', text, pick(rng, ['.PAN', '.OND']), lambda f: iot.read_panond(f, encoding=enc), None,
                {}, want, encoding=enc, buffers=(), cfg=dict(lines=len(lines)))


ALL = dict(tmy3=tmy3, tmy2=tmy2, epw=epw, psm4=psm4, pvgis_hourly=pvgis_hourly, pvgis_tmy=pvgis_tmy, surfrad=surfrad,
           solrad=solrad, crn=crn, srml=srml, midc=midc, cams=cams, solaranywhere=solaranywhere, bsrn=bsrn,
           panond=panond)


def as_buffer(case, kind):
    if kind == 'text':
        return io.StringIO(case.raw.decode(case.encoding), newline=None)
    return io.BytesIO(case.raw)


def meta_get(meta, key):
    """Nested look-up of 'a.b.c' (plain keys containing dots are tried first)."""
    if isinstance(meta, dict) and key in meta:
        return meta[key]
    cur = meta
    for part in key.split('.'):
        cur = cur[part]
    return cur
