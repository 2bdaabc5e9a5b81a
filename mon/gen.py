"""Seeded input generators with realistic bulk and hostile edges."""
import numpy as np
import pandas as pd

ZONES = ['UTC', 'US/Arizona', 'America/New_York', 'Europe/Berlin', 'Asia/Kolkata',
         'Asia/Kathmandu', 'Australia/Adelaide', 'Pacific/Auckland', 'Pacific/Kiritimati',
         'Pacific/Pago_Pago', 'America/St_Johns', 'Etc/GMT+7', 'Etc/GMT-5', 'America/Sao_Paulo',
         'Australia/Lord_Howe', 'Asia/Tokyo', 'Africa/Casablanca']


def mix(rng, n, lo, hi, edges=(), p=0.25):
    """Uniform in [lo, hi] with a share of edge values."""
    x = rng.uniform(lo, hi, n)
    if len(edges):
        m = rng.random(n) < p
        x[m] = rng.choice(np.asarray(edges, float), m.sum())
    return x


def zenith(rng, n, hi=180.0):
    return mix(rng, n, 0, hi, [0., 1e-3, 30., 60., 80., 85., 86., 87., 88., 89., 89.9, 90., 90.0001, 91., 93., 95., 100., 120., 150.][:19 if hi > 150 else 12])


def day_zenith(rng, n):
    return mix(rng, n, 0, 89.0, [0., 10., 45., 60., 75., 85., 88.])


def azimuth(rng, n):
    return mix(rng, n, 0, 360, [0., 90., 180., 270., 360., 359.999])


def tilt(rng, n):
    return mix(rng, n, 0, 90, [0., 1e-6, 30., 45., 60., 89.9, 90.])


def irr(rng, n, hi=1200.):
    return mix(rng, n, 0, hi, [0., 1e-3, 1., 5., 100., 200., 400., 1000.])


def consistent_irr(rng, n, zen, i0=1367.):
    """ghi, dni, dhi triple consistent with the sun's position."""
    cz = np.maximum(np.cos(np.radians(zen)), 0)
    kt = mix(rng, n, 0, 1.0, [0., 0.2, 0.5, 0.75])
    kd = mix(rng, n, 0.05, 1.0, [1., 0.1])
    ghi = kt * i0 * cz
    dhi = kd * ghi
    dni = np.where(cz > 0.01, (ghi - dhi) / np.maximum(cz, 0.01), 0.0)
    return ghi, dni, dhi


def site(rng):
    k = rng.random()
    if k < 0.06:
        lat = float(rng.choice([90., -90., 89.99, -89.99]))
    elif k < 0.12:
        lat = 0.0
    elif k < 0.25:
        lat = float(rng.choice([66.56, -66.56, 23.44, -23.44, 51.5, 70.0, -75.0]))
    else:
        lat = float(np.degrees(np.arcsin(rng.uniform(-1, 1))))
    k = rng.random()
    if k < 0.2:
        lon = float(rng.choice([0., 180., -180., 179.99, -179.99, 90., -90.]))
    else:
        lon = float(rng.uniform(-180, 180))
    return lat, lon, float(rng.choice([0., 0., -400., 100., 1500., 3000., 5000.]))


def instants(rng, n, y0=1955, y1=2049):
    """UTC nanosecond instants, some adversarial (year ends, leap days, noon/midnight)."""
    a = pd.Timestamp(f'{y0}-01-01').value
    b = pd.Timestamp(f'{y1}-12-31').value
    t = rng.integers(a // 10**9, b // 10**9, n) * 10**9
    sp = []
    for _ in range(n):
        y = int(rng.integers(y0, y1))
        sp.append(rng.choice([f'{y}-01-01 00:00', f'{y}-12-31 23:59:59', f'{y - y % 4}-02-29 12:00',
                              f'{y}-03-20 12:00', f'{y}-06-21 12:00', f'{y}-12-21 00:00',
                              f'{y}-02-28 23:30', f'{y}-12-31 12:00']))
    sp = pd.DatetimeIndex([pd.Timestamp(s) for s in sp]).as_unit('ns').asi8
    m = rng.random(n) < 0.25
    t = np.where(m, sp, t)
    frac = np.where(rng.random(n) < 0.3, rng.integers(0, 10**6, n) * 1000, 0)
    return pd.DatetimeIndex(t + frac).tz_localize('UTC')


def index_kinds(rng, n):
    """Various pandas indexes of length n for Series inputs."""
    k = int(rng.integers(0, 5))
    if k == 0:
        return pd.date_range('2021-06-01', periods=n, freq='1h', tz='Etc/GMT+7')
    if k == 1:
        return pd.DatetimeIndex(np.sort(rng.integers(1.5e9, 1.6e9, n)) * 10**9).tz_localize('UTC').tz_convert('Europe/Berlin')
    if k == 2:
        return pd.RangeIndex(5, 5 + n)
    if k == 3:
        return pd.Index([f'r{i}' for i in range(n)])
    return pd.DatetimeIndex(rng.permutation(pd.date_range('2020-02-28', periods=n, freq='17min').asi8))
