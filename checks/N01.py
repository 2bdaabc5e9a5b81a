"""N01: snow and soiling accumulate, slide and wash off by the documented rules."""
import datetime
import math

import numpy as np
import pandas as pd

from pvlib import snow, soiling

from mon.core import Mon, main

mon = Mon('N01', 'distinct generated weather histories',
          ['record-by-record state machines for snow cover, rain wash-off and deposition, in plain Python'],
          required=['covered', 'coverage', 'coverage bounds', 'prefix', 'dc loss', 'townsend', 'hsu', 'kimber', 'kimber wash', 'container'])


def freq(rng):
    return str(rng.choice(['5min', '10min', '15min', '30min', '1h', '2h', '3h', '6h', '12h', '1D']))


def index(rng, n, f=None, tz=True):
    f = f or freq(rng)
    z = [None, 'UTC', 'Etc/GMT+7', 'Asia/Kolkata'][int(rng.integers(4))] if tz else None
    start = pd.Timestamp('2019-12-29') + pd.Timedelta(int(rng.choice([0, 30, 60, 450])), 'min')
    return pd.date_range(start, periods=n, freq=f, tz=z)


def storms(rng, n, p, scale, q=.25):
    """amounts in exact multiples of q: long dry spells and multi-record storms"""
    x = np.zeros(n)
    i = 0
    while i < n:
        i += int(rng.geometric(p))
        k = int(rng.integers(1, 6))
        for j in range(i, min(i + k, n)):
            x[j] = q * int(rng.integers(0, max(2, int(scale / q))))
        i += k
    return x


def windowed(rain, ix, period):
    """rain of the records in (t - period, t]; exact, since the amounts are multiples of a power of two"""
    t = [x.value for x in ix.tz_localize(None).as_unit('ns')] if ix.tz else [x.value for x in ix.as_unit('ns')]
    w = pd.Timedelta(period).as_unit('ns').value
    out, j, s = [], 0, 0.
    for i in range(len(t)):
        s += rain[i]
        while t[j] <= t[i] - w:
            s -= rain[j]
            j += 1
        out.append(s)
    return out


# ------------------------------------------------------------------------ snow
def covered_ref(fall, hours, depth, t0, t1, regular):
    out = []
    for i, s in enumerate(fall):
        h = hours[i] if i else (hours[1] if regular else math.inf)
        c = s / h > t0
        if depth is not None:
            c = c and depth[i] >= t1
        out.append(bool(c))
    return out


def snow_case(m, rd):
    rng = m.sub('snow', rd)
    n = int(rng.integers(3, 120))
    f = freq(rng)
    ix = index(rng, n, f)
    regular = True
    if rng.random() < .25 and n > 8:
        keep = np.ones(n, bool)
        keep[rng.integers(1, n - 1, n // 4)] = False
        ix = ix[keep]
        if pd.infer_freq(ix) is None:
            regular = False
        n = len(ix)
    t = ix.tz_localize(None) if ix.tz else ix
    hours = [math.nan] + [(t[i] - t[i - 1]).total_seconds() / 3600 for i in range(1, n)]
    step = hours[1]
    fall = storms(rng, n, .15, 3 * step * 2, .25 * step) if rng.random() < .7 else storms(rng, n, .4, 8, .5)
    G = np.where(rng.random(n) < .5, 0, rng.uniform(0, 1000, n))
    T = rng.uniform(-15, 8, n)
    tilt = float(rng.choice([0, 10, 25, 45, 90])) if rng.random() < .6 else rng.uniform(0, 60, n)
    depth = None if rng.random() < .5 else np.round(np.clip(rng.uniform(-2, 15, n), 0, None), 1)
    if depth is not None and rng.random() < .5:
        depth = np.where(rng.random(n) < .85, 10., 0.5)
    kw = {}
    if rng.random() < .6:
        kw = dict(initial_coverage=float(rng.choice([0, .3, 1])), threshold_snowfall=float(rng.choice([.5, 1, 2])), threshold_depth=float(rng.choice([.5, 1, 4])),
                  can_slide_coefficient=float(rng.choice([-80, -60, -100])), slide_amount_coefficient=float(rng.choice([.197, .1, .02, .9])))
    t0, t1, c0 = kw.get('threshold_snowfall', 1.), kw.get('threshold_depth', 1.), kw.get('initial_coverage', 0)
    rate = np.array([fall[i] / (hours[i] if i else step) for i in range(n)])
    fall = np.where(np.abs(rate - t0) < 1e-9, fall, fall)
    S = lambda v: pd.Series(v, index=ix)  # noqa: E731
    ctx = dict(n=n, freq=f, start=str(ix[0]), regular=regular, fall=fall, depth=depth, tilt=tilt, **kw)
    m.case(('snow', rd, n, f), ctx)
    want = covered_ref(fall, hours, depth, t0, t1, regular)
    tie = np.abs(rate - t0) < 1e-9
    # a tie means exactly at the threshold: representable when step divides evenly
    exact = np.array([(fall[i] / (hours[i] if i else step)) == t0 or not tie[i] for i in range(n)])
    ok, got = m.call('covered', snow.fully_covered_nrel, S(fall), None if depth is None else S(depth), t0, t1, ctx=ctx)
    if ok:
        m.check('container', isinstance(got, pd.Series) and got.index.equals(ix) and got.dtype == bool, ctx, 'boolean Series on the input index')
        m.check('covered', all(bool(a) == b for a, b, e in zip(got, want, exact) if e), dict(ctx, got=got.to_numpy(), want=want), 'full cover exactly where the snowfall rate exceeds the threshold')
    args = lambda k: (S(fall).iloc[:k], S(G).iloc[:k], S(T).iloc[:k], tilt if np.isscalar(tilt) else S(tilt).iloc[:k])  # noqa: E731
    ok, cov = m.call('coverage', snow.coverage_nrel, *args(n), snow_depth=None if depth is None else S(depth), ctx=ctx, **kw)
    if not ok or not exact.all():
        return
    m.check('container', isinstance(cov, pd.Series) and cov.index.equals(ix), ctx, 'Series on the input index')
    v = cov.to_numpy()
    m.check('coverage bounds', bool(np.all((v >= 0) & (v <= 1))), dict(ctx, got=v), 'coverage outside [0, 1]')
    k, a = kw.get('can_slide_coefficient', -80.), kw.get('slide_amount_coefficient', .197)
    c, ref, near = c0, [], []
    tl = np.broadcast_to(tilt, n)
    for i in range(n):
        if want[i]:
            c = 1.
        elif depth is not None and depth[i] < t1:
            c = 0.
        elif i and T[i] > G[i] / k:
            c = max(0., c - a * math.sin(math.radians(tl[i])) * hours[i])
        ref.append(c)
    m.close('coverage', v, ref, 0, 1e-9, ctx)
    if not regular:
        return
    # history up to a record alone decides it
    q = int(rng.integers(3, n + 1))
    ok, pre = m.call('prefix', snow.coverage_nrel, *args(q), snow_depth=None if depth is None else S(depth).iloc[:q], ctx=dict(ctx, prefix=q), **kw)
    if ok:
        m.close('prefix', pre.to_numpy(), v[:q], 0, 1e-9, dict(ctx, prefix=q))
    ns = int(rng.integers(1, 7))
    lost = snow.dc_loss_nrel(cov, ns)
    x = v * ns
    clear = np.abs(x - np.round(x)) > 1e-9
    clear |= (v == 0) | (v == 1)
    m.close('dc loss', np.asarray(lost)[clear], (np.ceil(x) / ns)[clear], 1e-12, 1e-12, dict(ctx, strings=ns))
    m.check('dc loss', bool(np.all(np.asarray(lost) >= v - 1e-9)) and bool(np.all(np.asarray(lost) <= 1 + 1e-12)), dict(ctx, strings=ns), 'loss below the coverage or above one')
    m.close('dc loss', snow.dc_loss_nrel(np.array([0, .01, .5, .51, .99, 1.]), 2), [0, .5, .5, 1, 1, 1], 0, 0)


def townsend(m, rd):
    rng = m.sub('town', rd)
    n = 12
    snow_cm = np.where(rng.random(n) < .4, 0, rng.uniform(0, 120, n))
    ev = np.where(snow_cm > 0, rng.integers(0, 12, n), 0)
    if rng.random() < .3:
        ev = ev * rng.uniform(.5, 1.5, n)
    rh, ta, g = rng.uniform(20, 95, n), rng.uniform(-20, 25, n), rng.uniform(2e4, 2.2e5, n)
    tilt, w, h = float(rng.uniform(0, 80)), float(rng.uniform(.5, 5)), float(rng.choice([.1, .5, 1., 3.]))
    kw = dict(string_factor=float(rng.choice([.75, 1.])), angle_of_repose=float(rng.uniform(25, 55)), front_side_fraction=float(rng.uniform(.7, 1))) if rng.random() < .6 else {}
    if kw and rng.random() < .3:
        kw['front_side_fraction'] = rng.uniform(.7, 1, n)
    ctx = dict(snow=snow_cm, events=ev, rh=rh, temp=ta, poa=g, tilt=tilt, slant=w, height=h, **kw)
    m.case(('town', rd, tilt), ctx)
    ok, got = m.call('townsend', snow.loss_townsend, snow_cm, ev, tilt, rh, ta, g, w, h, ctx=ctx, **kw)
    if not ok:
        return
    eff = [.5 * s / 2.54 * (1 + 1 / max(e, 1)) if e > 0 else 0. for s, e in zip(snow_cm, ev)]
    ff = np.broadcast_to(kw.get('front_side_fraction', 1.), n)
    ref = []
    for i in range(n):
        se = eff[i - 1] / 3 + 2 * eff[i] / 3     # January follows December
        low = max((h * 39.37) ** 2 - se ** 2, .1)
        gam = w * 39.37 * se * math.cos(math.radians(tilt)) / low * 2 * math.tan(math.radians(kw.get('angle_of_repose', 40)))
        git = 1 - .51 * math.exp(-gam)
        v = 5.7e4 * se * math.cos(math.radians(tilt)) ** 2 * git * rh[i] / 100 / (ta[i] + 273.15) ** 2 / (g[i] / 1000) ** .67 * kw.get('string_factor', 1.)
        ref.append(min(1., max(0., v * ff[i])))
    m.close('townsend', got, ref, 1e-9, 1e-12, ctx)
    sh = int(rng.integers(1, 12))
    if np.isscalar(kw.get('front_side_fraction', 1.)):
        r = lambda x: np.roll(x, sh)  # noqa: E731
        m.close('townsend', snow.loss_townsend(r(snow_cm), r(ev), tilt, r(rh), r(ta), r(g), w, h, **kw), np.roll(got, sh), 1e-12, 0, dict(ctx, rotated=sh))


# --------------------------------------------------------------------- soiling
def hsu(m, rd):
    rng = m.sub('hsu', rd)
    n = int(rng.integers(2, 150))
    ix = index(rng, n)
    if rng.random() < .2 and n > 8:
        keep = np.ones(n, bool)
        keep[rng.integers(1, n, n // 4)] = False
        ix = ix[keep]
        n = len(ix)
    rain = storms(rng, n, .1, 3)
    thr = float(rng.choice([.25, .5, 1, 2.5, 5]))
    period = pd.Timedelta(str(rng.choice(['1h', '3h', '6h', '24h', '30min'])))
    tilt = float(rng.uniform(0, 80)) if rng.random() < .6 else rng.uniform(0, 60, n)
    pm25 = float(rng.uniform(0, 8e-5)) if rng.random() < .5 else rng.uniform(0, 8e-5, n)
    pm10 = float(rng.uniform(0, 1.5e-4)) if rng.random() < .5 else rng.uniform(0, 1.5e-4, n)
    kw = dict(depo_veloc={'2_5': float(rng.uniform(1e-4, 5e-3)), '10': float(rng.uniform(1e-3, 2e-2))}) if rng.random() < .5 else {}
    if period != pd.Timedelta('1h') or rng.random() < .5:
        kw['rain_accum_period'] = period
    else:
        period = pd.Timedelta('1h')
    ctx = dict(n=n, start=str(ix[0]), step=str(ix[1] - ix[0]), rain=rain, threshold=thr, tilt=tilt, pm25=pm25, pm10=pm10, **kw)
    m.case(('hsu', rd, n, thr), ctx)
    ser = rng.random() < .5
    S = lambda v: pd.Series(v, index=ix) if ser and not np.isscalar(v) else v  # noqa: E731
    ok, got = m.call('hsu', soiling.hsu, pd.Series(rain, index=ix), thr, S(tilt), S(pm25), S(pm10), ctx=ctx, **kw)
    if not ok:
        return
    m.check('container', isinstance(got, pd.Series) and got.index.equals(ix), ctx, 'Series on the input index')
    dv = kw.get('depo_veloc', {'2_5': .0009, '10': .004})
    b = lambda v: np.broadcast_to(v, n)  # noqa: E731
    acc = windowed(rain, ix, period)
    dts = [(ix[1] - ix[0]).total_seconds(), *(ix[1:] - ix[:-1]).total_seconds()]
    mass, ref = 0., []
    for i in range(n):
        mass += (b(pm25)[i] * dv['2_5'] + max(b(pm10)[i] - b(pm25)[i], 0) * dv['10']) * dts[i] * math.cos(math.radians(b(tilt)[i]))
        if acc[i] >= thr:
            mass = 0.
        ref.append(1 - .3437 * math.erf(.17 * mass ** .8473))
    # below: pvlib subtracts running sums, so a mass of zero may come out as rounding
    m.close('hsu', got.to_numpy(), ref, 1e-7, 1e-6, ctx)
    v = got.to_numpy()
    m.check('hsu', bool(np.all((v >= .6562) & (v <= 1))), dict(ctx, got=v), 'ratio outside (0.656, 1]')
    q = int(rng.integers(2, n + 1))
    cut = lambda x: x if np.isscalar(x) else (S(x).iloc[:q] if ser else x[:q])  # noqa: E731
    m.close('prefix', soiling.hsu(pd.Series(rain, index=ix).iloc[:q], thr, cut(tilt), cut(pm25), cut(pm10), **kw).to_numpy(), v[:q], 0, 1e-9, dict(ctx, prefix=q))


def kimber(m, rd):
    rng = m.sub('kimber', rd)
    f = str(rng.choice(['30min', '1h', '3h', '6h', '12h', '1D']))
    per_day = pd.Timedelta('1D') / pd.Timedelta(f)
    n = int(min(400, max(4, rng.uniform(1, 40) * per_day)))
    ix = index(rng, n, f)
    rain = storms(rng, n, min(.9, .15 / per_day + .01), 12)
    if rng.random() < .25:
        rain[0] = float(rng.uniform(2, 30))     # it rains when the record starts
    kw = {}
    if rng.random() < .75:
        kw = dict(cleaning_threshold=float(rng.choice([1, 3, 6, 10])), soiling_loss_rate=float(rng.choice([.0005, .0015, .003, .02])), grace_period=int(rng.choice([1, 3, 7, 14])),
                  max_soiling=float(rng.choice([.01, .05, .3])), initial_soiling=float(rng.choice([0, .005, .02])), rain_accum_period=int(rng.choice([3, 12, 24, 48])))
    thr, rate, grace, cap, s0, acc = [kw.get(k, d) for k, d in (('cleaning_threshold', 6), ('soiling_loss_rate', .0015), ('grace_period', 14), ('max_soiling', .3), ('initial_soiling', 0), ('rain_accum_period', 24))]
    wash = None
    if rng.random() < .6:
        loc = ix.tz_localize(None)
        mid = list(ix[loc == loc.normalize()])
        if mid:
            wash = [mid[int(i)] for i in np.unique(rng.integers(0, len(mid), int(rng.integers(1, 4))))]
            kw['manual_wash_dates'] = [datetime.date(t.year, t.month, t.day) for t in wash]
            if rng.random() < .3:
                kw['manual_wash_dates'] = tuple(kw['manual_wash_dates'])
    ctx = dict(n=n, freq=f, start=str(ix[0]), tz=str(ix.tz), rain=rain, **kw)
    m.case(('kimber', rd, n, f), ctx)
    ok, got = m.call('kimber', soiling.kimber, pd.Series(rain, index=ix), ctx=ctx, **kw)
    if not ok:
        return
    m.check('container', isinstance(got, pd.Series) and got.index.equals(ix), ctx, 'Series on the input index')
    day = (ix[1] - ix[0]) / pd.Timedelta('1D')
    rainy = [a > thr for a in windowed(rain, ix, pd.Timedelta(hours=acc))]
    s, ref = s0, []
    washed = {ix.get_loc(t) for t in wash or []}
    last = None
    for i in range(n):
        if i:
            s += rate * day
        if rainy[i]:
            last = i
        damp = last is not None and (i - last) * day < grace - 1e-9
        if damp or i in washed:
            s = 0.
        ref.append(min(s, cap))
    m.close('kimber wash' if wash else 'kimber', got.to_numpy(), ref, 0, 1e-9, ctx)
    m.check('kimber', bool(np.all((got >= -1e-12) & (got <= cap + 1e-12))), ctx, 'soiling outside [0, cap]')
    q = int(rng.integers(2, n + 1))
    if not wash or max(wash) <= ix[q - 1]:
        m.close('prefix', soiling.kimber(pd.Series(rain, index=ix).iloc[:q], **kw).to_numpy(), got.to_numpy()[:q], 0, 1e-9, dict(ctx, prefix=q))


def work(m):
    for rd in range(m.n(400, 6000)):
        snow_case(m, rd)
    for rd in range(m.n(250, 3000)):
        townsend(m, rd)
    for rd in range(m.n(250, 3000)):
        hsu(m, rd)
    for rd in range(m.n(250, 3000)):
        kimber(m, rd)


if __name__ == '__main__':
    main(mon, work)
