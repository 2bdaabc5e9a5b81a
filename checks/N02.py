"""N02: spatial smoothing and water albedo follow their definitions."""
import math

import numpy as np
import pandas as pd

from pvlib import albedo, scaling

from mon import gen
from mon.core import Mon, main

mon = Mon('N02', 'distinct (series, layout, cloud speed) cases and water surfaces',
          ['wavelets: centred moving averages over the mirrored series, in plain numpy', 'variability reduction from all pairwise distances'],
          required=['decompose', 'wavelet', 'reduce', 'never more', 'single', 'positions', 'container', 'xy', 'water', 'water checks'])
COL = {'clear_water_no_waves': (.13, .29), 'clear_water_ripples_up_to_2.5cm': (.16, .7), 'clear_water_ripples_larger_than_2.5cm_occasional_whitecaps': (.23, 1.25),
       'clear_water_frequent_whitecaps': (.3, 2.), 'green_water_ripples_up_to_2.5cm': (.22, .7), 'muddy_water_no_waves': (.19, .29)}


def series(rng, n):
    k = rng.random()
    if k < .1:
        return np.full(n, float(rng.uniform(0, 1.2)))
    if k < .4:
        return rng.uniform(0, 1.2, n)
    if k < .7:
        return np.where(np.cumsum(rng.random(n) < .08) % 2, 1.0, .3) + rng.normal(0, .02, n)
    return np.clip(.7 + .3 * np.sin(np.arange(n) / rng.uniform(2, 50)) + np.cumsum(rng.normal(0, .01, n)), 0, 1.3)


def wavelets(x, dt):
    n = len(x)
    levels = int(13 - math.ceil(math.log(dt) / math.log(2)))
    scales = [dt * 2 ** i for i in range(levels)]
    long = np.concatenate([x[::-1], x, x[::-1]])
    cs = np.concatenate([[0.], np.cumsum(long)])
    mean = [x]
    pos = np.arange(n, 2 * n)
    for i in range(1, levels):
        w = 2 ** i
        lo, hi = np.clip(pos + 1 - w // 2, 0, None), np.clip(pos + 1 + w // 2, None, 3 * n)
        mean.append((cs[hi] - cs[lo]) / (hi - lo))
    return np.array([mean[i] - mean[i + 1] for i in range(levels - 1)] + [mean[-1]]), np.array(scales)


def reduction(pos, v, scales):
    d = np.hypot(*(np.asarray(pos, float)[:, None, :] - np.asarray(pos, float)[None, :, :]).transpose(2, 0, 1))
    return np.array([len(pos) ** 2 / np.exp(-d / (v / 2) / t).sum() for t in scales])


def layout(rng):
    k = rng.random()
    n = int(rng.integers(1, 40))
    if k < .15:
        p = np.array([[0., 0.]])
    elif k < .4:
        p = rng.uniform(-1, 1, (n, 2)) * float(rng.choice([5, 100, 2000, 30000]))
    elif k < .6:
        a, b = int(rng.integers(1, 9)), int(rng.integers(1, 9))
        p = np.array([(i * 50., j * 30.) for i in range(a) for j in range(b)])
    elif k < .7:
        p = np.zeros((n, 2)) + 12.
    else:
        p = scaling.latlon_to_xy([(40 + float(x), -105 + float(y)) for x, y in rng.uniform(-.05, .05, (n, 2))])
    return p


def work(m):
    for rd in range(m.n(220, 4000)):
        rng = m.sub('wvm', rd)
        n = int(rng.choice([3, 4, 7, 16, 60, 300, 1000]))
        dt = float(rng.choice([.5, 1, 2, 5, 10, 30, 60, 300, 900, 3600])) if rng.random() < .8 else float(rng.uniform(.2, 4000))
        x = series(rng, n)
        p = layout(rng)
        v = float(rng.choice([.5, 2, 8, 20]))
        ctx = dict(n=n, dt=dt, x=x, positions=p, speed=v)
        m.case(('wvm', rd, n, dt, len(p)), ctx)
        ok, r = m.call('decompose', scaling.wvm, x, p, v, dt=dt, ctx=ctx)
        if not ok:
            continue
        sm, wv, ts = r
        ref, rts = wavelets(x, dt)
        m.check('container', isinstance(sm, np.ndarray) and sm.shape == (n,) and np.shape(wv) == ref.shape, dict(ctx, got=(np.shape(sm), np.shape(wv))), 'shapes')
        if np.shape(wv) != ref.shape:
            continue
        m.close('decompose', wv.sum(axis=0), x, 1e-9, 1e-9, ctx)
        m.close('wavelet', ts, rts, 1e-12, 0, ctx)
        m.close('wavelet', wv, ref, 1e-9, 1e-9, ctx)
        vr = reduction(p, v, rts)
        want = (wv[:-1] / np.sqrt(vr[:-1, None])).sum(axis=0) + wv[-1]
        m.close('reduce', sm, want, 1e-9, 1e-9, ctx)
        m.check('never more', bool(np.all(vr >= 1 - 1e-9)), ctx, 'reduction factor below one')
        if len(np.unique(np.asarray(p), axis=0)) == 1:
            m.close('single', sm, x, 1e-9, 1e-9, ctx)
        # very fast clouds or very near sites: nothing is smoothed; far apart: each mode shrinks by sqrt(n)
        m.close('single', scaling.wvm(x, np.asarray(p) * 1e-13, v, dt=dt)[0], x, 1e-6, 1e-6, ctx)
        far = np.cumsum(np.full((len(p), 2), 1e9), axis=0)
        m.close('never more', scaling.wvm(x, far, v, dt=dt)[0] - wv[-1], (x - wv[-1]) / math.sqrt(len(p)), 1e-8, 1e-8, dict(ctx, far=True))
        # a slower cloud or a wider plant smooths each mode more
        wide = scaling.wvm(x, np.asarray(p) * 3, v, dt=dt)[0]
        slow = scaling.wvm(x, p, v / 3, dt=dt)[0]
        m.close('positions', wide, slow, 1e-8, 1e-8, ctx)
        # ways of giving the positions, and moving or turning the plant
        m.close('positions', scaling.wvm(x, [tuple(map(float, q)) for q in p], v, dt=dt)[0], sm, 1e-12, 1e-12, ctx)
        a = float(rng.uniform(0, 6))
        turned = np.asarray(p) @ np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]]) + [1000., -300.]
        m.close('positions', scaling.wvm(x, turned[rng.permutation(len(p))], v, dt=dt)[0], sm, 1e-7, 1e-7, ctx)
        # pandas: the step comes from the index
        us = round(dt * 1e6)
        if us < 86400e6:
            ix = pd.date_range('2020-05-01 06:00', periods=n, freq=pd.Timedelta(us, 'us'), tz=None if rng.random() < .5 else 'Etc/GMT+7')
            ok, q = m.call('container', scaling.wvm, pd.Series(x, index=ix), p, v, ctx=ctx)
            if ok:
                m.check('container', isinstance(q[0], pd.Series) and q[0].index.equals(ix), ctx, 'Series on the input index')
                m.close('container', q[0].to_numpy(), scaling.wvm(x, p, v, dt=us / 1e6)[0], 1e-9, 1e-9, ctx)
            num = pd.Series(x, index=np.arange(n) * dt)
            m.close('container', scaling.wvm(num, p, v)[0].to_numpy(), scaling.wvm(x, p, v, dt=float(num.index[1]))[0], 1e-9, 1e-9, ctx)
        if rd % 10 == 0:
            m.raises('container', ValueError, scaling.wvm, x, p, v, ctx=ctx)
    for rd in range(m.n(200, 2000)):
        rng = m.sub('xy', rd)
        n = int(rng.integers(1, 8))
        c = np.column_stack([rng.uniform(-60, 60) + rng.uniform(-1, 1, n), rng.uniform(-170, 170) + rng.uniform(-1, 1, n)])
        R = 6371008.7714
        lat0 = c[:, 0].mean()
        want = np.column_stack([np.radians(c[:, 1]) * R * math.cos(math.radians(lat0)), np.radians(c[:, 0]) * R])
        m.case(('xy', rd), c)
        m.close('xy', scaling.latlon_to_xy(c), want, 1e-12, 1e-6, c)
        m.close('xy', scaling.latlon_to_xy([tuple(map(float, q)) for q in c]), want, 1e-12, 1e-6, c)
        m.close('xy', scaling.latlon_to_xy(tuple(map(float, c[0]))), [math.radians(c[0, 1]) * R * math.cos(math.radians(c[0, 0])), math.radians(c[0, 0]) * R], 1e-12, 1e-6, c)
    for rd in range(m.n(150, 1500)):
        rng = m.sub('water', rd)
        e = np.concatenate([[-90., -1e-9, 0., 90.], rng.uniform(-90, 90, 6)])
        cond = list(COL)[int(rng.integers(len(COL)))]
        c, w = COL[cond] if rng.random() < .5 else (float(rng.uniform(.05, .9)), float(rng.uniform(0, 3)))
        f = albedo.inland_water_dvoracek
        kw = dict(surface_condition=cond) if (c, w) == COL[cond] and rng.random() < .8 else dict(color_coeff=c, wave_roughness_coeff=w)
        want = [c ** (w * math.sin(math.radians(max(q, 0))) + 1) for q in e]
        m.case(('water', rd, c, w), kw)
        ok, got = m.call('water', f, e, ctx=kw, **kw)
        if ok:
            m.close('water', got, want, 1e-12, 0, kw)
            m.check('water', bool(np.all((got > 0) & (got <= c * (1 + 1e-12)))), kw, 'albedo is largest with the sun at the horizon')
        ix = gen.index_kinds(rng, len(e))
        s = f(pd.Series(e, index=ix), **kw)
        m.check('water', isinstance(s, pd.Series) and s.index.equals(ix), kw, 'Series on the input index')
        m.close('water', s.to_numpy(), want, 1e-12, 0, kw)
        m.close('water', float(f(float(e[-1]), **kw)), want[-1], 1e-12, 0, kw)
        for bad in (dict(), dict(color_coeff=c), dict(wave_roughness_coeff=w), dict(surface_condition=cond, color_coeff=c), dict(surface_condition=cond, wave_roughness_coeff=w), dict(surface_condition=cond, color_coeff=c, wave_roughness_coeff=w)):
            m.raises('water checks', ValueError, f, 20., ctx=bad, **bad)
        m.raises('water checks', KeyError, f, 20., surface_condition='still water', ctx=None)


if __name__ == '__main__':
    main(mon, work)
