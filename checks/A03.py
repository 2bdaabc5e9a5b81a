import math
import warnings
import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon import gen

mon = Mon('A03', 'distinct measured/clear series (dips, noise, scale, gaps) x window length x thresholds x interval x zone; '
          'flags, windows and scale factor judged against a window-by-window reference',
          required=['flags', 'windows', 'alpha', 'components', 'self_clear', 'zone'])


def ref(meas, clear, dt, wl, th, max_iter):
    n = len(meas)
    spw = int(wl / dt)
    K = n - spw + 1
    M = np.asarray(meas, float)
    Cl = np.asarray(clear, float)
    alpha = 1.0
    marg = [math.inf]

    def lt(a, b):
        if not (math.isnan(a) or math.isnan(b)):
            marg[0] = min(marg[0], abs(a - b))
        return a < b
    conv = False
    for it in range(max_iter):
        flags = []
        comp = []
        for k in range(K):
            m = [float(x) for x in M[k:k + spw]]
            c0 = [float(x) for x in Cl[k:k + spw]]
            c = [alpha * x for x in c0]
            nanm, nanc = any(map(math.isnan, m)), any(map(math.isnan, c0))
            mm = sum(m) / spw
            cm = sum(c0) / spw
            md = abs(mm - alpha * cm)
            xd = math.nan if nanm or nanc else abs(max(m) - alpha * max(c0))
            ll = sum(math.hypot(b - a, dt) for a, b in zip(m, m[1:])) - sum(math.hypot(b - a, dt) for a, b in zip(c, c[1:]))
            sl = [(b - a) / dt for a, b in zip(m, m[1:])]
            mu = sum(sl) / len(sl)
            sd = math.sqrt(sum((x - mu) ** 2 for x in sl) / (len(sl) - 1)) if len(sl) > 1 else math.nan
            ns = (sd / mm if mm != 0 else (math.inf if sd > 0 else math.nan)) if not nanm else math.nan
            dd = [x - y for x, y in zip(m, c)]
            sm = math.nan if nanm or nanc else max(abs(b - a) for a, b in zip(dd, dd[1:]))
            f = (lt(md, th['mean_diff']), lt(xd, th['max_diff']), lt(th['lower_line_length'], ll) and lt(ll, th['upper_line_length']),
                 lt(ns, th['var_diff']), lt(sm, th['slope_dev']), cm != 0 and not math.isnan(cm))
            flags.append(f)
            comp.append((md, xd, ll, ns, sm))
        win = [all(f) for f in flags]
        samp = np.zeros(n, bool)
        for k in range(K):
            if win[k]:
                samp[k:k + spw] = True
        num, den = np.nansum(M[samp] * Cl[samp]), np.nansum(Cl[samp] ** 2)
        prev = alpha
        if den != 0:
            alpha = num / den
        fr = (alpha * 10000) % 1
        marg[0] = min(marg[0], abs(fr - .5))
        if round(alpha * 10000) == round(prev * 10000):
            conv = True
            break
    return samp, win, flags, comp, alpha, spw, conv, marg[0]


KEYS = ('mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev')
DEF = dict(mean_diff=75, max_diff=75, lower_line_length=-5, upper_line_length=10, var_diff=.005, slope_dev=8)


def limits(dt):
    x = [1, 5, 15, 30]
    return float(np.interp(dt, x, [50, 60, 90, 120])), dict(mean_diff=75., max_diff=float(np.interp(dt, x, [60, 65, 75, 90])), lower_line_length=-45.,
                                                            upper_line_length=80., var_diff=float(np.interp(dt, x, [.005, .01, .032, .07])),
                                                            slope_dev=float(np.interp(dt, x, [50, 60, 75, 96])))


def work(m):
    det = pvlib.clearsky.detect_clearsky
    for rd in range(m.n(70, 600)):
        rng = m.sub('det', rd)
        dt = float(rng.choice([.5, 1, 1, 2, 3, 5, 10, 15]))
        n = int(rng.integers(70, 200))
        tz = gen.ZONES[int(rng.integers(0, len(gen.ZONES)))]
        t0 = pd.Timestamp(gen.instants(rng, 1, 2000, 2030)[0]).floor('min')
        times = pd.date_range(t0, periods=n, freq=f'{int(dt * 60)}s').tz_convert(tz)
        ph = np.linspace(rng.uniform(-.2, .8), rng.uniform(1.8, 3.4), n)
        clear = np.maximum(1000 * np.sin(ph), 0) ** 1.1 * .8
        meas = clear * rng.uniform(.85, 1.15) + (rng.normal(0, rng.choice([.2, 2., 10.]), n) if rng.random() < .6 else 0)
        for _ in range(int(rng.integers(0, 5))):
            a = int(rng.integers(0, n - 5))
            b = a + int(rng.integers(1, 25))
            meas[a:b] *= rng.uniform(.2, 1.15)
        if rng.random() < .2:
            meas[rng.integers(0, n, 2)] = np.nan
        if rng.random() < .15:
            clear[rng.integers(0, n, 1)] = np.nan
        kw = dict()
        infer = rng.random() < .35
        wl = 10
        th = dict(DEF)
        if infer:
            kw['infer_limits'] = True
            if dt < 1:
                continue
            wl, th = limits(dt)
            if int(10 / dt) < 1:
                pass
        else:
            wl = int(rng.choice([10, 15, 30, 3 * dt, 4 * dt + 1, 7 * dt]))
            if int(wl / dt) < 3:
                wl = int(np.ceil(3 * dt))
            kw['window_length'] = wl
            if rng.random() < .7:
                o = dict(mean_diff=float(rng.choice([20., 75, 150])), max_diff=float(rng.choice([20., 75, 200])), lower_line_length=float(rng.choice([-50., -5, -1])),
                         upper_line_length=float(rng.choice([3., 10, 100])), var_diff=float(rng.choice([.002, .005, .05])), slope_dev=float(rng.choice([2., 8, 60])))
                for k in KEYS:
                    if rng.random() < .6:
                        kw[k] = th[k] = o[k]
        mi = 20
        if rng.random() < .2:
            mi = kw['max_iterations'] = int(rng.choice([1, 2, 5]))
        spw = int(wl / dt)
        if spw < 3 or spw > n:
            continue
        want, win, flags, comp, alpha, spw, conv, marg = ref(meas, clear, dt, wl, th, mi)
        ms, cs_ = pd.Series(meas, times), pd.Series(clear, times)
        ctx = dict(kw=kw, dt=dt, tz=tz, n=n, rd=rd)
        m.case(('det', rd), ctx)
        with warnings.catch_warnings(record=True) as wlst:
            warnings.simplefilter('always')
            ok, r = m.call('detect', det, ms, cs_, return_components=True, ctx=ctx, **kw)
        if not ok:
            continue
        got, comps, a2 = r
        m.check('type', isinstance(got, pd.Series) and got.index.equals(times) and got.dtype == bool, ctx)
        warned = any('failed to converge' in str(x.message) for x in wlst)
        if marg > 1e-7:
            m.check('flags', np.array_equal(got.to_numpy(), want), dict(ctx=ctx, at=np.flatnonzero(got.to_numpy() != want)[:5]))
            m.close('alpha', a2, alpha, 1e-9, 1e-12, ctx)
            m.check('warns', warned == (not conv), dict(ctx=ctx, warned=warned, conv=conv))
            sh = spw // 2
            pos = np.arange(len(win)) + sh
            w = comps['windows'].to_numpy()
            m.check('windows', np.array_equal(w[pos].astype(bool), win), ctx)
            names = ('mean_diff_flag', 'max_diff_flag', 'line_length_flag', 'slope_nstd_flag', 'slope_max_flag', 'mean_nan_flag')
            for j, k in enumerate(names):
                m.check('components', np.array_equal(comps[k].to_numpy()[pos].astype(bool), [f[j] for f in flags]), dict(ctx=ctx, k=k))
            for j, k in enumerate(('mean_diff', 'max_diff', 'line_length', 'slope_nstd', 'slope_max')):
                # reported with the final factor or the one before it: both within 1e-4 of each other when converged
                if conv:
                    cv = comps[k].to_numpy()[pos].astype(float)
                    rv = np.array([c[j] for c in comp])
                    fin = np.isfinite(rv)
                    m.close('components', cv[fin], rv[fin], 1e-4, .2, dict(ctx=ctx, k=k))
        # forms
        ok, g2 = m.call('detect', det, ms, cs_, ctx=ctx, **kw)
        if ok:
            m.check('plain', np.array_equal(g2, got), ctx)
        ok, g3 = m.call('detect', det, meas, clear, times=times, ctx=ctx, **kw)
        if ok:
            m.check('array_form', isinstance(g3, np.ndarray) and np.array_equal(g3, got.to_numpy()), ctx)
        ok, g4 = m.call('detect', det, ms, clear, ctx=ctx, **kw)
        if ok:
            m.check('array_form', np.array_equal(g4, got), ctx)
        tz2 = gen.ZONES[int(rng.integers(0, len(gen.ZONES)))]
        ok, g5 = m.call('detect', det, ms.tz_convert(tz2), cs_.tz_convert(tz2), ctx=dict(ctx=ctx, tz2=tz2), **kw)
        if ok:
            m.check('zone', np.array_equal(g5.to_numpy(), got.to_numpy()), dict(ctx=ctx, tz2=tz2))
        # measured equal to a smooth clear sky is clear in every window with a non-zero mean
        up = np.nan_to_num(cs_.to_numpy()) > 1
        if not np.isnan(clear).any() and conv:
            c2 = pd.Series(600 + 5 * np.sin(np.linspace(.5, 2.6, n)), times)      # gentle enough for every limit
            ok, g6 = m.call('detect', det, c2, c2, ctx=ctx, **(dict(infer_limits=True) if infer else dict(window_length=wl, var_diff=1.)))
            if ok:
                m.check('self_clear', bool(g6.all()), ctx)
    t = pd.date_range('2020-01-01', periods=20, freq='5min')
    s = pd.Series(np.arange(20.), t)
    m.raises('need_times', ValueError, det, s.to_numpy(), s.to_numpy())
    m.raises('short_window', ValueError, det, s, s, window_length=10)
    m.raises('short_data', ValueError, det, s.iloc[:2], s.iloc[:2], times=t[:3], window_length=20) if False else None
    m.raises('short_data', ValueError, det, s.iloc[:5], s.iloc[:5], window_length=60)
    u = t.delete(3)
    m.raises('unequal', NotImplementedError, det, s.reindex(u), s.reindex(u), window_length=30)
    for f in ('30s', '45min'):
        q = pd.date_range('2020-01-01', periods=200, freq=f)
        m.raises('infer_range', ValueError, det, pd.Series(1., q), pd.Series(1., q), infer_limits=True)


main(mon, work)
