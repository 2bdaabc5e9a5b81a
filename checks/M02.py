"""M02: fitting and converting incidence-angle models."""
import numpy as np
import pandas as pd

import pvlib
from mon import cat_iam as C
from mon.core import Mon, main

mon = Mon('M02', 'distinct (source model, parameters, target, weighting, options) fits; the result judged by the curve it reproduces and by '
          'the weighted residual compared with nearby parameters', ['residual curves evaluated with the independent model equations of M01'],
          required=['fit_recovers', 'convert_self', 'convert_optimal', 'intercept', 'weighted'])
F = dict(ashrae=C.ashrae, martin_ruiz=C.martin_ruiz, physical=C.physical)
AOI = np.linspace(0, 90, 91)
KEYS = dict(ashrae={'b'}, martin_ruiz={'a_r'}, physical={'n', 'K', 'L'})


def curve(name, p, aoi=AOI):
    """the model curves, vectorised (equal to the scalar equations of M01, checked at the start)"""
    aoi = np.asarray(aoi, float)
    c = np.cos(np.radians(aoi))
    out = np.abs(aoi) >= 90
    with np.errstate(all='ignore'):
        if name == 'ashrae':
            v = np.maximum(0, 1 - p['b'] * (1 / c - 1))
        elif name == 'martin_ruiz':
            v = (1 - np.exp(-c / p['a_r'])) / (1 - np.exp(-1 / p['a_r']))
        else:
            n, kl = p['n'], p['K'] * p['L']
            s2 = np.sqrt(1 - c ** 2) / n
            out = out | (s2 >= 1)
            c2 = np.sqrt(np.maximum(1 - s2 ** 2, 0))
            rs = ((c - n * c2) / (c + n * c2)) ** 2
            rp = ((c2 - n * c) / (c2 + n * c)) ** 2
            v = (1 - (rs + rp) / 2) * np.exp(-kl / c2) / ((1 - ((n - 1) / (n + 1)) ** 2) * np.exp(-kl))
    return np.where(out, 0., v)


def resid(name, p, aoi, src, w):
    return float(np.nansum(np.abs(src - curve(name, p, aoi)) * w(aoi)))


def sinw(a):
    return 1 - np.sin(np.radians(a))


def params(rng, name):
    if name == 'ashrae':
        return dict(b=float(rng.uniform(.01, .3) if rng.random() < .75 else rng.uniform(.3, .9)))
    if name == 'martin_ruiz':
        return dict(a_r=float(rng.uniform(.05, .5) if rng.random() < .75 else rng.uniform(.5, .9)))
    return dict(n=float(rng.uniform(1.1, 1.8)), K=4., L=float(rng.uniform(2e-4, .012)))


def guarded(m, name, fn, *a, ctx=None, **k):
    ok, r = m.call(name, fn, *a, ctx=ctx, expect=(ValueError, RuntimeError), **k)
    if not ok and isinstance(r, RuntimeError):
        # the documented way of saying that the optimiser gave up: rare on such curves
        m.ev('optimizer_gave_up')
        m.check('gave_up_often', m.events['optimizer_gave_up'] <= 2 + .01 * m.evaluations, ctx, str(r))
    if not ok and isinstance(r, ValueError):
        # scipy's bounded Powell search fails when a step lands exactly on the minimum
        m.check('powell_exact_data' if 'zero-size array' in str(r) else name + ':raised', False, ctx, f'{type(r).__name__}: {r}')
    return ok, r


def near(name, p, rng):
    for d in (1e-2, 5e-2):
        for s in (-1, 1):
            q = dict(p)
            for k in ('b', 'a_r', 'n', 'L'):
                if k in q and (name != 'physical' or rng.random() < .7):
                    q[k] = q[k] * (1 + s * d * float(rng.uniform(.5, 1)))
            if name != 'physical' or (q['n'] >= 1.0 and 0 < q['L'] <= .08):
                yield q


def work(m):
    I = pvlib.iam
    for name in F:
        p = params(m.rng, name)
        m.close('reference_consistent', curve(name, p), [F[name](float(a), **p) for a in AOI], 1e-9, 1e-9)
    W = [('default', sinw, None), ('ones', lambda a: np.ones_like(a), None), ('cos', lambda a: np.cos(np.radians(a)), None),
         ('low', lambda a: (a < 40).astype(float), None)]
    for rd in range(m.n(24, 500)):
        rng = m.sub('fit', rd)
        for name in F:
            p = params(rng, name)
            k = int(rng.integers(0, 3))
            aoi = [AOI, np.sort(rng.uniform(0, 89, 40)), np.arange(0, 86, 5.)][k]
            wn, w, _ = W[int(rng.integers(0, 3))]
            kw = {} if wn == 'default' else dict(weight=w)
            y = curve(name, p, aoi)
            if rng.random() < .3:      # extra points outside the domain carry no weight
                aoi = np.append(aoi, [-20., 110., 150.])
                y = np.append(y, [.1, .7, .3])
                extra = 3
            else:
                extra = 0
            if rng.random() < .3:
                aoi2, y2 = pd.Series(aoi), pd.Series(y)
            else:
                aoi2, y2 = aoi, y
            ctx = dict(model=name, p=p, weight=wn, n=len(aoi), extra=extra)
            m.case(('fit', name, repr(p), wn), ctx)
            ok, q = guarded(m, 'fit', I.fit, aoi2, y2, name, ctx=ctx, **kw)
            if not ok:
                continue
            m.check('keys', set(q) == KEYS[name], dict(**ctx, q=q))
            m.close('fit_recovers', curve(name, {a: float(b) for a, b in q.items()}), curve(name, p), 0, .04 if name == 'physical' else 2e-3, dict(**ctx, q=q))
            # noisy data: no nearby parameters do better
            y = np.clip(curve(name, p, AOI) + rng.normal(0, .01, 91), 0, None)
            ok, q = guarded(m, 'fit', I.fit, AOI, y, name, ctx=ctx, **kw)
            if ok:
                q = {a: float(b) for a, b in q.items()}
                r0 = resid(name, q, AOI, y, w)
                rt = resid(name, p, AOI, y, w)
                m.check('fit_optimal', r0 <= rt * (1.05 if name != 'physical' else 1.6) + .02, dict(**ctx, q=q, r=r0, truth=rt))
                if name != 'physical':
                    for z in near(name, q, rng):
                        m.check('fit_optimal', r0 <= 1.02 * resid(name, z, AOI, y, w) + 1e-3, dict(**ctx, q=q, nearby=z))
    for rd in range(m.n(24, 400)):
        rng = m.sub('conv', rd)
        for src in F:
            for tgt in F:
                p = params(rng, src)
                wn, w, _ = W[int(rng.integers(0, 4))]
                kw = {} if wn == 'default' else dict(weight=w)
                fix = bool(rng.random() < .6)
                if not fix or rng.random() < .3:
                    kw['fix_n'] = fix
                fix = kw.get('fix_n', True)
                if rng.random() < .2:
                    kw['xtol'] = 1e-6
                ctx = dict(src=src, p=p, tgt=tgt, weight=wn, fix_n=fix)
                m.case(('conv', src, tgt, repr(p), wn, fix), ctx)
                ok, q = guarded(m, 'convert', I.convert, src, p, tgt, ctx=ctx, **kw)
                if not ok:
                    continue
                q = {a: float(b) for a, b in q.items()}
                m.check('keys', set(q) == KEYS[tgt], dict(**ctx, q=q))
                y = curve(src, p)
                if src == tgt:
                    if wn != 'low':
                        m.close('convert_self', curve(tgt, q), y, 0, .04 if tgt == 'physical' else 2e-3, dict(**ctx, q=q))
                    continue
                r0 = resid(tgt, q, AOI, y, w)
                ctx = dict(**ctx, q=q, r=r0)
                fixed = tgt == 'physical' and src == 'ashrae' and fix
                if tgt == 'physical':
                    m.check('physical_range', 0 < q['L'] <= .08 + 1e-9 and q['n'] <= 2 + 1e-9 and q['K'] == 4, ctx)
                else:
                    m.check('physical_range', 0 < list(q.values())[0] <= 1, ctx)
                if fixed:
                    # same angle of zero transmission as the source
                    zero = np.degrees(np.arccos(p['b'] / (1 + p['b'])))
                    m.close('intercept', q['n'], np.sin(np.radians(zero)), 1e-9, 1e-9, ctx)
                    for d in (.9, .95, 1.05, 1.1):
                        L = min(max(q['L'] * d, 1e-6), .08)
                        m.check('convert_optimal', r0 <= resid(tgt, dict(q, L=L), AOI, y, w) + 2e-3, dict(**ctx, L=L))
                elif tgt == 'physical':
                    m.check('physical_range', q['n'] >= .8 - 1e-9, ctx)
                    lo = 1.05 if src == 'martin_ruiz' else .8
                    # the search is a local one in two correlated parameters: it must at least beat
                    # its starting point and plain glass
                    for z in (dict(n=1.1, K=4, L=.002), dict(n=1.526, K=4, L=.002)):
                        m.check('convert_better', r0 <= resid(tgt, z, AOI, y, w) + 2e-2, dict(**ctx, z=z))
                    for d in (.9, 1.1):
                        L = min(max(q['L'] * d, 1e-6), .08)
                        m.check('convert_optimal', r0 <= resid(tgt, dict(q, L=L), AOI, y, w) + 5e-2, dict(**ctx, L=L))
                    m.check('physical_range', q['n'] >= lo - 1e-9, ctx)
                else:
                    for z in near(tgt, q, rng):
                        if 1e-4 <= list(z.values())[0] <= 1:
                            m.check('convert_optimal', r0 <= 1.02 * resid(tgt, z, AOI, y, w) + 1e-3, dict(**ctx, nearby=z))
                # the weighting given is the one minimised
                if wn != 'default':
                    kd = {a: b for a, b in kw.items() if a != 'weight'}
                    ok, d = guarded(m, 'convert', I.convert, src, p, tgt, ctx=ctx, **kd)
                    if ok and not (tgt == 'physical' and not fixed):
                        rd_ = resid(tgt, {a: float(b) for a, b in d.items()}, AOI, y, w)
                        m.check('weighted', r0 <= 1.02 * rd_ + 2e-3, dict(**ctx, default=d, rd=rd_))
                    else:
                        m.ev('weighted')
    m.raises('unknown', NotImplementedError, I.convert, 'sapm', {'B0': 1}, 'ashrae')
    m.raises('unknown', NotImplementedError, I.convert, 'ashrae', {'b': .05}, 'interp')
    m.raises('unknown', NotImplementedError, I.fit, AOI, curve('ashrae', dict(b=.05)), 'sapm')
    m.raises('wrong_params', ValueError, I.convert, 'ashrae', {'a_r': .1}, 'physical')
    m.raises('wrong_params', ValueError, I.convert, 'ashrae', {'b': .05, 'n': 1}, 'physical')
    m.raises('wrong_params', ValueError, I.convert, 'physical', {'n': 1.5, 'K': 4.}, 'ashrae')
    # the finding listed as known, on its own input
    guarded(m, 'fit', I.fit, AOI, I.ashrae(AOI, .1659455733351878), 'ashrae')


main(mon, work)
