"""M01: incidence angle modifiers."""
import numpy as np
import pandas as pd
from functools import partial

import pvlib
from mon import cat_iam as C, gen
from mon.core import Mon, main
from mon.engine import catalogue

mon = Mon('M01', 'distinct drives of every incidence-angle modifier over angles, parameters and containers; diffuse modifiers against '
          'the published solid-angle sum and an independent solid-angle integral in module coordinates',
          required=['iam.physical.reference', 'marion_sum', 'marion_integral', 'interp_ref', 'normal', 'even'])

PAR = {'ashrae': lambda r: dict(b=float(r.uniform(.01, .1))), 'physical': lambda r: dict(n=float(r.uniform(1.2, 1.7)), K=4., L=.002),
       'martin_ruiz': lambda r: dict(a_r=float(r.uniform(.08, .3))), 'sapm': lambda r: dict(module=C.SAPM_MODS[0]), 'schlick': lambda r: {}}
REF = dict(ashrae=C.ashrae, physical=C.physical, martin_ruiz=C.martin_ruiz, sapm=C.sapm, schlick=C.schlick)


def work(m):
    catalogue(m, C.IAM, n=40, quick=4, thorough=40)
    I = pvlib.iam
    for rd in range(m.n(40, 400)):
        rng = m.sub('rel', rd)
        for name in PAR:
            p = PAR[name](rng)
            f = partial(getattr(I, name), **p)
            a = np.sort(rng.uniform(0, 90, 40))
            v = f(a)
            ctx = dict(model=name, p=p)
            m.case((name, repr(p)), ctx)
            if name != 'sapm':
                m.close('normal', f(0.), 1, 1e-9, 1e-12, ctx)
                m.close('grazing', [float(f(x)) for x in (90., 95., 120., 180.)], 0, 0, 1e-9, ctx)
                m.close('even', f(-a), v, 1e-12, 1e-12, ctx)
                m.check('monotone', (np.diff(v) <= 1e-9).all() and (v <= 1 + 1e-9).all(), ctx)
            m.check('nonnegative', (v >= 0).all(), ctx)
    # diffuse
    for rd in range(m.n(6, 60)):
        rng = m.sub('marion', rd)
        name = list(PAR)[rd % 5]
        p = PAR[name](rng)
        tilts = np.unique(np.concatenate([[0., 90.], rng.uniform(0, 90, 3)]))
        if rd % 3 == 0:
            tilts = np.append(tilts, [120., 175., 180.])
        ctx = dict(model=name, p=p, tilts=tilts)
        m.case(('marion', name, repr(p), tilts[1]), ctx)
        ok, r = m.call('marion', I.marion_diffuse, name, tilts, ctx=ctx, **p)
        if not ok:
            continue
        f = partial(REF[name], **p)
        for j, t in enumerate(tilts):
            for reg, lo, hi in (('sky', 0, 90), ('horizon', 89.5, 90), ('ground', 90, 180)):
                g = r[reg][j]
                if (reg != 'sky' and t < .5) or (reg == 'sky' and t > 179):
                    m.check('marion_empty', np.isfinite(g) and 0 <= g <= 1, dict(**ctx, t=t, reg=reg))
                    continue
                m.close('marion_sum', g, C.marion_ref(np.vectorize(f), t, reg), 1e-6, 1e-6, dict(**ctx, t=t, reg=reg))
                # small visible wedges are resolved coarsely by the published increments
                if (reg == 'ground' and t < 5) or (reg == 'sky' and t > 175) or (reg == 'horizon' and (t < 5 or t > 175)):
                    continue
                m.close('marion_integral', g, C.true_diffuse(f, t, lo, hi), 0, 4e-3, dict(**ctx, t=t, reg=reg))
        ok, s = m.call('marion', I.marion_diffuse, name, pd.Series(tilts), ctx=ctx, **p)
        ok, c = m.call('marion', I.marion_diffuse, name, float(tilts[1]), ctx=ctx, **p)
        for reg in r:
            m.check('marion_series', isinstance(s[reg], pd.Series), ctx)
            m.close('marion_forms', s[reg], r[reg], 1e-12, 1e-12, ctx)
            m.close('marion_forms', c[reg], r[reg][1], 1e-12, 1e-12, ctx)
        if rd < 12:
            num = int(rng.choice([60, 90, 200]))
            t = float(rng.uniform(10, 80))
            for reg in ('sky', 'ground'):
                m.close('marion_num', I.marion_integrate(partial(getattr(I, name), **p), t, reg, num), C.marion_ref(np.vectorize(f), t, reg, num), 1e-6, 1e-6, ctx)
    for reg, num in (('sky', 180), ('ground', 180), ('horizon', 1800)):
        for t in (30., np.linspace(5, 85, 7), np.linspace(5, 85, 77)):
            m.close('marion_num', I.marion_integrate(I.schlick, t, reg), I.marion_integrate(I.schlick, t, reg, num), 1e-12, 1e-12, dict(region=reg, size=np.size(t)))
    g = I.marion_integrate(I.schlick, np.array([20., np.nan]), 'sky')
    m.check('marion_nan', np.isfinite(g[0]) and np.isnan(g[1]), g)
    m.raises('bad', ValueError, I.marion_diffuse, 'nope', 20)
    m.raises('bad', ValueError, I.marion_integrate, I.ashrae, 20, 'left')
    m.raises('bad', ValueError, I.martin_ruiz, 20., 0.)
    m.raises('bad', ValueError, I.martin_ruiz, 20., -1.)
    m.raises('bad', ValueError, I.martin_ruiz, np.array([20., 30.]), np.array([.16, 0.]))
    m.raises('bad', ValueError, I.martin_ruiz, 20., np.array([-.1, .2]))
    # complementarity of the sky and ground expressions
    for rd in range(m.n(20, 200)):
        rng = m.sub('mr', rd)
        t = rng.uniform(0, 180, 20)
        s, g = I.martin_ruiz_diffuse(t)
        s2, g2 = I.martin_ruiz_diffuse(180 - t)
        m.close('complement', s, g2, 1e-6, 1e-6, t)
        a_r = rng.uniform(.05, .4, 20)
        one = [I.martin_ruiz_diffuse(float(x), float(a)) for x, a in zip(t, a_r)]
        m.close('each_a_r', np.array(I.martin_ruiz_diffuse(t, a_r)).T, np.array(one), 1e-12, 1e-12, t)
        m.close('each_a_r', I.martin_ruiz(t / 2, a_r), [I.martin_ruiz(float(x) / 2, float(a)) for x, a in zip(t, a_r)], 1e-12, 1e-12, t)
        a_r = float(rng.uniform(.1, .25))
        t = rng.uniform(0, 90)
        s, g = I.martin_ruiz_diffuse(t, a_r)
        m.close('mr_approximates', s, C.true_diffuse(partial(C.martin_ruiz, a_r=a_r), t, 0, 90), 0, .02, dict(a_r=a_r, t=t))
    # interpolation
    for rd in range(m.n(60, 600)):
        rng = m.sub('interp', rd)
        k = int(rng.integers(4, 12))
        th = np.sort(rng.choice(np.arange(0, 91, 5), k, replace=False)).astype(float)
        if rng.random() < .7:
            th[0] = 0.
        ref = np.sort(rng.uniform(.2, 1.05, k))[::-1].copy()
        method = str(rng.choice(['linear', 'quadratic', 'cubic']))
        norm = bool(rng.random() < .5)
        kw = {}
        if method != 'linear' or rng.random() < .5:
            kw['method'] = method
        if not norm or rng.random() < .5:
            kw['normalize'] = norm
        norm = kw.get('normalize', True)
        ctx = dict(theta=th, ref=ref, kw=kw)
        m.case(('interp', rd, method, norm), ctx)
        at = th * np.where(rng.random(k) < .4, -1, 1)
        ok, v = m.call('interp', I.interp, at, th, ref, ctx=ctx, **kw)
        if not ok:
            continue
        if norm:
            ok, z = m.call('interp', I.interp, 0., th, ref, ctx=ctx, **dict(kw, normalize=False))
            ok, one = m.call('interp', I.interp, 0., th, ref, ctx=ctx, **kw)
            if z > 0:
                m.close('normal', one, 1, 1e-9)
                m.close('interp_ref', v, ref / z, 1e-8, 1e-9, ctx)
        else:
            m.close('interp_ref', v, ref, 1e-8, 1e-9, ctx)
        x = rng.uniform(th[0], th[-1], 10)
        ok, y = m.call('interp', I.interp, pd.Series(x), list(th), list(ref), ctx=ctx, **kw)
        m.check('series', isinstance(y, pd.Series), ctx)
        if not norm or th[0] == 0:     # else normalised by a value extrapolated far outside the data
            m.check('nonnegative', (y >= 0).all(), ctx)
        if method == 'linear':
            w = np.interp(x, th, ref)
            if norm:
                w = w / np.interp(0, th, ref) if th[0] == 0 else None
            if w is not None:
                m.close('interp_linear', y, w, 1e-8, 1e-9, ctx)
            # straight extrapolation past the last point, never below zero
            e = th[-1] + 3.
            sl = (ref[-1] - ref[-2]) / (th[-1] - th[-2])
            if th[0] == 0:
                m.close('interp_extrapolate', I.interp(e, th, ref, **kw), max(0, ref[-1] + 3 * sl) / (ref[0] if norm else 1), 1e-8, 1e-9, ctx)
    m.raises('bad', ValueError, I.interp, 10., [0.], [1.])
    m.raises('bad', ValueError, I.interp, 10., [0., 90.], [1., .5], 'quadratic')
    m.raises('bad', ValueError, I.interp, 10., [0., 90.], [1., -.5])
    m.raises('bad', ValueError, I.interp, 10., [0., 50., 90.], [1., .9, .5], 'bogus')


main(mon, work)
