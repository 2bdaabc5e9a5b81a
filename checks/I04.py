import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue, flat
from mon import cat_irradiance as C, gen
from mon.refs import NAN, cosd

mon = Mon('I04', 'distinct drives of every decomposition model over GHI x zenith x day x limits, judged against published '
          'piecewise equations and the closure relation; completion judged on random component pairs',
          required=['irradiance.erbs.reference', 'irradiance.boland.reference', 'closure', 'dni_ref', 'complete', 'calendar'])


def r_dni(ghi, dhi, z, clear=None, tol=1.1, z0=88.0, zc=80.0):
    d = (ghi - dhi) / cosd(z)
    if d < 0:
        return NAN
    if z >= z0 and d != 0:
        return NAN
    if clear is not None and zc <= z < z0 and d > clear * tol:
        return clear * tol
    return d


def work(m):
    catalogue(m, C.DECOMP, n=50, quick=8, thorough=80)
    ir = pvlib.irradiance
    fns = dict(erbs=('zenith', 87), erbs_driesse=('zenith', 87), orgill_hollands=('zenith', 87), boland=('solar_zenith', 87), louche=('solar_zenith', 90))
    for rd in range(m.n(60, 600)):
        rng = m.sub('clo', rd)
        name = list(fns)[rd % 5]
        zn, mz = fns[name]
        n = 50
        # calendar inputs: DatetimeIndex in any zone gives a frame on that index
        utc = gen.instants(rng, n, 1980, 2040)
        tz = gen.ZONES[rd % len(gen.ZONES)]
        idx = utc.tz_convert(tz) if rng.random() < .8 else utc.tz_localize(None)
        z = gen.zenith(rng, n, 110)
        doy = utc.dayofyear.to_numpy().astype(float)
        ghi, _, _ = gen.consistent_irr(rng, n, z)
        kw = {}
        if rng.random() < .5:
            kw['max_zenith'] = mz = float(rng.choice([80., 85., 88., 89.5]))
        if name != 'louche' and rng.random() < .5:
            kw['min_cos_zenith'] = float(rng.choice([.01, .1, .2]))
        ser = rng.random() < .5
        a = {'ghi': pd.Series(ghi, idx) if ser else ghi, zn: pd.Series(z, idx) if ser else z}
        ctx = dict(fn=name, kw=kw, tz=tz, ser=ser, z=z, ghi=ghi)
        m.case((name, rd), ctx)
        fn = getattr(ir, name)
        ok, r = m.call(name, fn, **a, datetime_or_doy=idx, ctx=ctx, **kw)
        ok2, r2 = m.call(name, fn, ghi, z, doy, ctx=ctx, **kw)
        if not (ok and ok2):
            continue
        m.check('calendar', isinstance(r, pd.DataFrame) and r.index.equals(idx), ctx)
        f, f2 = flat(r), flat(r2)
        m.check('order_keys', list(f) == ['dni', 'dhi', 'kt'], dict(ctx=ctx, k=list(f)))
        for k in f2:
            m.close('calendar', f[k], f2[k], 1e-8, 1e-7, dict(ctx=ctx, k=k))
        cz = np.cos(np.radians(z))
        m.close('closure', f['dhi'] + f['dni'] * cz, ghi, 1e-9, 1e-7, ctx)
        m.check('dni_nonneg', np.all(f['dni'] >= 0), ctx)
        m.check('kt_bounds', np.all((f['kt'] >= 0) & (f['kt'] <= (2 if name == 'louche' else 1))), ctx)
        low = z > mz
        m.check('beyond_limit', np.all(f['dni'][low] == 0), ctx)
        m.close('beyond_limit', f['dhi'][low], ghi[low], 1e-12, 1e-12, ctx)
    for rd in range(m.n(80, 800)):
        rng = m.sub('dni', rd)
        n = 40
        z = gen.mix(rng, n, 0, 100, [0., 79.999, 80., 80.001, 87.999, 88., 88.1, 89., 70., 75.])
        ghi, dn0, dhi = gen.consistent_irr(rng, n, z)
        dhi = np.where(rng.random(n) < .15, dhi * 1.5 + 5, dhi)
        dhi = np.where(rng.random(n) < .1, ghi, dhi)
        clear = gen.mix(rng, n, 0, 900, [0., 100., 10.])
        idx = gen.index_kinds(rng, n)
        S = lambda v: pd.Series(v, index=idx)  # noqa: E731
        kw = {}
        if rng.random() < .4:
            kw['clearsky_tolerance'] = float(rng.choice([1., 1.1, 1.5]))
        if rng.random() < .4:
            kw['zenith_threshold_for_zero_dni'] = float(rng.choice([85., 88., 89.]))
        if rng.random() < .4:
            kw['zenith_threshold_for_clearsky_limit'] = float(rng.choice([70., 75., 80.]))
        wc = rng.random() < .6
        ctx = dict(kw=kw, wc=wc, z=z, ghi=ghi, dhi=dhi, clear=clear)
        ok, r = m.call('dni', ir.dni, S(ghi), S(dhi), S(z), dni_clear=S(clear) if wc else None, ctx=ctx, **kw)
        m.case(('dni', rd), ctx)
        if ok:
            t = (kw.get('clearsky_tolerance', 1.1), kw.get('zenith_threshold_for_zero_dni', 88.), kw.get('zenith_threshold_for_clearsky_limit', 80.))
            w = [r_dni(ghi[i], dhi[i], z[i], clear[i] if wc else None, *t) for i in range(n)]
            m.close('dni_ref', r, w, 1e-9, 1e-9, ctx)
            m.check('dni_index', r.index.equals(idx), ctx)
        # completion
        which = rd % 3
        d = dict(ghi=S(ghi), dhi=S(dhi), dni=S(gen.irr(rng, n)))
        gone = ['dni', 'ghi', 'dhi'][which]
        d[gone] = None
        ok, r = m.call('complete', ir.complete_irradiance, S(z), dni_clear=S(clear) if wc else None, ctx=ctx, **d)
        if ok:
            m.check('complete_cols', isinstance(r, pd.DataFrame) and set(r.columns) == {'ghi', 'dhi', 'dni'} and r.index.equals(idx), ctx)
            for k, v in d.items():
                if v is not None:
                    m.close('complete', r[k], v, 0, 0, dict(ctx=ctx, k=k))
            cz = np.cos(np.radians(z))
            if gone == 'dni':
                w = [r_dni(ghi[i], dhi[i], z[i], clear[i] if wc else None) for i in range(n)]
                m.close('complete', r['dni'], w, 1e-9, 1e-9, ctx)
            else:
                m.close('complete', r['ghi'], r['dhi'] + r['dni'] * cz, 1e-10, 1e-9, ctx)
        for bad in (dict(ghi=S(ghi)), dict(ghi=S(ghi), dhi=S(dhi), dni=S(ghi)), {}):
            if rd < 5:
                m.raises('complete_args', ValueError, ir.complete_irradiance, S(z), **bad)
    m.raises('needs_extra', ValueError, ir.erbs_driesse, 500., 30.)


main(mon, work)
