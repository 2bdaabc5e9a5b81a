import warnings
import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue, flat
from mon import cat_irradiance as C, gen, dirint_ref as R

mon = Mon('I05', 'distinct drives of DISC plus distinct day series given to DIRINT, DIRINDEX and GTI-DIRINT, judged against '
          'a list-based reference of the published model (bins, table, iteration) and their defining relations',
          required=['irradiance.disc.reference', 'dirint', 'dirint bins', 'dirindex', 'gti', 'gti_reproduces', 'disc_calendar'])


def series(rng, n, days=2):
    tz = gen.ZONES[int(rng.integers(0, len(gen.ZONES)))]
    start = pd.Timestamp(gen.instants(rng, 1, 1990, 2035)[0]).floor('h')
    step = int(rng.choice([15, 30, 60, 7]))
    idx = pd.date_range(start, periods=n, freq=f'{step}min').tz_convert(tz)
    ph = np.linspace(0, 2 * np.pi * n * step / 1440, n) + rng.uniform(0, 6)
    z = 90 - rng.uniform(25, 88) * np.sin(ph) - rng.uniform(-10, 10)
    z = np.clip(z, 0.5, 179)
    az = np.degrees(ph) % 360
    ghi, dni, dhi = gen.consistent_irr(rng, n, z)
    return idx, z, az, ghi


KB, ZB = [0, .24, .4, .56, .7, .8, 1], [0, 25, 40, 55, 70, 80, 86.9]
DB, WB = [0, .015, .035, .07, .15, .3, .45], [0.05, 1, 2, 3, 6]


def bins(m, rd):
    """Every bin of the DIRINT table: three records whose middle one falls in it."""
    rng = m.sub('bins', rd)
    hit = set()
    for wb in range(5):
        for use in (True, False):
            rows = []
            for kb in range(6):
                for zb in range(6):
                    for db in range(6 if use else 1):
                        k = rng.uniform(KB[kb] + .01 * (KB[kb + 1] - KB[kb]), KB[kb + 1] - .01 * (KB[kb + 1] - KB[kb]))
                        z = rng.uniform(ZB[zb] + .1, ZB[zb + 1] - .1)
                        d = rng.uniform(DB[db] + .0005, DB[db + 1] - .0005)
                        rows += [(min(max(k - d, 0), 1.), z), (k, z), (max(k + d, 0) if k + d <= 1 else max(k - d, 0), z)]
            n = len(rows)
            idx = pd.date_range(f'{int(rng.integers(1995, 2030))}-{int(rng.integers(1, 12)):02d}-03', periods=n, freq='h', tz='UTC')
            z = np.array([r[1] for r in rows])
            doy = idx.dayofyear.to_numpy()
            ghi = np.array([r[0] * R.ktp_factor(R.kasten1966(r[1])) * R.spencer(d, 1370.) * np.cos(np.radians(r[1])) for r, d in zip(rows, doy)])
            td = None
            kw = dict(use_delta_kt_prime=use)
            if wb < 4:
                w = rng.uniform(WB[wb] + .01, WB[wb + 1] - .01, n)
                td = (np.log(w) + .075) / .07
                kw['temp_dew'] = pd.Series(td, idx)
            ctx = dict(wb=wb, use=use, rd=rd)
            m.case(('bins', rd, wb, use), ctx)
            ok, r = m.call('dirint', pvlib.irradiance.dirint, pd.Series(ghi, idx), pd.Series(z, idx), idx, ctx=ctx, **kw)
            want, ktp, dk, w_ = R.dirint(ghi.tolist(), z.tolist(), doy.tolist(), use=use, td=None if td is None else td.tolist())
            if not ok:
                continue
            edge = np.array([R.near_edge(ktp[i], z[i], dk[i], w_[i]) for i in range(n)])
            m.close('dirint bins', np.where(edge, np.nan, r), np.where(edge, np.nan, want), 1e-8, 1e-7, ctx)
            for i in range(n):
                if not edge[i] and want[i] > 0:
                    hit.add((R._bin(ktp[i], KB), R._bin(z[i], ZB), R._bin(dk[i], [0, .015, .035, .07, .15, .3, 1]) if use else 7, wb))
    m.extra['dirint_bins_with_positive_dni'] = max(len(hit), m.extra.get('dirint_bins_with_positive_dni', 0))


def work(m):
    for rd in range(m.n(2, 20)):
        bins(m, rd)
    catalogue(m, C.DISC, n=60, quick=10, thorough=100)
    ir = pvlib.irradiance
    for rd in range(m.n(60, 700)):
        rng = m.sub('dirint', rd)
        n = int(rng.integers(8, 60))
        idx, z, az, ghi = series(rng, n)
        if rng.random() < .3:
            z = gen.mix(rng, n, 0, 100, [25., 40., 55., 70., 80., 0., 86.9, 87., 87.1])
            ghi = gen.consistent_irr(rng, n, z)[0]
        if rng.random() < .4:
            ghi = np.where(rng.random(n) < .08, np.nan, ghi)
        if rng.random() < .3:
            ghi = np.where(rng.random(n) < .08, -3., ghi)
        doy = idx.tz_convert('UTC').dayofyear.to_numpy()
        kw, rk = {}, {}
        if rng.random() < .4:
            kw['pressure'] = rk['pressure'] = float(rng.uniform(6e4, 1.05e5))
        if rng.random() < .4:
            kw['use_delta_kt_prime'] = rk['use'] = bool(rng.random() < .4)
        if rng.random() < .6:
            td = rng.uniform(-25, 28, n) if rng.random() < .6 else np.full(n, float(rng.uniform(-20, 25)))
            if rng.random() < .4:   # water vapour just either side of its bin edges
                near = rng.integers(1, 4, n) + rng.choice([-1, 1], n) * 10. ** rng.uniform(-5, -2, n)
                td = np.where(rng.random(n) < .5, td, (np.log(near) + .075) / .07)
            if rng.random() < .3:
                td = np.where(rng.random(n) < .1, np.nan, td)
            kw['temp_dew'] = pd.Series(td, idx)
            rk['td'] = td.tolist()
            if np.all(td == td[0]) and rng.random() < .7:
                kw['temp_dew'] = float(td[0])
        if rng.random() < .4:
            kw['min_cos_zenith'] = rk['min_cos'] = float(rng.choice([.03, .1]))
        if rng.random() < .4:
            kw['max_zenith'] = rk['max_zenith'] = float(rng.choice([80., 85., 89.]))
        G, Z = pd.Series(ghi, idx), pd.Series(z, idx)
        ctx = dict(kw=kw, tz=str(idx.tz), ghi=ghi, z=z)
        m.case(('dirint', rd), ctx)
        dk = {k: v for k, v in kw.items() if k in ('pressure', 'min_cos_zenith', 'max_zenith')}
        ok, d = m.call('disc', ir.disc, G, Z, idx, ctx=ctx, **dk)
        if ok:
            m.check('disc_calendar', isinstance(d, pd.DataFrame) and d.index.equals(idx), ctx)
            for i in range(n):
                w = C.r_disc(ghi[i], z[i], doy[i], **dk)
                for k in w:
                    m.close('disc_calendar', d[k].iloc[i], w[k], 1e-8, 1e-8, dict(ctx=ctx, i=i, k=k))
        ok, r = m.call('dirint', ir.dirint, G, Z, idx, ctx=ctx, **kw)
        want, ktp, dk_, w_ = R.dirint(ghi.tolist(), z.tolist(), doy.tolist(), **rk)
        edge = np.array([R.near_edge(ktp[i], z[i], dk_[i], w_[i]) for i in range(n)])
        if ok:
            m.check('dirint_index', isinstance(r, pd.Series) and r.index.equals(idx), ctx)
            m.close('dirint', np.where(edge, np.nan, r), np.where(edge, np.nan, want), 1e-8, 1e-7, ctx)
            v = r.to_numpy()[~np.isnan(r.to_numpy())]
            m.check('dirint_nonneg', np.all(v >= 0), ctx)
        # dirindex
        gc = pd.Series(gen.consistent_irr(rng, n, z)[0] * .5 + 300 * np.maximum(np.cos(np.radians(z)), 0), idx)
        dc = pd.Series(gen.irr(rng, n, 950), idx)
        ok, x = m.call('dirindex', ir.dirindex, G, gc, dc, Z, idx, ctx=ctx, **kw)
        if ok:
            wc, k2, d2, w2 = R.dirint(gc.tolist(), z.tolist(), doy.tolist(), **rk)
            e2 = edge | np.array([R.near_edge(k2[i], z[i], d2[i], w2[i]) for i in range(n)])
            with np.errstate(all='ignore'):
                want2 = dc.to_numpy() * np.array(want) / np.array(wc)
            want2 = np.where(want2 < 0, 0, want2)
            m.close('dirindex', np.where(e2, np.nan, x), np.where(e2, np.nan, want2), 1e-7, 1e-7, ctx)
            ok, same = m.call('dirindex', ir.dirindex, gc, gc, dc, Z, idx, ctx=ctx, **kw)
            if ok:
                s = same.to_numpy()
                g = ~np.isnan(s)
                m.close('dirindex_identity', s[g], dc.to_numpy()[g], 1e-9, 1e-9, ctx)
    for rd in range(m.n(60, 400)):
        rng = m.sub('gti', rd)
        n = int(rng.integers(24, 60))
        idx, z, az, ghi = series(rng, n)
        tilt, saz = float(rng.uniform(5, 90)), float(rng.uniform(90, 270))
        aoi = ir.aoi(tilt, saz, z, az)
        if not (aoi < 90).any():
            continue
        doy = idx.tz_convert('UTC').dayofyear.to_numpy()
        poa = np.where(z < 92, np.maximum(ghi * rng.uniform(.6, 1.2, n), 2.), 0.)
        if rng.random() < .3:
            poa = np.where(rng.random(n) < .05, np.nan, poa)
        kw, rk = {}, {}
        if rng.random() < .4:
            kw['pressure'] = rk['pressure'] = float(rng.uniform(7e4, 1.05e5))
        if rng.random() < .5:
            kw['use_delta_kt_prime'] = rk['use'] = bool(rng.random() < .4)
        if rng.random() < .4:
            td = rng.uniform(-25, 28, n)
            kw['temp_dew'] = pd.Series(td, idx)
            rk['td'] = td.tolist()
        if rng.random() < .5:
            kw['albedo'] = rk['albedo'] = float(rng.choice([0., .25, .6]))
        if rng.random() < .4:
            kw['max_iterations'] = rk['max_iterations'] = int(rng.choice([1, 5, 12, 40]))
        if rng.random() < .3:
            kw['calculate_gt_90'] = rk['gt90'] = False
        if rng.random() < .5:
            mod = str(rng.choice(['perez', 'haydavies', 'isotropic', 'reindl']))
            kw['model'] = rk['model'] = mod
        if rng.random() < .3:
            kw['model_perez'] = rk['model_perez'] = C.PM[int(rng.integers(0, 5))]
        S = lambda v: pd.Series(v, idx)  # noqa: E731
        ctx = dict(kw=kw, tilt=tilt, az=saz, tz=str(idx.tz), poa=poa, z=z, saz=az)
        m.case(('gti', rd), ctx)
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter('always')
            ok, r = m.call('gti', ir.gti_dirint, S(poa), S(aoi), S(z), S(az), idx, tilt, saz, ctx=ctx, **kw)
        if not ok:
            continue
        m.check('gti_index', isinstance(r, pd.DataFrame) and r.index.equals(idx) and list(r.columns) == ['ghi', 'dni', 'dhi'], ctx)
        warned = any('failed to converge' in str(x.message) for x in wl)
        want, conv, edge = R.gti(poa.tolist(), aoi.tolist(), z.tolist(), az.tolist(), doy.tolist(), list(idx.date), tilt, saz, **rk)
        if not edge:
            m.close('gti', r.to_numpy(), np.array(want, float), 1e-6, 1e-5, ctx)
            lt = aoi < 90
            m.check('gti_warns', warned == (not all(np.array(conv)[lt])), dict(ctx=ctx, warned=warned, conv=conv))
        # defining relation: the returned triple reproduces the tilted irradiance to 1 W/m2
        if not warned:
            am = pvlib.atmosphere.get_absolute_airmass(pvlib.atmosphere.get_relative_airmass(S(z), model='kasten1966'), kw.get('pressure', 101325.))
            t = ir.get_total_irradiance(tilt, saz, S(z), S(az), r['dni'], r['ghi'], r['dhi'], dni_extra=ir.get_extra_radiation(idx, 1370),
                                        airmass=am, albedo=kw.get('albedo', .25), model=kw.get('model', 'perez'),
                                        model_perez=kw.get('model_perez', 'allsitescomposite1990'))['poa_global']
            sel = (aoi < 90) & ~np.isnan(poa)
            m.check('gti_reproduces', np.all(np.abs(t.to_numpy() - poa)[sel] <= 1 + 1e-6), ctx)
        else:
            m.ev('gti_reproduces')
        lt = aoi < 90
        v = r.to_numpy()[lt]
        m.check('gti_nonneg', np.all(v[~np.isnan(v)] >= 0), ctx)
        if kw.get('calculate_gt_90') is False:
            m.check('gti_gt90_missing', np.isnan(r.to_numpy()[~lt]).all(), ctx)
    idx = pd.date_range('2020-01-01', periods=3, freq='1h', tz='UTC')
    s = pd.Series([1., 2, 3], idx)
    m.raises('gti_needs_lt90', ValueError, ir.gti_dirint, s, s * 0 + 95, s, s, idx, 30., 180.)


main(mon, work)
