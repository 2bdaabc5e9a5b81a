import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue, flat
from mon import cat_irradiance as C, gen

mon = Mon('I03', 'distinct drives of each sky diffuse model over geometry x irradiance x coefficient set x component option, '
          'judged against scalar published equations; inverse model judged by forward evaluation of what it returned',
          required=['irradiance.perez.reference', 'irradiance.perez_driesse.reference', 'irradiance.reindl.reference',
                    'irradiance.klucher.reference', 'irradiance.haydavies.reference', 'horizontal', 'inverse_forward'])


def work(m):
    catalogue(m, C.SKYE, quick=8, thorough=80)
    ir = pvlib.irradiance
    # every Perez coefficient row of every set
    for name in C.PM:
        rng = m.sub('bins', name)
        n = 64
        z = rng.uniform(5, 84, n)
        am = np.array([C.ky(x) for x in z])
        k = 1.041 * np.radians(z) ** 3
        edges = [1.0, *C.EPSBINS, 12.]
        b = np.arange(n) % 8
        eps = np.array([rng.uniform(edges[i] + 1e-6, edges[i + 1] - 1e-6) for i in b])
        dhi = rng.uniform(20, 400, n)
        dni = dhi * ((eps * (1 + k) - k) - 1)
        a = dict(surface_tilt=rng.uniform(5, 90, n), surface_azimuth=rng.uniform(0, 360, n), dhi=dhi, dni=dni,
                 dni_extra=rng.uniform(1320, 1415, n), solar_zenith=z, solar_azimuth=rng.uniform(0, 360, n), airmass=am)
        ok, r = m.call('perez', ir.perez, **a, model=name, return_components=True, ctx=name)
        m.case(('perez bins', name))
        if ok:
            f = flat(r)
            for i in range(n):
                w = C.r_perez(**{q: float(v[i]) for q, v in a.items()}, model=name, return_components=True)
                if w:
                    for q in w:
                        m.close('perez_bins', f[q][i], w[q], 1e-8, 1e-7, dict(set=name, bin=int(b[i]), out=q, a={x: float(v[i]) for x, v in a.items()}))
    # horizontal plane
    for rd in range(m.n(20, 200)):
        rng = m.sub('hor', rd)
        d = C.g_sky(rng, 40, zhi=84)
        d['surface_tilt'] = np.zeros(40)
        d['solar_zenith'] = np.minimum(d['solar_zenith'], 84.)
        m.case(('horizontal', rd))
        for mod in ('isotropic', 'klucher', 'haydavies', 'reindl', 'perez', 'perez-driesse', 'king'):
            r = ir.get_sky_diffuse(**d, model=mod)
            if mod == 'klucher':
                w = np.array([C.r_klucher(d['surface_tilt'][i], d['surface_azimuth'][i], d['dhi'][i], d['ghi'][i], d['solar_zenith'][i], d['solar_azimuth'][i]) if d['ghi'][i] > 0 else np.nan for i in range(40)], float)
                r = np.where(d['ghi'] > 0, r, np.nan)
            elif mod in ('haydavies', 'reindl'):
                keep = d['dni'] <= d['dni_extra']
                w, r = d['dhi'][keep], np.asarray(r)[keep]
            elif mod == 'perez':
                keep = d['dhi'] > 0
                w, r = d['dhi'][keep], np.asarray(r)[keep]
            else:
                w = d['dhi']
            m.close('horizontal', r, w, 1e-8, 1e-7, dict(model=mod, d=d))
    # inverse transposition
    for rd in range(m.n(6, 60)):
        rng = m.sub('inv', rd)
        n = 25
        z = gen.mix(rng, n, 0, 88, [0., 85., 60.])
        tilt = float(rng.choice([0., 10., 35., 60., 90.]))
        az = float(rng.uniform(0, 360))
        saz = rng.uniform(0, 360, n)
        i0 = rng.uniform(1330, 1410, n)
        alb = float(rng.choice([.25, 0., .6]))
        ghi = rng.uniform(0.02, .85, n) * i0 * np.maximum(np.cos(np.radians(z)), .03)
        am = None if rng.random() < .5 else np.array([C.ky(x) for x in z])

        def fwd(g):
            e = ir.erbs_driesse(g, z, dni_extra=i0)
            return np.asarray(ir.get_total_irradiance(tilt, az, z, saz, e['dni'], g, e['dhi'], dni_extra=i0, airmass=am,
                                                      albedo=alb, model='perez-driesse')['poa_global'])
        poa = fwd(ghi)
        poa = np.where(rng.random(n) < .08, np.nan, np.where(rng.random(n) < .08, -1.0, poa))
        idx = gen.index_kinds(rng, n)
        ser = rng.random() < .5
        arg = pd.Series(poa, index=idx) if ser else poa
        xtol = float(rng.choice([.01, .5, 1e-3]))
        ctx = dict(tilt=tilt, az=az, alb=alb, xtol=xtol, z=z, saz=saz, poa=poa)
        kw = dict(dni_extra=i0, albedo=alb, xtol=xtol, full_output=True)
        if am is not None:
            kw['airmass'] = am
        ok, r = m.call('inverse', ir.ghi_from_poa_driesse_2024, tilt, az, z, saz, arg, ctx=ctx, **kw)
        m.case(('inverse', rd), ctx)
        if not ok:
            continue
        got, conv, it = [np.asarray(x) for x in r]
        if ser:
            m.check('inverse_index', r[0].index.equals(idx), ctx)
        got = got.astype(float)
        m.check('inverse_nan', np.all(np.isnan(got[np.isnan(poa)])), ctx)
        m.check('inverse_zero', np.all(got[poa <= 0] == 0), ctx)
        lo, hi = fwd(got - 2 * xtol), fwd(got + 2 * xtol)
        eps = 1e-6 + 1e-6 * np.abs(poa)
        sel = conv.astype(bool) & (poa > 0)
        m.ev('inverse_forward', int(sel.sum()))
        f0 = fwd(got)
        inside = ((np.minimum(lo, hi) - eps <= poa) & (poa <= np.maximum(lo, hi) + eps)) | (np.abs(f0 - poa) <= 20 * xtol)
        m.check('inverse_bracket', np.all(inside[sel]), ctx)
        # a solution exists in the search interval: it must be reported as converged
        top = fwd(np.maximum(10, 1.25 * i0 * np.cos(np.radians(z))))
        must = (poa > 0) & (top > poa + 1e-6)
        m.check('inverse_found', np.all(conv[must].astype(bool)) and not np.isnan(got[must]).any(), ctx)
        single = ir.ghi_from_poa_driesse_2024(tilt, az, z[0], saz[0], poa[0], i0[0], None if am is None else am[0], alb, xtol)
        m.close('inverse_scalar', single, got[0], 1e-9, 1e-9, ctx)
    m.raises('xtol', ValueError, ir.ghi_from_poa_driesse_2024, 30., 180., 30., 180., 500., 1400., xtol=0)
    m.raises('xtol', ValueError, ir.ghi_from_poa_driesse_2024, 30., 180., 30., 180., 500., 1400., xtol=-1.)


main(mon, work)
