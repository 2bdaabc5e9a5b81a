import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue, flat
from mon import cat_irradiance as C, gen

mon = Mon('I02', 'distinct drives of get_total_irradiance / poa_components / get_ground_diffuse over all sky models, '
          'options and containers, each judged against reference equations and closure identities',
          required=['irradiance.get_total_irradiance.reference', 'closure', 'component_sum', 'same_sky', 'bad_model'])


def work(m):
    catalogue(m, C.TOTAL, quick=6, thorough=60)
    ir = pvlib.irradiance
    for rd in range(m.n(120, 1500)):
        rng = m.sub('closure', rd)
        n = 24
        d = C.g_sky(rng, n)
        model = C.SKY[rd % 7]
        kw = {}
        if model == 'perez':
            kw['model_perez'] = C.PM[rd // 7 % len(C.PM)]
        surf = list(C.ALBEDOS)[rd % len(C.ALBEDOS)]
        if rng.random() < .5:
            kw['surface_type'] = surf
            alb = C.ALBEDOS[surf]
            if rng.random() < .3:
                kw['albedo'] = .9          # surface_type takes precedence
        else:
            alb = float(rng.uniform(0, 1))
            kw['albedo'] = alb
        comp = model not in ('klucher', 'king') and rng.random() < .6
        if rng.random() < .4:
            d['airmass'] = pvlib.atmosphere.get_relative_airmass(d['solar_zenith'])
        if rng.random() < .15:
            d['dni'][int(rng.integers(0, n))] = np.nan
        if rng.random() < .15:
            d['dhi'][int(rng.integers(0, n))] = np.nan
        idx = gen.index_kinds(rng, n)
        series = rng.random() < .6
        args = {k: pd.Series(v, index=idx) for k, v in d.items()} if series else d
        if rng.random() < .3:
            args['surface_tilt'] = float(d['surface_tilt'][0])
            args['surface_azimuth'] = float(d['surface_azimuth'][0])
        ctx = dict(model=model, kw=kw, comp=comp, series=series, args=args)
        m.case(('closure', model, repr(kw), comp, series, rd), ctx)
        ok, r = m.call('total', ir.get_total_irradiance, **args, model=model, diffuse_components=comp, ctx=ctx, **kw)
        if not ok:
            continue
        if series:
            m.check('frame', isinstance(r, pd.DataFrame) and r.index.equals(idx), ctx)
        f = flat(r)
        need = {'poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse'}
        if not m.check('keys', need <= set(f), dict(ctx=ctx, keys=list(f))):
            continue
        m.close('closure', f['poa_global'], f['poa_direct'] + f['poa_diffuse'], 1e-9, 1e-8, ctx)
        m.close('closure', f['poa_diffuse'], f['poa_sky_diffuse'] + f['poa_ground_diffuse'], 1e-9, 1e-8, ctx)
        st = np.asarray(args['surface_tilt'], float)
        m.close('ground', f['poa_ground_diffuse'], d['ghi'] * alb * (1 - np.cos(np.radians(st))) / 2, 1e-9, 1e-8, ctx)
        geo = {k: np.asarray(args[k], float) for k in ('surface_tilt', 'surface_azimuth', 'solar_zenith', 'solar_azimuth')}
        m.close('direct', f['poa_direct'], ir.beam_component(**geo, dni=d['dni']), 1e-8, 1e-7, ctx)
        good = ~np.isnan(f['poa_direct'])
        m.check('direct_nonneg', np.all(f['poa_direct'][good] >= 0), ctx)
        sk = {k: v for k, v in kw.items() if k == 'model_perez'}
        ok, s = m.call('sky', ir.get_sky_diffuse, **args, model=model, return_components=comp, ctx=ctx, **sk)
        if ok:
            sf = flat(s)
            m.close('same_sky', f['poa_sky_diffuse'], sf.get('poa_sky_diffuse', sf.get('')), 1e-9, 1e-9, ctx)
            for k in sf:
                if k not in ('', 'poa_sky_diffuse'):
                    m.close('same_sky', f[k], sf[k], 1e-9, 1e-9, dict(ctx=ctx, k=k))
        if comp:
            parts = [v for k, v in f.items() if k in ('poa_isotropic', 'poa_circumsolar', 'poa_horizon')]
            tot = sum(parts)
            # where the negative total is clipped to zero only the models that say so zero the parts
            pos = f['poa_sky_diffuse'] > 0
            m.close('component_sum', tot[pos], f['poa_sky_diffuse'][pos], 1e-8, 1e-7, ctx)
            ok, r2 = m.call('total', ir.get_total_irradiance, **args, model=model, ctx=ctx, **kw)
            if ok:
                f2 = flat(r2)
                for k in need:
                    m.close('components_do_not_change_total', f[k], f2[k], 1e-10, 1e-10, ctx)
                m.check('only_documented', set(f2) == need, dict(ctx=ctx, keys=list(f2)))
    # configuration errors
    g = dict(surface_tilt=30., surface_azimuth=180., solar_zenith=40., solar_azimuth=170., dni=700., ghi=600., dhi=100.)
    for bad in ('hay_davies', '', 'isotropic1', 'perez_driesse', 'none'):
        m.raises('bad_model', ValueError, ir.get_total_irradiance, **g, dni_extra=1400., model=bad)
        m.raises('bad_model', ValueError, ir.get_sky_diffuse, **g, dni_extra=1400., model=bad)
    for mod in ('haydavies', 'reindl', 'perez', 'perez-driesse'):
        m.raises('missing_extra', ValueError, ir.get_total_irradiance, **g, model=mod)
        m.raises('missing_extra', ValueError, ir.get_sky_diffuse, **g, model=mod)
    for mod in ('klucher', 'king'):
        m.raises('no_components', ValueError, ir.get_total_irradiance, **g, dni_extra=1400., model=mod, diffuse_components=True)
    for mod in ('isotropic', 'klucher', 'king'):
        m.call('no_extra_needed', ir.get_total_irradiance, **g, model=mod)
    m.raises('bad_surface', KeyError, ir.get_ground_diffuse, 30., 500., surface_type='moon')
    m.raises('bad_perez', KeyError, ir.perez, 30., 180., 100., 500., 1400., 40., 180., 1.3, model='nowhere')
    for k, v in C.ALBEDOS.items():
        m.close('albedo_table', pvlib.albedo.SURFACE_ALBEDOS.get(k, np.nan), v, ctx=k)
    m.case('errors')


main(mon, work)
