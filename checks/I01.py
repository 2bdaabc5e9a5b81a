import numpy as np
import pvlib
from mon.core import Mon, main
from mon.engine import Driver
from mon import cat_irradiance as C, gen

mon = Mon('I01', 'distinct (function, options, first element) drives of random and edge geometries; each judged '
          'against unit-vector geometry and by rotation, wrap and symmetry relations',
          required=['irradiance.aoi.reference', 'irradiance.beam_component.reference', 'rotate', 'pointing', 'opposite'])


def work(m):
    d = Driver(m)
    for e in C.AOI:
        d.drive(e, n=60, rounds=m.n(8, 60))
    ir = pvlib.irradiance
    for rd in range(m.n(30, 300)):
        rng = m.sub('rel', rd)
        a = C.g_geo(rng, 40)
        dni = gen.irr(rng, 40)
        ctx = {k: v[:4].tolist() for k, v in a.items()}
        p = ir.aoi_projection(**a)
        m.case(('rel', rd))
        m.check('range', np.all((p >= -1) & (p <= 1)), ctx)
        w = {**a, 'solar_azimuth': a['solar_azimuth'] + 360 * rng.integers(-2, 3, 40),
             'surface_azimuth': a['surface_azimuth'] + 360 * rng.integers(-2, 3, 40)}
        m.close('wrap', ir.aoi_projection(**w), p, 1e-9, 1e-10, ctx)
        t = rng.uniform(-360, 360)
        r = {**a, 'solar_azimuth': a['solar_azimuth'] + t, 'surface_azimuth': a['surface_azimuth'] + t}
        m.close('rotate', ir.aoi_projection(**r), p, 1e-9, 1e-10, ctx)
        sw = dict(surface_tilt=a['solar_zenith'], surface_azimuth=a['solar_azimuth'],
                  solar_zenith=a['surface_tilt'], solar_azimuth=a['surface_azimuth'])
        m.close('swap', ir.aoi_projection(**sw), p, 1e-9, 1e-10, ctx)
        # the sun exactly behind the surface: rounding must not push the cosine below -1
        tl = np.append(rng.uniform(0, 180, 38), [90., 180.])
        op = dict(surface_tilt=tl, surface_azimuth=a['surface_azimuth'], solar_zenith=180 - tl,
                  solar_azimuth=a['surface_azimuth'] + rng.choice([-180, 180]))
        po, ao = ir.aoi_projection(**op), ir.aoi(**op)
        m.check('opposite', np.all(po >= -1) and np.all(ao > 180 - 1e-5) and np.all(ao <= 180), dict(ctx=ctx, aoi=ao[~(ao > 179)][:4]))
        on = dict(surface_tilt=a['solar_zenith'], surface_azimuth=a['solar_azimuth'],
                  solar_zenith=a['solar_zenith'], solar_azimuth=a['solar_azimuth'])
        ao = ir.aoi(**on)
        m.check('pointing', np.all(ao < 1e-5) and not np.isnan(ao).any(), dict(ctx=ctx, aoi=ao[:4]))
        m.close('aoi_is_acos', np.cos(np.radians(ir.aoi(**a))), p, 1e-9, 1e-9, ctx)
        b = ir.beam_component(**a, dni=dni)
        m.close('beam', b, dni * np.maximum(p, 0), 1e-9, 1e-9, ctx)
        m.check('beam_nonneg', np.all(b >= 0), ctx)


main(mon, lambda m: work(m))
