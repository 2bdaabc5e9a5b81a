"""T02: row shading and masking."""
import numpy as np

import pvlib
from mon import cat_geometry as C, gen
from mon.core import Mon, main
from mon.engine import catalogue

mon = Mon('T02', 'distinct row geometries and sun positions; values compared with rows and rays constructed in the plane',
          ['the shading row is the nearest neighbour toward the sun, and its shadow reaches the sunward edge of the shaded row'],
          required=['shading.shaded_fraction1d.reference', 'shading.masking_angle_passias.reference', 'bounds', 'tracker_agrees'])


def work(m):
    catalogue(m, C.SHADE, n=50, quick=5, thorough=60)
    S = pvlib.shading
    for rd in range(m.n(60, 600)):
        rng = m.sub('f', rd)
        a = C.g_frac(rng, 60)
        m.case(('bounds', rd))
        ok, f = m.call('shaded_fraction1d', S.shaded_fraction1d, **a)
        if ok:
            m.check('bounds', (f >= 0).all() and (f <= 1).all(), dict(f=f))
        # symmetry: mirror image of the geometry (east <-> west) has the same shade
        b = {k: -v if k in ('solar_azimuth', 'axis_azimuth', 'shaded_row_rotation', 'shading_row_rotation', 'cross_axis_slope') else v for k, v in a.items()}
        ok, g = m.call('shaded_fraction1d', S.shaded_fraction1d, **b)
        m.close('mirror', g, f, 1e-7, 1e-7, a)
        # scale invariance
        k = float(rng.uniform(.1, 50))
        b = {q: v * k if q in ('collector_width', 'pitch', 'surface_to_axis_offset') else v for q, v in a.items()}
        m.close('scale', S.shaded_fraction1d(**b), f, 1e-7, 1e-7, a)
        # backtracking trackers are never shaded, and just touch
        o = dict(axis_tilt=float(rng.uniform(0, 20)), axis_azimuth=float(rng.uniform(0, 360)), gcr=float(rng.uniform(.2, .8)),
                 cross_axis_tilt=float(rng.uniform(-10, 10)), max_angle=90)
        z, az = rng.uniform(10, 85, 60), rng.uniform(0, 360, 60)
        th = pvlib.tracking.singleaxis(z, az, backtrack=True, **o)['tracker_theta']
        tt = pvlib.tracking.singleaxis(z, az, backtrack=False, **o)['tracker_theta']
        kw = dict(axis_tilt=o['axis_tilt'], axis_azimuth=o['axis_azimuth'], cross_axis_slope=o['cross_axis_tilt'],
                  collector_width=2. * o['gcr'], pitch=2.)
        w = S.projected_solar_zenith_angle(z, az, o['axis_tilt'], o['axis_azimuth'])
        D = np.cos(np.radians(w - o['cross_axis_tilt'])) / np.cos(np.radians(o['cross_axis_tilt'])) / o['gcr']
        # a tracker held at its rotation limit cannot turn back far enough
        free = (np.abs(th) < 90 - 1e-9) & (np.abs(tt) < 90 - 1e-9) & (np.abs(w) < 90) & (D > 1e-3)
        fb = S.shaded_fraction1d(z, az, shaded_row_rotation=th, **kw)
        ft = S.shaded_fraction1d(z, az, shaded_row_rotation=tt, **kw)
        m.check('tracker_agrees', (fb[free] < 1e-6).all(), dict(o=o, f=fb[free].max() if free.any() else 0))
        m.close('true_tracking_shade', ft[free], np.clip(1 - D[free], 0, 1), 0, 1e-6, o)
        # average masking angle is the mean of the pointwise one
        t, gc = float(rng.uniform(1, 90)), float(rng.uniform(.1, .9))
        h = (np.arange(4000) + .5) / 4000
        m.close('average', S.masking_angle_passias(t, gc), S.masking_angle(t, gc, h).mean(), 0, 2e-4, dict(t=t, gcr=gc))
        # no loss when nothing is shaded, all direct lost when everything is
        G = rng.uniform(100, 1000, 10)
        B = G * rng.uniform(0, 1, 10)
        m.close('martinez', S.direct_martinez(G, B, 0, 0, 3), 0, 0, 1e-12)
        m.close('martinez', S.direct_martinez(G, B, 1, 3, 3), B / G, 1e-12, 1e-12)
    m.close('flat', S.masking_angle_passias(0, .5), 0)
    m.close('flat', S.masking_angle_passias(np.array([0., 30.]), .5)[0], 0)


main(mon, work)
