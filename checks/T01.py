"""T01: single-axis tracking geometry."""
import math

import numpy as np
import pandas as pd

import pvlib
from mon import cat_geometry as C, gen
from mon.core import Mon, main
from mon.engine import catalogue
from mon.refs import dot, unit

mon = Mon('T01', 'distinct (axis, limits, gcr, slope) configurations driven over sun positions; every returned rotation judged against the '
          'panel geometry by vectors',
          ['rotation convention and sign of slopes as documented; points where the sun is behind the plane of the rows are only judged for consistency'],
          required=['best_in_limits', 'no_shade', 'just_touching', 'tracking.singleaxis.reference', 'axis_in_plane'])


def orient_matches(m, theta, tilt, az, aoi, o, zen, azs, ctx):
    for i in range(len(theta)):
        if np.isnan(theta[i]):
            continue
        _, _, n = C.orient(theta[i], o.get('axis_tilt', 0), o.get('axis_azimuth', 0))
        v = unit(tilt[i], az[i])
        m.check('same_normal', max(abs(a - b) for a, b in zip(n, v)) < 1e-7, dict(**ctx, i=i, theta=theta[i], tilt=tilt[i], az=az[i]))
        m.close('aoi_is_angle', math.cos(math.radians(aoi[i])), dot(n, unit(zen[i], azs[i])), 0, 1e-9, dict(**ctx, i=i))
        m.check('azimuth_range', 0 <= az[i] <= 360, ctx)


def work(m):
    catalogue(m, C.TRACK, n=40, quick=6, thorough=60)
    t = pvlib.tracking
    for rd in range(m.n(120, 1500)):
        rng = m.sub('sat', rd)
        o = C.o_sat(rng)
        a = C.g_sun('apparent_zenith')(rng, 30)
        zen, azs = a['apparent_zenith'], a['solar_azimuth']
        ctx = dict(opts=o)
        m.case(('sat', repr(o)), ctx)
        ok, r = m.call('singleaxis', t.singleaxis, zen, azs, ctx=ctx, **o)
        if not ok:
            continue
        th = np.asarray(r['tracker_theta'], float)
        up = zen <= 90
        for k in ('tracker_theta', 'aoi', 'surface_tilt', 'surface_azimuth'):
            m.check('night_missing', np.isnan(r[k][~up]).all() and np.isfinite(r[k][up]).all(), dict(**ctx, k=k, zen=zen[~up][:3]))
        orient_matches(m, th[up], r['surface_tilt'][up], r['surface_azimuth'][up], r['aoi'][up], o, zen[up], azs[up], ctx)
        lim = o.get('max_angle', 90)
        lo, hi = lim if isinstance(lim, tuple) else (-lim, lim)
        m.check('limits', (th[up] >= lo - 1e-9).all() and (th[up] <= hi + 1e-9).all(), ctx)
        grid = np.linspace(lo, hi, 721)
        gcr, bc = o.get('gcr', 2 / 7), o.get('cross_axis_tilt', 0)
        true = None
        if o.get('backtrack', True):
            ok, true = m.call('singleaxis', t.singleaxis, zen, azs, ctx=ctx, **dict(o, backtrack=False))
            true = np.asarray(true['tracker_theta'], float)
        for i in np.flatnonzero(up):
            x, _, z = C.axes(o.get('axis_tilt', 0), o.get('axis_azimuth', 0))
            s = unit(zen[i], azs[i])
            p = (dot(s, x), dot(s, z))
            if math.hypot(*p) < 1e-6:
                continue
            best = max(np.sin(np.radians(grid)) * p[0] + np.cos(np.radians(grid)) * p[1])
            best_th = true if true is not None else th
            mine = math.sin(math.radians(best_th[i])) * p[0] + math.cos(math.radians(best_th[i])) * p[1]
            if best > 0:
                m.check('best_in_limits', mine >= best - 1e-9, dict(**ctx, zen=zen[i], az=azs[i], theta=best_th[i], mine=mine, best=best))
            if true is None:
                continue
            # shadows in the plane across the axes: neighbours one (slant) row distance along the slope
            w = math.degrees(math.atan2(*p))
            D = (1 / gcr) * math.cos(math.radians(w - bc)) / math.cos(math.radians(bc))     # distance between the rays through both axes
            if D <= 1e-6:
                continue
            wid = abs(math.cos(math.radians(th[i] - w)))     # both half widths projected
            ideal_w = min(max(w, lo), hi)
            limited = abs(ideal_w - w) > 1e-9 or abs(th[i] - lo) < 1e-9 or abs(th[i] - hi) < 1e-9
            cx = dict(**ctx, zen=zen[i], az=azs[i], theta=th[i], omega=w)
            if not limited:
                m.check('no_shade', wid <= D + 1e-7, cx)
                if D < 1 - 1e-7:
                    m.check('just_touching', abs(wid - D) < 1e-6, cx)
                    m.check('not_beyond_true', (abs(th[i]) <= abs(w) + 1e-9) or abs(bc) > 0, cx)
                    m.check('turned_back', (w - th[i]) * np.sign(w) >= -1e-9, cx)
                elif D > 1 + 1e-7:
                    m.check('true_when_free', abs(th[i] - w) < 1e-6, cx)
        # container forms
        idx = gen.index_kinds(rng, 30)
        ok, f = m.call('singleaxis', t.singleaxis, pd.Series(zen, idx), pd.Series(azs, idx), ctx=ctx, **o)
        if ok:
            m.check('frame', isinstance(f, pd.DataFrame) and f.index.equals(idx) and set(f) == set(r), ctx)
            for k in r:
                m.close('frame_values', f[k], r[k], 1e-12, 1e-12, ctx)
    # slopes: rows laid on a plane
    for rd in range(m.n(200, 2000)):
        rng = m.sub('slope', rd)
        sa, st, aa = float(rng.uniform(0, 360)), float(rng.uniform(0, 40)), float(rng.uniform(0, 360))
        if rng.random() < .2:
            aa = (sa + float(rng.choice([0, 90, 180, 270]))) % 360
        ctx = dict(slope_azimuth=sa, slope_tilt=st, axis_azimuth=aa)
        m.case(('slope', sa, st, aa), ctx)
        ok, at = m.call('axis_tilt', t.calc_axis_tilt, sa, st, aa, ctx=ctx)
        ok2, ct = m.call('cross_tilt', t.calc_cross_axis_tilt, sa, st, aa, at, ctx=ctx)
        if not (ok and ok2):
            continue
        x, y, z = C.axes(float(at), aa)
        n = unit(st, sa)
        m.check('axis_in_plane', abs(dot(n, y)) < 1e-9, ctx)
        c = math.radians(float(ct))
        v = tuple(math.cos(c) * p - math.sin(c) * q for p, q in zip(x, z))
        m.check('cross_axis_in_plane', abs(dot(n, v)) < 1e-9 and abs(dot(y, v)) < 1e-9, dict(**ctx, at=at, ct=ct))
        # axes that do not lie in the slope: the line in which the slope meets a plane across the axes
        at = float(rng.choice([0., at, rng.uniform(0, 40)]))
        ok, ct = m.call('cross_tilt', t.calc_cross_axis_tilt, sa, st, aa, at, ctx=ctx)
        x, y, z = C.axes(at, aa)
        c = math.radians(float(ct))
        v = tuple(math.cos(c) * p - math.sin(c) * q for p, q in zip(x, z))
        m.check('cross_axis_meets_slope', abs(dot(n, v)) < 1e-9 and abs(dot(y, v)) < 1e-9, dict(**ctx, at=at, ct=ct))
    m.raises('ndim', ValueError, t.singleaxis, np.ones((2, 2)) * 30, np.ones((2, 2)) * 180)
    m.close('backtrack_default', t.singleaxis(80, 90, axis_azimuth=180)['tracker_theta'],
            t.singleaxis(80, 90, axis_azimuth=180, backtrack=True, gcr=2 / 7, max_angle=90, axis_tilt=0, cross_axis_tilt=0)['tracker_theta'])
    m.close('tilt0_azimuth', t.calc_surface_orientation(0., 0., 10.)['surface_azimuth'], 280.)


main(mon, work)
