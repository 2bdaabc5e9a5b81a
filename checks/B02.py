"""B02: bifacial irradiance is the sum of its parts and conserves the light it uses."""
import datetime

import numpy as np
import pandas as pd

from pvlib import irradiance
from pvlib.bifacial import ants2d, infinite_sheds, loss_models, pvfactors_timeseries

from mon import gen
from mon.core import Mon, main
from mon.rows2d import Rows

mon = Mon('B02', 'distinct (geometry, sun, irradiance, sky model) cases',
          ['parts rebuilt from ray-cast view factors and shadows (mon/rows2d.py)', 'perez models: the circumsolar component is the one irradiance.perez reports (judged by I-checks)'],
          required=['sheds side', 'sheds total', 'sheds wide', 'sheds linear', 'ants part', 'ants shade', 'ants ground', 'ants sums', 'ants segments', 'ants same array', 'ants swap', 'ants linear', 'ants types', 'mismatch', 'pvfactors'])


def cosd(x):
    return np.cos(np.radians(x))


def sind(x):
    return np.sin(np.radians(x))


def weather(rng, zen):
    dni = float(rng.uniform(50, 1000)) if rng.random() < .85 else 0.
    dhi = float(rng.uniform(10, 400)) if rng.random() < .9 else 0.
    return dni * cosd(zen) + dhi, dhi, dni


def array(rng):
    gcr = float(rng.choice([.05, .3, .5, .8])) if rng.random() < .3 else float(rng.uniform(.08, .84))
    pitch = float(rng.uniform(2, 10))
    return gcr, pitch


def haydavies_move(dhi, dni, extra, zen):
    a = dni / extra
    return dhi - dhi * a * max(cosd(zen), 0) / max(cosd(zen), 0.01745), dni + dhi * a / max(cosd(zen), 0.01745)


# ------------------------------------------------------------- infinite sheds
def side(m, tilt, saz, zen, az, gcr, height, pitch, ghi, dhi, dni, alb, iam):
    """reference for one side: dict of part -> (lo, hi)"""
    r = Rows(tilt, gcr, pitch, height)
    phi = np.degrees(np.arctan(np.tan(np.radians(zen)) * cosd(az - saz)))
    ca = cosd(zen) * cosd(tilt) + sind(zen) * sind(tilt) * cosd(az - saz)
    sky, gnd, _ = r.row_average(0, 1, 200)
    free = 0. if abs(phi) > 85 else r.shadow_free(phi, 0, 1)
    N = 120
    mr = int(np.ceil(height / (pitch * np.tan(np.radians(5)))))
    v = np.array([r.ground_sky((i + .5) / N, mr, 60 + mr) for i in range(N)]).mean(axis=0)
    out = {'shade': r.beam_shade(phi) if ca > 1e-6 else np.nan, 'cos': ca, 'phi': phi}
    out['sky'] = (dhi * sky,) * 2
    out['ground'] = tuple(alb * gnd * (free * (ghi - dhi) + w * dhi) for w in v)
    out['direct'] = 0. if ca <= 1e-6 else dni * ca * (1 - out['shade']) * iam
    return out


def sheds(m, rd):
    rng = m.sub('sheds', rd)
    gcr, pitch = array(rng)
    tilt = float(rng.choice([0., 10., 30., 60., 90.])) if rng.random() < .4 else float(rng.uniform(0, 90))
    saz, az = float(rng.uniform(0, 360)), float(rng.uniform(0, 360))
    if rng.random() < .5:
        az = (saz + float(rng.uniform(-80, 80))) % 360
    zen = float(rng.uniform(0, 88))
    if rng.random() < .15:     # sun near the horizon, along the rows' cross direction, with much of the ground open
        zen, az, gcr = float(rng.uniform(84, 88.5)), (saz + 180 * int(rng.integers(2)) + float(rng.uniform(-8, 8))) % 360, float(rng.uniform(.02, .1))
        tilt = float(rng.choice([0., 3., 8.])) if rng.random() < .7 else tilt
    height = .5 * gcr * pitch * sind(tilt) + float(rng.uniform(.15, 3))
    alb = float(rng.uniform(0, .9))
    ghi, dhi, dni = weather(rng, zen)
    extra = float(rng.uniform(1320, 1410))
    model = 'haydavies' if rng.random() < .5 else 'isotropic'
    i1, i2 = float(rng.uniform(.7, 1.06)), float(rng.uniform(.7, 1.06))  # SAPM modifiers go slightly above 1
    kw = dict(bifaciality=float(rng.uniform(0, 1)), shade_factor=float(rng.uniform(-.1, 0)), transmission_factor=float(rng.uniform(0, .1))) if rng.random() < .7 else {}
    args = (tilt, saz, zen, az, gcr, height, pitch, ghi, dhi, dni, alb)
    ctx = dict(tilt=tilt, surface_azimuth=saz, zenith=zen, azimuth=az, gcr=gcr, height=height, pitch=pitch, ghi=ghi, dhi=dhi, dni=dni, albedo=alb, model=model, dni_extra=extra, iam=(i1, i2), **kw)
    m.case(('sheds', *args, model), ctx)
    ok, g = m.call('sheds total', infinite_sheds.get_irradiance, *args, model=model, dni_extra=extra, iam_front=i1, iam_back=i2, ctx=ctx, **kw)
    if not ok:
        return
    g = {k: float(np.ravel(v)[0]) for k, v in g.items()}
    d2, n2 = haydavies_move(dhi, dni, extra, zen) if model == 'haydavies' else (dhi, dni)
    tot = 100 + ghi + dni
    for name, t, s, iam in (('front', tilt, saz, i1), ('back', 180 - tilt, (saz + 180) % 360, i2)):
        ref = side(m, t, s, zen, az, gcr, height, pitch, ghi, d2, n2, alb, iam)
        if min(abs(abs(ref['phi']) - 85), abs(ref['cos'])) < 1e-5:
            continue
        m.check('sheds side', 0 <= g[f'shaded_fraction_{name}'] <= 1, dict(ctx, side=name, got=g[f'shaded_fraction_{name}']), 'shaded fraction outside [0, 1]')
        if ref['cos'] > 1e-6:
            m.close('sheds side', g[f'shaded_fraction_{name}'], ref['shade'], 0, 1e-6, dict(ctx, side=name, part='shade'))
        m.close('sheds side', g[f'poa_{name}_direct'], ref['direct'], 1e-9, 1e-6 * tot, dict(ctx, side=name, part='direct'))
        for part, tol in (('sky', 3e-4), ('ground', 4e-3)):
            v, (lo, hi) = g[f'poa_{name}_{part}_diffuse'], ref[part]
            m.check('sheds side', lo - tol * max(dhi, 1e-9) - 3e-4 * ghi * (part == 'ground') - 1e-9 <= v <= hi + tol * max(dhi, 1e-9) + 3e-4 * ghi * (part == 'ground') + 1e-9, dict(ctx, side=name, part=part, got=v, lo=lo, hi=hi), f'{part} part differs from the ray-cast one')
        m.close('sheds total', g[f'poa_{name}_diffuse'], g[f'poa_{name}_sky_diffuse'] + g[f'poa_{name}_ground_diffuse'], 1e-10, 1e-9, ctx)
        m.close('sheds total', g[f'poa_{name}'], g[f'poa_{name}_diffuse'] + g[f'poa_{name}_direct'], 1e-10, 1e-9, ctx)
        m.check('sheds side', all(g[f'poa_{name}{p}'] >= -1e-9 for p in ('', '_direct', '_diffuse', '_sky_diffuse', '_ground_diffuse')), dict(ctx, got=g), 'negative irradiance')
        p = infinite_sheds.get_irradiance_poa(t, s, *args[2:], model=model, dni_extra=extra, iam=iam)
        for a, b in (('global', ''), ('direct', '_direct'), ('diffuse', '_diffuse'), ('sky_diffuse', '_sky_diffuse'), ('ground_diffuse', '_ground_diffuse')):
            m.close('sheds total', float(np.ravel(p[f'poa_{a}'])[0]), g[f'poa_{name}{b}'], 1e-10, 1e-9, dict(ctx, side=name, poa=a))
        m.close('sheds total', float(np.ravel(p['shaded_fraction'])[0]), g[f'shaded_fraction_{name}'], 1e-12, 1e-12, ctx)
    b, s, t = kw.get('bifaciality', .8), kw.get('shade_factor', -.02), kw.get('transmission_factor', 0)
    m.close('sheds total', g['poa_global'], g['poa_front'] + g['poa_back'] * b * (1 + s) * (1 + t), 1e-10, 1e-9, ctx)
    # linear in the irradiance supplied (haydavies: when the extraterrestrial value scales too)
    k = float(rng.uniform(.1, 3))
    h = infinite_sheds.get_irradiance(*args[:7], k * ghi, k * dhi, k * dni, alb, model=model, dni_extra=k * extra, iam_front=i1, iam_back=i2, **kw)
    for q in g:
        if q.startswith('poa'):
            m.close('sheds linear', float(np.ravel(h[q])[0]), k * g[q], 1e-9, 1e-8, dict(ctx, k=k, part=q))
    # far apart rows: each side is a lone plane
    far = infinite_sheds.get_irradiance(*args[:4], 1e-4, .5e-4 * 1e4 + height, 1e4, ghi, dhi, dni, alb, iam_front=1., iam_back=1.)
    for name, t, s in (('front', tilt, saz), ('back', 180 - tilt, (saz + 180) % 360)):
        ca = cosd(zen) * cosd(t) + sind(zen) * sind(t) * cosd(az - s)
        phi = np.degrees(np.arctan(np.tan(np.radians(zen)) * cosd(az - s)))
        if abs(phi) > 84.9:
            continue
        want = dni * max(ca, 0) + dhi * (1 + cosd(t)) / 2 + alb * ghi * (1 - cosd(t)) / 2
        m.close('sheds wide', float(np.ravel(far[f'poa_{name}'])[0]), want, 0, 3e-3 * tot, dict(ctx, side=name))


def sheds_vectors(m, rd):
    rng = m.sub('shedvec', rd)
    gcr, pitch = array(rng)
    n = int(rng.integers(2, 8))
    zen = rng.uniform(0, 100, n)
    tilt = rng.uniform(0, 80, n) if rng.random() < .5 else np.full(n, 25.)
    saz = np.where(rng.random(n) < .5, 90., 270.)
    az = rng.uniform(0, 360, n)
    height = gcr * pitch
    dhi, dni = gen.irr(rng, n, 400), np.where(zen < 90, rng.uniform(0, 1000, n), 0)
    ghi = dhi + dni * np.clip(cosd(zen), 0, None)
    ix = pd.date_range('2021-03-01 05:00', periods=n, freq='h', tz='Etc/GMT+5')
    ser = lambda v: pd.Series(v, index=ix)  # noqa: E731
    model = 'haydavies' if rng.random() < .5 else 'isotropic'
    a = infinite_sheds.get_irradiance(tilt, saz, zen, az, gcr, height, pitch, ghi, dhi, dni, .2, model=model, dni_extra=1360.)
    ok, b = m.call('sheds total', infinite_sheds.get_irradiance, ser(tilt), ser(saz), ser(zen), ser(az), gcr, height, pitch, ser(ghi), ser(dhi), ser(dni), .2, model=model, dni_extra=1360.)
    m.case(('shedvec', rd, n, gcr))
    ctx = dict(n=n, gcr=gcr, pitch=pitch, model=model, zen=zen, az=az, saz=saz, tilt=tilt)
    if ok:
        m.check('sheds total', isinstance(b, pd.DataFrame) and b.index.equals(ix) and set(b.columns) == set(a), ctx, 'a table on the input index')
        for k in a:
            m.close('sheds total', b[k].to_numpy(), a[k], 1e-12, 1e-12, dict(ctx, part=k))
            one = [float(np.ravel(infinite_sheds.get_irradiance(float(tilt[i]), float(saz[i]), float(zen[i]), float(az[i]), gcr, height, pitch, float(ghi[i]), float(dhi[i]), float(dni[i]), .2, model=model, dni_extra=1360.)[k])[0]) for i in range(n)] if rd % 4 == 0 else None
            if one:
                m.close('sheds total', a[k], one, 1e-12, 1e-12, dict(ctx, part=k, scalars=True))


# ---------------------------------------------------------------------- ants2d
def frame(axis_tilt, axis_azimuth):
    """(axis, across, up) unit vectors, east-north-up; positive rotation turns the face from up to across"""
    ax = np.array([cosd(axis_tilt) * sind(axis_azimuth), cosd(axis_tilt) * cosd(axis_azimuth), -sind(axis_tilt)])
    cr = np.array([sind(axis_azimuth + 90), cosd(axis_azimuth + 90), 0.])
    return ax, cr, np.array([sind(axis_tilt) * sind(axis_azimuth), sind(axis_tilt) * cosd(axis_azimuth), cosd(axis_tilt)])


def wrap(x):
    return (x + 180) % 360 - 180


def segments(rng):
    k = rng.random()
    if k < .3:
        return 1, [(0., 1.)]
    if k < .7:
        n = int(rng.integers(2, 5))
        e = np.linspace(0, 1, n + 1)
        return n, list(zip(e[:-1], e[1:]))
    cut = np.sort(rng.uniform(.05, .95, int(rng.integers(1, 4))))
    cut = np.concatenate([[0], cut, [1]])
    cut = cut[np.concatenate([[True], np.diff(cut) > 1e-2])]
    cut[-1] = 1.
    return [(float(a), float(b)) for a, b in zip(cut[:-1], cut[1:])], [(float(a), float(b)) for a, b in zip(cut[:-1], cut[1:])]


def adjust(model, dhi, dni, extra, am, zen, az):
    if model == 'isotropic':
        return dhi, dni
    if model == 'haydavies':
        return haydavies_move(dhi, dni, extra, zen)
    f = irradiance.perez if model == 'perez' else irradiance.perez_driesse
    h = f(0, 180, dhi, dni, extra, zen, az, am, return_components=True)['poa_circumsolar']
    # facing the sun the circumsolar part is larger by 1 / cos(zenith), limited at 85 degrees
    return float(dhi - h), float(dni + h / max(cosd(zen), 1e-9)) if zen < 85 else float(dni + f(zen, az, dhi, dni, extra, zen, az, am, return_components=True)['poa_circumsolar'])


def ants(m, rd):
    rng = m.sub('ants', rd)
    gcr, pitch = array(rng)
    sloped = rng.random() < .5
    atilt = float(rng.uniform(0, 25)) if sloped and rng.random() < .7 else 0.
    cas = float(rng.uniform(-20, 20)) if sloped and rng.random() < .7 else 0.
    rot = float(rng.choice([-60., -30., 0., 20., 55., 90.])) if rng.random() < .3 else float(rng.uniform(-90, 90))
    A = float(rng.choice([0., 90., 180., 270.])) if rng.random() < .4 else float(rng.uniform(0, 360))
    zen, az = float(rng.uniform(0, 88)), float(rng.uniform(0, 360))
    if rng.random() < .15:
        zen, az, gcr = float(rng.uniform(84, 88.5)), (A + 90 + 180 * int(rng.integers(2)) + float(rng.uniform(-8, 8))) % 360, float(rng.uniform(.02, .1))
        rot = float(rng.choice([-8., -3., 0., 3., 8.])) if rng.random() < .7 else rot
    height = .5 * gcr * pitch * abs(sind(abs(rot) + abs(cas))) + float(rng.uniform(.3, 3))
    ghi, dhi, dni = weather(rng, zen)
    extra = float(rng.uniform(1320, 1410))
    model = ['isotropic', 'haydavies', 'perez', 'perez-driesse'][int(rng.integers(4))]
    rs, xs = segments(rng)
    gs, gg = segments(rng)
    alb = float(rng.uniform(0, .9)) if rng.random() < .5 else rng.uniform(0, .9, (len(gg), 1))
    own = rng.random() < .5     # by default the relative airmass of the sun
    am = float(rng.uniform(1, 10)) if own else float(irradiance.atmosphere.get_relative_airmass(zen))
    base = dict(tracker_rotation=rot, axis_azimuth=A, solar_zenith=zen, solar_azimuth=az, gcr=gcr, height=height, pitch=pitch, ghi=ghi, dhi=dhi, dni=dni, albedo=alb, model=model, dni_extra=extra, airmass=am, axis_tilt=atilt, cross_axis_slope=cas)
    if not own and rng.random() < .6:
        del base['airmass']
    ctx = dict(base, row_segments=rs, ground_segments=gs)
    m.case(('ants', rd, rot, A, zen, az, gcr), ctx)
    ok, res = m.call('ants part', ants2d.get_irradiance, **base, row_segments=rs, ground_segments=gs, return_ground_components=True, ctx=ctx)
    if not ok:
        return
    out, gr = res
    if 'poa_global' in out:
        m.close('ants sums', out['poa_global'], np.asarray(out['poa_front']) + np.asarray(out['poa_back']), 1e-12, 1e-12, ctx)
    else:
        m.violate('ants2d_no_poa_global', 'the documented poa_global is missing from the output', ctx)
    S = {k: np.atleast_1d(np.squeeze(np.asarray(v, float))) for k, v in out.items()}
    m.check('ants types', all(v.shape == (len(xs),) for v in S.values()), dict(ctx, got={k: v.shape for k, v in S.items()}), 'one value per row segment')
    G = {k: np.atleast_1d(np.squeeze(np.asarray(v, float))) for k, v in gr.items()}
    m.check('ants types', all(v.shape == (len(gg),) for v in G.values()), dict(ctx, got={k: v.shape for k, v in G.items()}), 'one value per ground segment')
    # the reference, in the plane across the axis
    ax, cr, up = frame(atilt, A)
    sun = np.array([sind(zen) * sind(az), sind(zen) * cosd(az), cosd(zen)])
    phi = np.degrees(np.arctan2(sun @ cr, sun @ up)) - cas
    d2, n2 = adjust(model, dhi, dni, extra, am, zen, az)
    if not np.isfinite([d2, n2]).all():
        return
    h2, p2, g2, r2, ghi2 = height, pitch, gcr, rot, ghi
    if atilt or cas:
        normal = cosd(cas) * up + sind(cas) * cr
        h2, p2, g2, r2 = height * normal[2], pitch / cosd(cas), gcr * cosd(cas), wrap(rot - cas)
        ghi2 = d2 + n2 * max(float(sun @ normal), 0)
    if abs(abs(phi) - 85) < 1e-5 or abs(phi) >= 90:
        if abs(phi) >= 90:
            m.ev('sun behind the slope')
        return
    mr = int(np.ceil(h2 / (p2 * np.tan(np.radians(4)))))
    rows = Rows(r2, g2, p2, h2)
    direct = np.array([(0. if abs(phi) > 85 else rows.shadow_free(phi, a, b)) * (ghi2 - d2) for a, b in gg])
    N = 40
    lohi = np.array([np.mean([rows.ground_sky(a + (i + .5) / N * (b - a), mr, 40 + mr) for i in range(N)], axis=0) for a, b in gg]) * d2
    lohi.sort(axis=1)  # perez with unlikely input may give negative diffuse light
    m.close('ants ground', G['ground_direct'], direct, 1e-6, 1e-5 * (100 + dni), dict(ctx, phi=phi))
    tol = 2.5e-2 / min(len(gg), 4) * dhi + 1e-6
    m.check('ants ground', bool(np.all(G['ground_diffuse'] >= lohi[:, 0] - tol) and np.all(G['ground_diffuse'] <= lohi[:, 1] + tol)), dict(ctx, got=G['ground_diffuse'], lo=lohi[:, 0], hi=lohi[:, 1]), 'diffuse light on the ground differs from the ray-cast one')
    av = np.broadcast_to(np.ravel(alb), (len(gg),))
    for name, th, flip in (('front', rot, False), ('back', rot + 180, True)):
        n3 = cosd(th) * up + sind(th) * cr
        ca = float(sun @ n3)
        r = Rows(wrap(r2 + 180) if flip else r2, g2, p2, h2)
        for j, (x0, x1) in enumerate(xs):
            q0, q1 = (1 - x1, 1 - x0) if flip else (x0, x1)
            c = dict(ctx, side=name, segment=(x0, x1), phi=phi)
            sf = S[f'shaded_fraction_{name}'][j]
            m.check('ants shade', 0 <= sf <= 1, dict(c, got=sf), 'shaded fraction outside [0, 1]')
            sh = r.beam_shade(phi, q0, q1) if ca > 1e-5 else 1.
            if ca > 1e-5:
                m.close('ants shade', sf, sh, 0, 1e-6, c)
            m.close('ants part', S[f'poa_{name}_direct'][j], n2 * max(ca, 0) * (1 - sh), 1e-7, 1e-5 * (100 + dni), dict(c, part='direct'))
            sky, gnd, _ = r.row_average(q0, q1, 60)
            m.close('ants part', S[f'poa_{name}_sky_diffuse'][j], d2 * sky, 0, 1e-3 * dhi + 1e-9, dict(c, part='sky'))
            lo = hi = 0.
            for i, (a, b) in enumerate(gg):
                near, al = r.row_ground(q0, q1, a, b, mr, 40, 60 + 2 * mr)
                # judged given the ground light the model reports
                e = av[i] * (G['ground_direct'][i] + G['ground_diffuse'][i])
                lo, hi = lo + near * e, hi + al * e
            tg = 3e-3 * float(av.max()) * (ghi + dhi) + 1e-6
            m.check('ants part', lo - tg <= S[f'poa_{name}_ground_diffuse'][j] <= hi + tg, dict(c, part='ground', got=S[f'poa_{name}_ground_diffuse'][j], lo=lo, hi=hi), 'ground part differs from the ray-cast one')
        m.close('ants sums', S[f'poa_{name}_diffuse'], S[f'poa_{name}_sky_diffuse'] + S[f'poa_{name}_ground_diffuse'], 1e-10, 1e-9, ctx)
        m.close('ants sums', S[f'poa_{name}'], S[f'poa_{name}_diffuse'] + S[f'poa_{name}_direct'], 1e-10, 1e-9, ctx)
        if d2 >= 0:     # Perez circumsolar above the whole diffuse light needs dhi and airmass no sky gives
            m.check('ants sums', all(np.all(S[f'poa_{name}{p}'] >= -1e-6) for p in ('', '_direct', '_diffuse', '_sky_diffuse', '_ground_diffuse')), dict(ctx, got=S), 'negative irradiance')
    # one segment equals the weighted mean of the segments
    one = ants2d.get_irradiance(**base, ground_segments=gs)
    w = np.array([b - a for a, b in xs])
    for k in S:
        if k == 'poa_global':
            continue
        m.close('ants segments', float(np.ravel(one[k])[0]), float(S[k] @ w), 1e-6, 2e-4 * (ghi + dhi + 1), dict(ctx, part=k))
    # the same array described with the axis pointing the other way
    if not sloped:
        gr2 = gs if np.isscalar(gs) else [(1 - b, 1 - a) for a, b in gs][::-1]
        rs2 = rs if np.isscalar(rs) else [(1 - b, 1 - a) for a, b in rs][::-1]
        alb2 = alb if np.isscalar(alb) else alb[::-1]
        o2 = ants2d.get_irradiance(**dict(base, tracker_rotation=-rot, axis_azimuth=A + 180, albedo=alb2), row_segments=rs2, ground_segments=gr2)
        for k in S:
            m.close('ants same array', np.atleast_1d(np.squeeze(np.asarray(o2[k], float)))[::-1], S[k], 1e-6, 2e-4 * (ghi + dhi + 1), dict(ctx, part=k))
        # turned over: the sides swap
        o3 = ants2d.get_irradiance(**dict(base, tracker_rotation=wrap(rot + 180)), row_segments=rs2, ground_segments=gs)
        for k in S:
            if k.startswith('shaded') or k == 'poa_global':
                continue
            k3 = k.replace('front', 'b@ck').replace('back', 'front').replace('b@ck', 'back')
            m.close('ants swap', np.atleast_1d(np.squeeze(np.asarray(o3[k3], float)))[::-1], S[k], 1e-6, 2e-4 * (ghi + dhi + 1), dict(ctx, part=k))
    # linear in the irradiance
    k = float(rng.uniform(.2, 2.5))
    if model in ('isotropic', 'haydavies'):
        o4 = ants2d.get_irradiance(**dict(base, ghi=k * ghi, dhi=k * dhi, dni=k * dni, dni_extra=k * extra), row_segments=rs, ground_segments=gs)
        for q in S:
            if q.startswith('poa'):
                m.close('ants linear', np.atleast_1d(np.squeeze(np.asarray(o4[q], float))), k * S[q], 1e-9, 1e-8, dict(ctx, k=k, part=q))


def ants_series(m, rd):
    rng = m.sub('antsser', rd)
    gcr, pitch = array(rng)
    n = int(rng.integers(2, 7))
    if rng.random() < .15:
        n = 1
    ix = pd.date_range(f'2021-{int(rng.integers(1, 13)):02d}-10 05:00', periods=n, freq='2h', tz='Etc/GMT+6')
    zen = rng.uniform(0, 88, n)
    az = rng.uniform(0, 360, n)
    rot = rng.uniform(-60, 60, n)
    dhi, dni = rng.uniform(5, 300, n), rng.uniform(0, 900, n)
    ghi = dhi + dni * cosd(zen)
    height = gcr * pitch + .5
    model = ['isotropic', 'haydavies', 'perez', 'perez-driesse'][int(rng.integers(4))]
    ser = lambda v: pd.Series(v, index=ix)  # noqa: E731
    fixed = dict(axis_azimuth=180., gcr=gcr, height=height, pitch=pitch, albedo=.25, model=model, row_segments=int(rng.choice([1, 3])), ground_segments=int(rng.choice([1, 4])), cross_axis_slope=float(rng.choice([0., 5.])), return_ground_components=True)
    ctx = dict(fixed, zen=zen, az=az, rot=rot, n=n, start=str(ix[0]))
    m.case(('antsser', rd, n, gcr, model), ctx)
    ok, res = m.call('ants types', ants2d.get_irradiance, ser(rot), solar_zenith=ser(zen), solar_azimuth=ser(az), ghi=ser(ghi), dhi=ser(dhi), dni=ser(dni), ctx=ctx, **fixed)
    if not ok:
        return
    out, gr = res
    extra = irradiance.get_extra_radiation(ix).to_numpy()
    if fixed['row_segments'] == 1:
        m.check('ants types', isinstance(out, pd.DataFrame) and out.index.equals(ix), dict(ctx, got=type(out)), 'a table on the input index')
    else:
        m.check('ants types', all(np.shape(v) == (fixed['row_segments'], n) for v in out.values()), ctx, 'segments by times')
    if fixed['ground_segments'] == 1:
        m.check('ants types', isinstance(gr, pd.DataFrame) and gr.index.equals(ix), dict(ctx, got=type(gr)), 'a table on the input index')
    else:
        m.check('ants types', all(np.shape(v) == (fixed['ground_segments'], n) for v in gr.values()), ctx, 'segments by times')
    for i in range(n):
        o, g = ants2d.get_irradiance(float(rot[i]), solar_zenith=float(zen[i]), solar_azimuth=float(az[i]), ghi=float(ghi[i]), dhi=float(dhi[i]), dni=float(dni[i]), dni_extra=float(extra[i]), **fixed)
        for whole, part in ((out, o), (gr, g)):
            for k in part:
                got = whole[k].iloc[i] if isinstance(whole, pd.DataFrame) else np.asarray(whole[k])[:, i]
                m.close('ants types', np.ravel(got), np.ravel(part[k]), 1e-9, 1e-9, dict(ctx, part=k, i=i))
        if fixed['row_segments'] == 1:
            m.check('ants types', all(isinstance(v, float) for v in o.values()), ctx, 'scalars for scalar input')


def mismatch(m):
    for rd in range(m.n(60, 600)):
        rng = m.sub('mismatch', rd)
        r = rng.uniform(0, .5, 6)
        c = tuple(rng.uniform(-1, 4, int(rng.integers(1, 5))))
        ff, ref = float(rng.uniform(.6, .85)), float(rng.uniform(.7, .82))
        m.case(('mm', c))
        m.close('mismatch', loss_models.power_mismatch_deline(r), .142 * r + 3.2 * r ** 2, 1e-9, 1e-12)
        m.close('mismatch', loss_models.power_mismatch_deline(r, c), sum(q * r ** i for i, q in enumerate(c)), 1e-9, 1e-12, dict(c=c))
        m.close('mismatch', loss_models.power_mismatch_deline(r, np.polynomial.Polynomial(c), ff), sum(q * r ** i for i, q in enumerate(c)) * ff / .79, 1e-9, 1e-12, dict(c=c, ff=ff))
        m.close('mismatch', loss_models.power_mismatch_deline(r, c, ff, ref), sum(q * r ** i for i, q in enumerate(c)) * ff / ref, 1e-9, 1e-12, dict(c=c, ff=ff, ref=ref))
        s = loss_models.power_mismatch_deline(pd.Series(r, index=list('abcdef')))
        m.check('mismatch', isinstance(s, pd.Series) and list(s.index) == list('abcdef'), None, 'index kept')
        m.close('mismatch', float(loss_models.power_mismatch_deline(float(r[0]))), float(s.iloc[0]), 1e-12, 0)


def pvfactors(m):
    for rd in range(m.n(3, 30)):
        rng = m.sub('pvf', rd)
        n = 3
        ts = [datetime.datetime(2017, 8, 31, 11 + i) for i in range(n)]
        zen, az = rng.uniform(10, 60, n), rng.uniform(100, 260, n)
        tilt = rng.uniform(0, 50, n)
        west = np.where(az > 180, 270., 90.)
        dni, dhi = rng.uniform(300, 900, n), rng.uniform(50, 200, n)
        gcr, alb = float(rng.uniform(.2, .6)), float(rng.uniform(.1, .6))
        rf, rb = float(rng.uniform(0, .1)), float(rng.uniform(0, .1))
        obs = int(rng.integers(0, 3))
        run = lambda **k: pvfactors_timeseries(**{**dict(solar_azimuth=az, solar_zenith=zen, surface_azimuth=west, surface_tilt=tilt, axis_azimuth=180., timestamps=ts, dni=dni, dhi=dhi, gcr=gcr, pvrow_height=2.5, pvrow_width=2., albedo=alb, n_pvrows=3, index_observed_pvrow=obs, rho_front_pvrow=rf, rho_back_pvrow=rb, horizon_band_angle=15.), **k})  # noqa: E731
        ctx = dict(zen=zen, az=az, tilt=tilt, dni=dni, dhi=dhi, gcr=gcr, alb=alb, rho=(rf, rb), obs=obs)
        m.case(('pvf', rd, gcr), ctx)
        ok, r = m.call('pvfactors', run, ctx=ctx)
        if not ok:
            continue
        fi, bi, fa, ba = r
        m.check('pvfactors', all(isinstance(x, pd.Series) and list(x.index) == ts for x in r), ctx, 'series on the times')
        # front: at least what a lone plane gets from the sun, at most that plus both hemispheres
        ca = cosd(zen) * cosd(tilt) + sind(zen) * sind(tilt) * cosd(az - west)
        m.check('pvfactors', bool(np.all(fi <= dni * np.clip(ca, 0, None) * 1.6 + 3.0 * dhi + alb * dni + 1) and np.all(fi >= 0) and np.all(bi >= 0) and np.all(bi < fi)), dict(ctx, front=fi, back=bi), 'front and back within what the sun supplies')
        # absorbed is at most incident and near (1 - rho) of it
        m.check('pvfactors', bool(np.all(fa <= fi + 1e-9) and np.all(ba <= bi + 1e-9)), ctx, 'absorbed above incident')
        k = float(rng.uniform(.5, 1.4))
        # order of the inputs: a scalar tilt and azimuth are broadcast
        i = int(rng.integers(n))
        one = run(solar_azimuth=az[i:i + 1], solar_zenith=zen[i:i + 1], surface_azimuth=float(west[i]), surface_tilt=float(tilt[i]), timestamps=ts[i:i + 1], dni=dni[i:i + 1], dhi=dhi[i:i + 1])
        for a, b in zip(one, r):
            m.close('pvfactors', a.iloc[0], b.iloc[i], 1e-9, 1e-9, ctx)
        # the observed row and the number of rows are used
        if rd % 3 == 0:
            w = run(n_pvrows=5, index_observed_pvrow=2)
            w2 = run(n_pvrows=5, index_observed_pvrow=0)
            mid = run(n_pvrows=3, index_observed_pvrow=1)
            m.check('pvfactors', bool(np.all(np.abs(w[1] / mid[1] - 1) < .25)), dict(ctx, w=w[1], mid=mid[1]), 'the middle row of five is near the middle row of three')
            m.check('pvfactors', bool(np.any(np.abs(w[1] / w2[1] - 1) > 1e-4)), ctx, 'the edge row differs from the middle row')
        _ = k


def work(m):
    for rd in range(m.n(120, 2200)):
        sheds(m, rd)
    for rd in range(m.n(40, 300)):
        sheds_vectors(m, rd)
    for rd in range(m.n(110, 1800)):
        ants(m, rd)
    for rd in range(m.n(40, 300)):
        ants_series(m, rd)
    mismatch(m)
    pvfactors(m)


if __name__ == '__main__':
    main(mon, work)
