"""Catalogue: tracking and shading geometry with vector-construction oracles."""
import math

import numpy as np

from mon import gen
from mon.engine import Entry
from mon.refs import NAN, acosd, cosd, dot, isn, sind, tand, unit


def axes(axis_tilt, axis_azimuth):
    """x', y', z' of the tracker frame: y' along the axis (positive tilt is downward along the
    axis azimuth), x' horizontal and 90 degrees clockwise from it, z' upward."""
    A, T = axis_azimuth, axis_tilt
    y = (sind(A) * cosd(T), cosd(A) * cosd(T), -sind(T))
    x = (cosd(A), -sind(A), 0.)
    z = (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
    return x, y, z


def proj(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth):
    x, _, z = axes(axis_tilt, axis_azimuth)
    s = unit(solar_zenith, solar_azimuth)
    a, b = dot(s, x), dot(s, z)
    if math.hypot(a, b) < 1e-6 or (abs(a) < 1e-12 and b < 0):
        return None
    return math.degrees(math.atan2(a, b))


def orient(theta, axis_tilt, axis_azimuth):
    """tilt, azimuth, normal of the panel at rotation theta"""
    x, _, z = axes(axis_tilt, axis_azimuth)
    n = tuple(sind(theta) * a + cosd(theta) * b for a, b in zip(x, z))
    tilt = math.degrees(math.atan2(math.hypot(n[0], n[1]), n[2]))
    return tilt, math.degrees(math.atan2(n[0], n[1])) % 360, n


def r_surf(tracker_theta, axis_tilt=0, axis_azimuth=0):
    t, a, n = orient(tracker_theta, axis_tilt, axis_azimuth)
    d = dict(surface_tilt=t)
    if tracker_theta == 0 and axis_tilt == 0:
        d['surface_azimuth'] = (axis_azimuth - 90) % 360
    elif t > 1e-3:
        d['surface_azimuth'] = a
    if 'surface_azimuth' in d and min(d['surface_azimuth'], 360 - d['surface_azimuth']) < 1e-6:
        del d['surface_azimuth']
    return d


def r_sat(apparent_zenith, solar_azimuth, axis_tilt=0, axis_azimuth=0, max_angle=90, backtrack=True, gcr=2 / 7, cross_axis_tilt=0):
    if apparent_zenith > 90 or isn(apparent_zenith, solar_azimuth):
        return {k: NAN for k in ('tracker_theta', 'aoi', 'surface_tilt', 'surface_azimuth')}
    w = proj(apparent_zenith, solar_azimuth, axis_tilt, axis_azimuth)
    if w is None:
        return None
    th = w
    if backtrack:
        d = 1 / (gcr * cosd(cross_axis_tilt))
        c = d * cosd(w - cross_axis_tilt)
        if c < 1e-9 or abs(c - 1) < 1e-7 or abs(w) < 1e-7:
            return None      # sun behind the plane of the rows: shaded whatever the rotation
        if c < 1:
            th = w - math.copysign(acosd(c), w)
    lo, hi = max_angle if isinstance(max_angle, tuple) else (-max_angle, max_angle)
    th = min(max(th, lo), hi)
    t, a, n = orient(th, axis_tilt, axis_azimuth)
    out = dict(tracker_theta=th, surface_tilt=t)
    aoi = acosd(dot(n, unit(apparent_zenith, solar_azimuth)))
    if aoi > 1e-3:
        out['aoi'] = aoi
    if t > 1e-3 and 1e-6 < a < 360 - 1e-6:
        out['surface_azimuth'] = a
    return out


def g_sun(zname, aname='solar_azimuth', hi=100):
    def g(rng, n):
        return {zname: gen.mix(rng, n, 0, hi, [0., 45., 60., 80., 85., 89., 90., 90.0001, 95.][:9 if hi > 90 else 7]), aname: gen.azimuth(rng, n)}
    return g


def o_sat(rng):
    o = {}
    if rng.random() < .7:
        o['axis_tilt'] = float(rng.choice([0, 5., 20., 45., -10., rng.uniform(0, 60)]))
    if rng.random() < .8:
        o['axis_azimuth'] = float(rng.choice([0., 180., 90., 359., rng.uniform(0, 360)]))
    k = rng.random()
    if k < .4:
        o['max_angle'] = float(rng.choice([45., 60., 90., 30., 180.]))
    elif k < .65:
        o['max_angle'] = (float(-rng.uniform(5, 80)), float(rng.uniform(5, 80)))
    elif k < .75:      # rows that turn to one side only
        a = np.sort(rng.uniform(0, 80, 2)) * rng.choice([-1, 1])
        o['max_angle'] = (float(min(a)), float(max(a)))
    if rng.random() < .7:
        o['backtrack'] = bool(rng.random() < .7)
    if rng.random() < .7:
        o['gcr'] = float(rng.choice([.3, .5, 1., .15, rng.uniform(.1, .9)]))
    if rng.random() < .5:
        o['cross_axis_tilt'] = float(rng.choice([0., 5., -5., rng.uniform(-25, 25)]))
    return o


def g_theta(rng, n):
    return dict(tracker_theta=gen.mix(rng, n, -90, 90, [0., 1e-3, -1e-3, 45., -45., 90., -90.]))


def o_axis(rng):
    o = {}
    if rng.random() < .7:
        o['axis_tilt'] = float(rng.choice([0., 10., rng.uniform(-20, 80)]))
    if rng.random() < .7:
        o['axis_azimuth'] = float(rng.choice([0., 180., 90., rng.uniform(0, 360)]))
    return o


def g_slope(rng, n):
    return dict(slope_azimuth=gen.azimuth(rng, n), slope_tilt=gen.mix(rng, n, 0, 60, [0, 10., 1e-3]), axis_azimuth=gen.azimuth(rng, n))


def r_axtilt(slope_azimuth, slope_tilt, axis_azimuth):
    n = unit(slope_tilt, slope_azimuth)
    drop = (n[0] * sind(axis_azimuth) + n[1] * cosd(axis_azimuth)) / n[2]
    return math.degrees(math.atan(drop))


def r_cross(slope_azimuth, slope_tilt, axis_azimuth, axis_tilt):
    x, y, z = axes(axis_tilt, axis_azimuth)
    n = unit(slope_tilt, slope_azimuth)
    # direction in the slope's plane and perpendicular to the axis: c x' + d z' with n.(..) = 0
    nx, nz = dot(n, x), dot(n, z)
    return math.degrees(math.atan2(nx, nz))


def g_cross(rng, n):
    d = g_slope(rng, n)
    on = np.array([r_axtilt(*[float(d[k][i]) for k in ('slope_azimuth', 'slope_tilt', 'axis_azimuth')]) for i in range(n)])
    return dict(d, axis_tilt=on)


TRACK = [
    Entry('tracking.singleaxis', g_sun('apparent_zenith'), r_sat, o_sat, forms=('array', 'series', 'scalar'), rtol=1e-7, atol=3e-6,
          const_ok=False, weight=5),
    Entry('tracking.calc_surface_orientation', g_theta, r_surf, o_axis, rtol=1e-7, atol=3e-6, weight=2, two_d=False),
    Entry('tracking.calc_axis_tilt', g_slope, r_axtilt, atol=1e-6, weight=2),
    Entry('tracking.calc_cross_axis_tilt', g_cross, r_cross, forms=('scalar',), atol=1e-6, weight=2),
]

# ------------------------------------------------------------------ shading


def g_row(rng, n):
    return dict(surface_tilt=gen.mix(rng, n, 0, 90, [0., 1e-3, 30., 89.9, 90.]), gcr=gen.mix(rng, n, .05, .95, [.5, .3]),
                slant_height=gen.mix(rng, n, 0, 1, [0., 1., .5]))


def r_ground(surface_tilt, gcr, slant_height):
    # the point on the row, above the ground line through the rows' lower edges; the facing row's lower
    # edge is one pitch away on the other side of the row's own lower edge
    px, pz = gcr * slant_height * cosd(surface_tilt), gcr * slant_height * sind(surface_tilt)
    return math.degrees(math.atan2(pz, px + 1))


def r_mask(surface_tilt, gcr, slant_height):
    top = (-1 + gcr * cosd(surface_tilt), gcr * sind(surface_tilt))
    pt = (gcr * slant_height * cosd(surface_tilt), gcr * slant_height * sind(surface_tilt))
    return math.degrees(math.atan2(top[1] - pt[1], pt[0] - top[0]))


_GX, _GW = np.polynomial.legendre.leggauss(80)


def r_passias(surface_tilt, gcr):
    v = [r_mask(surface_tilt, gcr, (x + 1) / 2) for x in _GX]
    return float(np.dot(v, _GW) / 2)


def g_passias(rng, n):
    return dict(surface_tilt=gen.mix(rng, n, .5, 90, [1., 30., 89., 90.]), gcr=gen.mix(rng, n, .05, .9, [.5, .3]))


def r_skyp(masking_angle):
    return sind(masking_angle / 2) ** 2


def g_proj(rng, n):
    d = g_sun('solar_zenith', hi=180)(rng, n)
    d['axis_tilt'] = gen.mix(rng, n, -30, 80, [0.])
    d['axis_azimuth'] = gen.azimuth(rng, n)
    return d


def r_frac(solar_zenith, solar_azimuth, axis_azimuth, shaded_row_rotation, *, collector_width, pitch, axis_tilt=0,
           surface_to_axis_offset=0, cross_axis_slope=0, shading_row_rotation=None):
    if shading_row_rotation is None:
        shading_row_rotation = shaded_row_rotation
    w = proj(solar_zenith, solar_azimuth, axis_tilt, axis_azimuth)
    if w is None or abs(w) < 1e-6:
        return None
    sgn = 1 if w > 0 else -1
    if sgn * (w - cross_axis_slope) < 1e-6:
        return None      # the sun is between the vertical and the normal of the slope
    e = (cosd(w), -sind(w))               # perpendicular to the ray, in the (x', z') plane
    off = (sgn * pitch, -sgn * pitch * tand(cross_axis_slope))

    def span(theta, o):
        c = [o[0] + surface_to_axis_offset * sind(theta), o[1] + surface_to_axis_offset * cosd(theta)]
        t = (cosd(theta), -sind(theta))
        ends = [dot((c[0] + k * t[0], c[1] + k * t[1]), e) for k in (-collector_width / 2, collector_width / 2)]
        return min(ends), max(ends)
    a = span(shaded_row_rotation, (0, 0))
    b = span(shading_row_rotation, off)
    if a[1] - a[0] < 1e-6 * collector_width:
        return None
    if cosd(w - cross_axis_slope) < 1e-6:
        return None      # the sun is behind the plane of the rows
    # the neighbour toward the sun covers the shaded row from its sunward edge on
    if sgn > 0:
        f = (a[1] - max(b[0], a[0])) / (a[1] - a[0])
        if b[1] < a[1] - 1e-9:
            return None  # the neighbour's shadow ends inside the row: outside the model
    else:
        f = (min(b[1], a[1]) - a[0]) / (a[1] - a[0])
        if b[0] > a[0] + 1e-9:
            return None
    return min(max(f, 0), 1)


def g_frac(rng, n):
    z = gen.mix(rng, n, 5, 89.5, [80., 85., 88.])
    d = dict(solar_zenith=z, solar_azimuth=gen.azimuth(rng, n), axis_azimuth=gen.azimuth(rng, n),
             shaded_row_rotation=gen.mix(rng, n, -85, 85, [0., 30., -30., 60.]), collector_width=rng.uniform(.5, 4, n))
    d['pitch'] = d['collector_width'] / rng.uniform(.2, .95, n)
    if rng.random() < .6:
        d['axis_tilt'] = gen.mix(rng, n, -20, 40, [0.])
    if rng.random() < .6:
        d['surface_to_axis_offset'] = rng.uniform(0, .3, n)
    if rng.random() < .6:
        d['cross_axis_slope'] = gen.mix(rng, n, -15, 15, [0.])
    if rng.random() < .6:
        d['shading_row_rotation'] = gen.mix(rng, n, -85, 85, [0., 30., -30.])
    return d


def r_mart(poa_global, poa_direct, shaded_fraction, shaded_blocks, total_blocks):
    if poa_global == 0:
        return None
    fes = 1 - (1 - shaded_fraction) * (1 - math.ceil(shaded_blocks) / (total_blocks + 1))
    return poa_direct * fes / poa_global


def g_mart(rng, n):
    g = gen.mix(rng, n, 1, 1200, [1000.])
    tb = rng.integers(1, 9, n).astype(float)
    return dict(poa_global=g, poa_direct=g * gen.mix(rng, n, 0, 1, [0, 1.]), shaded_fraction=gen.mix(rng, n, 0, 1, [0., 1.]),
                shaded_blocks=tb * gen.mix(rng, n, 0, 1, [0., 1.]), total_blocks=tb)


SHADE = [
    Entry('shading.ground_angle', g_row, r_ground, atol=1e-7, two_d=True),
    Entry('shading.masking_angle', g_row, r_mask, atol=1e-7, two_d=True),
    Entry('shading.masking_angle_passias', g_passias, r_passias, rtol=1e-6, atol=1e-5, nan='local'),
    Entry('shading.sky_diffuse_passias', lambda rng, n: dict(masking_angle=gen.mix(rng, n, 0, 90, [0, 90.])), r_skyp, two_d=True),
    Entry('shading.projected_solar_zenith_angle', g_proj, proj, atol=1e-5, two_d=True, weight=2),
    Entry('shading.shaded_fraction1d', g_frac, r_frac, atol=1e-7, two_d=True, weight=8),
    Entry('shading.direct_martinez', g_mart, r_mart, atol=1e-9, two_d=True, weight=2),
]
