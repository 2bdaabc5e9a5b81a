"""Catalogue: incidence angle modifiers with scalar reference equations and solid-angle integrals."""
import math

import numpy as np

from mon import gen
from mon.engine import Entry
from mon.refs import NAN, cosd, isn, sind


def ashrae(aoi, b=0.05):
    if isn(aoi):
        return NAN
    if abs(aoi) >= 90:
        return 0.
    return max(0., 1 - b * (1 / cosd(aoi) - 1))


def fresnel(aoi, n, K, L, n_ar):
    """transmittance through (coated) glass, by Snell and Fresnel"""
    ci = max(0., cosd(aoi))
    si = math.sqrt(max(0., 1 - ci * ci))
    stack = [1., n] if n_ar is None or abs(n_ar - 1) < 1e-8 or abs(n_ar - n) < 1e-8 else [1., n_ar, n]
    cs = []
    for x in stack:
        s = si / x
        if s >= 1 and x < 1:
            return 0. if s > 1 else 0.
        cs.append(math.sqrt(max(0., 1 - s * s)))
    def trans(pol):
        R = []
        for j in range(len(stack) - 1):
            a, b = stack[j], stack[j + 1]
            ca, cb = cs[j], cs[j + 1]
            if pol == 's':
                u, v = a * ca, b * cb
            else:
                u, v = a * cb, b * ca
            R.append(1. if u + v == 0 else ((u - v) / (u + v)) ** 2)
        t = 1 - R[0]
        if len(R) == 2:
            # one internal reflection series in the coating
            t = (1 - R[0]) * (1 - R[1]) / (1 - R[0] * R[1])
        return t
    tau = (trans('s') + trans('p')) / 2
    return tau * (math.exp(-K * L / cs[-1]) if cs[-1] > 0 else 0.)


def physical(aoi, n=1.526, K=4.0, L=0.002, n_ar=None):
    if isn(aoi):
        return NAN
    if cosd(aoi) <= 1e-15:
        return 0.
    return fresnel(aoi, n, K, L, n_ar) / fresnel(0., n, K, L, n_ar)


def martin_ruiz(aoi, a_r=.16):
    if isn(aoi):
        return NAN
    if abs(aoi) >= 90:
        return 0.
    return (1 - math.exp(-cosd(aoi) / a_r)) / (1 - math.exp(-1 / a_r))


def schlick(aoi):
    if isn(aoi):
        return NAN
    return 0. if abs(aoi) >= 90 else 1 - (1 - cosd(aoi)) ** 5


def sapm(aoi, module, upper=None):
    if isn(aoi):
        return NAN
    if aoi < 0:
        return 0.
    v = sum(module[f'B{i}'] * aoi ** i for i in range(6))
    v = max(0., v)
    return v if upper is None else min(v, upper)


def mr_diffuse(surface_tilt, a_r=.16, c1=.4244, c2=None):
    if c2 is None:
        c2 = a_r / 2 - .154
    b = math.radians(surface_tilt)

    def term(b):     # sky term; the ground one is that of the supplementary tilt
        if abs(b - math.pi) < 1e-7:
            return 0.
        return math.sin(b) + (math.pi - b - math.sin(b)) / (1 + math.cos(b))
    out = []
    for t in (term(b), term(math.pi - b)):
        out.append(1 - math.exp(-(c1 + c2 * t) * t / a_r))
    return tuple(out)


_X, _W = np.polynomial.legendre.leggauss(200)


def true_diffuse(f, tilt, lo, hi):
    """Cosine weighted mean of f(angle of incidence in degrees) over directions in front of the plane
    whose zenith angle is in [lo, hi] degrees, from the plane's own polar coordinates."""
    b = math.radians(tilt)
    cuts = {0., math.pi / 2}
    for z in (lo, hi):
        for c in (abs(math.radians(z) - b), math.radians(z) + b, 2 * math.pi - math.radians(z) - b):
            if 0 < c < math.pi / 2:
                cuts.add(c)
    cuts = sorted(cuts)
    num = den = 0.
    for a, c in zip(cuts[:-1], cuts[1:]):
        # sine substitution removes the square-root behaviour at both ends
        u = _X * math.pi / 2
        th = a + (c - a) * (np.sin(u) + 1) / 2
        w = _W * math.pi / 2 * np.cos(u) * (c - a) / 2

        def frac(z):     # share of azimuths (about the normal) with zenith <= z
            cz = math.cos(math.radians(z))
            A, B = math.cos(b) * np.cos(th), math.sin(b) * np.sin(th)
            with np.errstate(all='ignore'):
                q = np.where(B > 1e-14, (cz - A) / B, np.where(A >= cz, -2., 2.))
            return np.arccos(np.clip(q, -1, 1)) / math.pi
        share = frac(hi) - (frac(lo) if lo > 0 else 0)
        g = np.array([f(math.degrees(x)) for x in th])
        k = np.cos(th) * np.sin(th) * share * w
        num += float(np.sum(g * k))
        den += float(np.sum(k))
    return num / den if den > 1e-12 else 0.


def marion_ref(f, tilt, region, num=None):
    """Marion's midpoint sum over solid angle elements in sky coordinates."""
    num = num or (1800 if region == 'horizon' else 180)
    d = math.pi / num
    k = np.arange(num)
    if region == 'sky':
        k = k[(k + 1) * d <= math.pi / 2 + 1e-12]
    elif region == 'ground':
        k = k[k * d >= math.pi / 2 - 1e-12]
    else:
        k = k[(k * d >= math.radians(89.5) - 1e-12) & ((k + 1) * d <= math.pi / 2 + 1e-12)]
    z = (k + .5) * d
    area = d * (np.cos(k * d) - np.cos((k + 1) * d))
    psi = (np.arange(2 * num) + .5) * d
    b = math.radians(tilt)
    ca = math.cos(b) * np.cos(z)[:, None] + math.sin(b) * np.sin(z)[:, None] * np.cos(psi)[None, :]
    a = np.broadcast_to(area[:, None], ca.shape)
    ok = ca > 1e-12
    w = (ca * a)[ok]
    aoi = np.degrees(np.arccos(np.clip(ca[ok], -1, 1)))
    den = w.sum()
    if den == 0:
        return 0.
    return float((np.asarray(f(aoi)) * w).sum() / den)


def g_aoi(rng, n):
    return dict(aoi=gen.mix(rng, n, 0, 90, [0., 89.9, 90., 60., 45., 100., 120., 180.], .3))


def g_aoi_signed(rng, n):
    d = g_aoi(rng, n)
    s = np.where(rng.random(n) < .3, -1, 1)
    return dict(aoi=d['aoi'] * s)


def opt_of(rng, **k):
    return {a: float(v) for a, v in k.items() if rng.random() < .6}


SAPM_MODS = [dict(B0=1., B1=-.002438, B2=3.103e-4, B3=-1.246e-5, B4=2.112e-7, B5=-1.359e-9),
             dict(B0=1., B1=-.00526, B2=.000542, B3=-2e-5, B4=3e-7, B5=-1.6e-9),
             dict(B0=.98, B1=1e-3, B2=-1e-4, B3=0., B4=0., B5=0.)]


def o_phys(rng):
    o = opt_of(rng, n=rng.uniform(1.05, 2), K=rng.choice([4., 10., rng.uniform(0, 30)]), L=rng.choice([.002, 0., rng.uniform(0, .03)]))
    if rng.random() < .4:
        o['n_ar'] = float(rng.choice([1.29, 1., rng.uniform(1.05, 1.6)]))
    if rng.random() < .06:
        o = dict(o, n=1., n_ar=None, L=.002, K=4.)
    return o


IAM = [
    Entry('iam.ashrae', g_aoi_signed, ashrae, lambda r: opt_of(r, b=r.choice([.05, .02, .2, 1e-3])), two_d=True, weight=3),
    Entry('iam.physical', g_aoi_signed, physical, o_phys, two_d=True, weight=5, atol=2e-8),
    Entry('iam.martin_ruiz', g_aoi_signed, martin_ruiz, lambda r: opt_of(r, a_r=r.choice([.16, .05, .3, r.uniform(.05, .5)])), two_d=True, weight=3),
    Entry('iam.schlick', g_aoi_signed, schlick, two_d=True, weight=2),
    Entry('iam.sapm', g_aoi_signed, sapm, lambda r: dict(module=dict(SAPM_MODS[int(r.integers(0, 3))], A0=1), **opt_of(r, upper=r.choice([1., .95]))),
          two_d=True, weight=3),
    Entry('iam.martin_ruiz_diffuse', lambda rng, n: dict(surface_tilt=gen.mix(rng, n, .01, 179.9, [0., 30., 90., 150., 180., 89.99])), mr_diffuse,
          lambda r: opt_of(r, a_r=r.uniform(.05, .4), c1=r.choice([.4244, .43]), c2=r.choice([-.07, 0.])), weight=3, atol=1e-6, two_d=True),
    Entry('iam.schlick_diffuse', lambda rng, n: dict(surface_tilt=gen.mix(rng, n, .05, 90, [0., .01, .05, 20., 90.])),
          lambda surface_tilt: (true_diffuse(schlick, surface_tilt, 0, 90), true_diffuse(schlick, surface_tilt, 90, 180)),
          rtol=1e-5, atol=2e-5, weight=1),
]
