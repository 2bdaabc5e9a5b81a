"""Single-diode parameter generators and an independent high-precision curve solver."""
import numpy as np

from mon import gen


def params(rng, n, dark=.08, limits=True):
    """Physically valid (IL, I0, Rs, Rsh, a) over decades, cells to long strings."""
    ns = rng.choice([1, 20, 36, 60, 72, 96, 1200], n, p=[.2, .1, .15, .2, .2, .1, .05])
    a = ns * rng.uniform(.8, 2.2, n) * 0.0257 * rng.uniform(.8, 1.2, n)
    il = 10 ** rng.uniform(-3, 1.3, n)
    x = rng.uniform(14, 32, n)               # Voc / a at 1 sun-like current
    i0 = rng.uniform(.5, 12, n) * np.exp(-x)
    voc = a * np.log1p(il / i0)
    rs = voc / np.maximum(il, .05) * 10 ** rng.uniform(-4, -.8, n)
    rsh = voc / np.maximum(il, .05) * 10 ** rng.uniform(.8, 4, n)
    if limits:
        rs[rng.random(n) < .12] = 0.
        rsh[rng.random(n) < .12] = np.inf
    if dark:
        il[rng.random(n) < dark] = 0.
    return dict(photocurrent=il, saturation_current=i0, resistance_series=rs, resistance_shunt=rsh, nNsVth=a)


def recomb(rng, n, p, ns_vbi_factor=(1.05, 2.5)):
    """thin-film recombination and reverse breakdown terms to go with `p`"""
    voc = p['nNsVth'] * np.log1p(p['photocurrent'] / p['saturation_current'])
    voc = np.maximum(voc, p['nNsVth'] * 5)
    nsvbi = voc * rng.uniform(*ns_vbi_factor, n)
    d2 = nsvbi * rng.uniform(.005, .12, n)
    return dict(d2mutau=d2, NsVbi=nsvbi)


def breakdown(rng, n, p):
    ns = np.maximum(p['nNsVth'] / .03, 1)
    return dict(breakdown_factor=10 ** rng.uniform(-4, -1, n), breakdown_voltage=-rng.uniform(4, 25, n) * ns,
                breakdown_exp=rng.uniform(2, 4.5, n))


def cur(vd, IL, I0, Rs, Rsh, a, d2=0., vbi=np.inf, bf=0., bv=-5.5, be=3.28):
    """terminal current at diode voltage vd: the documented equation"""
    vd = np.asarray(vd, float)
    i = IL - I0 * np.expm1(vd / a) - vd / Rsh
    with np.errstate(all='ignore'):
        i = i - np.where(np.asarray(d2) > 0, IL * d2 / (vbi - vd), 0.)
        i = i - np.where(np.asarray(bf) != 0, bf * vd / Rsh * (1 - vd / bv) ** (-np.asarray(be, float)), 0.)
    return i


def pack(p, **x):
    q = dict(d2mutau=0., NsVbi=np.inf, breakdown_factor=0., breakdown_voltage=-5.5, breakdown_exp=3.28)
    q.update(p)
    q.update(x)
    k = ['photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth', 'd2mutau', 'NsVbi',
         'breakdown_factor', 'breakdown_voltage', 'breakdown_exp']
    return tuple(np.asarray(q[i], float) for i in k)


def bisect(f, lo, hi, it=200):
    """root of a decreasing function, elementwise"""
    lo, hi = np.array(lo, float), np.array(hi, float)
    for _ in range(it):
        mid = (lo + hi) / 2
        up = f(mid) > 0
        lo = np.where(up, mid, lo)
        hi = np.where(up, hi, mid)
    return (lo + hi) / 2


def _bounds(P, v=0.):
    IL, I0, Rs, Rsh, a, d2, vbi, bf, bv, be = P
    top = a * (np.log1p(np.maximum(IL, 1e-30) / I0) + 60) + np.abs(v)
    top = np.where(d2 > 0, np.minimum(top, vbi * (1 - 1e-15)), top)
    bot = np.where(bf != 0, np.maximum(bv * (1 - 1e-12), -1e9), -np.abs(v) - a * 100 - 1e3)
    return np.broadcast_arrays(bot, top)


def true_i(v, P):
    """current at terminal voltage v"""
    Rs = P[2]
    lo, hi = _bounds(P, v)
    vd = bisect(lambda x: v - (x - np.where(Rs > 0, cur(x, *P) * Rs, 0)), np.minimum(lo, v), hi)
    vd = np.where(Rs > 0, vd, v)
    return cur(vd, *P), vd


def true_v(i, P):
    """terminal voltage at current i"""
    lo, hi = _bounds(P)
    vd = bisect(lambda x: cur(x, *P) - i, lo, hi)
    return vd - i * P[2], vd


def slope(vd, P, h=1e-6):
    """|di/dv| at diode voltage vd"""
    a = P[4]
    d = h * a
    di = (cur(vd + d, *P) - cur(vd - d, *P)) / (2 * d)
    return np.abs(di / (1 - di * P[2]))


def true_mpp(P):
    """max power by golden section on diode voltage in [0, voc_d] after a grid"""
    _, hi = true_v(0., P)
    lo = np.zeros_like(hi)

    def pw(x):
        i = cur(x, *P)
        return i * (x - i * P[2])
    x = np.linspace(0, 1, 201)[:, None] * hi
    k = np.argmax(pw(x), axis=0)
    j = np.arange(x.shape[1])
    lo, up = x[np.maximum(k - 1, 0), j], x[np.minimum(k + 1, 200), j]
    g = (np.sqrt(5) - 1) / 2
    for _ in range(120):
        c, d = up - g * (up - lo), lo + g * (up - lo)
        m = pw(c) > pw(d)
        up = np.where(m, d, up)
        lo = np.where(m, lo, c)
    x = (lo + up) / 2
    i = cur(x, *P)
    return i, x - i * P[2], i * (x - i * P[2])


# ------------------------------------------------------------------ catalogue
def _ref_i(voltage, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, method='', **x):
    P = pack(dict(photocurrent=[photocurrent], saturation_current=[saturation_current], resistance_series=[resistance_series],
                  resistance_shunt=[resistance_shunt], nNsVth=[nNsVth]), **{k: v for k, v in x.items() if k != 'method_kwargs'})
    return true_i(np.array([voltage]), P)[0][0]


def _ref_v(current, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, method='', **x):
    P = pack(dict(photocurrent=[photocurrent], saturation_current=[saturation_current], resistance_series=[resistance_series],
                  resistance_shunt=[resistance_shunt], nNsVth=[nNsVth]), **{k: v for k, v in x.items() if k != 'method_kwargs'})
    return true_v(np.array([current]), P)[0][0]


def _gen_i(rng, n, lit=False):
    p = params(rng, n, dark=0. if lit else .08)
    voc, _ = true_v(0., pack(p))
    p['voltage'] = np.where(voc > 1e-9, voc * gen.mix(rng, n, 0, .999, [0., .5, .8]), 0.)
    return p


def _gen_v(rng, n, lit=False):
    p = params(rng, n, dark=0. if lit else .08)
    isc, _ = true_i(np.zeros(n), pack(p))
    p['current'] = np.where(p['photocurrent'] > 0, isc * gen.mix(rng, n, 0, .999, [0., .5, .9]), 0.)
    return p


def _methods(ms):
    return lambda rng: dict(method=str(rng.choice(ms)))


def _ref_b88(diode_voltage, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, d2mutau=0., NsVbi=np.inf,
             breakdown_factor=0., breakdown_voltage=-5.5, breakdown_exp=3.28, gradients=False):
    i = float(cur(diode_voltage, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, d2mutau, NsVbi,
                  breakdown_factor, breakdown_voltage, breakdown_exp))
    v = diode_voltage - i * resistance_series
    return {0: i, 1: v, 2: i * v}


def _gen_b88(rng, n):
    p = params(rng, n)
    p.update(recomb(rng, n, p))
    p['d2mutau'][rng.random(n) < .3] = 0.
    p.update(breakdown(rng, n, p))
    p['breakdown_factor'][rng.random(n) < .3] = 0.
    voc, vd = true_v(0., pack(p))
    p['diode_voltage'] = np.where(rng.random(n) < .7, vd * rng.uniform(0, 1.01, n), p['breakdown_voltage'] * rng.uniform(0, .9, n))
    return p


def _entries():
    from mon.engine import Entry
    F = ('array', 'series', 'scalar')
    return [
        Entry('pvsystem.i_from_v', _gen_i, _ref_i, _methods(['lambertw', 'brentq', 'newton', 'chandrupatla', 'LambertW']), F, 1e-6, 1e-9,
              check_index=False, tag='all', nan=None, const_ok=False),
        Entry('pvsystem.v_from_i', _gen_v, _ref_v, _methods(['lambertw', 'brentq', 'newton', 'chandrupatla', 'Newton']), F, 1e-6, 1e-8,
              check_index=False, tag='all', nan=None, const_ok=False),
        Entry('pvsystem.i_from_v', lambda r, n: _gen_i(r, n, True), _ref_i, lambda rng: {}, F, 1e-7, 1e-10, check_index=False, two_d=True, tag='default'),
        Entry('pvsystem.v_from_i', lambda r, n: _gen_v(r, n, True), _ref_v, lambda rng: {}, F, 1e-7, 1e-9, check_index=False, two_d=True, tag='default'),
        Entry('singlediode.bishop88', _gen_b88, _ref_b88, lambda rng: dict(gradients=bool(rng.random() < .5)), ('array', 'scalar'), 1e-9, 1e-13,
              check_index=False, out=lambda r: tuple(r[:3]), nan_skip=('resistance_series', 'd2mutau', 'NsVbi', 'breakdown_factor', 'breakdown_voltage', 'breakdown_exp')),
        Entry('singlediode.estimate_voc', lambda r, n: {k: v for k, v in params(r, n).items() if k in ('photocurrent', 'saturation_current', 'nNsVth')},
              lambda photocurrent, saturation_current, nNsVth: nNsVth * np.log(photocurrent / saturation_current + 1),
              lambda rng: {}, ('array', 'scalar'), 1e-10, 1e-12),
    ]


DIODE = _entries()
