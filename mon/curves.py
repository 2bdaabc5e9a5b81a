"""Single-diode curves from the defining equation alone (parametrised by the diode voltage)."""
import math

import numpy as np
from scipy.optimize import brentq, minimize_scalar

K, Q = 1.380649e-23, 1.602176634e-19


def current(vd, p):
    IL, I0, Rs, Rsh, a = p
    return IL - I0 * np.expm1(np.asarray(vd, float) / a) - np.asarray(vd, float) / Rsh


def voltage(vd, p):
    return np.asarray(vd, float) - current(vd, p) * p[2]


def vd_oc(p):
    hi = p[4] * math.log1p(p[0] / p[1]) * (1 + 1e-12) + 1e-9
    return brentq(lambda x: float(current(x, p)), 0., hi, xtol=1e-13, rtol=8.9e-16)


def vd_sc(p):
    return brentq(lambda x: float(voltage(x, p)), 0., p[0] * p[2] + 1e-12, xtol=1e-14, rtol=8.9e-16)


def vd_mp(p):
    IL, I0, Rs, Rsh, a = p

    def dp(x):
        i = float(current(x, p))
        di = -I0 / a * math.exp(x / a) - 1 / Rsh
        return i * (1 - di * Rs) + (x - i * Rs) * di
    return brentq(dp, vd_sc(p), vd_oc(p), xtol=1e-13, rtol=8.9e-16)


def points(p):
    """v_oc, i_sc, v_mp, i_mp."""
    o, s, m = vd_oc(p), vd_sc(p), vd_mp(p)
    return o, float(current(s, p)), float(voltage(m, p)), float(current(m, p))


def curve(p, n, how='vd', rng=None):
    """n points from short circuit to open circuit, both included."""
    s, o = vd_sc(p), vd_oc(p)
    if how == 'vd':
        x = np.linspace(s, o, n)
    elif how == 'random':
        x = np.sort(np.concatenate([[s, o], rng.uniform(s, o, n - 2)]))
    else:                      # uniform in voltage
        vs = np.linspace(0., o, n)
        x = np.array([s] + [brentq(lambda d: float(voltage(d, p)) - v, s, o, xtol=1e-14, rtol=8.9e-16) for v in vs[1:-1]] + [o])
    v, i = voltage(x, p), current(x, p)
    v[0], i[-1], v[-1] = 0., 0., o
    return v, i


def i_at(v, p):
    s, o = vd_sc(p), vd_oc(p)
    return np.array([float(current(brentq(lambda d: float(voltage(d, p)) - u, min(s, u) - 1e-6, o + abs(u), xtol=1e-14, rtol=8.9e-16), p)) for u in np.atleast_1d(v)])


def module(rng):
    """A plausible crystalline module at reference conditions: parameters and cells in series."""
    ns = int(rng.choice([36, 48, 60, 72, 96, 144]))
    n = rng.uniform(.95, 1.35)
    a = n * ns * K * 298.15 / Q
    isc = rng.uniform(3, 12)
    vcell = rng.uniform(.56, .70)
    I0 = isc * math.exp(-vcell * ns / a)
    Rs = rng.uniform(.001, .009) * ns * 8 / isc * .7
    Rsh = rng.uniform(40, 1500) * ns / 60
    return (isc * (1 + Rs / Rsh), I0, Rs, Rsh, a), ns, n


def desoto(p, g, t, alpha, eg=1.121, degdt=-.0002677, g0=1000., t0=25.):
    IL, I0, Rs, Rsh, a = p
    T, T0 = t + 273.15, t0 + 273.15
    kev = K / Q
    e = eg * (1 + degdt * (T - T0))
    return (g / g0 * (IL + alpha * (T - T0)), I0 * (T / T0) ** 3 * math.exp(eg / (kev * T0) - e / (kev * T)), Rs, Rsh * g0 / g, a * T / T0)


def pvsyst(q, g, t):
    """q: dict with the names of calcparams_pvsyst."""
    T, T0 = t + 273.15, q.get('temp_ref', 25.) + 273.15
    g0 = q.get('irrad_ref', 1000.)
    gamma = q['gamma_ref'] + q['mu_gamma'] * (T - T0)
    a = gamma * K * T / Q * q['cells_in_series']
    IL = g / g0 * (q['I_L_ref'] + q['alpha_sc'] * (T - T0))
    I0 = q['I_o_ref'] * (T / T0) ** 3 * math.exp(Q * q['EgRef'] / (K * gamma) * (1 / T0 - 1 / T))
    ex = q['R_sh_exp']
    base = max((q['R_sh_ref'] - q['R_sh_0'] * math.exp(-ex)) / (1 - math.exp(-ex)), 0.)
    return (IL, I0, q['R_s'], base + (q['R_sh_0'] - base) * math.exp(-ex * g / g0), a)
