"""Catalogue: module, inverter, transformer and cell temperature models with scalar reference equations."""
import math

import numpy as np

import pvlib
from mon import gen
from mon.engine import Entry
from mon.refs import NAN, isn

KB, QE = 1.380649e-23, 1.602176634e-19
KEV = KB / QE
SIG = 5.670374419e-8
ALL = ('array', 'series', 'scalar')


def nan_of(*a):
    return any(isn(x) for x in a)


# ------------------------------------------------------------ weather-like inputs
def eff(rng, n, hi=1400.):
    return gen.mix(rng, n, 0, hi, [0., 1e-3, 1., 100., 200., 999.9, 1000., 1000.1])


def tcell(rng, n):
    return gen.mix(rng, n, -40, 95, [25., 0., 20.])


def wind(rng, n):
    return gen.mix(rng, n, 0, 20, [0., 1., 5.])


def tair(rng, n):
    return gen.mix(rng, n, -40, 50, [0., 20., 25.])


# ------------------------------------------------------------ module models
def desoto(effective_irradiance, temp_cell, alpha_sc, a_ref, I_L_ref, I_o_ref, R_sh_ref, R_s, EgRef=1.121, dEgdT=-0.0002677,
           irrad_ref=1000, temp_ref=25):
    t, r = temp_cell + 273.15, temp_ref + 273.15
    eg = EgRef * (1 + dEgdT * (t - r))
    il = effective_irradiance / irrad_ref * (I_L_ref + alpha_sc * (t - r))
    i0 = NAN if nan_of(t) else I_o_ref * (t / r) ** 3 * math.exp(EgRef / (KEV * r) - eg / (KEV * t))
    rsh = math.inf if effective_irradiance == 0 else R_sh_ref * irrad_ref / effective_irradiance
    return (il, i0, R_s, rsh, a_ref * t / r)


def cec(effective_irradiance, temp_cell, alpha_sc, Adjust, **k):
    return desoto(effective_irradiance, temp_cell, alpha_sc * (1 - Adjust / 100), **k)


def pvsyst(effective_irradiance, temp_cell, alpha_sc, gamma_ref, mu_gamma, I_L_ref, I_o_ref, R_sh_ref, R_sh_0, R_s, cells_in_series,
           R_sh_exp=5.5, EgRef=1.121, irrad_ref=1000, temp_ref=25):
    t, r = temp_cell + 273.15, temp_ref + 273.15
    g = gamma_ref + mu_gamma * (temp_cell - temp_ref)
    il = effective_irradiance / irrad_ref * (I_L_ref + alpha_sc * (t - r))
    i0 = NAN if nan_of(t) else I_o_ref * (t / r) ** 3 * math.exp(QE * EgRef / (KB * g) * (1 / r - 1 / t))
    base = max(0., (R_sh_ref - R_sh_0 * math.exp(-R_sh_exp)) / (1 - math.exp(-R_sh_exp)))
    rsh = NAN if nan_of(effective_irradiance) else base + (R_sh_0 - base) * math.exp(-R_sh_exp * effective_irradiance / irrad_ref)
    return (il, i0, R_s, rsh, g * KB / QE * cells_in_series * t)


def sdm_opts(kind):
    def f(rng):
        d = dict(alpha_sc=float(rng.uniform(-.001, .01)), I_L_ref=float(rng.uniform(1, 12)), I_o_ref=float(10 ** rng.uniform(-13, -7)),
                 R_sh_ref=float(10 ** rng.uniform(1.5, 4)), R_s=float(rng.choice([0., rng.uniform(.01, 2)])))
        if kind == 'pvsyst':
            d.update(gamma_ref=float(rng.uniform(.9, 1.6)), mu_gamma=float(rng.uniform(-.002, .002)), cells_in_series=int(rng.integers(30, 140)),
                     R_sh_0=float(d['R_sh_ref'] * rng.choice([1., 3., 20., 400.])))
            if rng.random() < .4:
                d['R_sh_exp'] = float(rng.uniform(2, 8))
            if rng.random() < .4:
                d['EgRef'] = float(rng.uniform(1, 1.7))
        else:
            d.update(a_ref=float(rng.uniform(.8, 4)))
            if kind == 'cec':
                d['Adjust'] = float(rng.uniform(-30, 30))
            if rng.random() < .4:
                d.update(EgRef=float(rng.uniform(1, 1.7)), dEgdT=float(rng.uniform(-.0004, 0)))
        if rng.random() < .4:
            d.update(irrad_ref=float(rng.choice([800., 500., 1000.])), temp_ref=float(rng.choice([20., 45., 25.])))
        return d
    return f


def _mods():
    if not hasattr(_mods, 'v'):
        _mods.v = pvlib.pvsystem.retrieve_sam('sandiamod')
    return _mods.v


def sapm_opts(rng):
    m = _mods()
    d = dict(m.iloc[:, int(rng.integers(0, m.shape[1]))])
    if rng.random() < .2:
        for k in ('IXO', 'IXXO'):
            d.pop(k)
    d = {k: (float(v) if isinstance(v, (int, float, np.floating, np.integer)) else v) for k, v in d.items()}
    o = dict(module=d)
    if rng.random() < .3:
        o.update(temperature_ref=float(rng.choice([20., 25., 50.])), irradiance_ref=float(rng.choice([800., 1000.])))
    return o


def sapm(effective_irradiance, temp_cell, module, temperature_ref=25, irradiance_ref=1000):
    M = module
    e = effective_irradiance / irradiance_ref
    d = M['N'] * KB * (temp_cell + 273.15) / QE
    ns, dt = M['Cells_in_Series'], temp_cell - temperature_ref
    o = dict(i_sc=M['Isco'] * e * (1 + M['Aisc'] * dt), i_mp=M['Impo'] * (M['C0'] * e + M['C1'] * e * e) * (1 + M['Aimp'] * dt))
    if 'IXO' in M:
        o['i_x'] = M['IXO'] * (M['C4'] * e + M['C5'] * e * e) * (1 + M['Aisc'] * dt)
    if 'IXXO' in M:
        o['i_xx'] = M['IXXO'] * (M['C6'] * e + M['C7'] * e * e) * (1 + M['Aimp'] * dt)
    if nan_of(e, d):
        o.update(v_oc=NAN, v_mp=NAN, p_mp=NAN)
        return o
    if e == 0:
        # the logarithm's limit: voltages vanish (for modules whose quadratic coefficient is positive the equation has none)
        o.update(v_oc=0., v_mp=0. if M['C3'] < 0 else NAN)
    else:
        L = math.log(e)
        bv = M['Bvoco'] + M['Mbvoc'] * (1 - e)
        bm = M['Bvmpo'] + M['Mbvmp'] * (1 - e)
        o['v_oc'] = max(0., M['Voco'] + ns * d * L + bv * dt)
        o['v_mp'] = max(0., M['Vmpo'] + M['C2'] * ns * d * L + M['C3'] * ns * (d * L) ** 2 + bm * dt)
    o['p_mp'] = o['i_mp'] * o['v_mp']
    return o


def pvwatts_dc(effective_irradiance, temp_cell, pdc0, gamma_pdc, temp_ref=25., k=None, cap_adjustment=False):
    e = effective_irradiance
    p = e / 1000 * pdc0 * (1 + gamma_pdc * (temp_cell - temp_ref))
    if nan_of(p):
        return NAN
    if k is not None:
        if e <= 200:
            err = k * (1 - (1 - e / 200) ** 4)
        else:
            err = k * (1000 - e) / 800
            if cap_adjustment and e >= 1000:
                err = 0.
        p = max(0., p - pdc0 * err)
    return p


def pvwatts_opts(rng):
    o = dict(pdc0=float(rng.choice([100., 250., 5000.])), gamma_pdc=float(rng.uniform(-.006, -.001)))
    if rng.random() < .3:
        o['temp_ref'] = 20.
    if rng.random() < .5:
        o['k'] = float(rng.choice([.005, .02, -.01, 0.]))
        if rng.random() < .5:
            o['cap_adjustment'] = True
    return o


def adr_eff(effective_irradiance, temp_cell, k_a, k_d, tc_d, k_rs, k_rsh):
    if nan_of(effective_irradiance, temp_cell):
        return NAN
    s, dt = effective_irradiance / 1000, temp_cell - 25
    so, sr = 10 ** (k_d + dt * tc_d), 10 ** k_d
    v = math.log(s / so + 1) / math.log(1 / sr + 1)
    return k_a * ((1 + k_rs + k_rsh) * v - k_rs * s - k_rsh * v * v)


HULD = {'pvgis5': {'csi': (-0.017237, -0.040465, -0.004702, 0.000149, 0.000170, 0.000005),
                   'cis': (-0.005554, -0.038724, -0.003723, -0.000905, -0.001256, 0.000001),
                   'cdte': (-0.046689, -0.072844, -0.002262, 0.000276, 0.000159, -0.000006)},
        'pvgis6': {'csi': (-0.0067560, -0.016444, -0.003015, -0.000045, -0.000043, 0.0),
                   'cis': (-0.011001, -0.029734, -0.002887, 0.000217, -0.000163, 0.0),
                   'cdte': (-0.020644, -0.035136, -0.003406, 0.000073, -0.000141, 0.000002)}}


def huld(effective_irradiance, temp_mod, pdc0, k=None, cell_type=None, k_version='pvgis5'):
    if nan_of(effective_irradiance, temp_mod):
        return NAN
    if k is None:
        k = [pdc0 * x for x in HULD[k_version.lower()][cell_type.lower()]]
    g, t = effective_irradiance / 1000, temp_mod - 25
    L = math.log(g) if g > 0 else 0.
    return g * (pdc0 + k[0] * L + k[1] * L * L + k[2] * t + k[3] * t * L + k[4] * t * L * L + k[5] * t * t)


def huld_opts(rng):
    o = dict(pdc0=float(rng.uniform(50, 500)))
    if rng.random() < .3:
        o['k'] = [float(x) for x in rng.normal(0, .01, 6)]
        if rng.random() < .5:
            o['k'] = tuple(o['k'])
    else:
        o['cell_type'] = str(rng.choice(['csi', 'cSi', 'cis', 'CIS', 'cdte', 'CdTe']))
        if rng.random() < .6:
            o['k_version'] = str(rng.choice(['pvgis5', 'pvgis6', 'PVGIS6']))
    return o


def lambertw(x):
    w = math.log(x) - math.log(math.log(x)) if x > 3 else .5
    for _ in range(60):
        e = math.exp(w)
        w -= (w * e - x) / (e * (w + 1) - (w + 2) * (w * e - x) / (2 * w + 2))
    return w


def batz_module(effective_irradiance, temp_cell, v_mp, i_mp, v_oc, i_sc, alpha_sc, beta_voc):
    if nan_of(effective_irradiance, temp_cell):
        return None
    al, be, t0 = alpha_sc / i_sc, beta_voc / v_oc, 298.15
    d0 = (1 - be * t0) / (50.1 - al * t0)
    w0 = lambertw(math.exp(1 / d0 + 1))
    aim = al + (be - 1 / t0) / (w0 - 1)
    bvm = v_oc / v_mp * (be / (1 + d0) + (d0 * (w0 - 1) - 1 / (1 + d0)) / t0)
    e0, e1 = d0 / (1 + d0) * v_oc / v_mp, d0 * (w0 - 1) * v_oc / v_mp - 1
    g, dT, lam = effective_irradiance / 1000, temp_cell - 25, (temp_cell + 273.15) / t0
    isc, imp = g * i_sc * (1 + al * dT), g * i_mp * (1 + aim * dT)
    if g == 0:
        return dict(i_sc=0., i_mp=0., v_oc=0., v_mp=0., p_mp=0.)
    L = math.log(g)
    voc = max(0., v_oc * (1 + d0 * lam * L + be * dT))
    vmp = max(0., v_mp * (1 + e0 * lam * L + e1 * (1 - g) + bvm * dT))
    return dict(i_sc=isc, i_mp=imp, v_oc=voc, v_mp=vmp, p_mp=imp * vmp)


def batz_opts(rng):
    voc, isc = float(rng.uniform(20, 60)), float(rng.uniform(4, 12))
    return dict(v_mp=voc * float(rng.uniform(.78, .85)), i_mp=isc * float(rng.uniform(.92, .96)), v_oc=voc, i_sc=isc,
                alpha_sc=isc * float(rng.uniform(.0003, .0007)), beta_voc=-voc * float(rng.uniform(.0024, .0035)))


def batz_sd(photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth):
    if nan_of(photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth):
        return None
    if photocurrent == 0:
        return dict(i_sc=0., i_mp=0., v_oc=0., v_mp=0., p_mp=0.)
    isc = photocurrent / (resistance_series / resistance_shunt + 1)
    voc = nNsVth * math.log(photocurrent / saturation_current)
    w = lambertw(math.e * photocurrent / saturation_current)
    imp = photocurrent * (1 - 1 / w) - nNsVth * (w - 1) / resistance_shunt
    vmp = nNsVth * (w - 1) - resistance_series * imp
    return dict(i_sc=isc, i_mp=imp, v_oc=voc, v_mp=vmp, p_mp=imp * vmp)


def _gen_batz(rng, n):
    from mon import cat_diode
    return cat_diode.params(rng, n)


def losses(**k):
    d = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2, connections=0.5, lid=1.5, nameplate_rating=1, age=0, availability=3)
    d.update(k)
    p = 1.
    for x in d.values():
        p *= 1 - x / 100
    return 100 * (1 - p)


def _gen_losses(rng, n):
    ks = ['soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability']
    ks = [str(k) for k in rng.permutation(ks)[:int(rng.integers(1, 7))]]
    return {k: gen.mix(rng, n, 0, 40, [0., 100.]) for k in ks}


def sapm_eff(poa_direct, poa_diffuse, airmass_absolute, aoi, module):
    from mon import cat_iam
    A = [module[f'A{i}'] for i in range(5)]
    f1 = 0. if isn(airmass_absolute) else max(0., sum(a * airmass_absolute ** i for i, a in enumerate(A)))
    f2 = cat_iam.sapm(aoi, module) if hasattr(cat_iam, 'sapm') else pvlib.iam.sapm(aoi, module)
    return f1 * (poa_direct * f2 + module['FD'] * poa_diffuse)


def _two(rng, n):
    return dict(effective_irradiance=eff(rng, n), temp_cell=tcell(rng, n))


MODULE = [
    Entry('pvsystem.calcparams_desoto', _two, desoto, sdm_opts('desoto'), ALL, 1e-6, 1e-20, nan_keys=(0,)),
    Entry('pvsystem.calcparams_cec', _two, cec, sdm_opts('cec'), ALL, 1e-6, 1e-20, nan_keys=(0,)),
    Entry('pvsystem.calcparams_pvsyst', _two, pvsyst, sdm_opts('pvsyst'), ALL, 1e-6, 1e-20, nan_keys=(0,)),
    Entry('pvsystem.sapm', _two, sapm, sapm_opts, ALL, 1e-6, 1e-8, nan_keys=('p_mp',), const_ok=False, weight=3),
    Entry('pvsystem.sapm_effective_irradiance', lambda r, n: dict(poa_direct=gen.irr(r, n), poa_diffuse=gen.irr(r, n, 400), airmass_absolute=gen.mix(r, n, .6, 12, [1., 1.5]),
                                                                  aoi=gen.mix(r, n, 0, 120, [0., 45., 90.])),
          sapm_eff, lambda r: dict(module=sapm_opts(r)['module']), ALL, 1e-7, 1e-7, nan_skip=('airmass_absolute', 'aoi')),
    Entry('pvsystem.pvwatts_dc', _two, pvwatts_dc, pvwatts_opts, ALL, 1e-9, 1e-9, nan=None, weight=2, const_ok=False),
    Entry('pvsystem.pvwatts_losses', _gen_losses, losses, lambda r: {}, ALL, 1e-9, 1e-9, weight=2),
    Entry('pvarray.pvefficiency_adr', _two, adr_eff, lambda r: dict(k_a=float(r.uniform(50, 120)), k_d=float(r.uniform(-9, -2)), tc_d=float(r.uniform(-.02, .04)),
                                                                    k_rs=float(r.uniform(0, .2)), k_rsh=float(r.uniform(0, .3))), ALL, 1e-8, 1e-9),
    Entry('pvarray.huld', lambda r, n: dict(effective_irradiance=eff(r, n), temp_mod=tcell(r, n)), huld, huld_opts, ALL, 1e-8, 1e-9, const_ok=False, weight=2),
    Entry('pvarray.batzelis', _two, batz_module, batz_opts, ALL, 1e-6, 1e-8, nan_keys=('p_mp',), const_ok=False),
    Entry('singlediode.batzelis', _gen_batz, batz_sd, lambda r: {}, ALL, 1e-6, 1e-9, nan='local'),
    Entry('pvsystem.dc_ohms_from_percent', lambda r, n: dict(vmp_ref=r.uniform(20, 60, n), imp_ref=r.uniform(3, 12, n), dc_ohmic_percent=r.uniform(0, 5, n)),
          lambda vmp_ref, imp_ref, dc_ohmic_percent, modules_per_string=1, strings=1: dc_ohmic_percent / 100 * (vmp_ref * modules_per_string) / (imp_ref * strings),
          lambda r: dict(modules_per_string=int(r.integers(1, 20)), strings=int(r.choice([1, 2, 5, 9, 24, 300]))) if r.random() < .7 else {}, ALL, 1e-10, 1e-12),
    Entry('pvsystem.dc_ohmic_losses', lambda r, n: dict(resistance=r.uniform(0, 3, n), current=gen.mix(r, n, 0, 80, [0.])),
          lambda resistance, current: resistance * current ** 2, lambda r: {}, ALL, 1e-10, 1e-12),
]


# ------------------------------------------------------------ inverters
def _invs(kind):
    k = '_' + kind
    if not hasattr(_invs, k):
        setattr(_invs, k, pvlib.pvsystem.retrieve_sam(kind))
    return getattr(_invs, k)


def rand_sandia(rng):
    if rng.random() < .6:
        t = _invs('cecinverter')
        c = t.iloc[:, int(rng.integers(0, t.shape[1]))]
        return {k: float(c[k]) for k in ('Paco', 'Pdco', 'Vdco', 'Pso', 'C0', 'C1', 'C2', 'C3', 'Pnt')}
    pac = float(10 ** rng.uniform(2.3, 6))
    return dict(Paco=pac, Pdco=pac * float(rng.uniform(1.01, 1.1)), Vdco=float(rng.uniform(30, 800)), Pso=pac * float(rng.uniform(0, .01)),
                C0=float(rng.uniform(-1, .1)) * 1e-2 / pac, C1=float(rng.uniform(-1e-4, 1e-4)), C2=float(rng.uniform(-5e-3, 5e-3)),
                C3=float(rng.uniform(-5e-3, 5e-3)), Pnt=pac * float(rng.uniform(0, .001)))


def sandia_raw(v, p, inv):
    dv = v - inv['Vdco']
    A, B, C = inv['Pdco'] * (1 + inv['C1'] * dv), inv['Pso'] * (1 + inv['C2'] * dv), inv['C0'] * (1 + inv['C3'] * dv)
    return (inv['Paco'] / (A - B) - C * (A - B)) * (p - B) + C * (p - B) ** 2


def sandia(v_dc, p_dc, inverter):
    if isn(p_dc):
        return NAN
    if p_dc < inverter['Pso']:
        return -abs(inverter['Pnt'])
    if isn(v_dc):
        return NAN
    return min(inverter['Paco'], sandia_raw(v_dc, p_dc, inverter))


def _gen_inv(inv, rng, n, pk='Pdco', vk='Vdco', so=True):
    P, V = inv[pk], inv[vk]
    return dict(v_dc=V * gen.mix(rng, n, .55, 1.4, [1.]), p_dc=gen.mix(rng, n, 0, 1.35 * P, [0., P, inv['Pso'] if so else 1., .5 * P]))


def sandia_entry():
    # the generated operating points need the inverter: draw it first
    st = {}

    def g(rng, n):
        st['inv'] = rand_sandia(rng)
        return _gen_inv(st['inv'], rng, n)
    return Entry('inverter.sandia', g, sandia, lambda rng: dict(inverter=dict(st['inv'])), ALL, 1e-9, 1e-9, nan_skip=('v_dc',), weight=6)


def rand_adr(rng):
    t = _invs('adrinverter')
    while True:
        c = t.iloc[:, int(rng.integers(0, t.shape[1]))]
        d = {k: float(c[k]) for k in ('Pnom', 'Vnom', 'Pacmax', 'Pnt', 'Vmax', 'Vmin', 'Vdcmax', 'MPPTHi', 'MPPTLow')}
        d['ADRCoefficients'] = list(c['ADRCoefficients'])
        if not math.isnan(d['Vnom']) and d['Vnom'] > 0:
            # data sheets often leave some of the limits out
            for group in (['Vmax', 'Vdcmax', 'MPPTHi'], ['Vmin', 'MPPTLow']):
                known = [k for k in group if not math.isnan(d[k])]
                if len(known) > 1 and rng.random() < .3:
                    d[known[int(rng.integers(0, len(known)))]] = NAN
            return d


def adr(v_dc, p_dc, inverter, vtol=.10):
    I = inverter
    hi = max(x for x in (I['Vmax'], I['Vdcmax'], I['MPPTHi']) if not isn(x)) * (1 + vtol)
    lo = max(x for x in (I['Vmin'], I['MPPTLow']) if not isn(x)) * (1 - vtol)
    if abs(v_dc - hi) < 1e-9 * hi or abs(v_dc - lo) < 1e-9 * lo:
        return None
    if v_dc == 0:
        return min(-abs(I['Pnt']), I['Pacmax'])
    if nan_of(v_dc, p_dc) or v_dc > hi or v_dc < lo:
        return NAN
    p, v = p_dc / I['Pnom'], v_dc / I['Vnom']
    c = I['ADRCoefficients']
    loss = sum(c[i + 3 * j] * p ** i * (1., v - 1, 1 / v - 1)[j] for i in range(3) for j in range(3))
    return min(max(I['Pnom'] * (p - loss), -abs(I['Pnt'])), I['Pacmax'])


def adr_entry():
    st = {}

    def g(rng, n):
        st['inv'] = i = rand_adr(rng)
        d = _gen_inv(i, rng, n, 'Pnom', 'Vnom', so=False)
        hi = np.nanmax([i['Vmax'], i['Vdcmax'], i['MPPTHi']])
        d['v_dc'] = np.where(rng.random(n) < .25, rng.choice([0., hi * 1.05, hi * 1.2, 1.]), d['v_dc'])
        return d

    def o(rng):
        k = dict(inverter=dict(st['inv']))
        if rng.random() < .3:
            k['vtol'] = float(rng.choice([0., .05, .3]))
        return k
    return Entry("inverter.adr", g, adr, o, ALL, 1e-8, 1e-8, nan_skip=("v_dc", "p_dc"), weight=6, const_ok=False)


def pvwatts_inv(pdc, pdc0, eta_inv_nom=.96, eta_inv_ref=.9637):
    if isn(pdc):
        return NAN
    if pdc == 0:
        return 0.
    z = pdc / pdc0
    eta = eta_inv_nom / eta_inv_ref * (-.0162 * z - .0059 / z + .9858)
    return max(0., min(eta * pdc, eta_inv_nom * pdc0))


def transformer(input_power, no_load_loss, load_loss, transformer_rating):
    """solve the loss equation for the output by bisection"""
    if nan_of(input_power, no_load_loss, load_loss):
        return NAN
    p, lo, hi = input_power / transformer_rating, -1., 3.
    f = lambda x: x + no_load_loss + load_loss * x * x - p  # noqa: E731
    for _ in range(200):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    return lo * transformer_rating


def _pvw_opts(rng):
    o = dict(pdc0=float(rng.choice([100., 4800., 1e6])))
    if rng.random() < .5:
        o.update(eta_inv_nom=float(rng.uniform(.9, .99)))
    if rng.random() < .3:
        o.update(eta_inv_ref=float(rng.uniform(.9, .99)))
    return o


def pvw_entry():
    st = {}

    def g(rng, n):
        st['o'] = _pvw_opts(rng)
        P = st['o']['pdc0']
        return dict(pdc=gen.mix(rng, n, 0, 1.4 * P, [0., P, 1e-6 * P, .004 * P, .006 * P, .01 * P]))
    return Entry('inverter.pvwatts', g, pvwatts_inv, lambda rng: dict(st['o']), ALL, 1e-9, 1e-9, int_ok=True, two_d=True, weight=4)


INVERTER = [
    sandia_entry(), adr_entry(), pvw_entry(),
    Entry('transformer.simple_efficiency', lambda r, n: dict(input_power=gen.mix(r, n, 0, 1.3e5, [0., 1e5]), no_load_loss=gen.mix(r, n, 0, .01, [0.]),
                                                             load_loss=gen.mix(r, n, 0, .05, [0.])), transformer,
          lambda r: dict(transformer_rating=float(r.choice([1e5, 1.2e5]))), ALL, 1e-9, 1e-6, two_d=True, weight=2),
]


# ------------------------------------------------------------ temperature
def t_sapm_module(poa_global, temp_air, wind_speed, a, b):
    if nan_of(wind_speed):
        return NAN
    return poa_global * math.exp(a + b * wind_speed) + temp_air


def t_sapm_cell(poa_global, temp_air, wind_speed, a, b, deltaT, irrad_ref=1000.):
    return t_sapm_module(poa_global, temp_air, wind_speed, a, b) + poa_global / irrad_ref * deltaT


def t_pvsyst(poa_global, temp_air, wind_speed=1., u_c=29., u_v=0., module_efficiency=.1, alpha_absorption=.9):
    return temp_air + poa_global * alpha_absorption * (1 - module_efficiency) / (u_c + u_v * wind_speed)


def t_faiman(poa_global, temp_air, wind_speed=1., u0=25., u1=6.84):
    return temp_air + poa_global / (u0 + u1 * wind_speed)


def t_faiman_rad(poa_global, temp_air, wind_speed=1., ir_down=None, u0=25., u1=6.84, sky_view=1., emissivity=.88):
    q = 0. if ir_down is None else emissivity * sky_view * (SIG * (temp_air + 273.15) ** 4 - ir_down)
    return temp_air + (poa_global - q) / (u0 + u1 * wind_speed)


def t_ross(poa_global, temp_air, noct=None, k=None):
    if k is None:
        k = (noct - 20) / 800        # noct model: per W/m2
    return temp_air + k * poa_global


def t_noct(poa_global, temp_air, wind_speed, noct, module_efficiency, effective_irradiance=None, transmittance_absorptance=.9,
           array_height=1, mount_standoff=4):
    if nan_of(poa_global, temp_air, wind_speed) or (effective_irradiance is not None and isn(effective_irradiance)):
        return NAN
    s = mount_standoff
    adj = 0 if s <= 0 else 18 if s < .5 else 11 if s < 1.5 else 6 if s < 2.5 else 2 if s <= 3.5 else 0
    if poa_global == 0:
        return temp_air
    r = 1. if effective_irradiance is None else effective_irradiance / poa_global
    w = wind_speed * (.51 if array_height == 1 else .61)
    if r == 0:
        return None
    return temp_air + poa_global / 800 * (noct + adj - 20) * (1 - module_efficiency / (transmittance_absorptance * r)) * 9.5 / (5.7 + 3.8 * w)


def t_generic(poa_global, temp_air, wind_speed, u_const, du_wind, module_efficiency, absorptance):
    return temp_air + poa_global * (absorptance - module_efficiency) / (u_const + du_wind * wind_speed)


def _gen_t(*extra):
    def f(rng, n):
        d = dict(poa_global=gen.irr(rng, n, 1400), temp_air=tair(rng, n), wind_speed=wind(rng, n))
        if 'ir' in extra:
            d['ir_down'] = rng.uniform(150, 500, n)
        if 'eff' in extra:
            d['effective_irradiance'] = d['poa_global'] * gen.mix(rng, n, .3, 1.1, [1.])
        if 'nowind' in extra:
            d.pop('wind_speed')
        return d
    return f


def o_sapm(cell):
    def f(rng):
        T = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm']
        o = dict(T[str(rng.choice(list(T)))]) if rng.random() < .5 else dict(a=float(rng.uniform(-4, -2.5)), b=float(rng.uniform(-.1, -.01)), deltaT=float(rng.uniform(0, 5)))
        if not cell:
            o.pop('deltaT')
        elif rng.random() < .3:
            o['irrad_ref'] = float(rng.choice([800., 500.]))
        return o
    return f


def o_some(**spec):
    def f(rng):
        return {k: float(rng.uniform(*v)) for k, v in spec.items() if rng.random() < .6}
    return f


def o_noct(rng):
    o = dict(noct=float(rng.uniform(40, 52)), module_efficiency=float(rng.uniform(.1, .24)))
    if rng.random() < .4:
        o['transmittance_absorptance'] = float(rng.uniform(.8, .99))
    if rng.random() < .5:
        o['array_height'] = int(rng.choice([1, 2]))
    if rng.random() < .6:
        o['mount_standoff'] = float(rng.choice([0., .3, .5, 1., 1.5, 2., 2.5, 3., 3.5, 3.6, 5., -1.]))
    return o


TEMP = [
    Entry('temperature.sapm_module', _gen_t(), t_sapm_module, o_sapm(False), ALL, 1e-9, 1e-9, two_d=True),
    Entry('temperature.sapm_cell', _gen_t(), t_sapm_cell, o_sapm(True), ALL, 1e-9, 1e-9),
    Entry('temperature.sapm_cell_from_module', lambda r, n: dict(module_temperature=tcell(r, n), poa_global=gen.irr(r, n)),
          lambda module_temperature, poa_global, deltaT, irrad_ref=1000.: module_temperature + deltaT * poa_global / irrad_ref,
          lambda r: dict(deltaT=float(r.uniform(0, 5))) if r.random() < .5 else dict(deltaT=3, irrad_ref=800.), ALL, 1e-10, 1e-10),
    Entry('temperature.pvsyst_cell', _gen_t(), t_pvsyst, o_some(u_c=(10, 35), u_v=(0, 3), module_efficiency=(.05, .25), alpha_absorption=(.8, 1)), ALL, 1e-9, 1e-9),
    Entry('temperature.pvsyst_cell', _gen_t('nowind'), t_pvsyst, o_some(u_c=(10, 35), u_v=(0, 3)), ALL, 1e-9, 1e-9, tag='default wind'),
    Entry('temperature.faiman', _gen_t(), t_faiman, o_some(u0=(10, 35), u1=(0, 9)), ALL, 1e-9, 1e-9),
    Entry('temperature.faiman', _gen_t('nowind'), t_faiman, o_some(u0=(10, 35), u1=(0, 9)), ALL, 1e-9, 1e-9, tag='default wind'),
    Entry('temperature.faiman_rad', _gen_t('ir'), t_faiman_rad, o_some(u0=(10, 35), u1=(0, 9), sky_view=(0, 1), emissivity=(.7, 1)), ALL, 1e-8, 1e-8, weight=2),
    Entry('temperature.faiman_rad', _gen_t(), t_faiman_rad, o_some(u0=(10, 35), u1=(0, 9)), ALL, 1e-9, 1e-9, tag='no sky'),
    Entry('temperature.ross', _gen_t('nowind'), t_ross, lambda r: dict(noct=float(r.uniform(40, 55))) if r.random() < .5 else dict(k=float(r.uniform(.01, .06))), ALL, 1e-9, 1e-9),
    Entry('temperature.noct_sam', _gen_t(), t_noct, o_noct, ALL, 1e-9, 1e-9, weight=2),
    Entry('temperature.noct_sam', _gen_t('eff'), t_noct, o_noct, ALL, 1e-8, 1e-8, weight=2, tag='effective', nan_skip=('poa_global', 'effective_irradiance')),
    Entry('temperature.generic_linear', _gen_t(), t_generic, lambda r: dict(u_const=float(r.uniform(8, 30)), du_wind=float(r.uniform(0, 6)),
                                                                           module_efficiency=float(r.uniform(.05, .25)), absorptance=float(r.uniform(.8, 1))), ALL, 1e-9, 1e-9),
]
