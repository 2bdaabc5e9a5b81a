"""Random PV systems and their hand composition from the public model functions.

A Spec holds plain numbers; `build` turns it into pvlib objects, `Hand` computes
what the documented composition gives, per array, without PVSystem, Array, Mount,
Location or ModelChain."""
import copy

import numpy as np
import pandas as pd

import pvlib
from pvlib import atmosphere, iam, inverter, irradiance, pvsystem, solarposition, spectrum, temperature, tracking

from mon import cat_pv, gen

SAPM_SETS = {  # racking, module type -> King et al. 2004 coefficients
    'open_rack_glass_glass': (-3.47, -.0594, 3), 'close_mount_glass_glass': (-2.98, -.0471, 1),
    'open_rack_glass_polymer': (-3.56, -.0750, 3), 'insulated_back_glass_polymer': (-2.81, -.0455, 0)}
PVSYST_SETS = {'freestanding': (29., 0.), 'insulated': (15., 0.), 'semi_integrated': (20., 0.)}
ALBEDO = {'urban': .18, 'grass': .20, 'fresh grass': .26, 'soil': .17, 'sand': .40, 'snow': .65, 'fresh snow': .75, 'asphalt': .12,
          'concrete': .30, 'aluminum': .85, 'copper': .74, 'fresh steel': .35, 'dirty steel': .08, 'sea': .06}
CELL = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs', 'CIS': 'cigs', 'CIGS': 'cigs', 'CdTe': 'cdte',
        'mc-Si': 'multisi', 'c-Si': 'multisi'}
DC = ['sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts']
IAM_ = ['physical', 'ashrae', 'martin_ruiz', 'sapm', 'interp', 'schlick', 'no_loss']
TEMP = ['sapm', 'pvsyst', 'faiman', 'fuentes', 'noct_sam']
TRANSPOSITION = ['haydavies', 'isotropic', 'klucher', 'reindl', 'king', 'perez', 'perez-driesse']
AIRMASS = ['kastenyoung1989', 'kasten1966', 'simple', 'pickering2002', 'youngirvine1967', 'young1994', 'gueymard1993', 'gueymard2003']
TRUE_Z = ('youngirvine1967', 'young1994')
SUNPOS = ['nrel_numpy', 'nrel_numpy', 'nrel_numpy', 'ephemeris', 'pyephem']


def u(rng, lo, hi):
    return float(rng.uniform(lo, hi))


def module_parameters(rng, dc, aoi, spectral):
    if dc == 'sapm':
        t = cat_pv._mods()
        while True:
            m = dict(t.iloc[:, int(rng.integers(0, t.shape[1]))])
            # keep modules whose voltages stay positive by day so the inverter sees usual input
            if m['FD'] == m['FD'] and m['Vmpo'] > 5:
                break
        m = {k: v for k, v in m.items() if k not in ('B0', 'B1', 'B2', 'B3', 'B4', 'B5')} if aoi != 'sapm' else m
        if rng.random() < .3:
            m.pop('FD')
    elif dc == 'pvwatts':
        m = dict(pdc0=u(rng, 80, 500), gamma_pdc=u(rng, -.005, -.002))
        if rng.random() < .3:
            m['temp_ref'] = u(rng, 20, 30)
        if rng.random() < .2:
            m.update(k=u(rng, 0, .005))
            m['cap_adjustment'] = bool(rng.random() < .5)
    else:
        m = cat_pv.sdm_opts(dc)(rng)
        m.update(V_mp_ref=u(rng, 20, 50), I_mp_ref=u(rng, 3, 10))
        if dc == 'pvsyst':
            m.setdefault('EgRef', 1.121)
            if rng.random() < .5:
                m['R_sh_exp'] = 5.5
            m['I_o_ref'] = 10 ** u(rng, -11, -9)
            m['gamma_ref'] = u(rng, .95, 1.2)
        else:
            m['a_ref'] = u(rng, 1.2, 2.5)
        if rng.random() < .4:
            k = [('V_mp_ref', 'I_mp_ref'), ('Vmpp', 'Impp'), ('Vmpo', 'Impo')][int(rng.integers(0, 3))]
            m[k[0]], m[k[1]] = m.pop('V_mp_ref'), m.pop('I_mp_ref')
    if aoi == 'physical':
        m.update(n=u(rng, 1.3, 1.6), K=u(rng, 1, 8), L=u(rng, .001, .004))
        if rng.random() < .3:
            m['n_ar'] = u(rng, 1.2, 1.35)
    elif aoi == 'ashrae':
        m['b'] = u(rng, .02, .1)
    elif aoi == 'martin_ruiz':
        m['a_r'] = u(rng, .1, .3)
    elif aoi == 'sapm' and dc != 'sapm':
        t = cat_pv._mods()
        c = t.iloc[:, int(rng.integers(0, t.shape[1]))]
        m.update({f'B{i}': float(c[f'B{i}']) for i in range(6)})
    elif aoi == 'interp':
        m.update(theta_ref=[0, 30, 60, 75, 90], iam_ref=[1, .99, .95, .8, 0.])
        if rng.random() < .4:
            m['method'] = 'quadratic'
    if spectral == 'sapm' and dc != 'sapm':
        t = cat_pv._mods()
        c = t.iloc[:, int(rng.integers(0, t.shape[1]))]
        m.update({f'A{i}': float(c[f'A{i}']) for i in range(5)})
    if spectral == 'first_solar':
        m.pop('Material', None)
        k = rng.random()
        if k < .4:
            m['first_solar_spectral_coefficients'] = [float(x) for x in rng.normal(0, .02, 6) + [.86, 0, 0, .06, 0, 0]]
        else:
            m['Technology' if k < .7 else 'Material'] = str(rng.choice(list(CELL)))
    if dc != 'sapm' and rng.random() < .3:
        m['FD'] = u(rng, .8, 1)
    if rng.random() < .3:
        m['module_efficiency'] = u(rng, .1, .22)
    if rng.random() < .2:
        m['alpha_absorption'] = u(rng, .85, .95)
    return m


def temp_parameters(rng, kind):
    if kind == 'sapm':
        d = dict(a=u(rng, -3.8, -2.7), b=u(rng, -.1, -.03), deltaT=u(rng, 0, 4))
        if rng.random() < .2:
            d['irrad_ref'] = 900.
    elif kind == 'pvsyst':
        d = dict(u_c=u(rng, 15, 30), u_v=u(rng, 0, 2))
    elif kind == 'faiman':
        d = dict(u0=u(rng, 15, 30), u1=u(rng, 3, 8))
    elif kind == 'fuentes':
        d = dict(noct_installed=u(rng, 43, 52))
        for k, v in (('wind_height', (5, 12)), ('emissivity', (.8, .9)), ('absorption', (.8, .9)), ('surface_tilt', (10, 60)), ('module_width', (.3, 1)), ('module_length', (1, 2))):
            if rng.random() < .25:
                d[k] = u(rng, *v)
    elif kind == 'noct_sam':
        d = dict(noct=u(rng, 42, 50), module_efficiency=u(rng, .1, .22))
        if rng.random() < .4:
            d['transmittance_absorptance'] = u(rng, .85, .95)
        if rng.random() < .4:
            d['array_height'] = int(rng.choice([1, 2]))
        if rng.random() < .4:
            d['mount_standoff'] = float(rng.choice([.3, 1., 2., 3., 4.]))
    elif kind == 'faiman_rad':
        d = dict(u0=u(rng, 15, 30), u1=u(rng, 3, 8))
        for k in ('sky_view', 'emissivity'):
            if rng.random() < .5:
                d[k] = u(rng, .7, 1)
    elif kind == 'ross':
        d = dict(noct=u(rng, 42, 50)) if rng.random() < .5 else dict(k=u(rng, .02, .04))
    return d


def mount_spec(rng, tracker=.35):
    h = float(rng.choice([2., 6.])) if rng.random() < .3 else None
    if rng.random() < tracker:
        return dict(kind='track', axis_tilt=float(rng.choice([0., 10.])), axis_azimuth=float(rng.choice([180., 0., 170.])),
                    max_angle=float(rng.choice([45., 60., 90.])), backtrack=bool(rng.random() < .7), gcr=u(rng, .2, .6),
                    cross_axis_tilt=float(rng.choice([0., 0., 5.])), module_height=h)
    return dict(kind='fixed', surface_tilt=float(rng.choice([0., 20., 35., 60., 90.])), surface_azimuth=float(rng.choice([180., 90., 270., 10.])), module_height=h)


def array_spec(rng, dc, aoi, spectral, temp):
    a = dict(mount=mount_spec(rng), module_parameters=module_parameters(rng, dc, aoi, spectral), temp=temp_parameters(rng, temp),
             mps=int(rng.integers(1, 15)), strings=int(rng.integers(1, 6)), dc_ohmic_percent=u(rng, .5, 4))
    k = rng.random()
    if k < .4:
        a['albedo'] = u(rng, 0, .8)
    elif k < .7:
        a['surface_type'] = str(rng.choice(list(ALBEDO)))
    return a


def build_mount(m):
    m = {k: v for k, v in m.items() if k != 'kind'}, m['kind']
    return (pvsystem.FixedMount if m[1] == 'fixed' else pvsystem.SingleAxisTrackerMount)(**m[0])


def build_array(a):
    return pvsystem.Array(build_mount(a['mount']), albedo=a.get('albedo'), surface_type=a.get('surface_type'), module_parameters=copy.deepcopy(a['module_parameters']),
                          temperature_model_parameters=copy.deepcopy(a['temp']), modules_per_string=a['mps'], strings=a['strings'],
                          array_losses_parameters=dict(dc_ohmic_percent=a['dc_ohmic_percent']))


def spec(rng, n=None, dc=None, aoi=None, spectral=None, temp=None, ac=None):
    n = n or int(rng.choice([1, 1, 2, 3]))
    dc = dc or str(rng.choice(DC))
    aoi = aoi or str(rng.choice(IAM_))
    if aoi == 'sapm' and dc == 'sapm':
        pass
    spectral = spectral or str(rng.choice(['no_loss', 'no_loss', 'sapm', 'first_solar']))
    temp = temp or str(rng.choice(TEMP))
    s = dict(n=n, dc=dc, aoi=aoi, spectral=spectral, temp=temp, arrays=[array_spec(rng, dc, aoi, spectral, temp) for _ in range(n)])
    acs = ['pvwatts'] if dc == 'pvwatts' else (['sandia', 'pvwatts', 'adr'] if n == 1 else ['sandia', 'pvwatts'])
    s['ac'] = ac or str(rng.choice(acs))
    if s['ac'] == 'sandia':
        s['inverter'] = cat_pv.rand_sandia(rng)
    elif s['ac'] == 'adr':
        s['inverter'] = cat_pv.rand_adr(rng)
    else:
        s['inverter'] = dict(pdc0=u(rng, 500, 20000))
        if rng.random() < .5:
            s['inverter']['eta_inv_nom'] = u(rng, .93, .98)
        if rng.random() < .3:
            s['inverter']['eta_inv_ref'] = u(rng, .93, .98)
    s['losses'] = {k: u(rng, 0, 5) for k in ('soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability') if rng.random() < .4}
    s['chain'] = dict(transposition_model=str(rng.choice(TRANSPOSITION)), solar_position_method=str(rng.choice(SUNPOS)), airmass_model=str(rng.choice(AIRMASS)),
                      losses_model=str(rng.choice(['no_loss', 'pvwatts'])),
                      dc_ohmic_model='no_loss' if dc == 'pvwatts' else str(rng.choice(['no_loss', 'dc_ohms_from_percent'])))
    return s


def build_system(s):
    return pvsystem.PVSystem(arrays=[build_array(a) for a in s['arrays']], inverter_parameters=copy.deepcopy(s['inverter']), losses_parameters=dict(s['losses']))


def site(rng):
    lat = float(rng.choice([-45., -20., 5., 32.2, 48., 60.])) + u(rng, -3, 3)
    lon = u(rng, -170, 170)
    return dict(lat=lat, lon=lon, alt=float(rng.choice([0., 700., 2500.])), tz=f"Etc/GMT{-round(lon / 15):+d}")


def build_location(p):
    return pvlib.location.Location(p['lat'], p['lon'], p['tz'], p['alt'])


def weather(rng, p, n=None, cols=None):
    n = n or int(rng.choice([24, 24, 30, 48]))
    f = str(rng.choice(['1h', '30min', '15min', '1h']))
    t0 = pd.Timestamp(f'{int(rng.integers(2000, 2030))}-{int(rng.integers(1, 13)):02d}-{int(rng.integers(1, 28)):02d} {int(rng.integers(0, 12)):02d}:00')
    idx = pd.date_range(t0, periods=n, freq=f, tz=p['tz'])
    if rng.random() < .15:
        idx = idx[np.sort(rng.choice(n, n - 3, replace=False))]
    n = len(idx)
    sp = solarposition.get_solarposition(idx, p['lat'], p['lon'])
    ghi, dni, dhi = gen.consistent_irr(rng, n, sp['zenith'].to_numpy())
    d = pd.DataFrame(dict(ghi=ghi, dni=np.minimum(dni, 1100), dhi=dhi), index=idx)
    if cols is None:
        cols = [c for c in ('temp_air', 'wind_speed', 'precipitable_water', 'albedo', 'pressure', 'extra') if rng.random() < (.7 if c != 'extra' else .2)]
    v = dict(temp_air=rng.uniform(-15, 42, n), wind_speed=rng.uniform(0, 12, n), precipitable_water=rng.uniform(.3, 5, n), albedo=rng.uniform(.05, .8, n),
             pressure=rng.uniform(80000, 103000, n), extra=rng.uniform(0, 1, n))
    for c in cols:
        d[c] = v[c]
    return d[list(rng.permutation(d.columns))]


def shifted(rng, w):
    """Another weather table on the same index with the same columns."""
    d = w.copy()
    for c in d.columns:
        d[c] = d[c] * (1 + .1 * rng.uniform(-1, 1, len(d)))
    return d


class Hand:
    """The documented composition, one array at a time."""

    def __init__(self, s, p, perez=None):
        self.s, self.p = s, p

    # --- parts --------------------------------------------------------------
    def orientation(self, m, zen, azi):
        if m['kind'] == 'fixed':
            return m['surface_tilt'], m['surface_azimuth']
        r = tracking.singleaxis(zen, azi, axis_tilt=m['axis_tilt'], axis_azimuth=m['axis_azimuth'], max_angle=m['max_angle'], backtrack=m['backtrack'],
                                gcr=m['gcr'], cross_axis_tilt=m['cross_axis_tilt'])
        return r['surface_tilt'], r['surface_azimuth']

    def albedo(self, a):
        if 'albedo' in a:
            return a['albedo']
        return ALBEDO.get(a.get('surface_type'), .25)

    def iam(self, a, aoi, kind):
        m = a['module_parameters']
        if kind == 'no_loss':
            return 1.
        if kind == 'sapm':
            return iam.sapm(aoi, m)
        keys = dict(physical=('n', 'K', 'L', 'n_ar'), ashrae=('b',), martin_ruiz=('a_r',), schlick=(), interp=('theta_ref', 'iam_ref', 'method', 'normalize'))[kind]
        return getattr(iam, kind)(aoi, **{k: m[k] for k in keys if k in m})

    def spectral(self, a, am_abs, pw, kind):
        m = a['module_parameters']
        if kind == 'no_loss':
            return 1
        if kind == 'sapm':
            return spectrum.spectral_factor_sapm(am_abs, m)
        if 'first_solar_spectral_coefficients' in m:
            return spectrum.spectral_factor_firstsolar(pw, am_abs, coefficients=m['first_solar_spectral_coefficients'])
        return spectrum.spectral_factor_firstsolar(pw, am_abs, module_type=CELL[m['Technology'] if 'Technology' in m else m['Material']])

    def cell_temperature(self, a, kind, poa, ta, ws, eff=None, ir=None):
        t, m = a['temp'], a['module_parameters']

        def pick(*ks, src=t):
            return {k: src[k] for k in ks if k in src}
        if kind == 'sapm':
            return temperature.sapm_cell(poa, ta, ws, **pick('a', 'b', 'deltaT', 'irrad_ref'))
        if kind == 'pvsyst':
            return temperature.pvsyst_cell(poa, ta, ws, **pick('u_c', 'u_v'), **pick('module_efficiency', 'alpha_absorption', src=m))
        if kind == 'faiman':
            return temperature.faiman(poa, ta, ws, **pick('u0', 'u1'))
        if kind == 'faiman_rad':
            return temperature.faiman_rad(poa, ta, ws, ir_down=ir, **pick('u0', 'u1', 'sky_view', 'emissivity'))
        if kind == 'ross':
            return temperature.ross(poa, ta, **pick('noct', 'k'))
        if kind == 'fuentes':
            k = pick('noct_installed', 'wind_height', 'emissivity', 'absorption', 'surface_tilt', 'module_width', 'module_length')
            if a['mount'].get('module_height') is not None:
                k['module_height'] = a['mount']['module_height']
            return temperature.fuentes(poa, ta, ws, **k)
        return temperature.noct_sam(poa, ta, ws, effective_irradiance=eff, **pick('noct', 'module_efficiency', 'transmittance_absorptance', 'array_height', 'mount_standoff'))

    def diode(self, a, eff, tc, kind):
        keys = dict(desoto=('a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'alpha_sc', 'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref'),
                    pvsyst=('gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_sh_exp', 'R_s', 'alpha_sc', 'EgRef', 'irrad_ref', 'temp_ref', 'cells_in_series'))
        keys['cec'] = keys['desoto'] + ('Adjust',)
        m = a['module_parameters']
        return getattr(pvsystem, 'calcparams_' + kind)(eff, tc, **{k: m[k] for k in keys[kind] if k in m})

    def scale(self, a, d):
        v, i = a['mps'], a['strings']
        f = dict(v_mp=v, v_oc=v, i_mp=i, i_sc=i, i_x=i, i_xx=i, p_mp=v * i)
        return {k: d[k] * f[k] for k in d}

    def dc(self, a, eff, tc, kind):
        if kind == 'sapm':
            return self.scale(a, dict(pvsystem.sapm(eff, tc, a['module_parameters']).items())), None
        if kind == 'pvwatts':
            m = a['module_parameters']
            p = pvsystem.pvwatts_dc(eff, tc, m['pdc0'], m['gamma_pdc'], **{k: m[k] for k in ('temp_ref', 'k', 'cap_adjustment') if k in m})
            return p * a['mps'] * a['strings'], None
        par = self.diode(a, eff, tc, kind)
        sd = pvsystem.singlediode(*par)
        d = self.scale(a, dict(sd.items()))
        return {k: v.fillna(0) for k, v in d.items()}, dict(zip(('I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'), par))

    def ohms(self, a):
        m = a['module_parameters']
        for v, i in (('V_mp_ref', 'I_mp_ref'), ('Vmpo', 'Impo'), ('Vmpp', 'Impp')):
            if v in m and i in m:
                # resistance that loses the given percentage of rated power at rated current, for the whole array
                return a['dc_ohmic_percent'] / 100 * (m[v] * a['mps']) / (m[i] * a['strings'])
        raise KeyError('vmp')

    def ac(self, dcs, kind):
        inv = self.s['inverter']
        P = [d if not isinstance(d, dict) else d['p_mp'] for d in dcs]
        if kind == 'pvwatts':
            k = {q: inv[q] for q in ('eta_inv_nom', 'eta_inv_ref') if q in inv}
            return inverter.pvwatts(sum(P), inv['pdc0'], **k).fillna(0)
        V = [d['v_mp'] for d in dcs]
        if kind == 'adr':
            return inverter.adr(V[0], P[0], inv)
        return inverter.sandia(V[0], P[0], inv) if len(P) == 1 else inverter.sandia_multi(V, P, inv)

    # --- stages -------------------------------------------------------------
    def sun(self, w0):
        """w0: first (or only) table"""
        p, c = self.p, self.s['chain']
        alt_p = 100 * ((44331.514 - p['alt']) / 11880.516) ** (1 / .1902632)
        sp = solarposition.get_solarposition(w0.index, p['lat'], p['lon'], altitude=p['alt'], pressure=w0['pressure'] if 'pressure' in w0 else alt_p,
                                             method=c['solar_position_method'], temperature=w0['temp_air'] if 'temp_air' in w0 else 12)
        zen = sp['zenith'] if c['airmass_model'] in TRUE_Z else sp['apparent_zenith']
        rel = atmosphere.get_relative_airmass(zen, c['airmass_model'])
        return sp, rel, rel * alt_p / 101325.

    def transpose(self, ws):
        """ws: one table per array"""
        sp, rel, ab = self.sun(ws[0])
        zen, azi = sp['apparent_zenith'], sp['azimuth']
        ex = irradiance.get_extra_radiation(ws[0].index)
        out = []
        for a, w in zip(self.s['arrays'], ws):
            t, z = self.orientation(a['mount'], zen, azi)
            # albedo: every table must have the column to override the arrays' own values
            al = w['albedo'] if all('albedo' in x for x in ws) else self.albedo(a)
            out.append(dict(aoi=irradiance.aoi(t, z, zen, azi),
                            total=irradiance.get_total_irradiance(t, z, zen, azi, w['dni'], w['ghi'], w['dhi'], dni_extra=ex, airmass=rel, albedo=al,
                                                                  model=self.s['chain']['transposition_model'])))
        return sp, rel, ab, out

    def effective(self, ws, ab, rows):
        for a, w, r in zip(self.s['arrays'], ws, rows):
            r['iam'] = self.iam(a, r['aoi'], self.s['aoi'])
            r['spectral'] = self.spectral(a, ab, w.get('precipitable_water'), self.s['spectral'])
            r['eff'] = r['spectral'] * (r['total']['poa_direct'] * r['iam'] + a['module_parameters'].get('FD', 1.) * r['total']['poa_diffuse'])

    def power(self, ws, rows, tmod=None, measured=None):
        """measured: per array None, ('cell', series) or ('module', series)"""
        for i, (a, w, r) in enumerate(zip(self.s['arrays'], ws, rows)):
            poa = r['total']['poa_global'] if r.get('total') is not None and 'poa_global' in r['total'] else r['eff']
            ta = w['temp_air'] if 'temp_air' in w else pd.Series(20., w.index)
            wind = w['wind_speed'] if 'wind_speed' in w else pd.Series(0., w.index)
            g = measured[i] if measured else None
            if g and g[0] == 'cell':
                r['tc'] = g[1]
            elif g and g[0] == 'module':
                r['tc'] = g[1] + poa / 1000. * a['temp']['deltaT']
            else:
                r['tc'] = self.cell_temperature(a, self.s['temp'], poa, ta, wind, eff=r['eff'])
            r['dc'], r['diode'] = self.dc(a, r['eff'], r['tc'], self.s['dc'])
            if self.s['chain']['dc_ohmic_model'] == 'dc_ohms_from_percent':
                r['ohmic'] = self.ohms(a) * r['dc']['i_mp'] ** 2
                r['dc'] = dict(r['dc'], p_mp=r['dc']['p_mp'] - r['ohmic'])
            if self.s['chain']['losses_model'] == 'pvwatts':
                d = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2, connections=.5, lid=1.5, nameplate_rating=1, age=0, availability=3)
                d.update(self.s['losses'])
                keep = 1.
                for x in d.values():
                    keep *= 1 - x / 100
                r['keep'] = keep
                r['dc'] = {k: v * keep for k, v in r['dc'].items()} if isinstance(r['dc'], dict) else r['dc'] * keep
        return self.ac([r['dc'] for r in rows], self.s['ac'])

    def run(self, ws):
        sp, rel, ab, rows = self.transpose(ws)
        self.effective(ws, ab, rows)
        return dict(sp=sp, rel=rel, abs=ab, rows=rows, ac=self.power(ws, rows))


def build_chain(s, p, explicit=True, **over):
    k = dict(s['chain'])
    k.update(aoi_model=s['aoi'], spectral_model=s['spectral'])
    if explicit:
        k.update(dc_model=s['dc'], ac_model=s['ac'], temperature_model=s['temp'])
    k.update(over)
    return pvlib.modelchain.ModelChain(build_system(s), build_location(p), **k)
