"""Y01: PVSystem and Array methods equal the models applied to their own parameters."""
import numpy as np
import pandas as pd

import pvlib
from pvlib import atmosphere, iam, inverter, irradiance, pvsystem, solarposition, spectrum, temperature

from mon import cat_pv
from mon import chain as C
from mon.core import Mon, main
from mon.engine import snap

mon = Mon('Y01', 'distinct (system specification, container of the inputs, method) cases',
          ['the model functions applied to each array\'s own parameters'],
          required=['get_aoi', 'get_irradiance', 'get_iam', 'get_cell_temperature', 'sapm', 'pvwatts_dc', 'calcparams_desoto', 'calcparams_cec', 'calcparams_pvsyst', 'singlediode',
                    'scale_voltage_current_power', 'get_ac', 'sapm_spectral_loss', 'sapm_effective_irradiance', 'first_solar_spectral_loss', 'dc_ohms_from_percent', 'pvwatts_losses',
                    'rejected', 'container', 'unwrap', 'temperature defaults', 'albedo', 'cell type', 'shorthand'])
EVERY_CELL = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs', 'CIS': 'cigs', 'CIGS': 'cigs', 'CdTe': 'cdte',
              'HIT-Si': 'monosi', 'mc-Si': 'multisi', 'c-Si': 'multisi', 'EFG mc-Si': 'multisi', 'a-Si / mono-Si': 'monosi'}


def shape(rng, x):
    """The same numbers as Series, array or scalar."""
    k = rng.integers(0, 3)
    if k == 0:
        return x
    return x.to_numpy() if k == 1 else float(x.iloc[len(x) // 2])


def same(m, clause, got, want, ctx):
    """got: result of one array; want: the function's result."""
    if isinstance(want, (pd.DataFrame, dict)):
        m.check(clause, set(got.keys()) == set(want.keys()), dict(ctx, got=list(got.keys())), 'columns')
        for k in want.keys():
            m.close(clause, got[k], want[k], 1e-12, 1e-12, dict(ctx, col=k))
    elif isinstance(want, (tuple, list)):
        m.check(clause, len(got) == len(want), ctx, 'length')
        for k, (a, b) in enumerate(zip(got, want)):
            m.close(clause, a, b, 1e-12, 1e-12, dict(ctx, item=k))
    else:
        m.close(clause, got, want, 1e-12, 1e-12, ctx)


def method(m, sys, name, args, want, kwargs=None, ctx=None):
    """args as the caller gives them; want: list of expected values per array."""
    n = len(sys.arrays)
    kwargs = kwargs or {}
    ctx = dict(ctx or {}, method=name, n=n)
    before = snap((args, kwargs))
    params = snap([(a.module_parameters, a.temperature_model_parameters, a.array_losses_parameters) for a in sys.arrays])
    ok, r = m.call(name, getattr(sys, name), *args, ctx=ctx, **kwargs)
    m.check(name, snap((args, kwargs)) == before and snap([(a.module_parameters, a.temperature_model_parameters, a.array_losses_parameters) for a in sys.arrays]) == params,
            ctx, 'arguments or parameters modified')
    if not ok:
        return
    if n == 1:
        same(m, name, r, want[0], ctx)
        ok, r1 = m.call(name, getattr(sys, name), *args, unwrap=False, ctx=ctx, **kwargs)
        if ok:
            m.check('unwrap', isinstance(r1, tuple) and len(r1) == 1, dict(ctx, type=type(r1)), 'unwrap=False does not give a one-element tuple')
            if isinstance(r1, tuple) and len(r1) == 1:
                same(m, 'unwrap', r1[0], want[0], ctx)
        return
    m.check('container', isinstance(r, tuple) and len(r) == n, dict(ctx, type=type(r)), 'not one result per array')
    if isinstance(r, tuple) and len(r) == n:
        for i in range(n):
            same(m, name, r[i], want[i], dict(ctx, array=i))


def methods(m):
    for rd in range(m.n(110, 1600)):
        rng = m.sub('methods', rd)
        n = int(rng.choice([1, 1, 2, 3]))
        dc = C.DC[rd % 5]
        aoi_model = C.IAM_[rd % 6]
        spectral = ['first_solar', 'sapm'][rd % 2]
        temp = (C.TEMP + ['faiman_rad', 'ross'])[rd % 7]
        s = C.spec(rng, n=n, dc=dc, aoi=aoi_model, spectral=spectral, temp=temp)
        if rng.random() < .3:
            for a in s['arrays']:
                if a['mount']['kind'] == 'track':
                    a['mount']['max_angle'] = (-float(rng.choice([30., 60.])), float(rng.choice([45., 90.])))
        p = C.site(rng)
        h = C.Hand(s, p)
        sys = C.build_system(s)
        A = s['arrays']
        ctx = dict(dc=dc, aoi=aoi_model, temp=temp, spectral=spectral, rd=rd)
        m.case(('methods', rd, dc, aoi_model, spectral, temp, n))
        w = C.weather(rng, p, 24, cols=['temp_air', 'wind_speed', 'precipitable_water', 'albedo'])
        ws = [w] + [C.shifted(rng, w) for _ in range(n - 1)]
        sp = solarposition.get_solarposition(w.index, p['lat'], p['lon'])
        if rng.random() < .3:
            k = int(np.argmin(sp['apparent_zenith']))
            zen, azi = float(sp['apparent_zenith'].iloc[k]), float(sp['azimuth'].iloc[k])
            ws = [dict(x.iloc[k]) for x in ws]
        elif rng.random() < .3:
            zen, azi = sp['apparent_zenith'].to_numpy(), sp['azimuth'].to_numpy()
            ws = [{c: x[c].to_numpy() for c in x} for x in ws]
        else:
            zen, azi = sp['apparent_zenith'], sp['azimuth']
        scalar = np.isscalar(zen)
        def arg(c, wide=True):
            """tuple of per-array values, or the single one for all"""
            if n == 1:
                return (ws[0][c],) if rng.random() < .3 else ws[0][c]
            return tuple(x[c] for x in ws)
        share = n > 1 and rng.random() < .4
        use = [ws[0]] * n if share else ws

        def wide(c):
            return ws[0][c] if share else arg(c)
        # orientation, incidence, transposition
        ori = [h.orientation(a['mount'], zen, azi) for a in A]
        aois = [irradiance.aoi(t, z, zen, azi) for t, z in ori]
        method(m, sys, 'get_aoi', (zen, azi), aois, ctx=ctx)
        model = C.TRANSPOSITION[rd % 7]
        kw, ex = {}, None
        if isinstance(zen, pd.Series):
            ex = irradiance.get_extra_radiation(zen.index)
        else:
            ex = 1367.
        am = atmosphere.get_relative_airmass(zen)
        if rng.random() < .4:
            kw['dni_extra'] = ex = 1361.5
        if rng.random() < .4:
            am = atmosphere.get_relative_airmass(zen, 'simple')
            kw['airmass'] = am
        k = rng.random()
        if k < .3:
            kw['albedo'] = wide('albedo')
            al = [x['albedo'] for x in use]
        elif k < .5:
            kw['albedo'] = .33
            al = [.33] * n
        else:
            al = [h.albedo(a) for a in A]
        extra = {}
        if model == 'perez' and rng.random() < .5:
            extra['model_perez'] = 'phoenix1988'
        want = [irradiance.get_total_irradiance(t, z, zen, azi, x['dni'], x['ghi'], x['dhi'], dni_extra=ex, airmass=am, albedo=b, model=model, **extra)
                for (t, z), x, b in zip(ori, use, al)]
        method(m, sys, 'get_irradiance', (zen, azi, wide('dni'), wide('ghi'), wide('dhi')), want, dict(kw, model=model, **extra), ctx=dict(ctx, model=model, kw=list(kw)))
        total = want
        # incidence angle modifiers (per-array input)
        one = tuple(aois) if n > 1 or rng.random() < .5 else aois[0]
        method(m, sys, 'get_iam', (one, aoi_model if rng.random() < .7 else aoi_model.upper()), [h.iam(a, x, aoi_model) for a, x in zip(A, aois)], ctx=ctx)
        poa = [x['poa_global'] for x in total]
        eff = [x['poa_direct'] * .95 + x['poa_diffuse'] * .98 for x in total]
        # Fuentes needs a time index; the thermal models take anything else
        if temp != 'fuentes' or isinstance(zen, pd.Series):
            ir = [300. + 10 * i for i in range(n)]
            kw = {}
            if rng.random() < .5 and temp == 'noct_sam':
                kw['effective_irradiance'] = tuple(eff) if n > 1 else eff[0]
                ee = eff
            else:
                ee = [None] * n
            if temp == 'faiman_rad' and rng.random() < .7:
                kw['longwave_down'] = tuple(ir) if n > 1 and not share else ir[0]
                if share:
                    ir = [ir[0]] * n
            else:
                ir = [None] * n
            want = [h.cell_temperature(a, temp, g, x['temp_air'], x['wind_speed'], eff=e, ir=q) for a, g, x, e, q in zip(A, poa, use, ee, ir)]
            method(m, sys, 'get_cell_temperature', (tuple(poa) if n > 1 else poa[0], wide('temp_air'), wide('wind_speed'), temp), want, kw, ctx=dict(ctx, kw=list(kw)))
        # module models
        tc = [25. + np.asarray(e) * .02 if not isinstance(e, pd.Series) else 25. + e * .02 for e in eff]
        if scalar:
            tc = [float(t) if np.ndim(t) == 0 else t for t in tc]
        ea, ta = (tuple(eff), tuple(tc)) if n > 1 or rng.random() < .5 else (eff[0], tc[0])
        if dc == 'sapm':
            res = [pvsystem.sapm(e, t, a['module_parameters']) for a, e, t in zip(A, eff, tc)]
            method(m, sys, 'sapm', (ea, ta), res, ctx=ctx)
        elif dc == 'pvwatts':
            want = [pvsystem.pvwatts_dc(e, t, a['module_parameters']['pdc0'], a['module_parameters']['gamma_pdc'],
                                        **{k: a['module_parameters'][k] for k in ('temp_ref', 'k', 'cap_adjustment') if k in a['module_parameters']}) for a, e, t in zip(A, eff, tc)]
            method(m, sys, 'pvwatts_dc', (ea, ta), want, ctx=ctx)
            res = None
        else:
            par = [h.diode(a, e, t, dc) for a, e, t in zip(A, eff, tc)]
            method(m, sys, 'calcparams_' + dc, (ea, ta), par, ctx=ctx)
            res = [pvsystem.singlediode(*x) for x in par]
            if n == 1:
                ok, r = m.call('singlediode', sys.singlediode, *par[0], ctx=ctx)
                if ok:
                    same(m, 'singlediode', r, res[0], ctx)
                ok, r = m.call('i_from_v', sys.i_from_v, 10., *par[0], ctx=ctx)
                if ok:
                    same(m, 'i_from_v', r, pvsystem.i_from_v(10., *par[0]), ctx)
        if res is not None and all(isinstance(x, pd.DataFrame) for x in res):
            # a module table with every electrical column, scaled for the array
            want = []
            for a, d in zip(A, res):
                sc = dict(v_mp=a['mps'], v_oc=a['mps'], i_mp=a['strings'], i_sc=a['strings'], i_x=a['strings'], i_xx=a['strings'], p_mp=a['mps'] * a['strings'])
                want.append(pd.DataFrame({c: d[c] * sc[c] for c in d}))
            cols = [c for c in ('v_mp', 'v_oc', 'i_mp', 'i_x', 'i_xx', 'i_sc', 'p_mp') if c in res[0]]
            method(m, sys, 'scale_voltage_current_power', (tuple(res) if n > 1 else res[0],), [x[res[0].columns] for x in want], ctx=dict(ctx, cols=cols))
            dcp, dcv = [x['p_mp'] for x in want], [x['v_mp'] for x in want]
        else:
            dcp = [np.asarray(e) * (3. + i) * .001 * (s['inverter'].get('pdc0') or s['inverter'].get('Pdco') or s['inverter'].get('Pnom')) / 4 for i, e in enumerate(eff)]
            dcv = [np.full(np.shape(e), 300. + 20 * i) for i, e in enumerate(eff)]
            if scalar:
                dcp, dcv = [[float(x) if np.ndim(x) == 0 else x for x in y] for y in (dcp, dcv)]
        ac(m, sys, s, dcp, dcv, n, rng, ctx)
        # spectral methods
        ab = am * .9
        if spectral == 'sapm':
            method(m, sys, 'sapm_spectral_loss', (ab,), [spectrum.spectral_factor_sapm(ab, a['module_parameters']) for a in A], ctx=ctx)
            if aoi_model == 'sapm':
                pd_, pf = [x['poa_direct'] for x in total], [x['poa_diffuse'] for x in total]
                t = (lambda x: tuple(x)) if n > 1 else (lambda x: x[0])
                want = []
                for a, b, d, g in zip(A, pd_, pf, aois):
                    mp = a['module_parameters']
                    want.append(spectrum.spectral_factor_sapm(ab, mp) * (b * iam.sapm(g, mp) + mp.get('FD', 1.) * d))
                ok = all('FD' in a['module_parameters'] for a in A)
                if ok:
                    method(m, sys, 'sapm_effective_irradiance', (t(pd_), t(pf), ab, t(aois)), want, ctx=ctx)
        else:
            want = [h.spectral(a, ab, x['precipitable_water'], 'first_solar') for a, x in zip(A, use)]
            method(m, sys, 'first_solar_spectral_loss', (wide('precipitable_water'), ab), want, ctx=ctx)
        method(m, sys, 'dc_ohms_from_percent', (), [h.ohms(a) for a in A], ctx=ctx) if dc in ('desoto', 'cec', 'pvsyst', 'sapm') else None
        loss = dict(soiling=2, shading=3, snow=0, mismatch=2, wiring=2, connections=.5, lid=1.5, nameplate_rating=1, age=0, availability=3)
        loss.update(s['losses'])
        ok, r = m.call('pvwatts_losses', sys.pvwatts_losses, ctx=ctx)
        if ok:
            m.close('pvwatts_losses', r, 100 * (1 - np.prod([1 - x / 100 for x in loss.values()])), 1e-12, 1e-10, ctx)
        wrong(m, sys, s, zen, azi, aois, n, temp, rng, ctx)


def ac(m, sys, s, dcp, dcv, n, rng, ctx):
    inv = s['inverter']
    kind = s['ac'] if rng.random() < .7 else s['ac'].upper()
    a = (dcp[0], dcv[0]) if n == 1 and rng.random() < .5 else (tuple(dcp), tuple(dcv))
    before = snap((a, inv))
    ok, r = m.call('get_ac', sys.get_ac, kind, a[0], *([a[1]] if s['ac'] != 'pvwatts' or rng.random() < .5 else []), ctx=ctx)
    m.check('get_ac', before == snap((a, sys.inverter_parameters)), ctx, 'arguments modified')
    if not ok:
        return
    if s['ac'] == 'pvwatts':
        k = {q: inv[q] for q in ('eta_inv_nom', 'eta_inv_ref') if q in inv}
        want = inverter.pvwatts(sum(dcp), inv['pdc0'], **k)
    elif s['ac'] == 'adr':
        want = inverter.adr(dcv[0], dcp[0], inv)
    else:
        want = inverter.sandia(dcv[0], dcp[0], inv) if n == 1 else inverter.sandia_multi(dcv, dcp, inv)
    m.close('get_ac', r, want, 1e-12, 1e-10, dict(ctx, ac=s['ac'], n=n))
    for bad in ('nosuch', '', 'a', 'sandi'):
        m.raises('rejected', ValueError, sys.get_ac, bad, a[0], a[1], ctx=('get_ac', bad))
    m.raises('rejected', ValueError, sys.get_ac, kind, tuple(dcp) + (dcp[0],), tuple(dcv) + (dcv[0],), ctx=('get_ac', 'too many', kind))
    if n > 1:
        m.raises('rejected', ValueError, sys.get_ac, kind, dcp[0], dcv[0], ctx=('get_ac', 'bare for many', kind))
        m.raises('rejected', ValueError, sys.get_ac, 'adr', tuple(dcp), tuple(dcv), ctx=('adr', 'several arrays'))


def wrong(m, sys, s, zen, azi, aois, n, temp, rng, ctx):
    x = aois[0]
    over, few = (x,) * (n + 1), (x,) * (n - 1)
    for bad in [over, few] + ([x] if n > 1 else []):
        what = ('per-array', len(bad) if isinstance(bad, tuple) else 'bare', n)
        m.raises('rejected', ValueError, sys.get_iam, bad, 'physical', ctx=what)
        m.raises('rejected', ValueError, sys.get_cell_temperature, bad, 20., 1., temp, ctx=what)
        m.raises('rejected', ValueError, sys.scale_voltage_current_power, bad, ctx=what)
        for f in ('calcparams_desoto', 'calcparams_cec', 'calcparams_pvsyst', 'sapm', 'pvwatts_dc'):
            good = (x,) * n
            m.raises('rejected', ValueError, getattr(sys, f), bad, good, ctx=(f,) + what)
            m.raises('rejected', ValueError, getattr(sys, f), good, bad, ctx=(f,) + what)
        for k in range(3):
            a = [(x,) * n] * 3
            a[k] = bad
            m.raises('rejected', ValueError, sys.sapm_effective_irradiance, a[0], a[1], 1.5, a[2], ctx=('sapm_eff', k) + what)
    for bad in (over, few):
        what = ('wide', len(bad), n)
        for k in range(3):
            a = [x] * 3
            a[k] = bad
            m.raises('rejected', ValueError, sys.get_irradiance, zen, azi, *a, ctx=('get_irradiance', k) + what)
        m.raises('rejected', ValueError, sys.get_irradiance, zen, azi, x, x, x, albedo=bad, ctx=('albedo',) + what)
        m.raises('rejected', ValueError, sys.first_solar_spectral_loss, bad, 1.5, ctx=('firstsolar',) + what)
        good = (x,) * n
        for a, k in (((good, bad, 1., temp), {}), ((good, 20., bad, temp), {}), ((good, 20., 1., temp), dict(effective_irradiance=bad)), ((good, 20., 1., temp), dict(longwave_down=bad))):
            m.raises('rejected', ValueError, sys.get_cell_temperature, *a, ctx=('temperature',) + what, **k)
    m.raises('rejected', ValueError, sys.get_cell_temperature, (x,) * n, 20., 1., 'nosuch', ctx='temperature model')
    m.raises('rejected', ValueError, sys.get_iam, (x,) * n, 'nosuch', ctx='iam model')
    m.raises('rejected', ValueError, sys.get_irradiance, zen, azi, x, x, x, model='nosuch', ctx='transposition model')


def build(m):
    """Defaults: temperature parameters, albedo, losses, single-array shorthand, cell type."""
    T = {**{k: ('sapm', dict(zip(('a', 'b', 'deltaT'), v))) for k, v in C.SAPM_SETS.items()}}
    racks = ['open_rack', 'close_mount', 'insulated_back', 'freestanding', 'insulated', 'semi_integrated', None, 'nosuch']
    types = ['glass_glass', 'glass_polymer', None]
    for r in racks:
        for t in types:
            key = f'{r}_{t}'
            if key in C.SAPM_SETS:
                want = dict(zip(('a', 'b', 'deltaT'), C.SAPM_SETS[key]))
            elif r in C.PVSYST_SETS:
                want = dict(zip(('u_c', 'u_v'), C.PVSYST_SETS[r]))
            elif r == 'insulated_back':
                # insulated back exists for glass/polymer only; the rack reads as PVsyst insulated
                continue
            else:
                want = {}
            one = pvsystem.PVSystem(racking_model=r, module_type=t)
            arr = pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=t)
            trk = pvsystem.Array(pvsystem.SingleAxisTrackerMount(racking_model=r), module_type=t)
            for got in (one.arrays[0].temperature_model_parameters, arr.temperature_model_parameters, trk.temperature_model_parameters):
                m.check('temperature defaults', dict(got) == want, dict(rack=r, type=t, got=got), 'parameters of the racking and module type')
            given = dict(a=-3., b=-.1, deltaT=2.)
            m.check('temperature defaults', pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=t, temperature_model_parameters=given).temperature_model_parameters == given, (r, t), 'given parameters replaced')
            got = pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=t).temperature_model_parameters
            if got:
                got[next(iter(got))] = 99.
                again = pvsystem.Array(pvsystem.FixedMount(racking_model=r), module_type=t).temperature_model_parameters
                m.check('temperature defaults', dict(again) == want, (r, t), 'changing one array changed the defaults')
    for st, v in list(C.ALBEDO.items()) + [(None, .25)]:
        for alb in (None, .42, 0.):
            want = v if alb is None else alb
            m.check('albedo', pvsystem.Array(pvsystem.FixedMount(), albedo=alb, surface_type=st).albedo == want, (st, alb), 'albedo of the surface')
            m.check('albedo', pvsystem.PVSystem(albedo=alb, surface_type=st).arrays[0].albedo == want, (st, alb), 'albedo of the surface')
    for tech, want in EVERY_CELL.items():
        for key in ('Technology', 'Material'):
            mp = {key: tech}
            if key == 'Technology':
                mp['Material'] = 'CdTe'
            sys = pvsystem.PVSystem(module_parameters=mp)
            ok, r = m.call('cell type', sys.first_solar_spectral_loss, 1.2, 1.5, ctx=mp)
            if ok:
                m.close('cell type', r, spectrum.spectral_factor_firstsolar(1.2, 1.5, module_type=want), 1e-12, 0, mp)
    m.raises('rejected', ValueError, pvsystem.PVSystem, arrays=[], ctx='no arrays')
    m.raises('rejected', ValueError, pvsystem.PVSystem, arrays=(), ctx='no arrays')
    for rd in range(m.n(20, 200)):
        rng = m.sub('build', rd)
        mp = dict(V_mp_ref=C.u(rng, 20, 40), I_mp_ref=C.u(rng, 4, 10), pdc0=300., gamma_pdc=-.003)
        t, z = C.u(rng, 0, 60), C.u(rng, 0, 360)
        kw = dict(surface_tilt=t, surface_azimuth=z, albedo=C.u(rng, 0, .9), module_parameters=mp, temperature_model_parameters=dict(a=-3., b=-.1, deltaT=2.), modules_per_string=int(rng.integers(1, 20)),
                  strings_per_inverter=int(rng.integers(1, 9)), losses_parameters=dict(dc_ohmic_percent=C.u(rng, .2, 5), soiling=4.), inverter_parameters=dict(pdc0=2000.))
        ok, a = m.call('shorthand', pvsystem.PVSystem, ctx=kw, **kw)
        b = pvsystem.PVSystem(arrays=[pvsystem.Array(pvsystem.FixedMount(t, z), albedo=kw['albedo'], module_parameters=mp, temperature_model_parameters=kw['temperature_model_parameters'],
                                                    modules_per_string=kw['modules_per_string'], strings=kw['strings_per_inverter'], array_losses_parameters=dict(dc_ohmic_percent=kw['losses_parameters']['dc_ohmic_percent']))],
                              inverter_parameters=kw['inverter_parameters'], losses_parameters=kw['losses_parameters'])
        bare = pvsystem.PVSystem(arrays=b.arrays[0])
        m.case(('build', rd, t, z))
        if not ok:
            continue
        R = mp['V_mp_ref'] * kw['modules_per_string'] / (mp['I_mp_ref'] * kw['strings_per_inverter']) * kw['losses_parameters']['dc_ohmic_percent'] / 100
        for x in (a, b):
            m.close('shorthand', x.dc_ohms_from_percent(), R, 1e-12, 0, kw)
        zen, azi = 40., 130.
        g = irradiance.get_total_irradiance(t, z, zen, azi, 700., 600., 120., dni_extra=1367., airmass=atmosphere.get_relative_airmass(zen), albedo=kw['albedo'], model='haydavies')
        for x in (a, b, bare, b.arrays[0], a.arrays[0]):
            m.close('shorthand', x.get_aoi(zen, azi), irradiance.aoi(t, z, zen, azi), 1e-12, 1e-12, kw)
            r = x.get_irradiance(zen, azi, 700., 600., 120.)
            for k in g:
                m.close('shorthand', r[k], g[k], 1e-12, 1e-10, dict(kw, col=k))
        # parameters set later are used: nothing is frozen at construction
        a.arrays[0].module_parameters = dict(mp, V_mp_ref=2 * mp['V_mp_ref'])
        m.close('shorthand', a.dc_ohms_from_percent(), 2 * R, 1e-12, 0, kw)
        a.arrays[0].strings = 2 * kw['strings_per_inverter']
        m.close('shorthand', a.dc_ohms_from_percent(), R, 1e-12, 0, kw)
        a.arrays[0].mount = pvsystem.FixedMount(10., 20.)
        m.close('shorthand', a.get_aoi(zen, azi), irradiance.aoi(10., 20., zen, azi), 1e-12, 1e-12, kw)


def work(m):
    methods(m)
    build(m)


if __name__ == '__main__':
    main(mon, work)
