"""Y02: a ModelChain run equals the composition of the models it names."""
import warnings

import numpy as np
import pandas as pd

import pvlib
from mon import chain as C
from mon import turbidity
from mon.core import Mon, main
from mon.engine import snap

mon = Mon('Y02', 'distinct (system specification, chain options, weather) runs',
          ['the composition of public model functions in the documented order (mon/chain.py)'],
          required=['solar_position', 'airmass', 'aoi', 'total_irrad', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'dc', 'ac',
                    'losses', 'diode_params', 'dc_ohmic_losses', 'inferred', 'rejected', 'complete', 'custom', 'presets', 'refused', 'gaps'])
MC = pvlib.modelchain.ModelChain


def per(x, i, n):
    return x[i] if isinstance(x, tuple) else x


# the power curve is flat at its top: rounding of the order of 1e-16 in the parameters moves the position of the
# maximum by a few 1e-8, and everything evaluated there with it
TOL = {'i_mp': (2e-6, 1e-8), 'v_mp': (2e-6, 1e-8), 'i_x': (2e-6, 1e-8), 'i_xx': (2e-6, 1e-8), 'p_mp': (2e-7, 1e-8)}


def table(m, name, got, want, ctx):
    """a DataFrame (or mapping) against a mapping of expected columns"""
    keys = list(got.columns) if hasattr(got, 'columns') else list(got)
    m.check(name + '_columns', set(want) == set(keys), dict(ctx, got=keys, want=list(want)), 'columns differ')
    for k in want:
        if k in keys:
            m.close(name, got[k], want[k], *TOL.get(k, (1e-9, 1e-9)), dict(ctx, col=k))


def judge(m, mc, h, s, ctx, tracks=True):
    r, n = mc.results, s['n']
    for c in ('apparent_zenith', 'zenith', 'azimuth', 'apparent_elevation', 'elevation'):
        m.close('solar_position', r.solar_position[c], h['sp'][c], 1e-11, 1e-10, dict(ctx, col=c))
    m.close('airmass', r.airmass['airmass_relative'], h['rel'], 1e-11, 1e-11, ctx)
    m.close('airmass', r.airmass['airmass_absolute'], h['abs'], 1e-9, 1e-9, ctx)
    rows = h['rows']
    for f in ('aoi', 'total_irrad', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'dc'):
        x = getattr(r, f)
        m.check('container', isinstance(x, tuple) == (n > 1 or ctx.get('boxed', False)) and (not isinstance(x, tuple) or len(x) == n), dict(ctx, field=f, type=type(x)), 'results of one array are bare, of several a tuple in array order')
    for i in range(n):
        w = rows[i]
        cx = dict(ctx, array=i)
        m.close('aoi', per(r.aoi, i, n), w['aoi'], 1e-9, 1e-8, cx)
        table(m, 'total_irrad', per(r.total_irrad, i, n), w['total'], cx)
        m.close('aoi_modifier', per(r.aoi_modifier, i, n), w['iam'], 1e-9, 1e-10, cx)
        m.close('spectral_modifier', per(r.spectral_modifier, i, n), w['spectral'], 1e-9, 1e-10, cx)
        m.close('effective_irradiance', per(r.effective_irradiance, i, n), w['eff'], 1e-9, 1e-8, cx)
        downstream(m, r, i, n, w, cx, s)
    finals(m, r, h, s, ctx)


def downstream(m, r, i, n, w, cx, s):
    m.close('cell_temperature', per(r.cell_temperature, i, n), w['tc'], 1e-9, 1e-8, cx)
    d = per(r.dc, i, n)
    if isinstance(w['dc'], dict):
        table(m, 'dc', d, w['dc'], cx)
    else:
        m.close('dc', d, w['dc'], 1e-9, 1e-8, cx)
    if w.get('diode'):
        table(m, 'diode_params', per(r.diode_params, i, n), {k: np.broadcast_to(v, len(w['tc'])) for k, v in w['diode'].items()}, cx)
    if 'ohmic' in w:
        m.close('dc_ohmic_losses', per(r.dc_ohmic_losses, i, n), w['ohmic'], 4e-6, 1e-8, cx)


def rows_at_mpp(h):
    return any(isinstance(w['dc'], dict) for w in h['rows'])


def finals(m, r, h, s, ctx):
    keep = h['rows'][0].get('keep', 1)
    m.close('losses', r.losses, keep, 1e-12, 0, ctx)
    m.check('ac_type', isinstance(r.ac, pd.Series), dict(ctx, type=type(r.ac)), 'AC power is not a Series')
    m.close('ac', r.ac, h['ac'], 2e-6 if rows_at_mpp(h) else 1e-9, 1e-6, ctx)
    m.check('times', r.times.equals(h['sp'].index) and (not isinstance(r.ac, pd.Series) or r.ac.index.equals(r.times)), ctx, 'times differ from the weather index')


def brief(s):
    return {k: s[k] for k in ('n', 'dc', 'aoi', 'spectral', 'temp', 'ac', 'chain')}


def inferable(s):
    """The PVsyst model is only inferred when the optional R_sh_exp is given too."""
    if s['dc'] == 'pvsyst':
        for a in s['arrays']:
            a['module_parameters'].setdefault('R_sh_exp', 5.5)


def full(m):
    for rd in range(m.n(110, 1500)):
        rng = m.sub('full', rd)
        # every model gets its turn
        s = C.spec(rng, dc=C.DC[rd % 5], aoi=C.IAM_[rd % 7], temp=C.TEMP[(rd // 3) % 5])
        s['chain']['transposition_model'] = C.TRANSPOSITION[(rd // 2) % 7]
        p = C.site(rng)
        w = C.weather(rng, p)
        if s['spectral'] == 'first_solar' and 'precipitable_water' not in w:
            w['precipitable_water'] = 1.5
        if s['n'] > 1 and rng.random() < .6:
            ws = [w] + [C.shifted(rng, w) for _ in range(s['n'] - 1)]
            for x in ws:
                x['precipitable_water'] = 1.5 + rng.random()
            if rng.random() < .3 and 'albedo' in w:
                ws[-1] = ws[-1].drop(columns='albedo')
            arg = tuple(ws) if rng.random() < .6 else list(ws)
        else:
            ws, arg = [w] * s['n'], w
        g = m.sub('gaps', rd)
        if g.random() < .35:           # some cells of the weather were never recorded
            for x in {id(x): x for x in ws}.values():
                for c in g.permutation([c for c in x.columns if c not in ('pressure', 'extra')])[:2]:
                    x.iloc[g.choice(len(x), 3, replace=False), x.columns.get_loc(c)] = np.nan
            m.ev('gaps')
        ctx = dict(spec=brief(s), site=p, cols=list(w.columns), tuple=isinstance(arg, (tuple, list)))
        explicit = rng.random() < .6
        over = {}
        if not explicit:
            inferable(s)
        if explicit and rng.random() < .3:
            over['dc_model'] = s['dc'].upper()
            over['ac_model'] = s['ac'].capitalize()
        if s['spectral'] == 'no_loss' and rng.random() < .4:
            over['spectral_model'] = None
        ok, mc = m.call('build', C.build_chain, s, p, explicit, ctx=ctx, **over)
        m.case((rd, repr(brief(s)), round(p['lat'], 3)), brief(s))
        if not ok:
            continue
        before = snap([x for x in ws])
        ok, _ = m.call('run_model', mc.run_model, arg, ctx=ctx)
        m.check('inputs', before == snap([x for x in ws]), ctx, 'weather modified')
        if ok:
            judge(m, mc, C.Hand(s, p).run(ws), s, ctx)


def inference(m):
    """Which models are inferred, judged by the numbers the run gives."""
    for rd in range(m.n(40, 400)):
        rng = m.sub('infer', rd)
        s = C.spec(rng, dc=C.DC[rd % 5], temp=C.TEMP[rd % 5], aoi=['physical', 'ashrae', 'martin_ruiz', 'interp', 'sapm'][(rd // 2) % 5], spectral='no_loss')
        p = C.site(rng)
        w = C.weather(rng, p, 24)
        k = dict(s['chain'])
        inferable(s)
        ok, mc = m.call('inferred', MC, C.build_system(s), C.build_location(p), ctx=brief(s), **k)
        if not ok:
            continue
        ok, _ = m.call('inferred', mc.run_model, w, ctx=brief(s))
        m.case(('infer', rd, repr(brief(s))))
        if not ok:
            continue
        h = C.Hand(s, p).run([w] * s['n'])
        m.close('inferred', mc.results.ac, h['ac'], 2e-6, 1e-6, brief(s))
        for i in range(s['n']):
            m.close('inferred', per(mc.results.aoi_modifier, i, s['n']), h['rows'][i]['iam'], 1e-9, 1e-9, brief(s))
            m.close('inferred', per(mc.results.cell_temperature, i, s['n']), h['rows'][i]['tc'], 1e-9, 1e-8, brief(s))
    # one array short of parameters: only parameters common to all arrays count
    for rd in range(m.n(20, 100)):
        rng = m.sub('short', rd)
        s = C.spec(rng, n=2, dc=str(rng.choice(['cec', 'sapm', 'pvsyst', 'desoto', 'pvwatts'])), aoi='physical', spectral='no_loss')
        p = C.site(rng)
        inferable(s)
        bad = C.build_system(s)
        need = dict(cec=('a_ref', 'I_L_ref', 'R_s'), desoto=('a_ref', 'R_sh_ref', 'R_s'), pvsyst=('gamma_ref', 'R_sh_0', 'mu_gamma'), pvwatts=('gamma_pdc', 'pdc0'), sapm=('A0', 'C3'))[s['dc']]
        bad.arrays[1].module_parameters.pop(str(rng.choice(need)))
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), aoi_model='physical', ctx=('dc inferred', s['dc']))
        sel = dict(sapm=('C0', 'Isco', 'Mbvmp')).get(s['dc'], need)
        bad = C.build_system(s)
        bad.arrays[1].module_parameters.pop(str(rng.choice(sel)))
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), dc_model=s['dc'], aoi_model='physical', ctx=('dc explicit', s['dc']))
        bad = C.build_system(s)
        bad.arrays[0].temperature_model_parameters = {}
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), aoi_model='physical', ctx='no temperature parameters')
        other = str(rng.choice([t for t in C.TEMP if t != s['temp']]))
        m.raises('rejected', ValueError, MC, C.build_system(s), C.build_location(p), temperature_model=other, aoi_model='physical', ctx=('temperature', s['temp'], other))
        bad = C.build_system(s)
        bad.arrays[0].temperature_model_parameters = C.temp_parameters(rng, s['temp'])
        bad.arrays[1].temperature_model_parameters = C.temp_parameters(rng, other)
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), aoi_model='physical', ctx=('temperature mixed', s['temp'], other))
        bad = C.build_system(s)
        bad.arrays[1].module_parameters.pop('L')
        bad.arrays[1].module_parameters.pop('b', None)
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), ctx=('aoi', s['dc'])) if s['dc'] != 'sapm' else None
        bad = C.build_system(s)
        bad.inverter_parameters = {}
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), aoi_model='physical', ctx='no inverter')
        bad.inverter_parameters = C.cat_pv.rand_adr(rng)
        m.raises('rejected', ValueError, MC, bad, C.build_location(p), aoi_model='physical', ctx='adr with two arrays')
        for key in ('dc_model', 'ac_model', 'aoi_model', 'spectral_model', 'temperature_model', 'losses_model', 'dc_ohmic_model'):
            for v in ('nosuch', '', 'a', str(rng.choice(['ad', 'dr', 'sap', 'pvwatt', 'no_los', 'sapmm', 'physica', 'sandi']))):
                m.raises('rejected', ValueError, MC, C.build_system(s), C.build_location(p), ctx=(key, v), **{**dict(aoi_model='physical'), key: v})
        for key, v in (('transposition_model', 'nosuch'), ('solar_position_method', 'nosuch'), ('airmass_model', 'nosuch')):
            def go():
                MC(C.build_system(s), C.build_location(p), aoi_model='physical', **{key: v}).run_model(C.weather(rng, p, 24))
            m.raises('rejected', ValueError, go, ctx=(key, v))
        m.case(('short', rd, s['dc'], other))
        # incomplete or mismatched weather
        mc = C.build_chain(s, p)
        w = C.weather(rng, p, 24)
        for col in ('ghi', 'dni', 'dhi'):
            m.raises('rejected', ValueError, mc.run_model, w.drop(columns=col), ctx=col)
        m.raises('rejected', ValueError, mc.run_model, (w, w.drop(columns='dni')), ctx='second table incomplete')
        m.raises('rejected', ValueError, mc.run_model, (w, w.iloc[1:]), ctx='index differs')
        m.raises('rejected', ValueError, mc.run_model, (w, w.shift(freq='1h') if w.index.freq is not None else w.set_index(w.index + pd.Timedelta('1h'))), ctx='index differs')
        m.raises('rejected', ValueError, mc.run_model, (w,), ctx='one table for two arrays')
        m.raises('rejected', ValueError, mc.run_model, [w, w, w], ctx='three tables for two arrays')
        poa = pd.DataFrame(dict(poa_global=1., poa_direct=.7, poa_diffuse=.3), index=w.index)
        m.raises('rejected', TypeError, mc.run_model_from_poa, poa, ctx='bare table for two arrays')
        m.raises('rejected', ValueError, mc.run_model_from_poa, (poa, poa.drop(columns='poa_direct')), ctx='poa incomplete')
        m.raises('rejected', ValueError, mc.run_model_from_effective_irradiance, (poa, poa), ctx='no effective irradiance')
        m.raises('rejected', TypeError, mc.run_model_from_effective_irradiance, poa, ctx='bare table for two arrays')
        m.raises('rejected', TypeError, mc.complete_irradiance, w, ctx='bare table for two arrays')


def refused(m):
    """Documented: a missing column, different indices and the wrong number of tables are refused, whichever table it is."""
    for rd in range(m.n(20, 200)):
        rng = m.sub('refused', rd)
        s = C.spec(rng, n=2 + rd % 3, dc=C.DC[rd % 5], aoi='no_loss', spectral='no_loss', temp='sapm')
        p, n = C.site(rng), s['n']
        w = C.weather(rng, p, 24)[['ghi', 'dni', 'dhi']]
        g = w.sum(axis=1)
        tabs = dict(run_model=w, prepare_inputs=w, complete_irradiance=w, run_model_from_poa=pd.DataFrame(dict(poa_direct=.7 * g, poa_diffuse=.3 * g, poa_global=g)),
                    run_model_from_effective_irradiance=pd.DataFrame(dict(effective_irradiance=g, poa_global=g)))
        tabs['prepare_inputs_from_poa'] = tabs['run_model_from_poa']
        mc = C.build_chain(s, p)
        for name, t in tabs.items():
            j = int(rng.integers(n))
            k = int(rng.integers(3))
            many = [t.copy() for _ in range(n)]
            odd = list(many)
            odd[j] = [t.iloc[:-1], t.shift(1, freq='1h'), t.iloc[1:]][k]
            for cont in (tuple, list):
                m.raises('refused', ValueError, getattr(mc, name), cont(odd), ctx=dict(name=name, table=j, why='index', k=k))
                m.raises('refused', ValueError, getattr(mc, name), cont(many[:-1]), ctx=dict(name=name, why='too few', n=n))
                m.raises('refused', ValueError, getattr(mc, name), cont(many + [t]), ctx=dict(name=name, why='too many', n=n))
                if name != 'complete_irradiance':
                    c = str(rng.choice([c for c in t.columns if not (name.endswith('effective_irradiance') and c == 'poa_global')]))
                    miss = list(many)
                    miss[j] = t.drop(columns=c)
                    m.raises('refused', ValueError, getattr(mc, name), cont(miss), ctx=dict(name=name, table=j, why='column', col=c))
            ok, _ = m.call('refused', getattr(mc, name), many, ctx=dict(name=name, after='refusals'))
        m.case(('refused', rd, n))


def complete(m):
    for rd in range(m.n(25, 250)):
        rng = m.sub('complete', rd)
        s = C.spec(rng, dc='pvwatts', aoi='no_loss', spectral='no_loss', temp='sapm')
        p = C.site(rng)
        base = C.weather(rng, p, 24)
        solis = rng.random() < .5
        mc = C.build_chain(s, p, **(dict(clearsky_model='simplified_solis') if solis else {}))
        drop = [str(rng.choice(['ghi', 'dni', 'dhi', 'none'])) for _ in range(s['n'])]
        ws = [(base if i == 0 else C.shifted(rng, base)).drop(columns=[d] if d != 'none' else []) for i, d in enumerate(drop)]
        if rng.random() < .4:          # nothing but irradiance is needed
            ws = [x[[c for c in x.columns if c in ('ghi', 'dni', 'dhi')]] for x in ws]
        arg = ws[0] if s['n'] == 1 else (tuple(ws) if rng.random() < .5 else list(ws))
        before = snap(ws)
        ok, _ = m.call('complete', mc.complete_irradiance, arg, ctx=drop)
        m.check('inputs', before == snap(ws), drop, 'weather modified')
        m.case(('complete', rd, drop))
        if not ok:
            continue
        loc = C.build_location(p)
        sp = loc.get_solarposition(base.index, method=s['chain']['solar_position_method'])
        for i, d in enumerate(drop):
            got = mc.results.weather[i] if s['n'] > 1 else mc.results.weather
            for c in ws[i].columns:
                m.close('complete', got[c], ws[i][c], 0, 0, dict(col=c, drop=d))
            cz = np.cos(np.radians(sp['zenith'].to_numpy()))
            if d == 'ghi':
                m.close('complete', got['ghi'], ws[i]['dhi'] + ws[i]['dni'] * cz, 1e-9, 1e-9, d)
            elif d == 'dhi':
                m.close('complete', got['dhi'], ws[i]['ghi'] - ws[i]['dni'] * cz, 1e-9, 1e-9, d)
            elif d == 'dni':
                cs = pvlib.clearsky.ineichen(sp['apparent_zenith'], loc.get_airmass(solar_position=sp)['airmass_absolute'], 3., altitude=p['alt'],
                                             dni_extra=pvlib.irradiance.get_extra_radiation(base.index)) if not solis else pvlib.clearsky.simplified_solis(sp['apparent_elevation'], pressure=pvlib.atmosphere.alt2pres(p['alt']), dni_extra=pvlib.irradiance.get_extra_radiation(base.index))
                m.close('complete', got['dni'], pvlib.irradiance.dni(ws[i]['ghi'], ws[i]['dhi'], sp['zenith'], dni_clear=cs['dni'], clearsky_tolerance=1.1), 1e-9, 1e-9, d)


def custom(m):
    """User functions in place of each model are called with the chain, once, at their place."""
    for rd in range(m.n(10, 60)):
        rng = m.sub('custom', rd)
        s = C.spec(rng, n=int(rng.choice([1, 2])), dc='cec', aoi='physical', spectral='no_loss', temp='sapm', ac='pvwatts')
        p = C.site(rng)
        w = C.weather(rng, p, 24, cols=['temp_air', 'wind_speed'])
        log = []
        box = (lambda x: x) if s['n'] == 1 else (lambda x: (x,) * s['n'])

        def f_aoi(mc):
            log.append('aoi')
            mc.results.aoi_modifier = box(.9)

        def f_spec(mc):
            log.append('spectral')
            mc.results.spectral_modifier = box(.8)

        def f_temp(mc):
            log.append('temp')
            mc.results.cell_temperature = box(pd.Series(31., w.index))

        def f_dc(mc):
            log.append('dc')
            mc.results.dc = box(pd.DataFrame(dict(p_mp=mc.results.effective_irradiance[0] if s['n'] > 1 else mc.results.effective_irradiance, i_mp=1., v_mp=2.)))

        def f_ohm(mc):
            log.append('ohm')

        def f_loss(mc):
            log.append('loss')
            mc.results.losses = .5

        def f_ac(mc):
            log.append('ac')
            mc.results.ac = (mc.results.dc[0] if s['n'] > 1 else mc.results.dc)['p_mp'] * mc.results.losses
        ok, mc = m.call('custom', MC, C.build_system(s), C.build_location(p), aoi_model=f_aoi, spectral_model=f_spec, temperature_model=f_temp, dc_model=f_dc,
                        dc_ohmic_model=f_ohm, losses_model=f_loss, ac_model=f_ac, transposition_model=s['chain']['transposition_model'])
        if not ok:
            continue
        ok, _ = m.call('custom', mc.run_model, w)
        m.case(('custom', rd, s['n']))
        if ok:
            m.check('custom', log == ['aoi', 'spectral', 'temp', 'dc', 'ohm', 'loss', 'ac'], log, 'user models not called once each in the documented order')
            s2 = dict(s, chain=dict(s['chain'], solar_position_method='nrel_numpy', airmass_model='kastenyoung1989'))
            _, _, _, rows = C.Hand(s2, p).transpose([w] * s['n'])
            a = s['arrays'][0]
            e = .8 * (rows[0]['total']['poa_direct'] * .9 + a['module_parameters'].get('FD', 1.) * rows[0]['total']['poa_diffuse'])
            m.close('custom', mc.results.ac, .5 * e, 1e-9, 1e-8, 'custom models')


def presets(m):
    for rd in range(m.n(10, 80)):
        rng = m.sub('preset', rd)
        p = C.site(rng)
        n = int(rng.choice([1, 2]))
        w = C.weather(rng, p, 24)
        s = C.spec(rng, n=n, dc='pvwatts', aoi='physical', spectral='no_loss', temp='sapm', ac='pvwatts')
        s['chain'] = dict(transposition_model='perez', solar_position_method='nrel_numpy', airmass_model='kastenyoung1989', losses_model='pvwatts', dc_ohmic_model='no_loss')
        over = {}
        if rng.random() < .5:
            s['chain']['transposition_model'] = over['transposition_model'] = 'isotropic'
        ok, mc = m.call('presets', MC.with_pvwatts, C.build_system(s), C.build_location(p), **over)
        if ok and m.call('presets', mc.run_model, w)[0]:
            judge(m, mc, C.Hand(s, p).run([w] * n), s, dict(preset='pvwatts'))
            m.ev('presets')
        s = C.spec(rng, n=n, dc='sapm', aoi='sapm', spectral='sapm', temp='sapm', ac='sandia')
        s['chain'] = dict(transposition_model='haydavies', solar_position_method='nrel_numpy', airmass_model='kastenyoung1989', losses_model='no_loss', dc_ohmic_model='no_loss')
        ok, mc = m.call('presets', MC.with_sapm, C.build_system(s), C.build_location(p))
        if ok and m.call('presets', mc.run_model, w)[0]:
            judge(m, mc, C.Hand(s, p).run([w] * n), s, dict(preset='sapm'))
            m.ev('presets')
        m.case(('preset', rd))


def work(m):
    full(m)
    inference(m)
    with turbidity.table({}, 60):
        complete(m)
    refused(m)
    custom(m)
    presets(m)


if __name__ == '__main__':
    main(mon, work)
