"""Y03: ModelChain results depend on the current run only, by any entry point."""
import dataclasses

import numpy as np
import pandas as pd

import pvlib
from mon import chain as C
from mon import turbidity
from mon.core import Mon, main
from mon.engine import snap

mon = Mon('Y03', 'distinct (system, sequence of runs) histories',
          ['a freshly built chain given the same single run', 'the full run whose irradiance is handed on', 'the hand composition (mon/chain.py) with measured temperatures'],
          required=['history', 'reproduced from poa', 'reproduced from effective', 'measured', 'container', 'failed run', 'inputs'])
FIELDS = ('solar_position', 'airmass', 'ac', 'tracking', 'losses', 'total_irrad', 'aoi', 'aoi_modifier', 'spectral_modifier', 'cell_temperature', 'effective_irradiance', 'dc',
          'diode_params', 'dc_ohmic_losses', 'weather', 'times', 'albedo')
PER = ('total_irrad', 'aoi', 'aoi_modifier', 'spectral_modifier', 'cell_temperature', 'effective_irradiance', 'dc', 'diode_params', 'dc_ohmic_losses', 'weather', 'albedo')


def brief(s):
    return {k: s[k] for k in ('n', 'dc', 'aoi', 'spectral', 'temp', 'ac', 'chain')}


def state(mc):
    return {f: getattr(mc.results, f, None) for f in FIELDS}


def poa_table(rng, p, w):
    n = len(w)
    g = np.maximum(0, rng.uniform(-200, 1000, n))
    d = pd.DataFrame(dict(poa_direct=g * rng.uniform(.3, .9, n), temp_air=rng.uniform(-5, 40, n), wind_speed=rng.uniform(0, 10, n), precipitable_water=rng.uniform(.4, 4, n)), index=w.index)
    d['poa_diffuse'] = g - d['poa_direct']
    d['poa_global'] = g
    if rng.random() < .3:
        d = d.drop(columns=['temp_air', 'wind_speed'][:int(rng.integers(1, 3))])
    return d


def eff_table(rng, p, w):
    d = poa_table(rng, p, w)
    d['effective_irradiance'] = d['poa_global'] * rng.uniform(.85, 1, len(d))
    return d.drop(columns=['poa_direct', 'poa_diffuse'] + (['poa_global'] if rng.random() < .3 else []))


def measured(rng, tables, s):
    """Add measured temperatures to some tables; say to which."""
    g = []
    for i, d in enumerate(tables):
        k = rng.random()
        g.append(None)
        if k < .3:
            d['cell_temperature'] = rng.uniform(0, 70, len(d))
            g[-1] = ('cell', d['cell_temperature'])
        elif k < .6 and s['temp'] == 'sapm':
            d['module_temperature'] = rng.uniform(0, 70, len(d))
            g[-1] = ('module', d['module_temperature'])
        elif k < .65:
            d['module_temperature'] = rng.uniform(0, 70, len(d))
            if s['temp'] == 'sapm':
                g[-1] = ('module', d['module_temperature'])
            d['cell_temperature'] = rng.uniform(0, 70, len(d))
            g[-1] = ('cell', d['cell_temperature'])
    return g


def operation(rng, s, p, base=None):
    """(entry point, argument, description)"""
    n = s['n']
    kind = str(rng.choice(['model', 'model', 'poa', 'eff', 'complete', 'prepare', 'prepare_poa', 'bad']))
    w = C.weather(rng, p, int(rng.choice([12, 24, 30])))
    if 'precipitable_water' not in w:
        w['precipitable_water'] = 1.7
    if kind in ('model', 'prepare', 'complete'):
        tabs = [w] + [C.shifted(rng, w) for _ in range(n - 1)]
        if rng.random() < .3:
            measured(rng, tabs, s)
        if kind == 'complete':
            col = str(rng.choice(['ghi', 'dni', 'dhi']))
            tabs = [t.drop(columns=col) if rng.random() < .6 else t for t in tabs]
        if n > 1 and kind != 'complete' and rng.random() < .4:
            arg = tabs[0]
        else:
            arg = tabs
        name = dict(model='run_model', prepare='prepare_inputs', complete='complete_irradiance')[kind]
    elif kind == 'bad':
        name, arg = str(rng.choice(['run_model', 'run_model_from_poa', 'run_model_from_effective_irradiance'])), [w.drop(columns=['ghi'])] * n
    else:
        f = eff_table if kind == 'eff' else poa_table
        tabs = [f(rng, p, w) for _ in range(n)]
        if rng.random() < .5 and kind != 'prepare_poa':
            measured(rng, tabs, s)
        arg = tabs
        name = dict(poa='run_model_from_poa', prepare_poa='prepare_inputs_from_poa', eff='run_model_from_effective_irradiance')[kind]
    cont = 'bare'
    if isinstance(arg, list):
        k = rng.random()
        if n == 1 and k < .5:
            arg = arg[0]
        elif k < .75 or n == 1 and name in ('prepare_inputs', 'prepare_inputs_from_poa'):
            arg, cont = tuple(arg), 'tuple'
        else:
            cont = 'list'
    return name, arg, f'{name}[{cont},{len(w)}]'


def do(mc, name, arg):
    try:
        getattr(mc, name)(arg)
        return None
    except Exception as e:   # recorded, compared with what a fresh chain does
        return type(e).__name__


def histories(m):
    for rd in range(m.n(32, 400)):
        rng = m.sub('history', rd)
        s = C.spec(rng, dc=C.DC[rd % 5], aoi=C.IAM_[rd % 7], temp=C.TEMP[(rd // 3) % 5])
        p = C.site(rng)
        if rng.random() < .5:
            s['chain']['clearsky_model'] = 'simplified_solis'
        ok, mc = m.call('build', C.build_chain, s, p, ctx=brief(s))
        if not ok:
            continue
        log = []
        runs = [operation(rng, s, p) for _ in range(int(rng.integers(3, 7)))]
        if rng.random() < .5:
            runs.append(runs[int(rng.integers(0, len(runs)))])
        for name, arg, what in runs:
            log.append(what)
            before = snap(arg)
            err = do(mc, name, arg)
            m.check('inputs', snap(arg) == before, dict(spec=brief(s), log=log), 'the run modified its input')
            fresh = C.build_chain(s, p)
            want = do(fresh, name, arg)
            ctx = dict(spec=brief(s), log=list(log))
            m.check('failed run', err == want, dict(ctx, got=err, want=want), 'fails or succeeds depending on history')
            if want is not None:
                m.ev('failed run')
                continue
            a, b = state(mc), state(fresh)
            diff = [f for f in FIELDS if b[f] is not None and snap(a[f]) != snap(b[f])]
            m.check('history', not diff, dict(ctx, fields=diff), 'differs from a freshly built chain')
            m.n_fields = getattr(m, 'n_fields', 0) + sum(b[f] is not None for f in FIELDS)
        m.case((rd, tuple(log)), dict(spec=brief(s), log=log))


def reproduce(m):
    for rd in range(m.n(35, 500)):
        rng = m.sub('reproduce', rd)
        s = C.spec(rng, dc=C.DC[rd % 5], aoi=C.IAM_[rd % 7], temp=C.TEMP[(rd // 2) % 5])
        p = C.site(rng)
        w = C.weather(rng, p, 24)
        if 'precipitable_water' not in w:
            w['precipitable_water'] = 1.7
        ws = [w] + [C.shifted(rng, w) for _ in range(s['n'] - 1)]
        n = s['n']
        arg = ws[0] if n == 1 else tuple(ws)
        ctx = dict(spec=brief(s), site=p, cols=list(w.columns))
        full = C.build_chain(s, p)
        if not m.call('run_model', full.run_model, arg, ctx=ctx)[0]:
            continue
        r = full.results
        each = (lambda x: (x,)) if n == 1 else (lambda x: x)
        m.case(('reproduce', rd, repr(brief(s))))
        other = full if rng.random() < .5 else C.build_chain(s, p)
        keep = [c for c in ('temp_air', 'wind_speed', 'precipitable_water', 'pressure') if c in w]
        poa = [pd.concat([t, x[keep]], axis=1) for t, x in zip(each(r.total_irrad), ws)]
        eff = [pd.concat([e.rename('effective_irradiance'), t[['poa_global']], x[keep]], axis=1) for e, t, x in zip(each(r.effective_irradiance), each(r.total_irrad), ws)]
        want = state(full)
        for clause, name, tabs, fields in (('reproduced from poa', 'run_model_from_poa', poa, ('solar_position', 'airmass', 'aoi', 'aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'dc', 'diode_params', 'dc_ohmic_losses', 'losses', 'ac')),
                                           ('reproduced from effective', 'run_model_from_effective_irradiance', eff, ('cell_temperature', 'dc', 'diode_params', 'dc_ohmic_losses', 'losses', 'ac'))):
            ok, _ = m.call(clause, getattr(other, name), tabs[0] if n == 1 else (tuple(tabs) if rng.random() < .5 else tabs), ctx=ctx)
            if not ok:
                continue
            for f in fields:
                a, b = getattr(other.results, f), want[f]
                if b is None:
                    continue
                pairs = zip(each(a), each(b)) if f in PER else [(a, b)]
                for i, (x, y) in enumerate(pairs):
                    if isinstance(y, pd.DataFrame):
                        for c in y.columns:
                            m.close(clause, x[c], y[c], 1e-12, 1e-12, dict(ctx, field=f, col=c, array=i))
                    elif isinstance(y, dict):
                        for c in y:
                            m.close(clause, x[c], y[c], 1e-12, 1e-12, dict(ctx, field=f, col=c, array=i))
                    else:
                        m.close(clause, x, y, 1e-12, 1e-12, dict(ctx, field=f, array=i))


def temperatures(m):
    """Measured temperatures enter for the arrays that supply them, by every entry point."""
    for rd in range(m.n(60, 800)):
        rng = m.sub('measured', rd)
        s = C.spec(rng, n=int(rng.choice([1, 2, 2, 3])), dc=C.DC[rd % 5], aoi='no_loss', spectral='no_loss', temp='sapm' if rng.random() < .6 else str(rng.choice(C.TEMP)))
        p = C.site(rng)
        n = s['n']
        w = C.weather(rng, p, 24)
        kind = ['model', 'poa', 'eff'][rd % 3]
        h = C.Hand(s, p)
        if kind == 'model':
            tabs = [w] + [C.shifted(rng, w) for _ in range(n - 1)]
            g = measured(rng, tabs, s)
            _, _, ab, rows = h.transpose(tabs)
            h.effective(tabs, ab, rows)
            name = 'run_model'
        else:
            f = eff_table if kind == 'eff' else poa_table
            tabs = [f(rng, p, w) for _ in range(n)]
            if kind == 'eff' and not all('poa_global' in t for t in tabs):
                # irradiance for the temperature is one or the other for the whole system
                tabs = [t.drop(columns='poa_global', errors='ignore') for t in tabs]
            g = measured(rng, tabs, s)
            rows = []
            for a, t in zip(s['arrays'], tabs):
                if kind == 'poa':
                    rows.append(dict(total=t, eff=t['poa_direct'] + a['module_parameters'].get('FD', 1.) * t['poa_diffuse']))
                else:
                    rows.append(dict(total=t if 'poa_global' in t else None, eff=t['effective_irradiance']))
            name = 'run_model_from_poa' if kind == 'poa' else 'run_model_from_effective_irradiance'
        ctx = dict(spec=brief(s), name=name, given=[x and x[0] for x in g], cols=[list(t.columns) for t in tabs])
        mc = C.build_chain(s, p)
        arg = tabs[0] if n == 1 and rng.random() < .5 else (tuple(tabs) if rng.random() < .5 else tabs)
        ok, _ = m.call('measured', getattr(mc, name), arg, ctx=ctx)
        m.case(('measured', rd, repr(brief(s)), name, tuple(ctx['given'])))
        if not ok:
            continue
        ac = h.power(tabs, rows, measured=g)
        tc = mc.results.cell_temperature
        for i in range(n):
            m.close('measured', tc[i] if isinstance(tc, tuple) else tc, rows[i]['tc'], 1e-10, 1e-9, dict(ctx, array=i))
        m.close('measured', mc.results.ac, ac, 1e-9, 1e-7, ctx)


def containers(m):
    """A one-element tuple or list changes only the container."""
    for rd in range(m.n(30, 300)):
        rng = m.sub('container', rd)
        s = C.spec(rng, n=1, dc=C.DC[rd % 5], aoi=C.IAM_[rd % 7], temp=C.TEMP[(rd // 2) % 5])
        p = C.site(rng)
        w = C.weather(rng, p, 24)
        w['precipitable_water'] = 1.2
        for name, tab in (('run_model', w), ('run_model_from_poa', poa_table(rng, p, w)), ('run_model_from_effective_irradiance', eff_table(rng, p, w))):
            if rng.random() < .4:
                measured(rng, [tab], s)
            ctx = dict(spec=brief(s), name=name, cols=list(tab.columns))
            bare = C.build_chain(s, p)
            if not m.call('container', getattr(bare, name), tab, ctx=ctx)[0]:
                continue
            for cont in ((tab,), [tab]):
                mc = C.build_chain(s, p)
                if not m.call('container', getattr(mc, name), cont, ctx=dict(ctx, cont=type(cont)))[0]:
                    continue
                a, b = state(mc), state(bare)
                for f in FIELDS:
                    x = a[f]
                    if f == 'albedo' and not isinstance(b[f], pd.Series):
                        continue   # constants of the arrays come as a tuple either way
                    if f in PER and b[f] is not None:
                        good = isinstance(x, tuple) and len(x) == 1
                        m.check('container', good, dict(ctx, field=f, type=type(x)), 'not a one-element tuple')
                        x = x[0] if good else x
                    m.check('container', snap(x) == snap(b[f]), dict(ctx, field=f), 'the container changed the numbers')
        m.case(('container', rd, repr(brief(s))))


def work(m):
    with turbidity.table({}, 60):
        histories(m)
    reproduce(m)
    temperatures(m)
    containers(m)


if __name__ == '__main__':
    main(mon, work)
