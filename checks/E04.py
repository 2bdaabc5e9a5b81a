"""E04: inverters and transformer obey their equations and limits."""
import numpy as np
import pandas as pd

import pvlib
from mon import cat_pv as P
from mon import gen
from mon.core import Mon, main
from mon.engine import catalogue, snap

mon = Mon('E04', 'distinct (inverter, operating points) batches; multi-input and fitting cases counted per parameter set',
          ['published inverter equations re-implemented as scalar formulas in mon/cat_pv.py'],
          required=['rating', 'night', 'multi', 'multi_one', 'pvwatts_multi', 'transformer_equation', 'fit', 'fit_recovers'])
I = pvlib.inverter


def forms(rng, n):
    k = int(rng.integers(0, 3))
    if k == 0:
        return 'array', lambda x: np.asarray(x, float)
    if k == 1:
        ix = gen.index_kinds(rng, n)
        return 'series', lambda x: pd.Series(np.asarray(x, float), index=ix)
    return 'scalar', None


def limits(m):
    for rd in range(m.n(60, 600)):
        rng = m.sub('lim', rd)
        inv = P.rand_sandia(rng)
        n = 60
        d = P._gen_inv(inv, rng, n)
        d['p_dc'][:6] = [inv['Pso'], np.nextafter(inv['Pso'], 0), np.nextafter(inv['Pso'], 9e9), 0., inv['Pdco'], 10 * inv['Pdco']]
        ctx = dict(inv=inv)
        cont = dict if rng.random() < .5 else pd.Series
        ok, r = m.call('sandia', I.sandia, d['v_dc'], d['p_dc'], cont(inv), ctx=ctx)
        m.case(('sandia', repr(inv), float(d['v_dc'][0])))
        if ok:
            m.check('rating', (np.nanmax(r) <= inv['Paco']), ctx, 'AC above rating')
            low = d['p_dc'] < inv['Pso']
            m.close('night', r[low], -abs(inv['Pnt']), 0, 0, ctx)
            # at the nominal point the rating is reached
            m.close('rating', I.sandia(inv['Vdco'], inv['Pdco'], inv), inv['Paco'], 1e-9, 0, ctx)
        a = P.rand_adr(rng)
        d = P._gen_inv(a, rng, n, 'Pnom', 'Vnom', so=False)
        ok, r = m.call('adr', I.adr, d['v_dc'], d['p_dc'], a, ctx=a)
        if ok:
            f = np.isfinite(r)
            m.check('rating', (r[f] <= a['Pacmax']).all() and (r[f] >= -abs(a['Pnt']) - 1e-12).all(), a, 'AC outside [-Pnt, Pacmax]')
            m.close('night', I.adr(np.array([0.]), np.array([0.]), a), -abs(a['Pnt']), 0, 0, a)
        p0 = float(10 ** rng.uniform(1, 6))
        pd_ = gen.mix(rng, n, 0, 2 * p0, [0., p0])
        en, er = float(rng.uniform(.85, 1)), float(rng.uniform(.9, 1))
        r = I.pvwatts(pd_, p0, en, er)
        m.check('rating', (r <= en * p0 * (1 + 1e-12)).all() and (r >= 0).all(), dict(p0=p0, en=en), 'PVWatts AC outside [0, rating]')
        m.close('night', I.pvwatts(0., p0), 0., 0, 0)
        m.close('rating', I.pvwatts(p0, p0, en, .9637), min(en * p0, p0 * en / .9637 * (.9858 - .0059 - .0162)), 1e-9, 0)


def sandia_multi_ref(vs, ps, inv):
    tot = 0.
    for p in ps:
        tot += p
    if P.isn(tot):
        return np.nan
    if tot < inv['Pso']:
        return -abs(inv['Pnt'])
    acc = sum(p / tot * P.sandia_raw(v, tot, inv) for v, p in zip(vs, ps))
    return min(inv['Paco'], acc)


def multi(m):
    for rd in range(m.n(80, 800)):
        rng = m.sub('multi', rd)
        inv = P.rand_sandia(rng)
        k = int(rng.integers(1, 5))
        n = int(rng.integers(1, 25))
        name, f = forms(rng, n)
        V = [inv['Vdco'] * gen.mix(rng, n, .6, 1.3, [1.]) for _ in range(k)]
        Q = [gen.mix(rng, n, 0, 1.5 * inv['Pdco'] / k, [0., inv['Pso'] / k, inv['Pdco'] / k]) for _ in range(k)]
        if rng.random() < .4:
            z = rng.random(n) < .5
            Q = [np.where(z, 0., q) for q in Q]
        if k > 1 and rng.random() < .3:
            Q[0] = np.zeros(n)
        ctx = dict(k=k, form=name, inv=inv)
        m.case(('multi', k, name, repr(inv), float(Q[-1][0])))
        want = np.array([sandia_multi_ref([v[i] for v in V], [q[i] for q in Q], inv) for i in range(n)])
        box = tuple if rng.random() < .5 else list
        if name == 'scalar':
            got = []
            for i in range(n):
                ok, r = m.call('multi', I.sandia_multi, box(float(v[i]) for v in V), box(float(q[i]) for q in Q), inv, ctx=ctx)
                got.append(float(r) if ok else np.nan)
            tot = np.array([sum(q[i] for q in Q) for i in range(n)])
        else:
            a, b = box(f(v) for v in V), box(f(q) for q in Q)
            before = snap([a, b])
            ok, got = m.call('multi', I.sandia_multi, a, b, inv, ctx=ctx)
            m.check('multi_inputs', before == snap([a, b]), ctx, 'caller data modified')
            if not ok:
                continue
            tot = sum(Q)
        tie = np.abs(tot - inv['Pso']) < 1e-9 * (inv['Pso'] + 1e-9)
        m.close('multi', np.asarray(got, float)[~tie], want[~tie], 1e-9, 1e-9, ctx)
        # a single input, or equal voltages, is the single-input model
        if name == 'array':
            one = I.sandia(V[0], sum(Q), inv)
            m.close('multi_one', I.sandia_multi(box([V[0]]), box([sum(Q)]), inv), one, 1e-10, 1e-10, ctx)
            m.close('multi_one', np.asarray(I.sandia_multi(box([V[0]] * k), box(Q), inv))[~tie], one[~tie], 1e-9, 1e-9, ctx)
        m.raises('multi_arguments', ValueError, I.sandia_multi, tuple(V) + (V[0],), tuple(Q), inv)
        # PVWatts: the sum of the inputs
        p0 = float(inv['Paco'])
        o = P._pvw_opts(rng)
        if name == 'scalar':
            q = [float(x[0]) for x in Q]
        else:
            q = [f(x) for x in Q]
        before = snap(q)
        ok, r = m.call('pvwatts_multi', I.pvwatts_multi, box(q), ctx=dict(o=o, form=name), **o)
        m.check('multi_inputs', before == snap(q), ctx, 'caller data modified')
        if ok:
            w = np.array([P.pvwatts_inv(float(t), **o) for t in np.atleast_1d(sum(np.asarray(x, float) for x in q))])
            m.close('pvwatts_multi', np.atleast_1d(np.asarray(r, float)), w, 1e-10, 1e-10, dict(o=o, form=name))


def transformer(m):
    for rd in range(m.n(80, 800)):
        rng = m.sub('tr', rd)
        n = 30
        R = float(10 ** rng.uniform(3, 7))
        nl, ll = float(rng.uniform(0, .02)), float(rng.choice([rng.uniform(1e-4, .05), 1e-3]))
        p = gen.mix(rng, n, 0, 1.4 * R, [0., R, nl * R])
        ok, o = m.call('transformer', pvlib.transformer.simple_efficiency, p, nl, ll, R, ctx=(nl, ll, R))
        m.case(('tr', nl, ll, R))
        if ok:
            # output + no load loss + load loss of the output = input
            m.close('transformer_equation', o + nl * R + ll * R * (o / R) ** 2, p, 1e-10, 1e-9 * R, dict(nl=nl, ll=ll, R=R))
            m.check('transformer_order', (o <= p + 1e-9 * R).all(), (nl, ll, R), 'output above input')


def fit(m):
    for rd in range(m.n(60, 500)):
        rng = m.sub('fit', rd)
        inv = P.rand_sandia(rng)
        vn = inv['Vdco']
        lev = {'Vmin': vn * float(rng.uniform(.65, .9)), 'Vnom': vn, 'Vmax': vn * float(rng.uniform(1.1, 1.35))}
        if inv['Pso'] <= 0 or inv['C0'] >= 0:
            continue
        # keep to inverters whose equation is well behaved over the voltages
        if any(abs(inv[c] * (v - vn)) > .5 for c in ('C1', 'C2', 'C3') for v in lev.values()):
            continue
        P_, V_, L_, A_ = [], [], [], []
        fr = [.1, .2, .3, .5, .75, 1.] if rng.random() < .5 else list(np.sort(rng.uniform(.08, 1., int(rng.integers(5, 30)))))
        for k, v in lev.items():
            for x in fr:
                p = x * inv['Pdco']
                P_.append(p), V_.append(v), L_.append(k), A_.append(P.sandia_raw(v, p, inv))
        o = rng.permutation(len(P_))
        P_, V_, L_, A_ = (np.array(z)[o] for z in (P_, V_, L_, A_))
        if rng.random() < .5:
            ix = pd.RangeIndex(len(o))
            args = [pd.Series(z, index=ix) for z in (A_, P_, V_, L_)]
        else:
            args = [A_, P_, V_, L_]
        before = snap(args)
        ok, r = m.call('fit', I.fit_sandia, *args, inv['Paco'], inv['Pnt'], ctx=inv)
        m.check('fit_inputs', before == snap(args), inv, 'caller data modified')
        m.case(('fit', repr(inv), len(fr)))
        if not ok:
            continue
        for k in ('Paco', 'Pnt'):
            m.close('fit', r[k], inv[k], 0, 0, inv)
        m.close('fit', r['Vdco'], vn, 1e-9, 0, inv)
        g = I.sandia(V_, P_, r)
        w = I.sandia(V_, P_, inv)
        m.close('fit', g, w, 0, 1e-6 * inv['Paco'], inv)
        # the data lie exactly on the model, so its coefficients come back
        for k, sc in (('Pdco', inv['Pdco']), ('Pso', inv['Pdco']), ('C0', 1 / inv['Paco'])):
            m.close('fit_recovers', r[k], inv[k], 1e-6, 1e-6 * sc, dict(inv=inv, par=k))
        m.close('fit_recovers', r['C1'], inv['C1'], 1e-5, 1e-8, dict(inv=inv, par='C1'))
        m.close('fit_recovers', r['Pso'] * r['C2'], inv['Pso'] * inv['C2'], 1e-4, 1e-8 * inv['Pdco'], dict(inv=inv, par='C2'))
        m.close('fit_recovers', r['C0'] * r['C3'], inv['C0'] * inv['C3'], 1e-4, 1e-8 / inv['Paco'], dict(inv=inv, par='C3'))


def work(m):
    catalogue(m, P.INVERTER, n=m.n(40, 80), quick=5, thorough=50)
    limits(m)
    multi(m)
    transformer(m)
    fit(m)


if __name__ == '__main__':
    main(mon, work)
