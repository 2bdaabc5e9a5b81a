"""E02: the maximum power point is a maximum and the points of the table are ordered."""
import sys

import numpy as np
import pandas as pd

import pvlib
from mon import cat_diode as D
from mon import gen
from mon.core import Mon, main

mon = Mon('E02', 'distinct (method, parameter batch, container) tables; maximum power judged against an independent maximiser and against random points of the curve',
          ['the single-diode equation as documented; the maximum found by grid and golden section in diode voltage'],
          required=['mpp_value', 'mpp_beats', 'ordering', 'extra_points', 'dark', 'table_form', 'max_power_point', 'bishop88_mpp', 'fallback'])
METH = ['lambertw', 'brentq', 'newton', 'chandrupatla']
S, SYS = pvlib.singlediode, pvlib.pvsystem
COL = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']


def judge_mpp(m, i, v, p, P, voc, isc, ctx, name, rng, dark):
    i, v, p = (np.asarray(z, float) for z in (i, v, p))
    sc = isc * voc + 1e-30
    if not m.close(name + '_product', p, i * v, 1e-9, 1e-20, ctx):
        return
    ti, tv, tp = D.true_mpp(P)
    tp = np.where(dark, 0., tp)
    bad = ~(np.abs(p - tp) <= 1e-7 * sc + np.where(dark, 1e-9, 0))
    m.ev('mpp_value', p.size)
    if bad.any():
        k = int(np.argmax(bad))
        m.violate('mpp_value', f'{name}: maximum power {p[k]!r}, the curve has {tp[k]!r}', dict(ctx, P=[float(np.broadcast_to(q, p.shape)[k]) for q in P]))
    # the reported point is on the curve
    it, vd = D.true_i(v, P)
    m.ev('mpp_on_curve', p.size)
    off = ~(np.abs(i - it) <= 1e-7 * np.maximum(isc, P[1]) + D.slope(vd, P) * (2e-6 + 1e-12 * P[0] * np.where(np.isinf(P[3]), 0, P[3]))) & ~dark
    if off.any():
        k = int(np.argmax(off))
        m.violate('mpp_on_curve', f'{name}: ({v[k]!r} V, {i[k]!r} A) is off the curve, current there {it[k]!r}', dict(ctx, P=[float(np.broadcast_to(q, p.shape)[k]) for q in P]))
    for _ in range(4):
        x = voc * rng.uniform(0, 1, p.shape)
        m.check('mpp_beats', (x * D.true_i(x, P)[0] <= p + 1e-7 * sc + 1e-12).all(), ctx, f'{name}: another point of the curve gives more power')
    if dark.any():
        m.check('dark', (np.abs(np.stack([p, v, i])[:, dark]) <= 1e-6).all(), dict(ctx, p=p[dark], v=v[dark], i=i[dark]), 'dark module delivers')


def judge_table(m, t, P, voc, isc, ctx, rng, dark, meth):
    g = {c: np.atleast_1d(np.asarray(t[c], float)) for c in COL}
    bad = {c: int(np.isnan(x).sum()) for c, x in g.items() if np.isnan(x).any()}
    m.check('finite', not bad, dict(ctx, nan=bad))
    if bad:
        return
    judge_mpp(m, g['i_mp'], g['v_mp'], g['p_mp'], P, voc, isc, dict(ctx, of='singlediode'), 'table', rng, dark)
    e, ei = 3e-6 + 1e-9 * voc, 1e-8 * isc + 1e-12
    o = ((g['v_mp'] >= -1e-9) & (g['v_mp'] <= g['v_oc'] + e) & (g['i_mp'] >= -1e-12) & (g['i_mp'] <= g['i_sc'] + ei)
         & (g['i_x'] <= g['i_sc'] + ei) & (g['i_xx'] <= g['i_mp'] + ei) & (g['i_xx'] >= -ei) & (g['i_xx'] <= g['i_x'] + ei + 1e9 * (g['v_mp'] < 0))
         & (g['p_mp'] <= g['i_sc'] * g['v_oc'] + 1e-9))
    m.check('ordering', o.all(), dict(ctx, row={c: x[~o][:1] for c, x in g.items()}))
    tol = 1e-8 * isc + 1e-12
    vt = (2e-6 if meth == 'newton' else 0) + 1e-8 * P[4] + 1e-12 * P[0] * np.where(np.isinf(P[3]), 0, P[3])
    for c, at in (('i_x', g['v_oc'] / 2), ('i_xx', (g['v_oc'] + g['v_mp']) / 2)):
        it, vd = D.true_i(at, P)
        m.check('extra_points', (np.abs(g[c] - it) <= tol + D.slope(vd, P) * vt).all(), dict(ctx, col=c, got=g[c][:3], want=it[:3]))
    m.check('extra_points', (np.abs(g['v_oc'] - voc) <= vt + 1e-9 * voc).all(), dict(ctx, got=g['v_oc'][:3], want=voc[:3]), 'v_oc')
    m.check('extra_points', (np.abs(g['i_sc'] - isc) <= tol).all(), dict(ctx, got=g['i_sc'][:3], want=isc[:3]), 'i_sc')


def tables(m, rd):
    rng = m.sub('table', rd)
    n = int(rng.choice([1, 2, 5, 40]))
    p = D.params(rng, n)
    P = D.pack(p)
    dark = p['photocurrent'] == 0
    voc, isc = np.where(dark, 0, D.true_v(0., P)[0]), np.where(dark, 0, D.true_i(np.zeros(n), P)[0])
    idx = pd.date_range('2020-06-01', periods=n, freq='1h', tz='Asia/Tokyo')
    for meth in METH:
        form = str(rng.choice(['array', 'series', 'mixed', 'scalar', 'constants']))
        ctx = dict(method=meth, n=n, form=form)
        m.case(('table', rd, meth, form), dict(ctx, first={k: float(x[0]) for k, x in p.items()}))
        kw = {} if meth == 'lambertw' and rng.random() < .5 else dict(method=meth if rng.random() < .8 else meth.upper())
        if form == 'scalar':
            k = int(rng.integers(0, n))
            ok, t = m.call('singlediode', SYS.singlediode, *[float(x[k]) for x in p.values()], ctx=ctx, **kw)
            if ok:
                m.check('table_form', isinstance(t, dict) and list(t) == COL and all(np.isscalar(x) or np.ndim(x) == 0 for x in t.values()), dict(ctx, got=t))
                s = slice(k, k + 1)
                judge_table(m, t, tuple(np.broadcast_to(q, n)[s] for q in P), voc[s], isc[s], ctx, rng, dark[s], meth)
            continue
        vals = list(p.values())
        Pq, vq, iq, dq = P, voc, isc, dark
        if form == 'constants':      # one module under varying light: some parameters are one number for all
            j = int(rng.integers(0, n))
            vals = [np.full(n, x[j]) for x in vals]
            vals[0] = vals[0] * gen.mix(rng, n, 0, 1.2, [0., 1.])
            for a in (1, 2, 3, 4):
                if rng.random() < .4:
                    vals[a] = vals[a] * rng.uniform(.95, 1.05, n)
            Pq = D.pack(dict(zip(p, vals)))
            dq = vals[0] == 0
            vq, iq = np.where(dq, 0, D.true_v(0., Pq)[0]), np.where(dq, 0, D.true_i(np.zeros(n), Pq)[0])
            vals = [float(x[0]) if a and np.ptp(x) == 0 else x for a, x in enumerate(vals)]
        elif form == 'series':
            vals = [pd.Series(x, index=idx) for x in vals]
        elif form == 'mixed':
            vals = [pd.Series(x, index=idx) if a == 0 or rng.random() < .5 else x for a, x in enumerate(vals)]
        ok, t = m.call('singlediode', SYS.singlediode, *vals, ctx=ctx, **kw)
        if ok:
            m.check('table_form', isinstance(t, pd.DataFrame) and list(t.columns) == COL and len(t) == n, dict(ctx, got=t))
            if form in ('series', 'mixed'):
                m.check('table_form', t.index.equals(idx), dict(ctx, got=t.index), 'index')
            judge_table(m, t, Pq, vq, iq, ctx, rng, dq, meth)
        # the separate maximum power function
        if meth != 'lambertw':
            kw2 = {} if meth == 'brentq' and rng.random() < .5 else dict(method=meth)
            ok, t = m.call('max_power_point', SYS.max_power_point, *vals, ctx=ctx, **kw2)
            if ok:
                m.ev('max_power_point')
                if form in ('series', 'mixed'):
                    m.check('table_form', isinstance(t, pd.DataFrame) and t.index.equals(idx) and set(t.columns) == {'i_mp', 'v_mp', 'p_mp'}, dict(ctx, got=t))
                else:
                    m.check('table_form', set(t) == {'i_mp', 'v_mp', 'p_mp'}, dict(ctx, got=t))
                judge_mpp(m, t['i_mp'], t['v_mp'], t['p_mp'], Pq, vq, iq, dict(ctx, of='max_power_point'), 'max_power_point', rng, dq)
        else:
            # without scipy's elementwise optimisers (older scipy) the answer is the same
            had = sys.modules.get('scipy.optimize.elementwise')
            sys.modules['scipy.optimize.elementwise'] = None
            try:
                ok, u = m.call('fallback', SYS.singlediode, *vals, ctx=ctx)
            finally:
                if had is None:
                    del sys.modules['scipy.optimize.elementwise']
                else:
                    sys.modules['scipy.optimize.elementwise'] = had
            if ok:
                m.ev('fallback')
                judge_table(m, u, Pq, vq, iq, dict(ctx, path='golden section'), rng, dq, meth)


def extended(m, rd):
    rng = m.sub('ext', rd)
    n = int(rng.choice([1, 3, 20]))
    p = D.params(rng, n, dark=0.05)
    kind = str(rng.choice(['recomb', 'breakdown', 'both']))
    x = {}
    if kind != 'breakdown':
        x.update(D.recomb(rng, n, p, (.75, 2.5)))
        off = rng.random(n) < .2
        x['d2mutau'][off], x['NsVbi'][off] = 0., np.inf
    if kind != 'recomb':
        x.update(D.breakdown(rng, n, p))
    P = D.pack(p, **x)
    dark = p['photocurrent'] == 0
    voc, isc = np.where(dark, 0, D.true_v(0., P)[0]), np.where(dark, 0, D.true_i(np.zeros(n), P)[0])
    for meth in METH[1:]:
        ctx = dict(method=meth, n=n, kind=kind)
        m.case(('ext', rd, meth), ctx)
        kw = {}
        fo = False
        if rng.random() < .3 and meth == 'newton':
            fo = bool(rng.random() < .5)
            kw['method_kwargs'] = dict(tol=1e-8, maxiter=60)
            if fo:
                kw['method_kwargs']['full_output'] = True
        ok, r = m.call('bishop88_mpp', S.bishop88_mpp, **p, **x, method=meth, ctx=ctx, **kw)
        if ok:
            m.ev('bishop88_mpp')
            if fo:
                m.check('full_output', len(r) == 2, ctx)
                r = r[0]
            judge_mpp(m, *r[:3], P, voc, isc, dict(ctx, of='bishop88_mpp'), 'bishop88_mpp', rng, dark)
        k = int(rng.integers(0, n))
        q = {a: float(b[k]) for a, b in {**p, **x}.items()}
        ok, r = m.call('bishop88_mpp', S.bishop88_mpp, **q, method=meth, ctx=ctx)
        s = slice(k, k + 1)
        if ok:
            judge_mpp(m, *[np.atleast_1d(z) for z in r[:3]], tuple(np.broadcast_to(z, n)[s] for z in P), voc[s], isc[s],
                      dict(ctx, of='bishop88_mpp scalar'), 'bishop88_mpp', rng, dark[s])
        if kind == 'recomb':
            ok, t = m.call('max_power_point', SYS.max_power_point, *p.values(), x['d2mutau'], x['NsVbi'], method=meth, ctx=ctx)
            if ok:
                judge_mpp(m, t['i_mp'], t['v_mp'], t['p_mp'], P, voc, isc, dict(ctx, of='max_power_point'), 'max_power_point', rng, dark)


def work(m):
    for rd in range(m.n(30, 500)):
        tables(m, rd)
    for rd in range(m.n(25, 400)):
        extended(m, rd)
    # a parameter estimate that is missing stays missing, elsewhere nothing changes
    for rd in range(m.n(6, 60)):
        rng = m.sub('nan', rd)
        p = D.params(rng, 8, dark=0)
        for meth in ('lambertw', 'chandrupatla'):
            a = SYS.singlediode(**p, method=meth)
            q = {k: v.copy() for k, v in p.items()}
            k = str(rng.choice(list(q)))
            q[k][3] = np.nan
            ok, b = m.call('nan', SYS.singlediode, **q, method=meth)
            if ok:
                o = np.arange(8) != 3
                m.close('nan_locality', b.to_numpy()[o], a.to_numpy()[o], 1e-6, 1e-9, dict(method=meth, nan=k))
                m.check('nan_missing', np.isnan(b['p_mp'].iloc[3]), dict(method=meth, nan=k, row=b.iloc[3].to_dict()))


main(mon, work)
