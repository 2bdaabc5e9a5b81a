"""E01: every solved operating point lies on the single-diode curve."""
import numpy as np
import pandas as pd

import pvlib
from mon import cat_diode as D
from mon.core import Mon, main
from mon.engine import catalogue

mon = Mon('E01', 'distinct (function, method, parameter batch) evaluations; every returned point judged by an independent bisection of the documented equation',
          ['the single-diode equation with recombination and breakdown terms as documented, solved by bisection to machine precision'],
          required=['i_on_curve', 'v_on_curve', 'residual', 'roundtrip', 'ideal_limit', 'breakdown', 'gradients', 'full_output'])
METH = ['lambertw', 'brentq', 'newton', 'chandrupatla']
S = pvlib.singlediode
SYS = pvlib.pvsystem


def vtol(m, P):
    """voltage tolerance of a method (newton: documented 1e-6 V step)"""
    t = 1e-8 * P[4] + 1e-12 * P[0] * np.where(np.isinf(P[3]), 0, P[3])
    return t + (2e-6 if m == 'newton' else 0.)


def judge_i(m, name, meth, i, v, P, ctx):
    it, vd = D.true_i(v, P)
    sl = D.slope(vd, P)
    isc = np.maximum(np.abs(P[0]), P[1])
    m.ev(name, np.size(i))
    bad = ~(np.abs(i - it) <= 1e-8 * isc + sl * vtol(meth, P) + 1e-15)
    if bad.any():
        k = int(np.argmax(bad))
        m.violate(name, f'{int(bad.sum())}/{bad.size} points off the curve: current {np.atleast_1d(i)[k]!r} at {np.atleast_1d(v)[k]!r} V, should be {np.atleast_1d(it)[k]!r}',
                  dict(ctx, P=[float(np.broadcast_to(q, bad.shape)[k]) for q in P]))
        return False
    return True


def judge_v(m, name, meth, v, i, P, ctx):
    vt, vd = D.true_v(i, P)
    m.ev(name, np.size(v))
    di = 1e-12 * np.maximum(np.abs(P[0]), P[1])
    bad = ~(np.abs(v - vt) <= vtol(meth, P) + 1e-9 * np.abs(vt) + di / np.maximum(D.slope(vd, P), 1e-30) * 1.)
    if bad.any():
        k = int(np.argmax(bad))
        m.violate(name, f'{int(bad.sum())}/{bad.size} points off the curve: voltage {np.atleast_1d(v)[k]!r} at {np.atleast_1d(i)[k]!r} A, should be {np.atleast_1d(vt)[k]!r}',
                  dict(ctx, P=[float(np.broadcast_to(q, bad.shape)[k]) for q in P]))
        return False
    return True


def simple(m, rd):
    rng = m.sub('simple', rd)
    n = int(rng.choice([1, 2, 7, 60]))
    p = D.params(rng, n)
    if rng.random() < .5:      # starlight: curves of millivolts
        p['photocurrent'][int(rng.integers(0, n))] = 10. ** rng.uniform(-6, -2.5)
    P = D.pack(p)
    lit = p['photocurrent'] > 0
    voc, _ = D.true_v(0., P)
    isc, _ = D.true_i(np.zeros(n), P)
    voc, isc = np.where(lit, voc, 0.), np.where(lit, isc, 0.)
    v = voc * rng.uniform(0, .9999, n)
    c = isc * rng.uniform(0, .9999, n)
    for meth in METH:
        ctx = dict(method=meth, n=n)
        m.case(('simple', rd, meth), dict(ctx, first={k: float(x[0]) for k, x in p.items()}))
        ok, i = m.call('i_from_v', SYS.i_from_v, v, **p, method=meth, ctx=ctx)
        if ok and judge_i(m, 'i_on_curve', meth, i, v, P, ctx):
            vd = v + i * p['resistance_series']
            sl = np.abs(-p['saturation_current'] / p['nNsVth'] * np.exp(vd / p['nNsVth']) - 1 / p['resistance_shunt'])
            r = i - D.cur(vd, *P)
            m.check('residual', (np.abs(r) <= 1e-8 * np.maximum(isc, P[1]) + sl * (1 + sl * p['resistance_series']) * vtol(meth, P) * 2 + 1e-15).all(),
                    dict(ctx, r=np.max(np.abs(r))))
            ok, b = m.call('v_from_i', SYS.v_from_i, i, **p, method=meth, ctx=ctx)
            if ok:
                # a current error of rounding size moves the voltage where the curve is flat
                inv = 1 / np.maximum(D.slope(vd, P), 1e-30)
                e = np.abs(b - v)
                m.ev('roundtrip', n)
                bad = ~(e <= 4 * vtol(meth, P) + inv * 1e-11 * np.maximum(isc, P[1]) + 1e-9 * voc + inv * D.slope(vd, P) * vtol(meth, P))
                if bad.any():
                    k = int(np.argmax(bad))
                    m.violate('roundtrip', f'v -> i -> v gave {b[k]!r} for {v[k]!r}', dict(ctx, P=[float(q[k]) if q.ndim else float(q) for q in P]))
        ok, u = m.call('v_from_i', SYS.v_from_i, c, **p, method=meth, ctx=ctx)
        if ok:
            judge_v(m, 'v_on_curve', meth, u, c, P, ctx)
        ok, z = m.call('voc', SYS.v_from_i, 0., **p, method=meth, ctx=ctx)
        if ok:
            judge_v(m, 'v_on_curve', meth, z, np.zeros(n), P, dict(ctx, what='open circuit'))
        ok, z = m.call('isc', SYS.i_from_v, 0., **p, method=meth, ctx=ctx)
        if ok:
            judge_i(m, 'i_on_curve', meth, z, np.zeros(n), P, dict(ctx, what='short circuit'))
        ok, t = m.call('singlediode', SYS.singlediode, *p.values(), method=meth, ctx=ctx)
        if ok:
            judge_v(m, 'v_on_curve', meth, t['v_oc'].to_numpy(), np.zeros(n), P, dict(ctx, what='table open circuit'))
            judge_i(m, 'i_on_curve', meth, t['i_sc'].to_numpy(), np.zeros(n), P, dict(ctx, what='table short circuit'))
            for a, b in (('i_mp', t['v_mp']), ('i_x', t['v_oc'] / 2), ('i_xx', (t['v_oc'] + t['v_mp']) / 2)):
                judge_i(m, 'i_on_curve', meth, t[a].to_numpy(), b.to_numpy(), P, dict(ctx, what='table ' + a))
    # beyond the first quadrant: the explicit and the iterative solution
    v = np.where(rng.random(n) < .5, -rng.uniform(0, 3, n) * np.maximum(voc, 1), voc * rng.uniform(1, 1.05, n))
    for meth in ('lambertw', 'newton'):
        ctx = dict(method=meth, n=n, quadrant=2)
        ok, i = m.call('i_from_v', SYS.i_from_v, v, **p, method=meth, ctx=ctx, expect=(RuntimeError,))
        if ok:
            judge_i(m, 'i_on_curve', meth, i, v, P, ctx)


def limits(m, rd):
    """Rs -> 0 and Rsh -> inf are the limits of small and large values, and Rs=0 is explicit"""
    rng = m.sub('lim', rd)
    n = 20
    p = D.params(rng, n, dark=0, limits=False)
    a = p['nNsVth']
    v = a * np.log(p['photocurrent'] / p['saturation_current'] + 1) * rng.uniform(0, .95, n)
    for meth in METH:
        ctx = dict(method=meth)
        q = dict(p, resistance_series=np.zeros(n))
        ok, i = m.call('Rs0', SYS.i_from_v, v, **q, method=meth, ctx=ctx)
        if ok:
            w = p['photocurrent'] - p['saturation_current'] * (np.exp(v / a) - 1) - v / p['resistance_shunt']
            sl = p['saturation_current'] / a * np.exp(v / a)
            m.check('ideal_limit', (np.abs(i - w) <= 1e-9 * p['photocurrent'] + sl * vtol(meth, D.pack(q))).all(), dict(ctx, got=i[:3], want=w[:3]), 'Rs=0')
        q = dict(p, resistance_shunt=np.full(n, np.inf))
        c = p['photocurrent'] * rng.uniform(0, .999, n)
        ok, u = m.call('Rshinf', SYS.v_from_i, c, **q, method=meth, ctx=ctx)
        if ok:
            w = a * np.log1p((p['photocurrent'] - c) / p['saturation_current']) - c * p['resistance_series']
            m.check('ideal_limit', (np.abs(u - w) <= vtol(meth, D.pack(q)) + 1e-9 * np.abs(w)).all(), dict(ctx, got=u[:3], want=w[:3]), 'Rsh=inf')
        # open circuit of the ideal cell is the closed formula
        q['resistance_series'] = np.zeros(n)
        ok, u = m.call('ideal', SYS.v_from_i, 0., **q, method=meth, ctx=ctx)
        if ok:
            w = a * np.log1p(p['photocurrent'] / p['saturation_current'])
            m.check('ideal_limit', (np.abs(u - w) <= vtol(meth, D.pack(q)) + 1e-9 * w).all(), dict(ctx, got=u[:3], want=w[:3]), 'ideal Voc')


def newton_past_pole(m, i, v, P, ctx):
    """where NsVbi is well below the estimated open-circuit voltage, newton may step over the pole"""
    if not i.size:
        return
    t, vd = D.true_i(v, P)
    bad = ~(np.abs(i - t) <= 1e-8 * P[0] + D.slope(vd, P) * 4e-6)
    m.ev('newton_past_NsVbi', i.size)
    m.events['newton_past_NsVbi_wrong'] = m.events.get('newton_past_NsVbi_wrong', 0) + int(bad.sum())
    if bad.any():
        m.violate('newton_past_NsVbi', f'current {i[bad][0]!r}, should be {t[bad][0]!r}', ctx)
    m.check('newton_past_NsVbi_often', m.events['newton_past_NsVbi_wrong'] <= 3 + .01 * m.events['newton_past_NsVbi'], ctx)


def extended(m, rd):
    rng = m.sub('ext', rd)
    n = int(rng.choice([1, 3, 25]))
    p = D.params(rng, n, dark=0)
    x = D.recomb(rng, n, p, (.75, 2.5))
    if rng.random() < .5:
        off = rng.random(n) < .4
        x['d2mutau'][off], x['NsVbi'][off] = 0., np.inf
    P = D.pack(p, **x)
    voc, _ = D.true_v(0., P)
    isc, _ = D.true_i(np.zeros(n), P)
    v, c = voc * rng.uniform(0, .999, n), isc * rng.uniform(0, .999, n)
    for meth in METH[1:]:
        ctx = dict(method=meth, n=n, recombination=True)
        m.case(('ext', rd, meth), ctx)
        fo = bool(rng.random() < .4) and meth == 'newton'
        kw = {}
        if rng.random() < .3:
            kw['method_kwargs'] = dict(tol=1e-9, maxiter=80) if meth == 'newton' else dict(xtol=1e-13, maxiter=300) if meth == 'brentq' else dict(maxiter=200)
        if fo:
            kw['method_kwargs'] = dict(kw.get('method_kwargs', {}), full_output=True)
        for fn, arg, judge, nm in ((S.bishop88_i_from_v, v, judge_i, 'i_on_curve'), (S.bishop88_v_from_i, c, judge_v, 'v_on_curve')):
            before = repr(kw)
            ok, r = m.call(nm, fn, arg, **p, **x, method=meth, ctx=dict(ctx, kw=kw), **kw)
            m.check('kwargs_kept', repr(kw) == before, ctx)
            if not ok:
                continue
            if fo:
                m.ev('full_output')
                m.check('full_output', isinstance(r, tuple) and len(r) == 2, ctx)
                r, (vd, *_) = r
                e = D.cur(vd, *P)
                m.close('full_output', e if fn is S.bishop88_i_from_v else vd - e * P[2], r, 1e-9, 1e-12, ctx)
            if fn is S.bishop88_i_from_v and meth == 'newton':
                past = x['NsVbi'] < .96 * p['nNsVth'] * np.log1p(p['photocurrent'] / p['saturation_current'])
                newton_past_pole(m, np.asarray(r)[past], arg[past], tuple(np.broadcast_to(z, n)[past] for z in P), ctx)
                keep = ~past
                judge(m, nm, meth, np.asarray(r)[keep], arg[keep], tuple(np.broadcast_to(z, n)[keep] for z in P), ctx)
                continue
            judge(m, nm, meth, np.asarray(r), arg, P, ctx)
        # one at a time
        k = int(rng.integers(0, n))
        q = {a: float(b[k]) for a, b in {**p, **x}.items()}
        Pk = tuple(np.asarray(np.broadcast_to(z, n)[k]) for z in P)
        ok, r = m.call('i_scalar', S.bishop88_i_from_v, float(v[k]), **q, method=meth.upper() if rng.random() < .3 else meth, ctx=ctx)
        if ok and not (meth == 'newton' and x['NsVbi'][k] < .96 * p['nNsVth'][k] * np.log1p(p['photocurrent'][k] / p['saturation_current'][k])):
            judge_i(m, 'i_on_curve', meth, np.atleast_1d(r), np.atleast_1d(v[k]), tuple(np.atleast_1d(z) for z in Pk), ctx)
        ok, r = m.call('v_scalar', S.bishop88_v_from_i, float(c[k]), **q, method=meth, ctx=ctx)
        if ok:
            judge_v(m, 'v_on_curve', meth, np.atleast_1d(r), np.atleast_1d(c[k]), tuple(np.atleast_1d(z) for z in Pk), ctx)
    # reverse bias with breakdown
    b = D.breakdown(rng, n, p)
    P = D.pack(p, **b)
    # from the start value the iteration must see a finite pole distance
    vr = b['breakdown_voltage'] * rng.uniform(0., .85, n)
    ctx = dict(method='newton', n=n, breakdown=True)
    m.case(('brk', rd), ctx)
    ok, i = m.call('breakdown', S.bishop88_i_from_v, vr, **p, **b, method='newton', ctx=ctx, expect=(RuntimeError,))
    if ok:
        i = np.asarray(i)
        vd = vr + i * p['resistance_series']
        phys = vd > b['breakdown_voltage']
        r = i - D.cur(vd, *P)
        h = 1e-6 * p['nNsVth']
        sl = np.abs(D.cur(vd + h, *P) - D.cur(vd - h, *P)) / (2 * h)
        m.ev('breakdown', int(phys.sum()))
        bad = phys & ~(np.abs(r) <= 1e-8 * p['photocurrent'] + sl * (1 + sl * p['resistance_series']) * 4e-6)
        if bad.any():
            k = int(np.argmax(bad))
            m.violate('breakdown', f'residual {r[k]!r} at {vr[k]!r} V', dict(ctx, P=[float(np.broadcast_to(q, n)[k]) for q in P]))


def gradients(m, rd):
    rng = m.sub('grad', rd)
    n = 12
    p = D._gen_b88(rng, n)
    vd = p.pop('diode_voltage')
    if rng.random() < .3:
        for k in ('d2mutau', 'NsVbi'):
            p.pop(k)
    if rng.random() < .3:
        for k in ('breakdown_factor', 'breakdown_voltage', 'breakdown_exp'):
            p.pop(k)
    P = D.pack(p)
    ctx = dict(what='gradients')
    ok, r = m.call('gradients', S.bishop88, vd, **p, gradients=True, ctx=ctx)
    if not ok:
        return
    m.case(('grad', rd), dict(vd=vd[:3]))
    h = 1e-4 * p['nNsVth']

    def iv(x):
        i = D.cur(x, *P)
        return i, x - i * P[2]

    def g(f):      # fourth-order central difference
        return (8 * (f(vd + h) - f(vd - h)) - (f(vd + 2 * h) - f(vd - 2 * h))) / (12 * h)
    gi, gv = g(lambda x: iv(x)[0]), g(lambda x: iv(x)[1])
    sc = np.abs(p['photocurrent']) + np.abs(D.cur(vd, *P))
    m.check('gradients', (np.abs(r[3] - gi) <= 1e-6 * np.abs(gi) + 1e-10 * sc / h).all(), dict(ctx, got=r[3], want=gi), 'di/dvd')
    m.check('gradients', (np.abs(r[4] - gv) <= 1e-6 * np.abs(gv) + 1e-10 * sc * p['resistance_series'] / h).all(), dict(ctx, got=r[4], want=gv), 'dv/dvd')
    m.close('gradients', r[5], r[3] / r[4], 1e-9, 1e-14, ctx)
    m.close('gradients', r[6], r[1] * r[5] + r[0], 1e-9, 1e-12, ctx)

    def gp(x):
        q = S.bishop88(x, **p, gradients=True)
        return q[6]
    g2 = g(gp)
    sc2 = np.abs(gp(vd)) + sc
    m.check('gradients', (np.abs(r[7] - g2) <= 1e-5 * np.abs(g2) + 1e-9 * sc2 / h).all(), dict(ctx, got=r[7], want=g2), 'd2p/dv dvd')


def work(m):
    catalogue(m, D.DIODE, n=16, quick=5, thorough=60)
    for rd in range(m.n(20, 400)):
        simple(m, rd)
    for rd in range(m.n(10, 200)):
        limits(m, rd)
        gradients(m, rd)
    for rd in range(m.n(20, 400)):
        extended(m, rd)
    # the finding listed as known, on its own input
    q = [np.array([z]) for z in (16.711414673131486, 1.31301302951142e-11, 0.28743343538123434, 143.43094964715146, 1.768990690149199, 0.20774012853926127, 40.783595290491846)]
    newton_past_pole(m, S.bishop88_i_from_v(np.array([40.22276744206728]), *q), np.array([40.22276744206728]),
                     D.pack({}, **dict(zip(['photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth', 'd2mutau', 'NsVbi'], q))), 'listed')
    p = D.params(m.rng, 3, dark=0)
    for f in (SYS.i_from_v, SYS.v_from_i):
        m.raises('unknown_method', NotImplementedError, f, 0., **p, method='magic')
    m.raises('unknown_method', NotImplementedError, SYS.singlediode, **p, method='magic')
    m.raises('unknown_method', NotImplementedError, S.bishop88_mpp, **p, method='lambertw')


main(mon, work)
