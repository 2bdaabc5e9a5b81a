"""E05: cell temperature models satisfy their heat balance and convert consistently."""
import math
import warnings

import numpy as np
import pandas as pd

import pvlib
from mon import cat_pv as P
from mon import gen
from mon.core import Mon, main
from mon.engine import catalogue, snap

mon = Mon('E05', 'distinct (model, parameter set, weather) cases',
          ['published heat balance equations re-implemented as scalar formulas', 'Fuentes: recursion re-implemented from the report with its constants'],
          required=['balance', 'convert', 'roundtrip', 'prilliman', 'prilliman_constant', 'fuentes', 'fuentes_steady', 'fuentes_noct', 'fuentes_causal'])
T = pvlib.temperature


def weather(rng, n):
    return gen.irr(rng, n, 1300), P.tair(rng, n), P.wind(rng, n)


def convert(m):
    for rd in range(m.n(80, 800)):
        rng = m.sub('conv', rd)
        n = 25
        G, A, W = weather(rng, n)
        if rng.random() < .4:
            ix = gen.index_kinds(rng, n)
            G, A, W = (pd.Series(x, index=ix) for x in (G, A, W))
        eta, al = float(rng.uniform(.05, .24)), float(rng.uniform(.8, 1.))
        g = lambda: T.GenericLinearModel(module_efficiency=eta, absorptance=al)  # noqa: E731
        ctx = dict(eta=eta, al=al)
        m.case(('conv', eta, al))
        u0, u1 = float(rng.uniform(10, 35)), float(rng.uniform(0, 9))
        src = {}
        src['faiman'] = (g().use_faiman(u0, u1), T.faiman(G, A, W, u0, u1))
        e2, a2 = (float(rng.uniform(.05, .24)), float(rng.uniform(.8, 1))) if rng.random() < .5 else (None, None)
        uc, uv = float(rng.uniform(10, 35)), float(rng.uniform(0, 3))
        if e2 is not None and rng.random() < .5:      # only one of the two given
            e2, a2 = (e2, None) if rng.random() < .5 else (None, a2)
        kw = {k: v for k, v in dict(module_efficiency=e2, alpha_absorption=a2).items() if v is not None}
        src['pvsyst'] = (g().use_pvsyst(uc, uv, **kw), T.pvsyst_cell(G, A, W, uc, uv, module_efficiency=e2 or eta, alpha_absorption=a2 or al))
        noct = float(rng.uniform(40, 52))
        kw = {k: v for k, v in dict(module_efficiency=e2, transmittance_absorptance=a2).items() if v is not None}
        src['noct_sam'] = (g().use_noct_sam(noct, **kw), T.noct_sam(G, A, W, noct, e2 or eta, transmittance_absorptance=a2 or al))
        for nm, (mod, t) in src.items():
            m.close('convert', mod(G, A, W), t, 1e-9, 1e-8, dict(ctx, source=nm, kw=kw))
            # and on to the other forms
            f = mod.to_faiman()
            m.close('convert', T.faiman(G, A, W, **f), t, 1e-9, 1e-8, dict(ctx, source=nm, to='faiman'))
            f = mod.to_pvsyst()
            m.close('convert', T.pvsyst_cell(G, A, W, **f), t, 1e-9, 1e-8, dict(ctx, source=nm, to='pvsyst'))
            e3 = [0., float(rng.uniform(.05, .24)), rng.uniform(.05, .24, n)][int(rng.integers(0, 3))]
            f = mod.get_generic_linear()
            m.close('convert', mod(G, A, W, e3), T.generic_linear(G, A, W, **dict(f, module_efficiency=e3)), 1e-12, 1e-12, dict(ctx, source=nm, to='own efficiency'))
            m.close('convert', T.generic_linear(G, A, W, **f), t, 1e-9, 1e-8, dict(ctx, source=nm, to='generic'))
            if nm == 'noct_sam':
                f = mod.to_noct_sam()
                m.close('roundtrip', [f['noct'], f['module_efficiency'], f['transmittance_absorptance']], [noct, e2 or eta, a2 or al], 1e-9, 0, ctx)
                m.close('convert', T.noct_sam(G, A, W, **f), t, 1e-9, 1e-8, dict(ctx, to='noct'))
            # to NOCT-SAM: the NOCT condition (1 m/s at module height) is matched
            f = mod.to_noct_sam()
            w1 = 1 / .51
            m.close('convert', T.noct_sam(800., 20., w1, **f), mod(800., 20., w1), 1e-9, 1e-8, dict(ctx, source=nm, to='noct at 1 m/s'))
            lo, hi = (1.4, 5.4) if rng.random() < .5 else (float(rng.uniform(.5, 2)), float(rng.uniform(3, 8)))
            kw2 = {} if lo == 1.4 else dict(wind_fit_low=lo, wind_fit_high=hi)
            f = mod.to_sapm(**kw2)
            for w in (lo, hi):
                m.close('convert', T.sapm_module(900., 20., w, f['a'], f['b']), mod(900., 20., w), 1e-9, 1e-8, dict(ctx, source=nm, to='sapm', w=w))
        m.close('roundtrip', list(src['faiman'][0].to_faiman().values()), [u0, u1], 1e-10, 1e-12, ctx)
        q = src['pvsyst'][0].to_pvsyst()
        m.close('roundtrip', [q['u_c'], q['u_v'], q['module_efficiency'], q['alpha_absorption']], [uc, uv, e2 or eta, a2 or al], 1e-10, 1e-12, ctx)
        a, b = float(rng.uniform(-4, -2.5)), float(rng.uniform(-.1, -.01))
        lo, hi = (1.4, 5.4) if rng.random() < .5 else (float(rng.uniform(.5, 2)), float(rng.uniform(3, 8)))
        kw2 = {} if lo == 1.4 else dict(wind_fit_low=lo, wind_fit_high=hi)
        s = g().use_sapm(a, b, **kw2)
        for w in (lo, hi):
            m.close('convert', s(900., 20., w), T.sapm_module(900., 20., w, a, b), 1e-9, 1e-8, dict(ctx, a=a, b=b, w=w))
        q = s.to_sapm(**kw2)
        m.close('roundtrip', [q['a'], q['b']], [a, b], 1e-9, 1e-12, ctx)
        # efficiency override in the call changes only the heat input
        e3 = float(rng.uniform(.05, .24))
        d = s.get_generic_linear()
        d['module_efficiency'] = e3
        m.close('convert', s(G, A, W, module_efficiency=e3), T.generic_linear(G, A, W, **d), 1e-12, 1e-12, ctx)
        m.close('convert', s.get_generic_linear()['module_efficiency'], eta, 0, 0, ctx)


def balance(m):
    """Heat balances evaluated on the returned temperatures."""
    for rd in range(m.n(40, 400)):
        rng = m.sub('bal', rd)
        n = 40
        G, A, W = weather(rng, n)
        uc, uv, e, a = float(rng.uniform(10, 35)), float(rng.uniform(0, 3)), float(rng.uniform(.05, .24)), float(rng.uniform(.8, 1))
        t = T.pvsyst_cell(G, A, W, uc, uv, e, a)
        m.close('balance', (uc + uv * W) * (t - A), G * a * (1 - e), 1e-9, 1e-7, 'pvsyst')
        ir = rng.uniform(150, 500, n)
        u0, u1, sv, em = float(rng.uniform(10, 35)), float(rng.uniform(0, 9)), float(rng.uniform(0, 1)), float(rng.uniform(.7, 1))
        t = T.faiman_rad(G, A, W, ir, u0, u1, sv, em)
        m.close('balance', (u0 + u1 * W) * (t - A) + em * sv * (P.SIG * (A + 273.15) ** 4 - ir), G, 1e-8, 1e-6, 'faiman_rad')
        m.close('balance', T.faiman_rad(G, A, W, u0=u0, u1=u1), T.faiman(G, A, W, u0, u1), 1e-12, 1e-12, 'faiman_rad without sky')
        noct = float(rng.uniform(40, 50))
        m.close('balance', T.ross(800., 20., noct=noct), noct, 1e-9, 0, 'ross at NOCT')
        m.case(('bal', uc, u0, noct))
        # more light is never colder, more wind never hotter
        for f in (lambda g, w: T.sapm_cell(g, A, w, -3.5, -.06, 3), lambda g, w: T.pvsyst_cell(g, A, w, uc, uv, e, a), lambda g, w: T.faiman(g, A, w, u0, u1),
                  lambda g, w: T.noct_sam(g, A, w, noct, e), lambda g, w: T.generic_linear(g, A, w, uc, uv, e, a)):
            m.check('monotone', (f(G + 10, W) >= f(G, W)).all() and (f(G, W + 1) <= f(G, W) + 1e-9).all() and np.allclose(f(G * 0, W), A), 'monotone', 'temperature response has the wrong sign')
    m.raises('arguments', ValueError, T.ross, 800., 20.)
    m.raises('arguments', ValueError, T.ross, 800., 20., noct=45., k=.03)
    m.raises('arguments', ValueError, T.noct_sam, 800., 20., 1., 45., .2, array_height=3)


def prilliman_ref(tc, w, step, mass, c):
    n = len(tc)
    W = min(int(20 / step + 1e-9), n)
    out = np.full(n, np.nan)
    out[0] = tc[0]
    for i in range(1, n):
        P_ = c[0] + c[1] * w[i] + c[2] * mass + c[3] * w[i] * mass
        num = den = 0.
        for k in range(1, W + 1):
            if i - k < 0 or math.isnan(tc[i - k]):
                continue
            e = math.exp(-P_ * k * step * 60)
            num += e * tc[i - k]
            den += e
        out[i] = num / den if den > 0 else np.nan
        if math.isnan(w[i]):
            out[i] = np.nan
    return out


def prilliman(m):
    for rd in range(m.n(60, 500)):
        rng = m.sub('pri', rd)
        step = float(rng.choice([.5, 1, 2, 3, 4, 5, 7, 10, 15, 19]))
        n = int(rng.integers(3, 60))
        ix = pd.date_range('2021-06-01', periods=n, freq=pd.Timedelta(minutes=step), tz=rng.choice([None, 'UTC', 'Etc/GMT+7']))
        tc = pd.Series(rng.uniform(-10, 70, n), index=ix)
        if rng.random() < .3:
            tc.iloc[rng.random(n) < .15] = np.nan
        w = pd.Series(gen.mix(rng, n, 0, 12, [0.]), index=ix)
        mass = float(rng.choice([11.1, 5., 20.]))
        c = [.0046, .00046, -.00023, -1.6e-5]
        kw = {}
        if mass != 11.1:
            kw['unit_mass'] = mass
        if rng.random() < .3:
            kw['coefficients'] = c = [.005, .0003, -.0001, -1e-5]
        before = snap([tc, w])
        ok, r = m.call('prilliman', T.prilliman, tc, w, ctx=dict(step=step, kw=kw), **kw)
        m.case(('pri', step, n, float(w.iloc[0])))
        m.check('prilliman_inputs', before == snap([tc, w]), step, 'input modified')
        if not ok:
            continue
        m.check('prilliman', r.index.equals(ix), step, 'index differs')
        m.close('prilliman', r, prilliman_ref(tc.to_numpy(), w.to_numpy(), step, mass, c), 1e-8, 1e-8, dict(step=step, n=n, kw=kw))
        # a constant series stays constant
        cst = pd.Series(float(rng.uniform(-10, 70)), index=ix)
        m.close('prilliman_constant', T.prilliman(cst, w, **kw), cst, 1e-10, 0, step)
        # a step of 20 minutes or more: unchanged, with a warning
        st = str(rng.choice(['20min', '30min', '1h', '1D', '36h']))
        ix = pd.date_range('2021-06-01', periods=n, freq=st)
        tc = pd.Series(rng.uniform(-10, 70, n), index=ix)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            ok, r = m.call('prilliman_coarse', T.prilliman, tc, pd.Series(1., index=ix), ctx=st)
        if ok:
            m.check('prilliman_coarse', len(ws) >= 1 and np.array_equal(r, tc), dict(st=st, warnings=len(ws)), 'not returned unchanged with a warning')


SB = 5.669e-8


class Fuentes:
    """The Fuentes (1987) thermal model as published, with the constants of the report's program."""

    def __init__(self, noct, mh=5, wh=9.144, em=.84, ab=.83, tilt=30, width=.31579, length=1.2):
        self.em, self.ab, self.tilt, self.mh, self.wh = em, ab, tilt, mh, wh
        self.D = 2 * width * length / (width + length)
        ti = self.ti = noct + 273.15
        h = self.h(( ti + 293.15) / 2, 1., ti - 293.15, False)
        d = ti - 293.15
        q = ab * 800 - em * SB * (ti ** 4 - 282.21 ** 4) - h * d
        hg = em * SB * (ti ** 2 + 293.15 ** 2) * (ti + 293.15)
        ratio = q / ((hg + h) * d)
        tg = ti ** 4 - ratio * (ti ** 4 - 293.15 ** 4)
        self.clipped = tg < 0
        tg = tg ** .25 if tg > 0 else 0.
        self.clipped |= not 293.15 <= tg <= ti
        tg = min(max(tg, 293.15), ti)
        self.tgrat = (tg - 293.15) / d
        self.conv = (ab * 800 - em * SB * (2 * ti ** 4 - 282.21 ** 4 - tg ** 4)) / (h * d)
        self.cap = 11000. * (1 + (ti - 321.15) / 12 if ti > 321.15 else 1)

    def h(self, tm, wind, dT, turb):
        rho = .003484 * 101325. / tm
        nu = .24237e-6 * tm ** .76 / rho
        k = 2.1695e-4 * tm ** .84
        re = wind * self.D / nu
        if turb and re > 1.2e5:
            f = .0282 / re ** .2 * rho * wind * 1007 / .71 ** .4
        else:
            f = .86 / re ** .5 * rho * wind * 1007 / .71 ** .67
        gr = 9.8 / tm * dT * self.D ** 3 / nu ** 2 * math.sin(math.radians(self.tilt))
        fr = .21 * (gr * .71) ** .32 * k / self.D
        return (f ** 3 + fr ** 3) ** (1 / 3)

    def coeffs(self, t, ta, w):
        ts = .68 * .0552 * ta ** 1.5 + .32 * ta
        hc = self.conv * self.h((t + ta) / 2, w, abs(t - ta), True)
        hs = self.em * SB * (t * t + ts * ts) * (t + ts)
        tg = ta + self.tgrat * (t - ta)
        hg = self.em * SB * (t * t + tg * tg) * (t + tg)
        return hc, hs, hg, ts, tg

    def wind(self, w):
        return w * (self.mh / self.wh) ** .2 + 1e-4

    def run(self, G, A, W, hours):
        t0, s0, out = 293.15, 0., []
        for g, a, w, dt in zip(G, A, W, hours):
            ta, s, wm = a + 273.15, g * self.ab, self.wind(w)
            t = t0
            for _ in range(10):
                hc, hs, hg, ts, tg = self.coeffs(t, ta, wm)
                H = hc + hs + hg
                lam = -H / self.cap * dt * 3600
                ex = math.exp(lam) if lam > -10 else 0.
                # exact solution of C dT/dt = source(t) - H T with the sun rising linearly over the step
                t = t0 * ex + ((1 - ex) * (hc * ta + hs * ts + hg * tg + s0 + (s - s0) / lam) + s - s0) / H
            out.append(t - 273.15)
            t0, s0 = t, s
        return np.array(out)

    def residual(self, t, g, a, w):
        t, ta = t + 273.15, a + 273.15
        hc, hs, hg, ts, tg = self.coeffs(t, ta, self.wind(w))
        return g * self.ab - hc * (t - ta) - hs * (t - ts) - hg * (t - tg), hc + hs + hg


def fuentes(m):
    for rd in range(m.n(40, 300)):
        rng = m.sub('fue', rd)
        n = int(rng.integers(3, 50))
        noct = float(rng.uniform(38, 60))
        kw, rk = {}, {}
        for k, r, v in (('module_height', 'mh', (2, 9)), ('wind_height', 'wh', (3, 15)), ('emissivity', 'em', (.7, .95)), ('absorption', 'ab', (.75, .95)),
                        ('surface_tilt', 'tilt', (5, 80)), ('module_width', 'width', (.3, 1.2)), ('module_length', 'length', (.8, 2.2))):
            if rng.random() < .3:
                kw[k] = rk[r] = float(rng.uniform(*v))
        step = rng.choice(['1min', '5min', '15min', '1h', '3h'])
        ix = pd.date_range('2021-06-01', periods=n, freq=step, tz=rng.choice([None, 'UTC']))
        if rng.random() < .3:       # irregular steps
            ix = pd.DatetimeIndex(ix[0] + pd.to_timedelta(np.cumsum(rng.choice([60, 600, 3600, 7200], n)), unit='s'))
        G, A, W = weather(rng, n)
        G, A, W = (pd.Series(x, index=ix) for x in (G, A, W))
        ref = Fuentes(noct, **rk)
        if ref.clipped and ref.conv <= 0:
            continue
        ctx = dict(noct=noct, kw=kw, step=str(step))
        before = snap([G, A, W])
        ok, r = m.call('fuentes', T.fuentes, G, A, W, noct, ctx=ctx, **kw)
        m.case(('fue', noct, repr(kw), n))
        m.check('fuentes_inputs', before == snap([G, A, W]), ctx, 'input modified')
        if not ok:
            continue
        h = np.diff(ix.asi8) / pd.Timedelta('1h').value if ix.unit == 'ns' else np.diff(ix.as_unit('ns').asi8) / pd.Timedelta('1h').value
        h = np.concatenate([h[:1], h])
        m.check('fuentes', r.index.equals(ix) and r.name == 'tmod', ctx, 'index or name')
        m.close('fuentes', r, ref.run(G, A, W, h), 1e-6, 1e-4, ctx)
        # causality: later weather changes nothing
        j = int(rng.integers(2, n))
        G2, A2, W2 = (x.copy() for x in (G, A, W))
        G2.iloc[j:] += 100
        A2.iloc[j:] += 3
        W2.iloc[j:] += 1
        m.close('fuentes_causal', T.fuentes(G2, A2, W2, noct, **kw).iloc[:j], r.iloc[:j], 0, 0, ctx)
        if j > 2:
            m.close('fuentes_causal', T.fuentes(G.iloc[:j], A.iloc[:j], W.iloc[:j], noct, **kw), r.iloc[:j], 0, 0, ctx)
        # steady state: the heat balance closes
        g, a, w = float(rng.uniform(0, 1200)), float(rng.uniform(-20, 45)), float(rng.uniform(.2, 15))
        ix = pd.date_range('2021-06-01', periods=40, freq='3h')
        c = lambda v: pd.Series(v, index=ix)  # noqa: E731
        t = T.fuentes(c(g), c(a), c(w), noct, **kw)
        res, H = ref.residual(float(t.iloc[-1]), g, a, w)
        m.check('fuentes_steady', abs(res) <= .02 * H, dict(ctx, g=g, a=a, w=w, t=float(t.iloc[-1]), residual=res), 'heat balance does not close at steady state')
        # and the rating condition gives the installed NOCT
        if not ref.clipped and 'wind_height' not in kw:
            w1 = 1 / (kw.get('module_height', 5) / 9.144) ** .2
            t = T.fuentes(c(800.), c(20.), c(w1), noct, **kw)
            m.close('fuentes_noct', t.iloc[-1], noct, 0, .3, ctx)


def work(m):
    catalogue(m, P.TEMP, n=m.n(40, 80), quick=5, thorough=50)
    convert(m)
    balance(m)
    prilliman(m)
    fuentes(m)


if __name__ == '__main__':
    main(mon, work)
