"""C01: spectral factors, field mismatch, response conversions and photon energy equal their definitions."""
import os

import numpy as np
import pandas as pd

from pvlib import pvsystem, spectrum

from mon import cat_spectrum as S
from mon.core import REPO, Mon, main
from mon.engine import catalogue

H, LIGHT, Q = 6.62607015e-34, 299792458., 1.602176634e-19
K = H * LIGHT / Q * 1e9

mon = Mon('C01', 'distinct (function, module type or coefficients, first element) drives and (spectra, response) pairs',
          ['published equations and coefficient tables', 'defining integrals evaluated by an independent trapezoid rule', 'ASTM G173-03 totals'],
          required=['spectrum.spectral_factor_firstsolar.reference', 'spectrum.spectral_factor_polo.reference', 'presets', 'one_of', 'mismatch', 'mismatch_ref', 'mismatch_scale', 'roundtrip', 'sr_qe', 'ape', 'reference_spectra', 'example_sr', 'system'])


def presets(m):
    """every tabulated module type, at several points, by name and by coefficients"""
    for name, tab, ref, args in (
            ('firstsolar', S.FS, S.r_fs, lambda r: dict(precipitable_water=r.uniform(.1, 8), airmass_absolute=r.uniform(.6, 10))),
            ('caballero', S.CAB, S.r_cab, lambda r: dict(precipitable_water=r.uniform(.1, 6), airmass_absolute=r.uniform(.8, 10), aod500=r.uniform(0, .6))),
            ('pvspec', S.PVS, S.r_pvs, lambda r: dict(airmass_absolute=r.uniform(.8, 10), clearsky_index=r.uniform(.05, 1.2))),
            ('jrc', S.JRC, S.r_jrc, lambda r: dict(airmass=r.uniform(.8, 10), clearsky_index=r.uniform(.05, 1.2))),
            ('polo', S.POLO, S.r_polo, lambda r: dict(precipitable_water=r.uniform(.1, 6), airmass_absolute=r.uniform(.8, 10), aod500=r.uniform(.02, .6), aoi=r.uniform(0, 88), pressure=r.uniform(6e4, 1.03e5), albedo=r.uniform(0, 1)))):
        f = getattr(spectrum, 'spectral_factor_' + name)
        for mt in tab:
            for rd in range(m.n(6, 100)):
                rng = m.sub('presets', name, mt, rd)
                a = {k: float(v) for k, v in args(rng).items()}
                m.case((name, mt, rd), dict(model=name, module_type=mt, **a))
                for kw in (dict(module_type=mt), dict(coefficients=tab[mt])):
                    ok, r = m.call('presets', f, **a, **kw, ctx=(name, mt, a))
                    if ok:
                        m.close('presets', float(np.ravel(r)[0]), ref(**a, **kw), 1e-10, 1e-12, dict(model=name, module_type=mt, a=a, by=list(kw)))
    for am in (np.nan, np.array([1.5, np.nan]), pd.Series([np.nan, 2.])):
        mod = dict(A0=.93, A1=.05, A2=-.01, A3=.0005, A4=-1e-5)
        ok, r = m.call('presets', spectrum.spectral_factor_sapm, am, mod, ctx='sapm')
        if ok:
            x = np.ravel(np.asarray(am, float))
            m.close('presets', np.ravel(np.asarray(r, float)), [0. if np.isnan(v) else S.r_sapm(v, mod) for v in x], 1e-10, 1e-12, dict(model='sapm', note='missing air mass gives zero'))
    for name, tab, args in (('firstsolar', S.FS, lambda r: dict(precipitable_water=r.uniform(.1, 8), airmass_absolute=r.uniform(.6, 10))), ('caballero', S.CAB, lambda r: dict(precipitable_water=1., airmass_absolute=2., aod500=.1)),
                            ('pvspec', S.PVS, lambda r: dict(airmass_absolute=2., clearsky_index=.7)), ('jrc', S.JRC, lambda r: dict(airmass=2., clearsky_index=.7)), ('polo', S.POLO, lambda r: dict(precipitable_water=1., airmass_absolute=2., aod500=.1, aoi=30., pressure=1e5))):
        f = getattr(spectrum, 'spectral_factor_' + name)
        rng = m.sub('one', name)
        a = {k: float(v) for k, v in args(rng).items()}
        mt = list(tab)[0]
        m.raises('one_of', (TypeError, ValueError), f, **a)
        m.raises('one_of', (TypeError, ValueError), f, **a, module_type=mt, coefficients=tab[mt])
        m.raises('one_of', (KeyError, ValueError, TypeError), f, **a, module_type='no such module')


def trap(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return float(np.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1])) / 2)


def lin(x, xr, yr):
    """piecewise linear, zero outside"""
    out = []
    for v in x:
        if v < xr[0] or v > xr[-1]:
            out.append(0.)
            continue
        i = min(max(int(np.searchsorted(xr, v, side='right')) - 1, 0), len(xr) - 2)
        out.append(yr[i] + (yr[i + 1] - yr[i]) * (v - xr[i]) / (xr[i + 1] - xr[i]))
    return np.array(out)


def grid(rng, lo, hi, n):
    return np.round(np.sort(rng.choice(np.arange(lo * 4, hi * 4), n, replace=False)) / 4, 2) if rng.random() < .6 else np.linspace(lo, hi, n)


def mismatch(m):
    g173 = pd.read_csv(os.path.join(REPO, 'pvlib', 'data', 'ASTMG173.csv'), header=1, index_col=0)
    x0, y0 = g173.index.to_numpy(float), g173['global'].to_numpy(float)
    for rd in range(m.n(60, 900)):
        rng = m.sub('mm', rd)
        w = grid(rng, float(rng.integers(280, 400)), float(rng.integers(900, 2500)), int(rng.integers(5, 120)))
        n = int(rng.integers(1, 5))
        t = pd.date_range('2021-06-01', periods=n, freq='3h', tz='US/Arizona')
        e = pd.DataFrame(rng.uniform(0, 1.5, (n, len(w))), index=t, columns=w)
        k = int(rng.integers(3, 40))
        ws = grid(rng, float(rng.integers(250, 500)), float(rng.integers(800, 1300)), k)
        sr = pd.Series(rng.uniform(.01, 1, k), index=ws)
        if rng.random() < .3:
            sr = spectrum.get_example_spectral_response()
        ref = None
        if rng.random() < .5:
            wr = grid(rng, 290., 1500., int(rng.integers(5, 60)))
            ref = pd.Series(rng.uniform(.1, 1, len(wr)), index=wr)
        cx = dict(round=rd, n=n, nw=len(w), e_ref=ref is not None, w=(w[0], w[-1]), sr=(sr.index[0], sr.index[-1]))
        m.case(('mm', rd), cx)
        ok, r = m.call('mismatch', spectrum.calc_spectral_mismatch_field, sr, e, e_ref=ref, ctx=cx)
        if not ok:
            continue
        er_x, er_y = (ref.index.to_numpy(float), ref.to_numpy()) if ref is not None else (w, lin(w, x0, y0))
        f = lambda x, y: trap(x, y * lin(x, sr.index.to_numpy(float), sr.to_numpy(float))) / trap(x, y)  # noqa: E731
        base = f(er_x, er_y)
        if not m.check('mismatch', isinstance(r, pd.Series) and r.index.equals(t), cx, 'index of the result'):
            continue
        if base < 1e-6:
            continue
        for i in range(n):
            m.close('mismatch', float(r.iloc[i]), f(w, e.iloc[i].to_numpy()) / base, 1e-9, 1e-10, dict(cx, row=i))
            ok, s = m.call('mismatch', spectrum.calc_spectral_mismatch_field, sr, e.iloc[i], e_ref=ref, ctx=cx)
            if ok:
                m.close('mismatch', float(s), float(r.iloc[i]), 1e-10, 1e-12, dict(cx, row=i, what='one spectrum'))
        # the level of the spectra and of the response does not matter
        c = 10 ** rng.uniform(-3, 3, 3)
        ok, s = m.call('mismatch_scale', spectrum.calc_spectral_mismatch_field, sr * c[0], e * c[1], e_ref=None if ref is None else ref * c[2], ctx=cx)
        if ok:
            m.close('mismatch_scale', s.to_numpy(), r.to_numpy(), 1e-9, 1e-10, cx)
        # one for the reference spectrum itself
        rs = ref if ref is not None else spectrum.get_reference_spectra(wavelengths=w)['global']
        ok, s = m.call('mismatch_ref', spectrum.calc_spectral_mismatch_field, sr, rs * float(c[1]), e_ref=ref, ctx=cx)
        if ok:
            m.close('mismatch_ref', float(s), 1., 1e-9, 1e-10, cx)


def responses(m):
    for rd in range(m.n(60, 800)):
        rng = m.sub('sr', rd)
        k = int(rng.integers(2, 60))
        w = grid(rng, 280., 1300., k)
        y = rng.uniform(0, 1, k)
        y[int(rng.integers(0, k))] = 1.
        kind = ['series', 'array', 'frame', 'series+w', 'scalar'][rd % 5]
        cx = dict(kind=kind, k=k)
        m.case(('sr', rd), cx)
        for f, want in ((spectrum.sr_to_qe, y / w * K), (spectrum.qe_to_sr, y * w / K)):
            back = spectrum.qe_to_sr if f is spectrum.sr_to_qe else spectrum.sr_to_qe
            cx['f'] = f.__name__
            if kind == 'series':
                a, kw = (pd.Series(y, index=w),), {}
            elif kind == 'array':
                a, kw = (y.copy(), w), {}
            elif kind == 'series+w':
                a, kw = (pd.Series(y, index=np.arange(k)),), dict(wavelength=w)
            elif kind == 'frame':
                if rd % 2:
                    a, kw = (y.copy(),), dict(wavelength=w)
                else:
                    a, kw = (pd.Series(y, index=pd.Index(w, name='wavelength'), name='sr'),), {}
                # several devices, one column each: as many devices as wavelengths now and then
                nc = k if rng.random() < .3 and k < 8 else int(rng.integers(1, 5))
                d = pd.DataFrame(rng.uniform(.01, 1, (k, nc)), index=w, columns=[f'd{j}' for j in range(nc)])
                kd = {} if rng.random() < .5 else dict(wavelength=list(w))
                if kd:
                    d.index = np.arange(k)
                for norm in (False, True):
                    ok, r = m.call('sr_qe', f, d, normalize=norm, ctx=dict(cx, columns=nc, normalize=norm), **kd)
                    if ok and m.check('sr_qe', isinstance(r, pd.DataFrame) and r.shape == d.shape and r.index.equals(d.index) and r.columns.equals(d.columns), dict(cx, columns=nc), 'frame'):
                        wd = d.to_numpy() * ((1 / w * K) if f is spectrum.sr_to_qe else (w / K))[:, None]
                        m.close('sr_qe', r.to_numpy(), wd / wd.max(axis=0) if norm else wd, 1e-9, 1e-12, dict(cx, columns=nc, normalize=norm))
            else:
                a, kw = (float(y[0]), float(w[0])), {}
                want = want[:1]
            ok, r = m.call('sr_qe', f, *a, **kw, ctx=cx)
            if not ok:
                continue
            m.close('sr_qe', np.ravel(r), np.ravel(want), 1e-9, 1e-12, cx)
            if isinstance(a[0], pd.Series):
                m.check('sr_qe', isinstance(r, pd.Series) and r.index.equals(a[0].index), cx, 'index')
            kb = dict(kw) if kw else {}
            ab = (r,) if len(a) == 1 else (r, a[1])
            ok, b = m.call('roundtrip', back, *ab, **kb, ctx=cx)
            if ok:
                m.close('roundtrip', np.ravel(b), np.ravel(np.asarray(a[0], float)), 1e-12, 1e-14, cx)
            if kind != 'scalar':
                ok, z = m.call('sr_qe', f, *a, **kw, normalize=True, ctx=cx)
                if ok:
                    m.close('sr_qe', np.ravel(z), want / want.max(), 1e-9, 1e-12, dict(cx, normalize=True))
        m.raises('sr_qe', TypeError, spectrum.sr_to_qe, y)
        m.raises('sr_qe', TypeError, spectrum.qe_to_sr, y.copy())


def ape(m):
    for rd in range(m.n(60, 900)):
        rng = m.sub('ape', rd)
        w = grid(rng, float(rng.integers(280, 400)), float(rng.integers(900, 4000)), int(rng.integers(3, 200)))
        n = int(rng.integers(1, 6))
        t = pd.date_range('2021-06-01', periods=n, freq='3h', tz='UTC')
        e = pd.DataFrame(rng.uniform(0, 1.5, (n, len(w))), index=t, columns=w)
        unit = float(rng.choice([1., 1., 1e-3, 1e3]))
        e = e * unit  # any unit of spectral irradiance: a ratio of two integrals of the same spectrum
        if n > 1 and rng.random() < .3:
            e.iloc[1] = 0.
        cx = dict(n=n, nw=len(w), w=(w[0], w[-1]), unit=unit, round=rd)
        m.case(('ape', rd), cx)
        ok, r = m.call('ape', spectrum.average_photon_energy, e, ctx=cx)
        if ok and m.check('ape', isinstance(r, pd.Series) and r.index.equals(t), cx, 'index'):
            for i in range(n):
                y = e.iloc[i].to_numpy()
                want = trap(w, y) / trap(w, y * w) * K * 1. if y.any() else np.nan
                m.close('ape', float(r.iloc[i]), want, 1e-9, 1e-12, dict(cx, row=i))
                if y.any():
                    m.check('ape', K / w[-1] * (1 - 1e-9) <= float(r.iloc[i]) <= K / w[0] * (1 + 1e-9), dict(cx, row=i, got=float(r.iloc[i])), 'outside the photon energies of the spectrum')
                ok2, s = m.call('ape', spectrum.average_photon_energy, e.iloc[i], ctx=cx)
                if ok2:
                    m.close('ape', float(s), float(r.iloc[i]), 1e-11, 1e-13, dict(cx, row=i))
        bad = e.copy()
        bad.iloc[int(rng.integers(0, n)), int(rng.integers(0, len(w)))] = -10 ** rng.uniform(-9, 0)
        m.raises('ape', ValueError, spectrum.average_photon_energy, bad)
        m.raises('ape', TypeError, spectrum.average_photon_energy, e.to_numpy())


def tables(m):
    g173 = pd.read_csv(os.path.join(REPO, 'pvlib', 'data', 'ASTMG173.csv'), header=1, index_col=0)
    base = spectrum.get_reference_spectra()
    m.check('reference_spectra', list(base.columns) == ['extraterrestrial', 'global', 'direct'], dict(got=list(base.columns)), 'columns')
    m.close('reference_spectra', base.index.to_numpy(float), g173.index.to_numpy(float), 0, 1e-12, {})
    for c, tot in (('global', 1000.37), ('direct', 900.14), ('extraterrestrial', 1347.92)):
        m.close('reference_spectra', trap(base.index, base[c]), tot, 2e-3, 0, dict(col=c, what='published total'))
        m.close('reference_spectra', base[c].to_numpy(), g173[c].to_numpy(float), 0, 1e-15, dict(col=c))
    for rd in range(m.n(30, 400)):
        rng = m.sub('ref', rd)
        w = grid(rng, 250., 4200., int(rng.integers(2, 150)))
        w = [w, list(w), pd.Index(w)][rd % 3]
        ok, r = m.call('reference_spectra', spectrum.get_reference_spectra, wavelengths=w, ctx=dict(w=list(w)[:3]))
        if ok:
            m.check('reference_spectra', np.array_equal(r.index.to_numpy(float), np.asarray(w, float)), dict(w=list(w)[:3]), 'wavelengths')
            for c in g173:
                m.close('reference_spectra', r[c].to_numpy(), lin(np.asarray(w, float), g173.index.to_numpy(float), g173[c].to_numpy(float)), 1e-10, 1e-14, dict(col=c, round=rd))
        m.case(('ref', rd))
    m.raises('reference_spectra', ValueError, spectrum.get_reference_spectra, standard='ASTM X')
    # the example response passes through its published nodes, and is zero outside
    x = np.array([290, 350, 400, 500, 650, 800, 900, 950, 1000, 1050, 1100, 1150, 1190.])
    y = np.array([0, .27, .37, .52, .71, .88, .97, 1, .93, .58, .21, .05, 0])
    ok, r = m.call('example_sr', spectrum.get_example_spectral_response, x, ctx={})
    if ok:
        m.close('example_sr', r.to_numpy(), y, 1e-9, 1e-9, {})
    d = spectrum.get_example_spectral_response()
    m.check('example_sr', d.index[0] == 280 and d.index[-1] == 1200 and np.allclose(np.diff(d.index), 5), dict(i=list(d.index[:3])), 'default wavelengths')
    for rd in range(m.n(20, 200)):
        rng = m.sub('ex', rd)
        w = np.sort(rng.uniform(200, 1300, 50))
        ok, r = m.call('example_sr', spectrum.get_example_spectral_response, w, ctx={})
        if ok:
            o = (w < 290) | (w > 1190)
            m.check('example_sr', (r.to_numpy()[o] == 0).all() and (np.abs(r.to_numpy()) < 1.05).all(), dict(round=rd), 'outside its range, or far from its nodes')
            one = spectrum.get_example_spectral_response(w[20:21])
            m.close('example_sr', float(one.iloc[0]), float(r.iloc[20]), 1e-12, 1e-13, {})


def system(m):
    """the array's technology or own coefficients pick the First Solar preset"""
    tech = {'Multi-c-Si': 'multisi', 'Mono-c-Si': 'monosi', 'Thin Film': 'cigs', 'a-Si/nc': 'asi', 'CIS': 'cigs', 'CIGS': 'cigs', '1-a-Si': 'asi', 'CdTe': 'cdte', 'a-Si': 'asi', 'HIT-Si': 'monosi', 'mc-Si': 'multisi',
            'c-Si': 'multisi', 'Si-Film': 'asi', 'EFG mc-Si': 'multisi', 'GaAs': None, 'a-Si / mono-Si': 'monosi'}
    cells = {k: v for k, v in tech.items() if v}
    for rd in range(m.n(4, 30)):
        for t, mt in cells.items():
            rng = m.sub('sys', t, rd)
            pw, am = pd.Series(rng.uniform(.1, 7, 5)), pd.Series(rng.uniform(.6, 9, 5))
            cf = [float(v) for v in rng.uniform(-.2, 1, 6)]
            for par, kw in ((dict(module_parameters={'Technology': t}), dict(module_type=mt)), (dict(module_parameters={'Material': t}), dict(module_type=mt)), (dict(module_parameters={}, module_type=None) if False else dict(module_parameters={'Technology': t, 'first_solar_spectral_coefficients': cf}), dict(coefficients=cf))):
                s = pvsystem.PVSystem(**par)
                ok, r = m.call('system', s.first_solar_spectral_loss, pw, am, ctx=(t, par))
                if ok:
                    for i in range(5):
                        m.close('system', float(np.asarray(r)[i]), S.r_fs(pw[i], am[i], **kw), 1e-10, 1e-12, dict(technology=t, by=list(par['module_parameters'])))


def full(m):
    catalogue(m, S.ENTRIES, quick=12, thorough=150)
    presets(m)
    mismatch(m)
    responses(m)
    ape(m)
    tables(m)
    system(m)


if __name__ == '__main__':
    main(mon, full)
