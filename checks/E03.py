"""E03: module models give their published values and reproduce reference conditions."""
import csv
import os
import sys
import tempfile

import numpy as np
import pandas as pd

import pvlib
from mon import cat_pv as P
from mon import gen
from mon.net import Net, Step
from mon.core import Mon, main
from mon.engine import catalogue, snap

mon = Mon('E03', 'distinct (model, parameter set, first operating point); library entries counted once each',
          ['published module equations re-implemented as scalar formulas in mon/cat_pv.py', 'CSV libraries read by an independent parser'],
          required=['reference_conditions', 'library', 'scaling', 'loss_factors', 'sdm_reference', 'adr_reference', 'huld_reference', 'batzelis_reference'])
S = pvlib.pvsystem


def reference_conditions(m):
    for rd in range(m.n(60, 600)):
        rng = m.sub('ref', rd)
        g = 1000.
        # De Soto / CEC / PVsyst: at 1000 W/m2, 25 C (or the given reference) the reference parameters come back
        for kind, fn in (('desoto', S.calcparams_desoto), ('cec', S.calcparams_cec), ('pvsyst', S.calcparams_pvsyst)):
            o = P.sdm_opts(kind)(rng)
            ir, tr = o.get('irrad_ref', 1000.), o.get('temp_ref', 25.)
            for form in (float, lambda x: np.array([x, x]), lambda x: pd.Series([x, x], index=[3, 1])):
                ok, r = m.call('sdm_reference', fn, form(ir), form(tr), ctx=o, **o)
                if not ok:
                    continue
                ref = (o['I_L_ref'], o['I_o_ref'], o['R_s'], o['R_sh_ref'])
                clamp = kind == 'pvsyst' and o['R_sh_ref'] < o['R_sh_0'] * np.exp(-o.get('R_sh_exp', 5.5))
                for name, a, b in zip(('I_L', 'I_o', 'R_s', 'R_sh'), r, ref):
                    if clamp and name == 'R_sh':
                        continue
                    m.close('sdm_reference', a, np.broadcast_to(b, np.shape(a)), 1e-9, 0, dict(kind=kind, par=name, o=o))
            m.case((kind, repr(sorted(o.items()))[:150]))
        # Sandia array model
        t = P._mods()
        mod = t.iloc[:, int(rng.integers(0, t.shape[1]))]
        ok, r = m.call('sapm_reference', S.sapm, 1000., 25., mod, ctx=mod.name)
        if ok:
            for k, v in (('i_sc', mod['Isco']), ('v_oc', mod['Voco'])):
                m.close('reference_conditions', r[k], float(v), 1e-6, 0, dict(module=mod.name, out=k))
            m.close('reference_conditions', r['i_mp'], float(mod['Impo']) * (mod['C0'] + mod['C1']), 1e-9, 0, mod.name)
            m.close('reference_conditions', r['v_mp'], float(mod['Vmpo']), 1e-6, 0, mod.name)
            m.close('reference_conditions', r['p_mp'], r['i_mp'] * r['v_mp'], 1e-12, 0, mod.name)
            m.case(('sapm', mod.name))
        # PVWatts: rating at reference, linear in irradiance
        pd0, ga = float(rng.uniform(50, 1e6)), float(rng.uniform(-.006, 0))
        tr = float(rng.choice([25., 20., 47.]))
        m.close('reference_conditions', S.pvwatts_dc(g, tr, pd0, ga, temp_ref=tr), pd0, 1e-12, 0)
        if tr == 25.:
            m.close('reference_conditions', S.pvwatts_dc(g, 25., pd0, ga), pd0, 1e-12, 0)
        # ADR: efficiency at STC is one in relative terms for any parameters
        k = dict(k_a=float(rng.uniform(50, 110)), k_d=float(rng.uniform(-9, -2)), tc_d=float(rng.uniform(-.02, .04)), k_rs=float(rng.uniform(0, .2)), k_rsh=float(rng.uniform(0, .3)))
        m.close('adr_reference', pvlib.pvarray.pvefficiency_adr(g, 25., **k), k['k_a'], 1e-9, 0, k)
        # Huld: nameplate power at STC with any coefficients
        kk = tuple(float(x) for x in rng.normal(0, .01, 6))
        pd0 = float(rng.uniform(10, 500))
        m.close('huld_reference', pvlib.pvarray.huld(g, 25., pd0, k=kk), pd0, 1e-9, 0, kk)
        for ct in ('csi', 'cis', 'cdte', 'CdTe', 'CSI'):
            m.close('huld_reference', pvlib.pvarray.huld(g, 25., pd0, cell_type=ct), pd0, 1e-9, 0, ct)
        # Batzelis: the datasheet key points come back at STC
        o = P.batz_opts(rng)
        ok, r = m.call('batzelis_reference', pvlib.pvarray.batzelis, g, 25., ctx=o, **o)
        if ok:
            for a, b in (('i_sc', 'i_sc'), ('v_oc', 'v_oc'), ('i_mp', 'i_mp'), ('v_mp', 'v_mp')):
                m.close('batzelis_reference', r[a], o[b], .03, 0, dict(o=o, out=a))
            m.close('batzelis_reference', r['p_mp'], np.asarray(r['i_mp']) * np.asarray(r['v_mp']), 1e-9, 0, o)
    for a in (dict(), dict(cell_type='csi', k=(0, 0, 0, 0, 0, 0))):
        if not a:
            m.raises('huld_arguments', ValueError, pvlib.pvarray.huld, 900., 30., 100.)
    m.raises('huld_arguments', Exception, pvlib.pvarray.huld, 900., 30., 100., cell_type='nosuch')


def scaling(m):
    cols = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
    for rd in range(m.n(25, 250)):
        rng = m.sub('scale', rd)
        n = int(rng.integers(1, 6))
        c = list(rng.permutation(cols))
        if rng.random() < .4:
            c = c[:int(rng.integers(2, 7))]
        d = pd.DataFrame(rng.uniform(.1, 50, (n, len(c))), columns=c, index=gen.index_kinds(rng, n))
        v, i = (float(rng.integers(1, 30)), float(rng.integers(1, 20))) if rng.random() < .7 else (int(rng.integers(1, 30)), 1)
        before = snap(d)
        kw = dict(voltage=v, current=i)
        if rng.random() < .2:
            kw.pop('current')
            i = 1
        ok, r = m.call('scaling', S.scale_voltage_current_power, d, ctx=kw, **kw)
        m.case(('scale', c, v, i))
        if not ok:
            continue
        m.check('scaling', list(r.columns) == c and r.index.equals(d.index), dict(c=c, got=list(r.columns)), 'columns or index changed')
        for k in c:
            f = {'v': v, 'i': i, 'p': v * i}[k[0]]
            m.close('scaling', r[k], d[k] * f, 1e-12, 0, dict(col=k, v=v, i=i))
        m.check('scaling_input', before == snap(d), c, 'input modified')


def loss_factors(m):
    for rd in range(m.n(40, 400)):
        rng = m.sub('cl', rd)
        tz = rng.choice([None, 'UTC', 'America/Denver'])
        idx = pd.date_range('2020-03-0%d' % rng.integers(1, 9), periods=int(rng.integers(2, 40)), freq=str(rng.choice(['1h', '15min', '1D'])), tz=tz)
        k = int(rng.integers(1, 5))
        ls = []
        for _ in range(k):
            j = pd.DatetimeIndex(idx[np.sort(rng.choice(len(idx), int(rng.integers(1, len(idx) + 1)), replace=False))])
            if rng.random() < .3:
                j = j - pd.Timedelta('7min')
            if rng.random() < .3:
                j = idx
            ls.append(pd.Series(gen.mix(rng, len(j), 0, 1, [0., 1., .02]), index=j))
        how = str(rng.choice(['ffill', 'bfill', 'nearest', 'default']))
        kw = {} if how == 'default' else dict(fill_method=how)
        before = snap(ls)
        ok, r = m.call('loss_factors', S.combine_loss_factors, idx, *ls, ctx=dict(k=k, how=how), **kw)
        m.case(('losses', how, k, len(idx), float(ls[0].iloc[0])))
        m.check('loss_factors_input', before == snap(ls), how, 'input loss Series modified')
        if not ok:
            continue
        want = []
        for t in idx:
            f = 1.
            for s in ls:
                d = (s.index - t).total_seconds().to_numpy()
                if how in ('ffill', 'default'):
                    c = np.flatnonzero(d <= 0)
                    v = s.iloc[c[-1]] if len(c) else np.nan
                elif how == 'bfill':
                    c = np.flatnonzero(d >= 0)
                    v = s.iloc[c[0]] if len(c) else np.nan
                else:
                    a = np.abs(d)
                    c = np.flatnonzero(a == a.min())
                    v = s.iloc[c[0]] if len(c) == 1 else None
                f = None if (v is None or f is None) else f * (1 - v)
            want.append(None if f is None else 1 - f)
        sel = [q for q, w in enumerate(want) if w is not None]
        m.close('loss_factors', r.to_numpy()[sel], [want[q] for q in sel], 1e-12, 1e-15, dict(how=how))
        m.check('loss_factors', r.index.equals(idx), how, 'index differs')


NORM = str.maketrans({c: '_' for c in ' -.()[]:+/",'})


def library(m):
    D = os.path.join(os.path.dirname(pvlib.__file__), 'data')
    libs = {'SandiaMod': 'sam-library-sandia-modules-2015-6-30.csv', 'CECInverter': 'sam-library-cec-inverters-2019-03-05.csv',
            'SandiaInverter': 'sam-library-cec-inverters-2019-03-05.csv', 'ADRInverter': 'adr-library-cec-inverters-2019-03-05.csv',
            'CECMod': 'sam-library-cec-modules-2019-03-05.csv'}

    def judge(t, path, tag, share):
        rows = list(csv.reader(open(path, encoding='utf-8')))
        head = [h.replace(' ', '_') for h in rows[0]][1:]
        body = rows[3:]
        m.check('library', list(t.index) == head, dict(tag=tag), 'parameters are not those of the file')
        names = [r[0].translate(NORM) for r in body]
        m.check('library', list(t.columns) == names, dict(tag=tag, n=len(names), got=t.shape[1], first=[(a, b) for a, b in zip(names, t.columns) if a != b][:2]),
                'entries are not those of the file, in order, with normalised names')
        if list(t.columns) != names or list(t.index) != head:
            return
        rng = m.sub('lib', tag)
        for j in rng.choice(len(body), min(len(body), share), replace=False):
            col = t.iloc[:, j]
            for k, x in zip(head, body[j][1:]):
                g = col[k]
                if k == 'ADRCoefficients':
                    m.close('library', g, [float(q) for q in x.strip(' []').split()], 0, 0, dict(entry=names[j]))
                    continue
                if x.strip() in ('', 'N/A', 'NaN', 'nan', 'n/a', 'NA', '#N/A', 'NULL', 'null', 'None'):
                    m.check('library', isinstance(g, float) and np.isnan(g), dict(entry=names[j], par=k, got=g), 'blank is not missing')
                    continue
                try:
                    w = float(x)
                except ValueError:
                    m.check('library', str(g) == x, dict(entry=names[j], par=k, got=g, want=x), 'text differs')
                    continue
                try:
                    m.close('library', float(g), w, 1e-13, 0, dict(entry=names[j], par=k))
                except (TypeError, ValueError):
                    m.violate('library', 'not numeric', dict(entry=names[j], par=k, got=g, want=x))
            m.case(('lib', tag, names[j]))

    for name, f in libs.items():
        p = os.path.join(D, f)
        if not os.path.exists(p):
            m.ev('library_file_absent')
            continue
        for nm in (name, name.lower(), name.upper()):
            ok, t = m.call('library', S.retrieve_sam, nm)
            if ok:
                judge(t, p, nm, m.n(60, 2000))
        ok, t = m.call('library', S.retrieve_sam, path=p)
        if ok:
            judge(t, p, 'path:' + name, m.n(30, 300))
    m.raises('library_arguments', ValueError, S.retrieve_sam)
    m.raises('library_arguments', ValueError, S.retrieve_sam, 'CECInverter', 'x.csv')
    m.raises('library_arguments', KeyError, S.retrieve_sam, 'nosuch')
    # generated libraries with awkward names
    for rd in range(m.n(4, 40)):
        rng = m.sub('glib', rd)
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'lib.csv')
            n = int(rng.integers(1, 9))
            bad = list(' -.()[]:+/",')
            nm = []
            for q in range(n):
                s = ''.join(str(rng.choice(list('abXYZ019_') + bad)) for _ in range(9))
                nm.append(f'M{q}{s}z')
            with open(p, 'w', newline='') as f:
                w = csv.writer(f)
                w.writerow(['Name', 'V ac', 'Pso', 'Some Text', 'C0'])
                w.writerow(['Units', 'V', 'W', '', '1/W'])
                w.writerow(['[0]', 'a', 'b', 'c', 'd'])
                for s in nm:
                    w.writerow([s, repr(float(rng.uniform(100, 500))), repr(float(rng.uniform(0, 90))), 'txt' + str(rng.integers(9)), repr(-float(10 ** rng.uniform(-9, -5)))])
            ok, t = m.call('library', S.retrieve_sam, path=p)
            if ok:
                judge(t, p, f'generated{rd}', 10)
            # the same library behind an address
            url = str(rng.choice(['https', 'http', 'HTTPS'])) + '://example.org/Lib.csv'
            with Net([Step(url, open(p, 'rb').read())]) as net:
                ok, t = m.call('library', S.retrieve_sam, path=url, ctx=url)
            m.check('library address', not net.problems, url, f'{net.problems}')
            if ok:
                judge(t, p, f'generated{rd} ' + url, 10)


def work(m):
    catalogue(m, P.MODULE, n=m.n(40, 80), quick=6, thorough=60)
    reference_conditions(m)
    scaling(m)
    loss_factors(m)
    library(m)


if __name__ == '__main__':
    main(mon, work)
