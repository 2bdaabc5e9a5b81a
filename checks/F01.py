"""F01: parameter estimation recovers the generating model; curve clean-up keeps the valid points."""
import contextlib
import io
import math
import os

import numpy as np
import pandas as pd

from pvlib import inverter, pvarray
from pvlib.ivtools import sde, sdm, utils

from mon import curves as C
from mon.core import Mon, main

mon = Mon('F01', 'distinct (method, generating parameters, sampling) fits',
          ['single-diode curves from the defining equation, parametrised by the diode voltage', 'the published estimation equations in plain numpy'],
          required=['rectify', 'astm', 'astm truth', 'simple', 'simple underdetermined', 'desoto', 'desoto failure', 'batzelis', 'cec', 'cec failure', 'desoto sandia',
                    'pvsyst sandia', 'matrix', 'tempco', 'adr', 'inverter'])


@contextlib.contextmanager
def quiet():
    """the SAM library and least_squares(verbose=2) write to the terminal"""
    null = os.open(os.devnull, os.O_WRONLY)
    keep = [os.dup(1), os.dup(2)]
    try:
        os.dup2(null, 1)
        os.dup2(null, 2)
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        for f in keep + [null]:
            os.close(f)


def junk(rng, v, i, k=None):
    """the same valid points in another order, with points a clean-up must drop"""
    k = int(rng.integers(0, 8)) if k is None else k
    vv, ii = list(v), list(i)
    for _ in range(k):
        z = rng.random()
        a, b = float(rng.uniform(0, v[-1])), float(rng.uniform(0, i[0]))
        if z < .25:
            a = np.nan
        elif z < .5:
            b = np.nan
        elif z < .75:
            a = -a - 1e-9
        else:
            b = -b - 1e-9
        vv.append(a)
        ii.append(b)
    o = rng.permutation(len(vv))
    return np.array(vv)[o], np.array(ii)[o]


def rectify(m, rd):
    rng = m.sub('rect', rd)
    n = int(rng.choice([1, 2, 3, 8, 40, 300]))
    k = rng.random()
    if k < .5:
        p = C.module(rng)[0]
        v, i = C.curve(p, max(n, 3), 'random', rng)
        if rng.random() < .5:
            v, i = np.round(v, 2), np.round(i, 3)
    else:
        v, i = np.round(rng.uniform(0, 6, n), int(rng.integers(0, 3))), rng.uniform(0, 3, n)
    if rng.random() < .4:
        d = rng.integers(0, len(v), 5)
        v, i = np.r_[v, v[d]], np.r_[i, i[d] * rng.uniform(.5, 1.5, 5)]
    gv, gi = junk(rng, v, i)
    dec = None if rng.random() < .5 else int(rng.integers(0, 4))
    ctx = dict(v=gv, i=gi, decimals=dec)
    m.case(('rect', rd), ctx)
    form = [np.array, list, pd.Series][int(rng.integers(0, 3))]
    ok, r = m.call('rectify', utils.rectify_iv_curve, form(gv), form(gi), dec, ctx=ctx)
    if not ok:
        return
    a, b = r
    keep = {}
    for x, y in zip(v, i):
        keep.setdefault(float(x) if dec is None else float(np.round(x, dec)), []).append(float(y))
    want = sorted(keep)
    m.ev('rectify')
    m.check('rectify', np.shape(a) == np.shape(b) == (len(want),), dict(ctx, got=a), 'number of points')
    if np.shape(a) == (len(want),):
        m.close('rectify', a, np.array(want), 1e-14, 1e-14, ctx)
        m.close('rectify', b, np.array([math.fsum(keep[x]) / len(keep[x]) for x in want]), 1e-12, 1e-13, ctx)


def astm_ref(v, i, il, vl, nv, ni, order):
    o = np.argsort(np.abs(i), kind='stable')
    s = np.argsort(np.abs(v), kind='stable')
    voc0, isc0 = v[o[0]], i[s[0]]
    line = np.polynomial.polynomial.Polynomial.fit
    voc = voc0 if abs(i[o[0]]) <= isc0 * .001 else line(i[o[:nv]], v[o[:nv]], 1)(0)
    isc = isc0 if abs(v[s[0]]) <= voc0 * .005 else line(v[s[:ni]], i[s[:ni]], 1)(0)
    p = v * i
    j = int(np.argmax(p))
    k = (i >= il[0] * i[j]) & (i <= il[1] * i[j]) & (v >= vl[0] * v[j]) & (v <= vl[1] * v[j])
    if k.sum() <= order + 2:
        return None
    f = line(v[k], p[k], order)
    x = np.linspace(v[k].min(), v[k].max(), 20001)
    y = f(x)
    b = int(np.argmax(y))
    if b in (0, len(x) - 1):
        return None
    vmp = x[b]
    for _ in range(20):
        d1, d2 = f.deriv()(vmp), f.deriv(2)(vmp)
        if d2 >= 0:
            return None
        vmp -= d1 / d2
    return voc, isc, vmp, f(vmp) / vmp, f(vmp), f(vmp) / voc / isc


def astm(m, rd):
    rng = m.sub('astm', rd)
    p = C.module(rng)[0]
    n = int(rng.choice([25, 60, 150, 500]))
    how = ['vd', 'random'][int(rng.integers(0, 2))]
    v, i = C.curve(p, n, how, rng)
    ends = int(rng.integers(0, 3))
    if ends == 1:
        v, i = v[1:-1], i[1:-1]
    elif ends == 2:                # runs a little past both axes
        d = np.linspace(C.vd_sc(p) - .4, C.vd_oc(p) + .3, n)
        v, i = C.voltage(d, p), C.current(d, p)
    il = (.75, 1.15) if rng.random() < .6 else (float(rng.uniform(.6, .85)), float(rng.uniform(1.1, 1.3)))
    vl = (.75, 1.15) if rng.random() < .6 else (float(rng.uniform(.6, .85)), float(rng.uniform(1.1, 1.3)))
    nv, ni, order = 3, 3, 4
    if rng.random() < .4:
        nv, ni, order = int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.choice([3, 4, 5]))
    o = rng.permutation(len(v))
    ctx = dict(p=p, n=n, how=how, ends=ends, il=il, vl=vl, nv=nv, ni=ni, order=order)
    m.case(('astm', rd, n, how, ends), ctx)
    want = astm_ref(v, i, il, vl, nv, ni, order)
    if want is None:
        m.ev('astm too few points')
        return
    form = [np.array, list][int(rng.integers(0, 2))]
    ok, r = m.call('astm', utils.astm_e1036, form(v[o]), form(i[o]), imax_limits=il, vmax_limits=vl, voc_points=nv, isc_points=ni, mp_fit_order=order, ctx=ctx)
    if not ok:
        return
    m.ev('astm')
    for c, w, tol in zip(('voc', 'isc', 'vmp', 'imp', 'pmp', 'ff'), want, (1e-7, 1e-7, 1e-5, 1e-5, 1e-7, 1e-6)):
        m.close('astm ' + c, r[c], w, tol, 1e-9, ctx)
    m.check('astm', set(r) == {'voc', 'isc', 'vmp', 'imp', 'pmp', 'ff', 'mp_fit'}, ctx)
    m.close('astm', r['mp_fit'](r['vmp']), r['pmp'], 1e-9, 1e-9, ctx)
    if n >= 60 and ends != 1 and (nv, ni, order) == (3, 3, 4) and il == vl == (.75, 1.15):
        t = C.points(p)
        m.ev('astm truth')
        for c, w, tol in zip(('voc', 'isc', 'vmp', 'imp', 'pmp'), (*t, t[2] * t[3]), (4e-3, 2e-3, .012, .016, .006)):
            m.close('astm truth ' + c, r[c], w, tol, 0, ctx)


def simple(m, rd):
    rng = m.sub('simple', rd)
    p = C.module(rng)[0]
    n = int(rng.choice([5, 8, 12, 20, 30, 60, 200, 800]))
    how = ['vd', 'v', 'random'][int(rng.integers(0, 3))]
    if n > 100 and how == 'v':
        how = 'vd'
    v, i = C.curve(p, n, how, rng)
    voc, isc, vmp, imp = C.points(p)
    kw = {}
    if rng.random() < .3:
        kw['v_oc'] = voc
    if rng.random() < .3:
        kw['i_sc'] = isc
    if rng.random() < .5:
        # the caller's own reading of the maximum power point
        kw['v_mp_i_mp'] = (vmp, imp) if rng.random() < .5 else (vmp * float(rng.uniform(.99, 1.01)), imp * float(rng.uniform(.99, 1.01)))
    if rng.random() < .3:
        kw['vlim'] = float(rng.uniform(.15, .4))
    if rng.random() < .3:
        kw['ilim'] = float(rng.uniform(.05, .2))
    ctx = dict(p=p, n=n, how=how, **kw)
    m.case(('simple', rd, n, how), ctx)
    y = p[0] / (1 + p[2] / p[3]) - v / (p[2] + p[3]) - i
    lim = kw.get('ilim', .1) * isc
    if (np.abs(y - lim) < 1e-4 * isc).any():
        return
    strong = int((y > lim).sum())
    flat = int((v < kw.get('vlim', .2) * voc).sum())
    if n >= 12 and flat >= 3 and strong >= 4:
        k = y > lim
        spread = np.linalg.cond(np.c_[np.ones(k.sum()), v[k] / voc, i[k] / isc])
        ok, r = m.call('simple', sde.fit_sandia_simple, v, i, ctx=ctx, **kw)
        if ok and spread < 300:
            m.ev('simple')
            m.check('simple', len(r) == 5 and bool(np.all(np.isfinite(r))), dict(ctx, got=r), 'parameters')
            try:
                t = C.points(tuple(map(float, r)))
            except ValueError:
                m.check('simple', False, dict(ctx, got=r), 'the fitted parameters are no single-diode curve')
                return
            own = kw.get('v_mp_i_mp', (vmp, imp)) != (vmp, imp)
            if not own:
                m.close('simple points', t, (voc, isc, vmp, imp), 2e-3, 0, dict(ctx, fitted=r))
                m.close('simple saturation', math.log(r[1]), math.log(p[1]), .02, 0, ctx)
            # slope of the flat part and of the knee: the parameters themselves
            m.close('simple parameters', np.array(r)[[0, 4]], np.array(p)[[0, 4]], .02, 0, ctx)
            m.close('simple resistances', np.array(r)[[2]], np.array(p)[[2]], .05, .01, ctx)
            m.close('simple shunt', 1 / r[3], 1 / p[3], .05, 5e-4 * isc / voc, ctx)
            # the documented regressions themselves
            flatp, knee = v < kw.get('vlim', .2) * kw.get('v_oc', v[-1]), None
            near = np.abs(v - kw.get('vlim', .2) * kw.get('v_oc', v[-1])) < 1e-6 * voc
            b1, b0 = np.polyfit(v[flatp], i[flatp], 1)
            yy = b0 + b1 * v - i
            lim = kw.get('ilim', .1) * kw.get('i_sc', i[0])
            if b1 < -1e-9 * isc / voc and not near.any() and (np.abs(yy - lim) > 1e-6 * isc).all():
                knee = yy > lim
                _, b3, b4 = np.linalg.lstsq(np.c_[np.ones(knee.sum()), v[knee], i[knee]], np.log(yy[knee]), rcond=None)[0]
                gs = -b1 / (1 + b4 / b3 * b1)
                m.ev('simple regression')
                m.close('simple regression', [r[0], r[2], 1 / r[3], r[4]], [(1 + gs * b4 / b3) * b0, b4 / b3, gs, 1 / b3], 1e-5, 1e-9, dict(ctx, fitted=r))
            # the last step: the mean of the saturation currents at the maximum power point and at open circuit
            best = int(np.argmax(v * i))
            a = kw.get('v_mp_i_mp', (v[best], i[best])), (kw.get('v_oc', v[-1]), 0.)
            i0 = [(r[0] - x[1] - (x[0] + r[2] * x[1]) / r[3]) / math.expm1((x[0] + r[2] * x[1]) / r[4]) for x in a]
            if min(i0) > 0:
                m.close('simple two points', float(r[1]), .5 * (i0[0] + i0[1]), 1e-6, 0, dict(ctx, fitted=r))
    elif strong < 3 and flat >= 2:
        # three unknowns cannot follow from fewer than three points on the knee
        m.ev('simple underdetermined')
        try:
            r = sde.fit_sandia_simple(v, i, **kw)
        except (RuntimeError, np.linalg.LinAlgError):
            return
        bad = not np.all(np.isfinite(r))
        m.check('simple_underdetermined', bad, dict(ctx, got=r, truth=p), f'{strong} points on the knee gave parameters')


def noknee(m, rd):
    """data that are no IV curve"""
    rng = m.sub('noknee', rd)
    n = int(rng.choice([10, 50]))
    v = np.linspace(0, 40, n)
    kind = int(rng.integers(0, 3))
    i = [np.full(n, 5.), 5 + .1 * v, np.full(n, np.nan)][kind]
    ctx = dict(kind=kind, n=n)
    m.case(('noknee', rd), ctx)
    try:
        r = sde.fit_sandia_simple(v, i)
    except (RuntimeError, ValueError, ArithmeticError):
        m.ev('no solution reported')
        return
    m.check('simple_unsolvable', not np.all(np.isfinite(r)), dict(ctx, got=r), 'parameters from data without a solution')


def datasheet(rng, tref=25., g=1000., eg=1.121, degdt=-.0002677):
    p, ns, n = C.module(rng)
    if tref != 25.:
        p = p[:4] + (p[4] * (tref + 273.15) / 298.15,)
        p = (p[0], p[0] * math.exp(-rng.uniform(.54, .68) * ns / p[4])) + p[2:]
    voc, isc, vmp, imp = C.points(p)
    alpha = isc * rng.uniform(.0002, .0008)
    f = lambda t, gg=g: C.desoto(p, gg, t, alpha, eg, degdt, g, tref)
    o2 = C.points(f(tref + 2))
    return p, ns, voc, isc, vmp, imp, alpha, (o2[0] - voc) / 2, (o2[2] * o2[3] / vmp / imp - 1) / 2 * 100


def desoto(m, rd):
    rng = m.sub('desoto', rd)
    tref = float(rng.choice([25., 25., 20., 45.]))
    g = float(rng.choice([1000., 1000., 800.]))
    eg, dg = (1.121, -.0002677) if rng.random() < .6 else (float(rng.uniform(1.0, 1.5)), float(rng.uniform(-4e-4, 0)))
    p, ns, voc, isc, vmp, imp, alpha, beta, _ = datasheet(rng, tref, g, eg, dg)
    kw = {}
    if tref != 25.:
        kw['temp_ref'] = tref
    if g != 1000.:
        kw['irrad_ref'] = g
    if eg != 1.121:
        kw.update(EgRef=eg, dEgdT=dg)
    near = rng.random() < .5
    if near:
        w = rng.uniform(.9, 1.1, 5) if rng.random() < .7 else np.ones(5)
        kw['init_guess'] = {k: x * y for k, x, y in zip(('IL_0', 'Io_0', 'Rs_0', 'Rsh_0', 'a_0'), p, w)}
    ctx = dict(p=p, ns=ns, specs=(vmp, imp, voc, isc, alpha, beta), **kw)
    m.case(('desoto', rd, near), ctx)
    try:
        r, full = sdm.fit_desoto(vmp, imp, voc, isc, alpha, beta, ns, **kw)
    except RuntimeError:
        m.ev('desoto failure')
        return
    except Exception as e:
        m.violate('desoto', f'{type(e).__name__}: {e}', ctx)
        return
    m.ev('desoto')
    m.check('desoto names', {k: r[k] for k in ('alpha_sc', 'EgRef', 'dEgdT', 'irrad_ref', 'temp_ref')} == dict(alpha_sc=alpha, EgRef=eg, dEgdT=dg, irrad_ref=g, temp_ref=tref), dict(ctx, got=r))
    q = tuple(float(r[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref'))
    # the equations of the procedure hold
    i_of = lambda v, i, q: q[0] - q[1] * np.expm1((v + i * q[2]) / q[4]) - (v + i * q[2]) / q[3]
    q2 = C.desoto(q, g, tref + 2, alpha, eg, dg, g, tref)
    e = np.exp((vmp + imp * q[2]) / q[4])
    slope = (q[1] / q[4] * e + 1 / q[3]) / (1 + q[1] * q[2] / q[4] * e + q[2] / q[3])
    res = dict(isc=i_of(0, isc, q) - isc, voc=i_of(voc, 0, q), mp=i_of(vmp, imp, q) - imp, slope=imp - vmp * slope, voc2=i_of(voc + 2 * beta, 0, q2))
    for c, x in res.items():
        m.close('desoto equations', float(x), 0., 0, 2e-5 * isc, dict(ctx, which=c, got=q))
    if q[0] > 0 and q[1] > 0 and q[4] > 0 and q[3] > 0:
        m.close('desoto parameters', q, p, 2e-3, 1e-6, ctx)
    m.check('desoto full', bool(full.success), ctx)


def batzelis(m, rd):
    rng = m.sub('batz', rd)
    p, ns, voc, isc, vmp, imp, alpha, beta, _ = datasheet(rng)
    ctx = dict(p=p, specs=(vmp, imp, voc, isc, alpha, beta))
    m.case(('batz', rd), ctx)
    ok, r = m.call('batzelis', sdm.fit_desoto_batzelis, vmp, imp, voc, isc, alpha, beta, ctx=ctx)
    if not ok:
        return
    m.ev('batzelis')
    d = (1 - beta / voc * 298.15) / (50.1 - alpha / isc * 298.15)
    x = 1 / d + 1                                  # w exp(w) = exp(x)
    w = x - math.log(x)
    for _ in range(50):
        w -= (w + math.log(w) - x) / (1 + 1 / w)
    a = d * voc
    rs = (a * (w - 1) - vmp) / imp
    rsh = a * (w - 1) / (isc * (1 - 1 / w) - imp)
    il = (1 + rs / rsh) * isc
    want = dict(alpha_sc=alpha, a_ref=a, I_L_ref=il, I_o_ref=il * math.exp(-1 / d), R_sh_ref=rsh, R_s=rs)
    m.check('batzelis names', set(r) == set(want), dict(ctx, got=r))
    for c in want:
        m.close('batzelis ' + c, r[c], want[c], 1e-8, 1e-10, ctx)
    if rs >= 0 and rsh > 0:
        t = C.points((il, r['I_o_ref'], rs, rsh, a))
        m.close('batzelis truth', t, (voc, isc, vmp, imp), .06, 0, ctx)


def cec(m, rd):
    rng = m.sub('cec', rd)
    tref = float(rng.choice([25., 25., 20., 30.]))
    p, ns, voc, isc, vmp, imp, alpha, beta, gam = datasheet(rng, tref)
    cell = str(rng.choice(['monoSi', 'multiSi', 'polySi', 'cis', 'cigs', 'cdte', 'amorphous']))
    if rng.random() < .1:
        gam, beta = -gam, -beta
    kw = dict(temp_ref=tref) if tref != 25 or rng.random() < .3 else {}
    ctx = dict(p=p, ns=ns, cell=cell, specs=(vmp, imp, voc, isc, alpha, beta, gam), **kw)
    m.case(('cec', rd, cell), ctx)
    with quiet():
        from PySAM import PySSC
        s = PySSC.ssc_sim_from_dict({'tech_model': '6parsolve', 'financial_model': None, 'celltype': cell, 'Vmp': vmp, 'Imp': imp, 'Voc': voc, 'Isc': isc,
                                     'alpha_isc': alpha, 'beta_voc': beta, 'gamma_pmp': gam, 'Nser': ns, 'Tref': tref})
        try:
            r, err = sdm.fit_cec_sam(cell, vmp, imp, voc, isc, alpha, beta, gam, ns, **kw), None
        except Exception as e:
            r, err = None, e
    if s['cmod_success'] != 1:
        m.ev('cec failure')
        m.check('cec failure', isinstance(err, RuntimeError), dict(ctx, got=r, err=repr(err)), 'failure not reported')
        return
    m.ev('cec')
    if err is not None:
        m.violate('cec', f'{type(err).__name__}: {err}', ctx)
        return
    m.close('cec order', r, [s[k] for k in ('Il', 'Io', 'Rs', 'Rsh', 'a', 'Adj')], 1e-9, 0, ctx)
    if cell in ('monoSi', 'multiSi', 'polySi'):
        m.close('cec truth', C.points(tuple(map(float, r[:5]))), (voc, isc, vmp, imp), 5e-3, 0, dict(ctx, got=r))


def measured(rng, f, gt, full):
    iv = {k: [] for k in ('v', 'i', 'ee', 'tc', 'i_sc', 'v_oc', 'i_mp', 'v_mp')}
    for g, t in gt:
        p = f(g, t)
        v, i = C.curve(p, int(rng.choice([60, 100, 150])), 'vd')
        iv['v'].append(v)
        iv['i'].append(i)
        iv['ee'].append(g)
        iv['tc'].append(t)
        for c, x in zip(('v_oc', 'i_sc', 'v_mp', 'i_mp'), C.points(p)):
            iv[c].append(x)
    for c in ('ee', 'tc', 'i_sc', 'v_oc', 'i_mp', 'v_mp'):
        iv[c] = np.array(iv[c], float)
    return iv


def scrambled(rng, iv):
    """the same curves in another order, their points in another order and with points to be dropped"""
    o = rng.permutation(len(iv['ee']))
    out = {c: iv[c][o] for c in ('ee', 'tc', 'i_sc', 'v_oc', 'i_mp', 'v_mp')}
    vi = [junk(rng, iv['v'][j], iv['i'][j]) for j in o]
    out['v'], out['i'] = [x for x, _ in vi], [x for _, x in vi]
    return out, o


def conditions(rng):
    gs = np.linspace(float(rng.choice([100, 200])), float(rng.choice([1000, 1100])), int(rng.integers(5, 8)))
    ts = np.linspace(float(rng.choice([10, 20])), float(rng.choice([50, 65])), int(rng.integers(3, 5)))
    return [(float(g), float(t)) for t in ts for g in gs]


def sandia_desoto(m, rd):
    import statsmodels.api as sm
    rng = m.sub('dsandia', rd)
    p, ns, *_, alpha, beta, _ = datasheet(rng)
    f = lambda g, t: C.desoto(p, g, t, alpha)
    iv = measured(rng, f, conditions(rng), True)
    spec = dict(cells_in_series=ns, alpha_sc=alpha, beta_voc=beta)
    ctx = dict(p=p, ns=ns, alpha=alpha, beta=beta, n=len(iv['ee']))
    m.case(('dsandia', rd), ctx)
    with quiet():
        ok, r = m.call('desoto_sandia', sdm.fit_desoto_sandia, iv, spec, ctx=ctx)
    if not ok:
        return
    m.ev('desoto sandia')
    q = tuple(float(r[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref'))
    ctx['got'] = q
    m.close('desoto_sandia parameters', q[0], p[0], 2e-3, 0, ctx)
    m.close('desoto_sandia parameters', q[2:], p[2:], .12, 0, ctx)
    m.close('desoto_sandia saturation', math.log(q[1]), math.log(p[1]), .01, 0, ctx)
    m.check('desoto_sandia names', r['cells_in_series'] == ns and r['dEgdT'] == -.0002677, ctx)
    m.close('desoto_sandia at 25', C.points(q), C.points(p), .01, 0, ctx)
    u = np.asarray(r['u'], bool)
    if u.sum() < 6:
        return
    # band gap: the slope of log(io) against the temperature term of the model
    tk = iv['tc'][u] + 273.15
    y = np.log(np.asarray(r['io'])[u]) - 3 * np.log(tk / 298.15)
    eg = {}
    for sign in (-1, 1):
        x = C.Q / C.K * (1 / 298.15 - 1 / tk + sign * -.0002677 * (tk - 298.15) / tk)
        eg[sign] = sm.RLM(y, sm.add_constant(x)).fit().params[1]
    got = float(r['EgRef'])
    m.ev('band gap')
    if not abs(got - 1.121) < .03:
        name = 'desoto_sandia_EgRef' if abs(got - eg[1]) < 1e-6 and abs(eg[-1] - 1.121) < .03 else 'desoto_sandia band gap'
        m.violate(name, f'EgRef {got!r}, generated with 1.121 eV', ctx)
    for j in np.flatnonzero(u)[:: max(1, len(u) // 6)]:
        g, t = iv['ee'][j], iv['tc'][j]
        w = f(g, t)
        m.close('desoto_sandia per curve', [r['iph'][j], r['rs'][j], r['rsh'][j]], [w[0], w[2], w[3]], .25, .01, ctx)
        m.close('desoto_sandia curve', C.points((r['iph'][j], r['io'][j], r['rs'][j], r['rsh'][j], q[4] * (t + 273.15) / 298.15)), C.points(w), .005, 0, ctx)
        m.close('desoto_sandia elsewhere', C.points(C.desoto(q, g, t, alpha)), C.points(w), .02, 0, ctx)
    sc, o = scrambled(rng, iv)
    with quiet():
        ok, r2 = m.call('desoto_sandia', sdm.fit_desoto_sandia, sc, spec, ctx=ctx)
    if ok:
        q2 = tuple(float(r2[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref', 'EgRef'))
        m.close('desoto_sandia order', q2, q + (got,), 2e-3, 0, ctx)
        m.close('desoto_sandia order', r2['iph'], np.asarray(r['iph'])[o], 1e-4, 0, ctx)


def reference(m, rd):
    """the caller's own reference condition, in `const`"""
    rng = m.sub('const', rd)
    const = dict(E0=float(rng.choice([800., 900., 1100.])), T0=float(rng.choice([15., 20., 35., 45.])), k=C.K, q=C.Q)
    p, ns, *_, alpha, beta, _ = datasheet(rng, tref=const['T0'], g=const['E0'])
    f = lambda g, t: C.desoto(p, g, t, alpha, g0=const['E0'], t0=const['T0'])
    iv = measured(rng, f, conditions(rng), True)
    ctx = dict(p=p, ns=ns, const=const)
    m.case(('const', rd), ctx)
    with quiet():
        ok, r = m.call('reference_condition', sdm.fit_desoto_sandia, iv, dict(cells_in_series=ns, alpha_sc=alpha, beta_voc=beta), const=const, ctx=ctx)
    if ok:
        m.ev('reference condition')
        q = tuple(float(r[k]) for k in ('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref'))
        ctx['got'] = q
        m.close('reference_condition desoto', q[0], p[0], 2e-3, 0, ctx)
        m.close('reference_condition desoto', q[2:], p[2:], .12, 0, ctx)
        m.close('reference_condition desoto', C.points(q), C.points(p), .01, 0, ctx)
    q = dict(pvsyst_module(rng), temp_ref=const['T0'])
    const['E0'] = 1000.
    gt = conditions(rng)
    if not any(g < 400 for g, _ in gt):
        return
    iv = measured(rng, lambda g, t: C.pvsyst(q, g, t), gt, True)
    ctx = dict(q=q, const=const)
    with quiet():
        ok, r = m.call('reference_condition', sdm.fit_pvsyst_sandia, iv, dict(cells_in_series=q['cells_in_series'], alpha_sc=q['alpha_sc']), const=const, ctx=ctx)
    if ok:
        ctx['got'] = {k: v for k, v in r.items() if np.ndim(v) == 0}
        for c, tol in (('I_L_ref', 1e-3), ('EgRef', .02), ('R_sh_ref', .02), ('R_sh_0', .02), ('R_s', .02), ('gamma_ref', .004)):
            m.close('reference_condition pvsyst ' + c, r[c], q[c], tol, 0, ctx)
        m.close('reference_condition pvsyst I_o_ref', math.log(r['I_o_ref']), math.log(q['I_o_ref']), .006, 0, ctx)


def pvsyst_module(rng):
    p, ns, n = C.module(rng)
    return dict(alpha_sc=p[0] * rng.uniform(.0002, .0007), gamma_ref=n, mu_gamma=float(rng.uniform(-.001, .0005)), I_L_ref=p[0], I_o_ref=p[1], R_sh_ref=p[3],
                R_sh_0=p[3] * rng.uniform(2, 6), R_sh_exp=5.5, R_s=p[2], cells_in_series=ns, EgRef=1.121)


def sandia_pvsyst(m, rd):
    rng = m.sub('psandia', rd)
    q = pvsyst_module(rng)
    f = lambda g, t: C.pvsyst(q, g, t)
    gt = conditions(rng)
    if not any(g < 400 for g, _ in gt):
        return
    iv = measured(rng, f, gt, True)
    spec = dict(cells_in_series=q['cells_in_series'], alpha_sc=q['alpha_sc'])
    ctx = dict(q=q, n=len(gt))
    m.case(('psandia', rd), ctx)
    with quiet():
        ok, r = m.call('pvsyst_sandia', sdm.fit_pvsyst_sandia, iv, spec, ctx=ctx)
    if not ok:
        return
    m.ev('pvsyst sandia')
    ctx['got'] = {k: v for k, v in r.items() if np.ndim(v) == 0}
    for c, tol in (('I_L_ref', 1e-3), ('EgRef', .02), ('R_sh_ref', .02), ('R_sh_0', .02), ('R_s', .02), ('gamma_ref', .004), ('R_sh_exp', 0)):
        m.close('pvsyst_sandia ' + c, r[c], q[c], tol, 0, ctx)
    m.close('pvsyst_sandia mu_gamma', r['mu_gamma'], q['mu_gamma'], .05, 5e-5, ctx)
    m.close('pvsyst_sandia I_o_ref', math.log(r['I_o_ref']), math.log(q['I_o_ref']), .006, 0, ctx)
    m.check('pvsyst_sandia names', r['cells_in_series'] == q['cells_in_series'], ctx)
    fit = dict(r, alpha_sc=q['alpha_sc'])
    u = np.asarray(r['u'], bool)
    for j in range(0, len(gt), 4):
        g, t = gt[j]
        m.close('pvsyst_sandia curve', C.points(C.pvsyst(fit, g, t)), C.points(f(g, t)), .004, 0, ctx)
        if u[j]:
            w = f(g, t)
            m.close('pvsyst_sandia per curve', [r['iph'][j], r['rs'][j], r['rsh'][j]], [w[0], w[2], w[3]], .25, .01, ctx)
    sc, o = scrambled(rng, iv)
    with quiet():
        ok, r2 = m.call('pvsyst_sandia', sdm.fit_pvsyst_sandia, sc, spec, ctx=ctx)
    if ok:
        for c in ('I_L_ref', 'EgRef', 'R_sh_ref', 'R_sh_0', 'R_s', 'gamma_ref', 'I_o_ref'):
            m.close('pvsyst_sandia order', r2[c], r[c], 2e-3, 0, dict(ctx, which=c))


def matrix_ref(ee, tc, isc, voc, imp, vmp, ns, eg, alpha, beta, rs, coeff, gmin, gtol, ttol):
    at_g, at_t = np.abs(ee - 1000) <= gtol, np.abs(tc - 25) <= ttol
    lsq = lambda x, y: np.linalg.lstsq(np.array(x).T, y, rcond=None)[0]

    def tempco(val):
        a, b = lsq([np.ones(at_g.sum()), tc[at_g]], val[at_g])
        return b / (a + 25 * b)
    if alpha is None:
        alpha = tempco(isc) * isc[at_g & at_t][0]
    if beta is None:
        beta = tempco(vmp)
    k = ee >= (gmin or 0)
    est = (vmp / (1 + beta * (tc - 25)) / (coeff * (isc - imp)))[k]
    b0, b1 = lsq([np.ones(k.sum()), np.exp(-5.5 * ee[k] / 1000)], est)
    r0, ex = b0 + b1, math.exp(-5.5)
    rref = b0 * (1 - ex) + r0 * ex
    if rs is None:
        rs = lsq([np.ones(len(ee)), imp, np.log(imp), vmp], voc)[1]
    base = max((rref - r0 * ex) / (1 - ex), 0)
    rsh = base + (r0 - base) * np.exp(-5.5 * ee / 1000)
    tk = tc + 273.15
    vth = ns * C.K * tk / C.Q
    x = (vth * np.log(((isc - imp) * (1 + rs / rsh) - vmp / rsh) / (isc * (1 + rs / rsh) - voc / rsh)))[at_t]
    y = (vmp + imp * rs - voc)[at_t]
    gam = (x * y).sum() / (x * x).sum()
    io = np.log((isc * (1 + rs / rsh) - voc / rsh) / np.expm1(voc / (gam * vth))) - 3 * np.log(tk / 298.15) - C.Q * eg / (C.K * gam) * (1 / 298.15 - 1 / tk)
    io = math.exp(io.mean())
    i0 = io * (tk / 298.15) ** 3 * np.exp(C.Q * eg / (C.K * gam) * (1 / 298.15 - 1 / tk))
    yl = isc + i0 * np.expm1(isc * rs / (gam * vth)) + isc * rs / rsh - ee / 1000 * alpha * (tc - 25)
    il = (yl * ee).sum() / (ee * ee).sum() * 1000
    iln = ee / 1000 * (il + alpha * (tc - 25))
    num = C.Q * eg / C.K * (1 / 298.15 - 1 / tk) + (vmp + imp * rs) / vth
    den = np.log((iln - imp - (vmp + imp * rs) / rsh) / io) - 3 * np.log(tk / 298.15)
    g, mu = lsq([np.ones(len(ee)), tc - 25], num / den)
    return dict(alpha_sc=alpha, gamma_ref=g, mu_gamma=mu, I_L_ref=il, I_o_ref=io, R_sh_ref=rref, R_sh_0=r0, R_sh_exp=5.5, R_s=rs, cells_in_series=ns, EgRef=eg)


def matrix(m, rd):
    rng = m.sub('matrix', rd)
    q = pvsyst_module(rng)
    gt = [(g, t) for t in (15, 25, 50, 75) for g in (100, 200, 400, 600, 800, 1000, 1100) if not ((t == 15 and g > 1000) or (t == 50 and g < 400) or (t == 75 and g < 600))]
    gt = [gt[j] for j in rng.permutation(len(gt))]
    ee, tc = np.array([x for x, _ in gt], float), np.array([x for _, x in gt], float)
    if rng.random() < .4:
        ee = ee + rng.uniform(-8, 8, len(ee))
        tc = tc + rng.uniform(-.4, .4, len(tc))
    d = np.array([C.points(C.pvsyst(q, g, t)) for g, t in zip(ee, tc)])
    voc, isc, vmp, imp = d.T
    kw = {}
    if rng.random() < .4:
        kw['R_s'] = q['R_s']
    if rng.random() < .3:
        kw['alpha_sc'] = q['alpha_sc']
    if rng.random() < .3:
        kw['beta_mp'] = float(rng.uniform(-.005, -.003))
    if rng.random() < .3:
        kw['r_sh_coeff'] = float(rng.uniform(.1, .25))
    if rng.random() < .3:
        kw['min_Rsh_irradiance'] = float(rng.choice([150., 350.]))
    if rng.random() < .3:
        kw['irradiance_tolerance'] = float(rng.choice([12., 40.]))
    if rng.random() < .3:
        kw['temperature_tolerance'] = float(rng.choice([.7, 3.]))
    if rng.random() < .2:
        kw['EgRef'] = float(rng.uniform(1.0, 1.2))
    ctx = dict(q=q, kw=kw, ee=ee, tc=tc)
    m.case(('matrix', rd), ctx)
    with np.errstate(all='ignore'):
        w = matrix_ref(ee, tc, isc, voc, imp, vmp, q['cells_in_series'], kw.get('EgRef', 1.121), kw.get('alpha_sc'), kw.get('beta_mp'), kw.get('R_s'), kw.get('r_sh_coeff', .12),
                       kw.get('min_Rsh_irradiance'), kw.get('irradiance_tolerance', 20), kw.get('temperature_tolerance', 1))
    if not all(np.isfinite(x) for x in w.values()):
        m.ev('matrix without solution')
    ok, r = m.call('matrix', sdm.fit_pvsyst_iec61853_sandia_2025, ee, tc, isc, voc, imp, vmp, q['cells_in_series'], ctx=ctx, **kw)
    if not ok:
        return
    m.ev('matrix')
    m.check('matrix names', set(r) == set(w), ctx)
    for c in w:
        m.close('matrix ' + c, np.squeeze(r[c]), w[c], 1e-6, 1e-9 if c == 'mu_gamma' else 0, ctx)


def tempco(m, rd):
    rng = m.sub('tempco', rd)
    q = pvsyst_module(rng)
    if rng.random() < .4:
        q.update(EgRef=float(rng.uniform(1., 1.5)), R_sh_exp=float(rng.uniform(3, 7)))
    if rng.random() < .4:
        q['irrad_ref'] = float(rng.choice([800, 400, 1000]))
    if rng.random() < .4:
        q['temp_ref'] = float(rng.choice([20, 45, 0]))
    ctx = dict(q=q)
    m.case(('tempco', rd), ctx)
    ok, r = m.call('tempco', sdm.pvsyst_temperature_coeff, ctx=ctx, **q)
    if ok:
        m.ev('tempco')
        g, t = q.get('irrad_ref', 1000.), q.get('temp_ref', 25.)
        pm = [(lambda o: o[2] * o[3])(C.points(C.pvsyst(q, g, t + h))) for h in (-.02, 0, .02)]
        m.close('tempco', r, (pm[2] - pm[0]) / .04 / pm[1], 1e-5, 1e-8, ctx)


def adr_eta(g, t, k_a, k_d, tc_d, k_rs, k_rsh):
    s, dt = g / 1000, t - 25
    so = 10 ** (k_d + dt * tc_d)
    return k_a * ((1 + k_rs + k_rsh) * (np.log(s / so + 1) / math.log(1 / 10 ** k_d + 1)) - k_rs * s - k_rsh)


def adr(m, rd):
    rng = m.sub('adr', rd)
    p = dict(k_a=float(rng.uniform(.1, .25) * rng.choice([1, 100, 1 / .2])), k_d=float(rng.uniform(-9, -5)), tc_d=float(rng.uniform(-.005, .03)), k_rs=float(rng.uniform(0, .1)),
             k_rsh=float(rng.uniform(0, .2)))
    g, t = (x.ravel() for x in np.meshgrid(np.array([100., 200, 400, 600, 800, 1000, 1100]), np.linspace(*((15., 75.) if rng.random() < .5 else (5., 50.)), 4)))
    o = rng.permutation(len(g))[:int(rng.integers(14, len(g) + 1))]
    g, t = g[o], t[o]
    eta = adr_eta(g, t, **p)
    if eta.min() <= 0:
        return
    ctx = dict(p=p, n=len(g))
    m.case(('adr', rd), ctx)
    form = [np.array, list, pd.Series, lambda x: np.array(x)[:, None]][int(rng.integers(0, 4))]
    ok, r = m.call('adr', pvarray.fit_pvefficiency_adr, form(g), form(t), form(eta), ctx=ctx)
    if not ok:
        return
    m.ev('adr')
    m.check('adr names', list(r) == ['k_a', 'k_d', 'tc_d', 'k_rs', 'k_rsh'], ctx)
    m.close('adr curve', adr_eta(g, t, **r), eta, .03, .01 * eta.max(), dict(ctx, got=r))
    m.close('adr parameters', r['k_a'], p['k_a'], 1e-3, 0, dict(ctx, got=r))
    m.close('adr parameters', r['tc_d'], p['tc_d'], .02, 1e-3, dict(ctx, got=r))
    m.close('adr parameters', r['k_d'], p['k_d'], .25, 1, dict(ctx, got=r))
    m.check('adr parameters', r['k_rs'] >= 0 and r['k_rsh'] >= 0 and r['k_d'] <= 0, dict(ctx, got=r))
    ok, r2 = m.call('adr', pvarray.fit_pvefficiency_adr, g, t, eta, dict_output=False, ctx=ctx)
    if ok:
        m.check('adr array', isinstance(r2, np.ndarray) and r2.shape == (5,), ctx)
        m.close('adr array', r2, list(r.values()), 1e-6, 1e-9, ctx)


def inv(m, rd):
    rng = m.sub('inv', rd)
    vn = float(rng.uniform(40, 900))
    p = dict(Paco=float(rng.uniform(200, 90000)), Vdco=vn, Pnt=float(rng.uniform(0, 5)))
    p.update(Pdco=p['Paco'] * float(rng.uniform(1.01, 1.09)), Pso=p['Paco'] * float(rng.uniform(.001, .012)), C0=-float(rng.uniform(1e-4, .03)) / p['Paco'],
             C1=float(rng.uniform(-1e-4, 1e-4)), C2=float(rng.uniform(-1e-3, 1e-3)), C3=float(rng.uniform(-1e-3, 1e-3)))
    vs = dict(Vmin=vn * float(rng.uniform(.6, .9)), Vnom=vn, Vmax=vn * float(rng.uniform(1.1, 1.4)))
    lev, dc, v = [], [], []
    for k in vs:
        fr = [.1, .2, .3, .5, .75, 1.] if rng.random() < .5 else np.linspace(.1, 1.05, int(rng.integers(3, 15)))
        for f in fr:
            lev.append(k)
            dc.append(float(f) * p['Pdco'])
            v.append(vs[k])
    o = rng.permutation(len(lev))
    lev, dc, v = np.array(lev)[o], np.array(dc)[o], np.array(v)[o]
    a, b, c = p['Pdco'] * (1 + p['C1'] * (v - vn)), p['Pso'] * (1 + p['C2'] * (v - vn)), p['C0'] * (1 + p['C3'] * (v - vn))
    ac = (p['Paco'] / (a - b) - c * (a - b)) * (dc - b) + c * (dc - b) ** 2
    ctx = dict(p=p, n=len(o))
    m.case(('inv', rd), ctx)
    form = pd.Series if rng.random() < .4 else np.array
    if form is pd.Series and rng.random() < .5:
        ix = pd.date_range('2020', periods=len(o), freq='h')
        form = lambda x: pd.Series(x, ix)
    ok, r = m.call('inverter', inverter.fit_sandia, form(ac), form(dc), form(v), form(lev), p['Paco'], p['Pnt'], ctx=ctx)
    if ok:
        m.ev('inverter')
        m.check('inverter names', set(r) == set(p), ctx)
        for k in p:
            m.close('inverter ' + k, r[k], p[k], 1e-5, 1e-9 if k in ('C1', 'C2', 'C3') else 0, dict(ctx, got=r))


def work(m):
    p, ns, voc, isc, vmp, imp, alpha, beta, _ = datasheet(m.rng)
    for bad in ('Rs', 'IL', 'a_ref', 'foo'):
        m.raises('desoto_guess', ValueError, sdm.fit_desoto, vmp, imp, voc, isc, alpha, beta, ns, init_guess={bad: 1.})
    for rd in range(m.n(120, 1300)):
        rectify(m, rd)
        astm(m, rd)
        simple(m, rd)
        desoto(m, rd)
        batzelis(m, rd)
        inv(m, rd)
        tempco(m, rd)
    for rd in range(m.n(6, 30)):
        noknee(m, rd)
    for rd in range(m.n(60, 450)):
        matrix(m, rd)
        adr(m, rd)
        cec(m, rd)
    for rd in range(m.n(3, 25)):
        sandia_desoto(m, rd)
        sandia_pvsyst(m, rd)
        reference(m, rd)


main(mon, work)
