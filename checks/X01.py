"""X01: no public calculation modifies the data its caller passed in."""
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd

from mon import deep as D
from mon import wide as W
from mon.core import REPO, VERIF, Mon, main

mon = Mon('X01', 'distinct (function, generated arguments) calls; suite calls counted as events',
          ['deep fingerprint of the arguments before and after each call', 'read-only numpy arguments as a write trap',
           'fingerprint of module-level state, class attributes and default arguments before and after everything',
           'results held to the end of the workload and compared with their fingerprint at birth',
           "the same monitor wrapped around every public function while the repository's own tests run"],
          required=['inputs_unmodified', 'readonly_same', 'results_kept', 'module_state', 'suite_calls', 'defaults'])
EXC = (ValueError, KeyError, RuntimeError, TypeError, IndexError, NotImplementedError)


def brief(lab, a, k):
    return dict(call=lab, args=[type(x).__name__ for x in a], kwargs={x: (type(y).__name__ if hasattr(y, '__len__') and not isinstance(y, str) else y) for x, y in k.items()})


def where(x, y, path=''):
    """first place two fingerprints differ"""
    if type(x) is tuple and type(y) is tuple and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return where(p, q, f'{path}/{p if isinstance(p, str) else i}' if not (isinstance(p, tuple) and p and isinstance(p[0], str)) else f'{path}/{p[0]}')
    return f'{path}: {str(x)[:120]} -> {str(y)[:120]}'


def freeze(o):
    def f(x):
        if isinstance(x, np.ndarray):
            x.setflags(write=False)
    D.walk(o, f)


def go(m, lab, f, a, k, held):
    cx = brief(lab, a, k)
    a0, k0 = copy.deepcopy((a, k))
    tok = D.deep((a, k))
    m.case((lab, repr(tok)[:3000]), cx)
    m.ev('calls')
    try:
        r = f(*a, **k)
        out = D.deep(r)
    except EXC as e:
        r, out = None, ('raised', type(e).__name__)
    m.ev('inputs_unmodified')
    now = D.deep((a, k))
    if now != tok:
        m.violate('inputs_unmodified', f'{lab} modified its arguments at {where(tok, now)}', cx)
    if len(held) < 6000:
        held.append((lab, r, out))
    # write trap
    freeze((a0, k0))
    try:
        r2 = f(*a0, **k0)
        out2 = D.deep(r2)
    except EXC as e:
        out2 = ('raised', type(e).__name__)
        if 'read-only' in str(e):
            m.violate('readonly_same', f'{lab} writes into an argument: {e}', cx)
            return
    m.check('readonly_same', out2 == out, cx, 'read-only arguments give another result')


def workload(m):
    held = []
    for rd in range(m.n(6, 60)):
        rng = m.sub('wide', rd)
        for lab, f, a, k in W.wide(rng):
            go(m, lab, f, a, k, held)
    m.extra['functions'] = len({h[0] for h in held})
    for lab, r, out in held:
        if r is not None:
            m.check('results_kept', D.deep(r) == out, lab, f'a later call changed the result of {lab}')
    pipelines(m)


def pipelines(m):
    """results passed on to further calls stay as they were; caller frames of a chain survive several runs"""
    from mon import chain as C
    for rd in range(m.n(12, 150)):
        rng = m.sub('pipe', rd)
        s, p = C.spec(rng), C.site(rng)
        sysobj, w = C.build_system(s), C.weather(rng, p, 12)
        w['precipitable_water'] = 1.4
        w['temp_air'], w['wind_speed'] = w.get('temp_air', 20.), w.get('wind_speed', 1.)
        loc = C.build_location(p)
        cx = dict(dc=s['dc'], aoi=s['aoi'], temp=s['temp'], n=s['n'])
        tok = D.deep((sysobj, w, loc))
        kept = []
        from pvlib.modelchain import ModelChain
        k = dict(s['chain'], aoi_model=s['aoi'], spectral_model=s['spectral'], dc_model=s['dc'], ac_model=s['ac'], temperature_model=s['temp'])
        ws = [w, w.iloc[::2], w.copy()]
        ftok = D.deep(ws)
        for q in range(3):
            ok, mc = m.call('chain', ModelChain, sysobj, loc, ctx=cx, **k)
            if not ok:
                break
            ok, _ = m.call('run', mc.run_model, ws[q] if s['n'] == 1 or rng.random() < .5 else [ws[q]] * s['n'], ctx=cx)
            if ok:
                r = W.results(mc)
                kept.append((r, D.deep(r)))
                m.call('rerun', mc.run_model, ws[q] * 1.0, ctx=cx) if rng.random() < .5 and s['n'] == 1 else None
                e = pd.DataFrame({'effective_irradiance': r['effective_irradiance'] if not isinstance(r['effective_irradiance'], list) else r['effective_irradiance'][0], 'temp_air': ws[q]['temp_air'], 'wind_speed': ws[q]['wind_speed'],
                                  'poa_global': (r['total_irrad'] if not isinstance(r['total_irrad'], list) else r['total_irrad'][0])['poa_global']})
                et = D.deep(e)
                m.call('from_eff', mc.run_model_from_effective_irradiance, e if s['n'] == 1 else [e] * s['n'], ctx=cx)
                m.check('inputs_unmodified', D.deep(e) == et, cx, 'run_model_from_effective_irradiance modified its data')
        now = D.deep((sysobj, w, loc))
        m.check('inputs_unmodified', now == tok, cx, f'a chain modified its system, location or weather at {where(tok, now)}')
        m.check('inputs_unmodified', D.deep(ws) == ftok, cx, 'a chain modified the weather list')
        for r, out in kept:
            # a chain that runs again replaces its results; those already handed out must stay
            m.check('results_kept', D.deep(r) == out, cx, 'results of an earlier run changed')


def suite(m):
    d = tempfile.mkdtemp(prefix='x01-')
    try:
        env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get('PYTHONPATH', ''), PYTHONDONTWRITEBYTECODE='1', VERIF_PLUG_OUT=os.path.join(d, 'out'), TMPDIR=d)
        files = ['tests'] if m.thorough else [os.path.join('tests', x) for x in sorted(os.listdir(os.path.join(REPO, 'tests'))) if x.startswith('test_') and x != 'test_numerical_precision.py'] + \
            [os.path.join('tests', x) for x in ('bifacial', 'ivtools', 'spectrum', 'iotools') if os.path.isdir(os.path.join(REPO, 'tests', x))]
        cmd = [sys.executable, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'mon.plug_mutation', '--disable-warnings', '--tb=no', '-n', '7', '--dist', 'loadfile', '--timeout=300', '-o', 'addopts='] + files
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        n, fns, col = 0, {}, 0
        for x in sorted(os.listdir(d)):
            if x.startswith('out'):
                r = json.load(open(os.path.join(d, x)))
                n += r['events']
                for k, v in r['functions'].items():
                    fns[k] = fns.get(k, 0) + v
                for k, b in r['bad'].items():
                    m.violate('suite', f'{k} modified its arguments', b)
        m.ev('suite_calls', n)
        m.extra['suite'] = dict(calls=n, functions=len(fns), tail=p.stdout.strip().splitlines()[-1:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def full(m):
    import pvlib
    D.modules()
    for lab, f, a, k in W.wide(m.sub('warm')):   # lazily filled module data settle first
        try:
            f(*a, **k)
        except EXC:
            pass
    st = D.module_state()
    workload(m)
    now = D.module_state()
    for k, v in st.items():
        kind = 'defaults' if k.endswith('()') else 'module_state'
        m.check(kind, now.get(k) == v, k, 'module-level state changed by the calls')
    suite(m)


if __name__ == '__main__':
    main(mon, full)
