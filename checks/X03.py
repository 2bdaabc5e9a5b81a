"""X03: results do not depend on call history, thread interleaving or thread count."""
import hashlib
import itertools
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np
import pandas as pd

from mon import deep as D
from mon import wide as W
from mon.core import REPO, VERIF, Mon, main

EXC = (ValueError, KeyError, RuntimeError, TypeError, IndexError, NotImplementedError, ZeroDivisionError, AttributeError)
PASSES = ['shuffled', 'after_corruption', 'threads']


def plan(seed, rounds):
    """Deterministic list of call keys."""
    labels = list(W.TABLE) + ['cat:' + k for k in W.entries()]
    return [(lab, rd, v) for rd in range(rounds) for lab in labels for v in ('a', 'mix')]


def draw(seed, lab, rd):
    import zlib
    r = np.random.default_rng([seed, rd, zlib.crc32(lab.encode())])
    return (W.TABLE[lab](r) if not lab.startswith('cat:') else W.from_entry(W.entries()[lab[4:]], r)), r


def make(seed, key):
    """Fresh arguments for a call; the 'mix' variant changes a single argument of the 'a' variant."""
    lab, rd, v = key
    (f, a, k), r = draw(seed, lab, rd)
    if v == 'mix':
        (_, a2, k2), _ = draw(seed, lab, rd + 1000)
        slots = [('p', i) for i in range(min(len(a), len(a2)))] + [('k', n) for n in k if n in k2 and n != 'kw']
        if 'kw' in k:
            slots += [('kw', n) for n in k['kw'] if n in k2['kw'] and type(k['kw'][n]) is type(k2['kw'][n])]
        if not slots:
            return make(seed, (lab, rd, 'a'))
        s = slots[int(r.integers(0, len(slots)))]
        if s[0] == 'p':
            a = tuple(a2[i] if i == s[1] else x for i, x in enumerate(a))
        elif s[0] == 'k':
            k = dict(k, **{s[1]: k2[s[1]]})
        else:
            k = dict(kw=dict(k['kw'], **{s[1]: k2['kw'][s[1]]}))
    return f, a, k


LOCK = threading.Lock()   # argument generators are the harness's own: one at a time


def outcome(seed, key, keep=False):
    with LOCK:
        f, a, k = make(seed, key)
    try:
        r = f(*a, **k)
        o = hashlib.sha1(repr(D.deep(r)).encode()).hexdigest()
    except EXC as e:
        r, o = None, 'raised ' + type(e).__name__
    return (o, r) if keep else o


def corrupt(r):
    """the caller scribbles over a result it received"""
    def f(o):
        try:
            if isinstance(o, np.ndarray) and o.dtype.kind in 'fiu':
                o[...] = -7777
            elif isinstance(o, (pd.Series, pd.DataFrame)):
                o.iloc[:] = -7777
        except Exception:  # read-only or typed results cannot be scribbled over
            pass
    D.walk(r, f)


def child(seed, rounds, path):
    """the same calls in a fresh interpreter, in reverse order"""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    out = {}
    for key in reversed(plan(seed, rounds)):
        out['|'.join(map(str, key))] = outcome(seed, key)
    json.dump(out, open(path, 'w'))


# ------------------------------------------------------------ compiled solar position (own process)
def numba_child(seed, thorough, path):
    warnings.simplefilter('ignore')
    ev, bad, seen = {}, [], set()

    def hit(name, cond, ctx):
        ev[name] = ev.get(name, 0) + 1
        if not cond and len(bad) < 40:
            bad.append([name, str(ctx)[:600]])
    try:
        from pvlib import solarposition as SP
        rng = np.random.default_rng(seed)
        sys.setswitchinterval(1e-5)

        def times(n):
            t0 = pd.Timestamp('1980-01-01', tz='UTC') + pd.Timedelta(seconds=int(rng.integers(0, 2e9)))
            return pd.DatetimeIndex(t0 + pd.to_timedelta(np.cumsum(rng.integers(1, 90000, n)), unit='s'))

        def near(a, b, tol=2e-9):
            a, b = np.asarray(a, float), np.asarray(b, float)
            if a.shape != b.shape:
                return False
            d = np.abs(a - b)
            return bool(np.all(np.minimum(d, np.abs(d - 360)) <= tol))
        args = []
        lens = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 64, 100, 257] + ([1000, 4099] if thorough else [])
        for i, n in enumerate(lens * (6 if thorough else 1)):
            args.append((times(n), float(rng.uniform(-89, 89)), float(rng.uniform(-180, 180)), float(rng.uniform(0, 3000)), float(rng.uniform(6e4, 1.03e5)), float(rng.uniform(-20, 40)), float(rng.choice([67., 60., 80.])), float(rng.choice([.5667, .6]))))

        def full(a, how, nt=4):
            return SP.spa_python(*a[:6], delta_t=a[6], atmos_refract=a[7], how=how, numthreads=nt)
        plain = [full(a, 'numpy') for a in args]
        # the uncompiled loop, cut into chunks by any number of threads
        from pvlib import spa

        def raw(mod, a, fn, nt, **k):
            ut = a[0].as_unit('ns').asi8 / 1e9
            return getattr(mod, fn)(ut, *a[1:4], a[4] / 100, a[5], a[6], a[7], nt, **k)
        for a in args[:6]:
            for nt in (1, 2, 3, 5, 8, 16):
                for k in (dict(), dict(sst=True), dict(esd=True)):
                    seen.add(('plain loop', len(a[0]), nt, tuple(k)))
                    try:
                        got = raw(spa, a, 'solar_position_numba', nt, **k)
                    except Exception as e:
                        hit('loop', False, (len(a[0]), nt, k, repr(e)))
                        continue
                    want = np.array(raw(spa, a, 'solar_position_numpy', nt, **k))
                    hit('loop', near(got, want), (len(a[0]), nt, k))
        # compiled
        SP.spa_python(args[0][0], 10, 10, how='numba', numthreads=1)
        spa = sys.modules['pvlib.spa']
        hit('switch', bool(spa.USE_NUMBA), 'numba requested but not used')
        counts = [1, 2, 3, 4, 5, 7, 8, 12, 16] + ([6, 9, 11, 13, 31, 64, 100] if thorough else [])
        ones = {}
        for i, a in enumerate(args):
            one = full(a, 'numba', 1)
            ones[i] = one
            for c in plain[i].columns:
                hit('compiled_vs_plain', near(one[c], plain[i][c]), (c, len(a[0])))
            for nt in counts:
                seen.add(('compiled', len(a[0]), nt))
                got = full(a, 'numba', nt)
                hit('thread_count', got.equals(one) and got.index.equals(a[0]), (len(a[0]), nt))
            for k in (dict(sst=True), dict(esd=True)):
                base = raw(spa, a, 'solar_position_numba', 1, **k)
                for nt in counts[1::2]:
                    hit('thread_count', np.array_equal(raw(spa, a, 'solar_position_numba', nt, **k), base), (k, nt, len(a[0])))
        # the caller asks for compiled positions from several threads at once
        errs = []

        def work(order):
            for i in order:
                g = full(args[i], 'numba', int(random.Random(i).randint(1, 6)))
                if not g.equals(ones[i]):
                    errs.append(i)
        for rep in range(8 if thorough else 3):
            ts = [threading.Thread(target=work, args=(list(rng.permutation(len(args))),)) for _ in range(6)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            hit('concurrent_compiled', not errs, errs[:5])
        # switching back and forth leaves no trace
        seqs = ['numpy', 'numba', 'numpy', 'numpy', 'numba', 'numba', 'numpy'] if not thorough else list(rng.choice(['numpy', 'numba'], 24))
        env0 = dict(os.environ)
        for how in seqs:
            i = int(rng.integers(0, len(args)))
            a = args[i]
            ref = plain[i] if how == 'numpy' else ones[i]
            form = int(rng.integers(0, 3))
            if form == 0:
                g = full(a, how, 3)
            elif form == 1:
                g = SP.get_solarposition(a[0], a[1], a[2], a[3], a[4], method='nrel_' + how, temperature=a[5], delta_t=a[6], atmos_refract=a[7])
            else:
                g = full(a, how)
            hit('switch', g.equals(ref), ('back and forth', how, seqs))
            d = SP.nrel_earthsun_distance(a[0], how=how, delta_t=67.)
            base = ones.setdefault(('d', how, i), d)
            hit('switch', near(d, base, 0) and near(d, SP.nrel_earthsun_distance(a[0], how=how, delta_t=67., numthreads=2), 0), ('distance', how))
            s = SP.sun_rise_set_transit_spa(a[0].normalize()[:5], a[1] / 2, a[2], how=how, delta_t=67.)
            s2 = ones.setdefault(('s', i), s)
            hit('switch', all(((s[c] - s2[c]).abs().dt.total_seconds().fillna(0) < 1e-3).all() and s[c].isna().equals(s2[c].isna()) for c in s), ('rise and set', how))
            hit('switch', {k: v for k, v in os.environ.items()} == env0, 'environment changed')
        # default method after all that
        import pvlib
        for i in range(0, len(args), 5):
            a = args[i]
            g = pvlib.location.Location(a[1], a[2], altitude=a[3]).get_solarposition(a[0], pressure=a[4], temperature=a[5], delta_t=a[6], atmos_refract=a[7])
            hit('switch', g.equals(plain[i]), 'default method afterwards')
    except Exception as e:
        import traceback
        bad.append(['uncaught', f'{type(e).__name__}: {e} ' + traceback.format_exc()[-900:]])
    json.dump(dict(events=ev, bad=bad, seen=len(seen)), open(path, 'w'))


# ------------------------------------------------------------ main process
def first_threads(m, seed):
    """Cold start: a fresh interpreter whose very first calls come from several threads."""


def work(m):
    rounds = m.n(2, 14)
    d = tempfile.mkdtemp(prefix='x03-')
    procs = []
    try:
        env = dict(os.environ, PYTHONHASHSEED='7', PYTHONDONTWRITEBYTECODE='1')
        for mode in ('child', 'numba', 'cold'):
            procs.append((mode, os.path.join(d, mode), subprocess.Popen([sys.executable, os.path.abspath(__file__), '--' + mode, str(m.seed), str(int(m.thorough)), str(rounds), os.path.join(d, mode)], env=env, cwd=REPO,
                                                                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if True:
            sp = [sys.executable, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'mon.plug_replay', '--disable-warnings', '--tb=no', '-n', '4', '--dist', 'loadfile', '--timeout=300', '-o', 'addopts=', 'tests', '--ignore=tests/iotools',
                  '--ignore=tests/test_numerical_precision.py', '--deselect', 'tests/test_solarposition.py', '--deselect', 'tests/test_spa.py']
            e2 = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get('PYTHONPATH', ''), PYTHONDONTWRITEBYTECODE='1', VERIF_PLUG_OUT=os.path.join(d, 'plug'), VERIF_PLUG_K='30' if m.thorough else '8', TMPDIR=d)
            suite = subprocess.Popen(sp, cwd=REPO, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        keys = plan(m.seed, rounds)
        base = {}
        results = []
        for key in keys:
            o, r = outcome(m.seed, key, True)
            base[key] = o
            m.case((key, o), str(key))
            if r is not None:
                results.append(r)
        m.extra['outcomes'] = dict(distinct=len(set(base.values())), exceptions=sum(o.startswith('raised') for o in base.values()))
        rr = random.Random(m.seed)
        order = keys[:]
        rr.shuffle(order)
        for key in order:
            m.check('shuffled', outcome(m.seed, key) == base[key], str(key), 'another order of calls changes the result')
        for r in results:
            corrupt(r)
        results.clear()
        rr.shuffle(order)
        for key in order:
            m.check('after_corruption', outcome(m.seed, key) == base[key], str(key), 'a caller writing into an earlier result changes the result')
        threads(m, keys, base)
        same_args(m, keys, base)
        # --- children
        for mode, path, p in procs:
            out, _ = p.communicate(timeout=800)
            if not os.path.exists(path):
                m.violate('child', f'{mode} process failed', out[-800:])
                continue
            r = json.load(open(path))
            if mode == 'child':
                for key in keys:
                    m.check('fresh_process', r['|'.join(map(str, key))] == base[key], str(key), 'a fresh interpreter calling in reverse order gets another result')
            elif mode == 'cold':
                for k, v in r.items():
                    want = base[tuple([k.split('|')[0], int(k.split('|')[1]), k.split('|')[2]])]
                    m.check('cold_threads', all(x == want for x in v), k, 'first calls from several threads give another result')
            else:
                for k, n in r['events'].items():
                    m.ev(k, n)
                for k, c in r['bad']:
                    m.violate(k, 'compiled solar position', c)
                m.extra['thread count x batch length'] = r['seen']
        if suite is not None:
            out, _ = suite.communicate(timeout=800)
            n = 0
            for x in sorted(os.listdir(d)):
                if x.startswith('plug'):
                    r = json.load(open(os.path.join(d, x)))
                    n += r['replayed']
                    for k, b in r['bad'].items():
                        m.violate('suite_replay', f'{k} gives another result when called again', b)
            m.ev('suite_replay', n)
            m.extra['suite'] = out.strip().splitlines()[-1:]
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(d, ignore_errors=True)


def threads(m, keys, base):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for rep in range(m.n(2, 10)):
            nt = 6
            bad, cnt, swaps = [], [0] * nt, []
            # every thread runs the same small group of calls, so equal functions really overlap
            order = keys[:]
            random.Random(m.seed * 100 + rep).shuffle(order)
            order = order[:m.n(250, 600)]
            groups = [order[i:i + 12] for i in range(0, len(order), 12)]
            last = [None]
            barrier = threading.Barrier(nt)

            def go(j):
                rnd = random.Random(j + 17 * rep)
                for g in groups:
                    g2 = [(lab, rd, rnd.choice('a a mix'.split())) for lab, rd, v in g]
                    rnd.shuffle(g2)
                    barrier.wait()
                    for key in g2:
                        o = outcome(m.seed, key)
                        cnt[j] += 1
                        if last[0] != j:
                            swaps.append(1)
                        last[0] = j
                        if o != base[key]:
                            bad.append((key, o, base[key]))
            ts = [threading.Thread(target=go, args=(j,)) for j in range(nt)]
            [t.start() for t in ts]
            [t.join() for t in ts]
            m.ev('threads', sum(cnt))
            m.ev('thread_handovers', len(swaps))
            for b in bad[:5]:
                m.violate('threads', 'concurrent calls give another result', str(b))
    finally:
        sys.setswitchinterval(old)


def same_args(m, keys, base):
    """the very same argument objects used again, and shared between threads"""
    sub = keys[:]
    random.Random(m.seed + 5).shuffle(sub)
    for key in sub[:m.n(250, 1500)]:
        f, a, k = make(m.seed, key)
        outs = []

        def run():
            try:
                outs.append(hashlib.sha1(repr(D.deep(f(*a, **k))).encode()).hexdigest())
            except EXC as e:
                outs.append('raised ' + type(e).__name__)
        run()
        run()
        ts = [threading.Thread(target=run) for _ in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        m.check('shared_arguments', len(outs) == 5 and all(o == base[key] for o in outs), (str(key), outs, base[key]), 'the same argument objects give another result')


def cold(seed, rounds, path):
    """first use of everything happens in threads"""
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    sys.setswitchinterval(1e-6)
    keys = [k for k in plan(seed, 1) if k[2] == 'a']
    random.Random(seed).shuffle(keys)
    out = {'|'.join(map(str, k)): [None] * 4 for k in keys}
    barrier = threading.Barrier(4)

    def go(j):
        for i in range(0, len(keys), 4):
            barrier.wait()
            for k in keys[i:i + 4]:
                out['|'.join(map(str, k))][j] = outcome(seed, k)
    ts = [threading.Thread(target=go, args=(j,)) for j in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    json.dump(out, open(path, 'w'))


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1].startswith('--'):
        mode, seed, thorough, rounds, path = sys.argv[1][2:], int(sys.argv[2]), bool(int(sys.argv[3])), int(sys.argv[4]), sys.argv[5]
        if mode == 'child':
            child(seed, rounds, path)
        elif mode == 'cold':
            cold(seed, rounds, path)
        else:
            numba_child(seed, thorough, path)
        sys.exit(0)
    mon = Mon('X03', 'distinct (function, arguments, result) calls in the reference pass',
              ['bit-exact fingerprint of each result in the first pass, compared in: another order, after callers scribbled over earlier results, from 6 threads, from a fresh interpreter in reverse order, '
               'from a fresh interpreter whose first calls come from 4 threads, with the very same argument objects',
               'solar position: the plain back end (2e-9 degrees) and the one-thread compiled result (bit-exact)',
               "every public call of the repository's own tests called again at once and again at the end of the session"],
              required=['shuffled', 'after_corruption', 'threads', 'thread_handovers', 'fresh_process', 'cold_threads', 'shared_arguments', 'loop', 'compiled_vs_plain', 'thread_count', 'concurrent_compiled', 'switch', 'suite_replay'])
    main(mon, work)
