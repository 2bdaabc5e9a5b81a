"""pytest plugin: call every public function of the repository's tests again, at once and at the end."""
import copy
import inspect
import json
import os
import random
import types

from mon import deep as D

K = int(os.environ.get('VERIF_PLUG_K', '8'))
SEEN, BAD, N = {}, {}, [0]
STORE = []
BUSY = [False]
MODS = ('irradiance', 'atmosphere', 'iam', 'temperature', 'pvsystem', 'singlediode', 'tracking', 'shading', 'snow', 'soiling', 'spectrum', 'clearsky', 'albedo', 'inverter', 'pvarray', 'scaling', 'bifacial', 'transformer', 'ivtools')


def plain(o, d=0):
    """no mocks, no callables, not too large"""
    if d > 6:
        return False
    if isinstance(o, D.SIMPLE):
        return True
    if isinstance(o, dict):
        return all(plain(v, d + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return len(o) < 2000 and all(plain(v, d + 1) for v in o)
    n = type(o).__module__.split('.')[0]
    return n in ('numpy', 'pandas', 'datetime') and getattr(o, 'size', 0) < 20000 and not isinstance(o, types.FunctionType)


ORIG = {}


def before(name, a, k):
    if BUSY[0] or name.count('.') > 3 or not name.startswith('pvlib.') or name.split('.')[1] not in MODS or any(c.isupper() for c in name.split('.')[2][:1]):
        return None
    if SEEN.get(name, 0) >= K or not plain((a, k)):
        return None
    SEEN[name] = SEEN.get(name, 0) + 1
    return copy.deepcopy((a, k))


def again(name, f, args, out, when, test):
    a, k = copy.deepcopy(args)
    N[0] += 1
    try:
        now = D.deep(f(*a, **k))
    except Exception as e:
        now = ('raised', type(e).__name__)
    if now != out and name not in BAD:
        BAD[name] = dict(when=when, test=test)


def after(tok, name, a, k, r):
    if tok is None or BUSY[0]:
        return
    BUSY[0] = True
    try:
        out = D.deep(r)
        test = os.environ.get('PYTEST_CURRENT_TEST', '')
        f = ORIG[name]
        again(name, f, tok, out, 'at once', test)
        # a test may have patched something; keep for the end only what an unpatched session repeats
        STORE.append((name, f, tok, out, test))
    finally:
        BUSY[0] = False


def pytest_configure(config):
    w = D.Wrap(before, after)
    w.install()
    for o, k, v in w.undo:
        ORIG[f'{v.__module__}.{k}' if not inspect.isclass(o) else f'{o.__module__}.{o.__name__}.{k}'] = v


def pytest_sessionfinish(session, exitstatus):
    BUSY[0] = True
    random.Random(3).shuffle(STORE)
    for name, f, tok, out, test in STORE:
        again(name, f, tok, out, 'at the end', test)
    with open(os.environ['VERIF_PLUG_OUT'] + os.environ.get('PYTEST_XDIST_WORKER', ''), 'w') as fh:
        json.dump(dict(replayed=N[0], functions=len(SEEN), bad=BAD), fh)
