"""pytest plugin: the input-immutability monitor over the repository's own tests."""
import json
import os

from mon import deep as D

EVENTS, BAD, FN = [0], {}, {}
LIMIT = 200_000


def small(x):
    n = 0

    def f(o):
        nonlocal n
        n += getattr(o, 'size', 0)
    D.walk(x, f)
    return n < LIMIT


def before(name, a, k):
    if not small((a, k)):
        return None
    return D.deep((a, k))


def after(tok, name, a, k, r):
    if tok is None:
        return
    EVENTS[0] += 1
    FN[name] = FN.get(name, 0) + 1
    now = D.deep((a, k))
    if now != tok and name not in BAD:
        bad = [i for i, (x, y) in enumerate(zip(tok[1][0][1], now[1][0][1])) if x != y]
        badk = [x[0] for x, y in zip(tok[1][1][1], now[1][1][1]) if x != y]
        BAD[name] = dict(positional=bad, keyword=badk, test=os.environ.get('PYTEST_CURRENT_TEST', ''))


def pytest_configure(config):
    D.Wrap(before, after).install()


def pytest_sessionfinish(session, exitstatus):
    with open(os.environ['VERIF_PLUG_OUT'] + os.environ.get('PYTEST_XDIST_WORKER', ''), 'w') as f:
        json.dump(dict(events=EVENTS[0], functions=FN, bad=BAD, collected=session.testscollected), f)
