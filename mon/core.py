"""Monitor core: event counting, oracles' verdicts, evidence and replay files.

A check drives the real pvlib code; every observation that an oracle judges goes
through Mon.close / Mon.check / Mon.call, which count the events they judged.
Verdicts are three-valued: exit 0 (held on everything observed), exit 1 with a
VIOLATION line, exit 2 (inconclusive: a required monitor saw no event, or the
harness itself failed).
"""
import json
import math
import os
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
import pandas as pd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def _short(x, n=400):
    try:
        if isinstance(x, (pd.Series, pd.DataFrame)):
            s = f'{type(x).__name__}(index={list(map(str, x.index[:4]))}, {x.to_numpy()[:4].tolist()})'
        elif isinstance(x, np.ndarray):
            s = f'array{x.shape}({x.ravel()[:6].tolist()})'
        elif isinstance(x, dict):
            s = '{' + ', '.join(f'{k}: {_short(v, 120)}' for k, v in x.items()) + '}'
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover - reporting only
        s = f'<unprintable {type(x)} {e}>'
    return s if len(s) <= n else s[:n] + '...'


def in_repo(tb):
    """True if the innermost relevant frames of a traceback are pvlib's."""
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO + '/'):
            return True
    return False


class Mon:
    def __init__(self, prop, rule, assumptions=(), level='exploration', required=()):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.level = level
        self.required = list(required)
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.rng = np.random.default_rng([self.seed, zlib.crc32(prop.encode())])
        self.events = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.nviol = {}
        self.known_hit = {}
        self.t0 = time.time()
        self.extra = {}
        self.known = []
        path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            for k in json.load(open(path)).get('known', []):
                if k['property'] == prop:
                    self.known.append(k)

    # ---------------------------------------------------------------- setup
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def sub(self, *key):
        """An independent generator for one sub-workload (stable under edits elsewhere)."""
        return np.random.default_rng([self.seed, zlib.crc32(self.prop.encode()),
                                      zlib.crc32('|'.join(map(str, key)).encode())])

    # --------------------------------------------------------------- events
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def case(self, key, sample=None):
        """One generated case; `key` identifies it for the distinct count."""
        self.evaluations += 1
        h = zlib.crc32(repr(key).encode()) | (zlib.adler32(repr(key).encode()) << 32)
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 6 and (len(self.distinct) % 7 == 1):
                self.samples.append(_short(sample if sample is not None else key, 600))

    # -------------------------------------------------------------- verdicts
    def violate(self, name, msg, ctx=None):
        for k in self.known:
            if name.startswith(k['mechanism']) and all(s in (msg + _short(ctx, 3000)) for s in k.get('contains', [])):
                self.known_hit[k['mechanism']] = k['what']
                return
        self.nviol[name] = self.nviol.get(name, 0) + 1
        if self.nviol[name] <= 3 and len(self.violations) < 60:
            self.violations.append(dict(monitor=name, message=msg, context=_short(ctx, 3000)))

    def check(self, name, cond, ctx=None, msg='condition false'):
        self.ev(name)
        if not bool(cond):
            self.violate(name, msg, ctx)
            return False
        return True

    def close(self, name, got, want, rtol=1e-8, atol=1e-9, ctx=None, nan_ok=True):
        """Elementwise agreement (NaN matches NaN, inf matches inf)."""
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            self.ev(name)
            self.violate(name, f'not numeric: {e}: got {_short(got)} want {_short(want)}', ctx)
            return False
        if g.shape != w.shape:
            try:
                g, w = np.broadcast_arrays(g, w)
            except ValueError:
                self.ev(name)
                self.violate(name, f'shape {g.shape} != {w.shape}', ctx)
                return False
        self.ev(name, max(g.size, 1))
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)
                    | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = np.argwhere(bad)[0]
            gi, wi = g[tuple(i)], w[tuple(i)]
            self.violate(name, f'{int(bad.sum())}/{bad.size} differ; first at {i.tolist()}: got {gi!r} want {wi!r}', ctx)
            return False
        return True

    def call(self, name, fn, *a, ctx=None, expect=(), **k):
        """Run code under test; an unexpected exception is a violation.

        Returns (ok, result). With `expect`, exceptions of those types are
        returned as (False, exc)."""
        self.ev('calls')
        try:
            return True, fn(*a, **k)
        except expect as e:  # noqa: B014
            return False, e
        except Exception as e:
            if not in_repo(e.__traceback__):
                raise
            tb = traceback.format_exc(limit=-3)
            self.violate(name + ':raised', f'{type(e).__name__}: {e}', dict(ctx=ctx, tb=tb[-800:]))
            return False, e

    def raises(self, name, exc, fn, *a, ctx=None, **k):
        self.ev(name)
        try:
            r = fn(*a, **k)
        except exc:
            return True
        except Exception as e:
            self.violate(name, f'expected {exc}, got {type(e).__name__}: {e}', ctx)
            return False
        self.violate(name, f'expected {exc}, returned {_short(r)}', ctx)
        return False

    # ---------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        missing = [r for r in self.required if not self.events.get(r)]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=self.evaluations,
                                distinct_nontrivial=len(self.distinct),
                                rule=self.rule, samples=self.samples,
                                judged_events=dict(sorted(self.events.items())),
                                judged_total=int(sum(self.events.values())), **self.extra),
                  assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=int(sum(self.nviol.values())))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for mech, what in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.prop} {what}')
        if self.nviol:
            rp = os.path.join('evidence', f'replay-{self.prop}.json')
            with open(os.path.join(VERIF, rp), 'w') as f:
                json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                               rerun=f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} bash run.sh {self.prop}',
                               counts=self.nviol, violations=self.violations), f, indent=1, default=str)
            for v in self.violations[:12]:
                print(f'  [{v["monitor"]}] {v["message"]}\n      {v["context"][:700]}')
            print(f'  monitors violated: {self.nviol}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            sys.exit(1)
        if missing or not self.distinct:
            print(f'INCONCLUSIVE property={self.prop}: no events for {missing}')
            sys.exit(2)
        print(f'held property={self.prop} tier={self.tier} seed={self.seed} cases={self.evaluations} '
              f'distinct={len(self.distinct)} judged={sum(self.events.values())} wall={wall:.1f}s')
        sys.exit(0)


def main(mon, fn):
    """Run a check's workload under the monitor and exit with its verdict."""
    import pvlib
    if not os.path.abspath(pvlib.__file__).startswith(REPO + '/'):
        print('pvlib is not imported from /repo:', pvlib.__file__)
        sys.exit(3)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    try:
        fn(mon)
    except Exception as e:
        tb = traceback.format_exc()
        if in_repo(e.__traceback__):
            # the code under test failed on a valid workload outside a guarded call
            mon.violate('uncaught', f'{type(e).__name__}: {e}', tb[-1500:])
        else:
            # The workload ran to the end on the tree it was built for: if the oracle
            # now cannot even interpret an observation (missing key, wrong type or
            # shape), the observed API no longer has its documented form.
            if isinstance(e, (TypeError, KeyError, AttributeError, ValueError, IndexError,
                              ZeroDivisionError, AssertionError)):
                mon.violate('uninterpretable', f'{type(e).__name__}: {e}', tb[-1500:])
            elif not mon.nviol:
                print(tb)
                print(f'HARNESS-ERROR property={mon.prop}')
                sys.exit(3)
    mon.finish()


def isnan(x):
    try:
        return math.isnan(x)
    except TypeError:
        return False
