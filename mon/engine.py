"""Catalogue engine: drive one public function over many container forms and batch
compositions while an oracle (scalar reference equation) and relational monitors
(form agreement, element locality, NaN locality, input immutability) judge it."""
import copy
import pickle
import time
import warnings

import numpy as np
import pandas as pd

import pvlib


class Entry:
    def __init__(self, name, gen, ref=None, opts=None, forms=('array', 'series', 'scalar'),
                 rtol=1e-7, atol=1e-8, nan='all', group='', nan_skip=(), out=None,
                 const_ok=True, elementwise=True, fn=None, check_index=True, tag='', int_ok=False,
                 two_d=False, pointwise=True, mask=None, weight=1, nan_keys=None,
                 int_args=None, nan_pick=None, mixed=True):
        self.name = name            # dotted path below pvlib
        self.tag = tag
        self.gen = gen              # (rng, n) -> {arg: float array}
        self.ref = ref              # scalar oracle (**args, **opts) -> float|dict|tuple
        self.opts = opts or (lambda rng: {})
        self.forms = forms
        self.rtol, self.atol = rtol, atol
        self.nan = nan              # 'all': NaN in -> NaN out (every output); 'local': only locality
        self.nan_skip = nan_skip    # args not NaN-injected
        self.group = group
        self.out = out
        self.const_ok = const_ok
        self.check_index = check_index
        self._fn = fn
        self.int_ok = int_ok
        self.two_d = two_d
        self.pointwise = pointwise
        self.mask = mask
        self.weight = weight
        self.int_args = int_args    # arguments judged as whole numbers too (default: all)
        self.mixed = mixed          # Series and arrays may be given together
        self.nan_pick = nan_pick    # (arg, values) -> elements whose result needs that argument
        self.nan_keys = nan_keys    # outputs that must be missing (default: all)

    @property
    def label(self):
        return self.name + (':' + self.tag if self.tag else '')

    @property
    def fn(self):
        if self._fn is not None:
            return self._fn
        o = pvlib
        for part in self.name.split('.'):
            o = getattr(o, part)
        return o


def flat(res):
    """Any result -> {key: float ndarray}."""
    if isinstance(res, pd.DataFrame):
        return {c: res[c].to_numpy(dtype=float) for c in res.columns}
    if isinstance(res, dict):
        return {k: np.asarray(v, dtype=float) for k, v in res.items()}
    if isinstance(res, tuple):
        d = {}
        for i, v in enumerate(res):
            for k, x in flat(v).items():
                d[(i, k) if k != '' else i] = x
        return d
    return {'': np.asarray(res, dtype=float)}


def ref_flat(res):
    if isinstance(res, dict):
        return {k: float(v) for k, v in res.items()}
    if isinstance(res, tuple):
        d = {}
        for i, v in enumerate(res):
            if isinstance(v, dict):
                for k, x in v.items():
                    d[(i, k)] = float(x)
            else:
                d[i] = float(v)
        return d
    return {'': float(res)}


def snap_values(o):
    if isinstance(o, pd.DatetimeIndex):
        return (str(o.dtype), o.asi8.tobytes())
    if isinstance(o, pd.MultiIndex):
        return ('multi', repr(o.tolist()))
    a = o.to_numpy()
    return (str(o.dtype), a.tobytes() if a.dtype != object else repr(a.tolist()))


def snap(o):
    """A deep fingerprint of caller-owned data."""
    if isinstance(o, pd.Series):
        return ('series', type(o).__name__, snap_values(o), snap(o.index), repr(o.name), repr(o.attrs))
    if isinstance(o, pd.DataFrame):
        return ('frame', type(o).__name__, [snap_values(o.iloc[:, i]) for i in range(o.shape[1])], snap(o.index), snap(o.columns), repr(o.attrs))
    if isinstance(o, pd.Index):
        return ('index', snap_values(o), repr(list(o.names)), str(getattr(o, 'freq', None)))
    if isinstance(o, np.ndarray):
        return ('nd', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ('d', [(k, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    if isinstance(o, (int, float, str, bool, type(None))):
        return (type(o).__name__, repr(o))
    try:
        return pickle.dumps(o)
    except Exception:
        return ('id', id(o))


def as_len(x, n):
    a = np.asarray(x, float)
    if a.ndim == 0:
        return np.full(n, float(a))
    return a


class Driver:
    def __init__(self, mon):
        self.m = mon

    def _call(self, e, kw, ctx, what):
        before = {k: snap(v) for k, v in kw.items()}
        ok, r = self.m.call(f'{e.label}.{what}', e.fn, ctx=ctx, **kw)
        after = {k: snap(v) for k, v in kw.items()}
        self.m.ev('inputs_unmodified')
        if before != after:
            bad = [k for k in before if before[k] != after[k]]
            self.m.violate(f'{e.label}.mutated', f'input(s) {bad} modified by the call', ctx)
        return ok, r

    def _flat(self, e, r):
        return flat(e.out(r) if e.out else r)

    def drive(self, e, n=40, rounds=2, forms=True, ref=True):
        m = self.m
        for rd in range(rounds):
            rng = m.sub(e.label, rd)
            nn = n if rd else max(3, n)
            args = e.gen(rng, nn)
            opts = e.opts(rng)
            allkw = {k: np.asarray(v, float).copy() for k, v in args.items()}
            ctx0 = dict(fn=e.label, opts=opts)
            cols = {}

            def cx(i=None):
                d = dict(ctx0)
                if i is not None:
                    d['element'] = {k: float(v[i]) for k, v in allkw.items()}
                return d

            base = None
            if 'array' in e.forms:
                ok, r = self._call(e, {**allkw, **opts}, cx(), 'array')
                if ok:
                    base = self._flat(e, r)
            elif 'series' in e.forms:
                idx = pd.date_range('2021-03-01', periods=nn, freq='1h', tz='UTC')
                ok, r = self._call(e, {**{k: pd.Series(v, index=idx) for k, v in allkw.items()}, **opts}, cx(), 'series')
                if ok:
                    base = self._flat(e, r)
            else:
                acc = []
                for i in range(nn):
                    ok, r = self._call(e, {**{k: float(v[i]) for k, v in allkw.items()}, **opts}, cx(i), 'scalar')
                    acc.append({k: v.ravel()[0] if v.size else np.nan for k, v in self._flat(e, r).items()} if ok else None)
                if all(a is not None for a in acc) and acc:
                    base = {k: np.array([a.get(k, np.nan) for a in acc]) for k in acc[0]}
            if base is None:
                continue
            base = {k: as_len(v, nn) for k, v in base.items()}
            m.case((e.label, repr(opts)[:200], [round(float(v[0]), 6) for v in allkw.values()]),
                   dict(fn=e.label, opts=opts, first={k: float(v[0]) for k, v in allkw.items()}))
            # ---- oracle: reference equation
            if ref and e.ref is not None:
                self.judge_ref(e, base, allkw, opts, cx)
            if forms:
                self.judge_forms(e, rng, base, allkw, opts, cx, nn)
            if forms and e.pointwise and (rd == rounds - 1 or rd % 8 == 7) and ('array' in e.forms or 'series' in e.forms):
                self.judge_long(e, m.sub(e.label, 'long', rd), base, allkw, opts, cx, nn)

    def judge_ref(self, e, base, allkw, opts, cx):
        m = self.m
        nn = len(next(iter(allkw.values())))
        want = None
        ropts = {k: copy.deepcopy(v) for k, v in opts.items()}
        for i in range(nn):
            a = {k: float(v[i]) for k, v in allkw.items()}
            w = e.ref(**a, **ropts)
            if w is None:
                continue
            w = ref_flat(w)
            for k, x in w.items():
                if k not in base:
                    m.violate(f'{e.label}.keys', f'output {k!r} missing; have {list(base)}', cx(i))
                    continue
                g = base[k][i] if base[k].size == nn else base[k].ravel()[0]
                m.close(f'{e.label}.reference', g, x, e.rtol, e.atol, ctx=dict(**cx(i), output=k))

    def judge_long(self, e, rng, base, allkw, opts, cx, nn):
        """A long batch of the same elements: nothing depends on how many there are."""
        m = self.m
        form = 'array' if 'array' in e.forms and ('series' not in e.forms or rng.random() < .6) else 'series'

        def make(sel):
            if form == 'array':
                return {k: v[sel] for k, v in allkw.items()}
            ix = pd.date_range('2019-12-30', periods=len(sel), freq='1min', tz='UTC')
            return {k: pd.Series(v[sel], index=ix) for k, v in allkw.items()}
        N = int(rng.choice([257, 1025, 2049, 5003, 10007, 20011]))
        probe = rng.integers(0, nn, 129)
        t0 = time.perf_counter()
        ok, r = self._call(e, {**make(probe), **opts}, cx(), 'long')
        cost = (time.perf_counter() - t0) / 129
        if not ok:
            return
        sel = probe
        if cost * N > .4:
            N = max([x for x in (257, 1025, 2049, 5003, 10007) if cost * x <= .4], default=0)
        if N:
            sel = rng.integers(0, nn, N)
            ok, r = self._call(e, {**make(sel), **opts}, dict(cx(), length=N), 'long')
            if not ok:
                return
        m.ev('long batch elements', len(sel))
        self.agree(e, 'long', self._flat(e, r), base, sel, lambda i=None: dict(cx(), form=form, length=len(sel)))

    def agree(self, e, what, got, base, sel, cx, exact=False):
        for k, b in base.items():
            if k not in got:
                self.m.violate(f'{e.label}.{what}', f'output {k!r} missing', cx())
                continue
            b2 = b[sel] if sel is not None else b
            self.m.close(f'{e.label}.{what}', got[k] if got[k].ndim else as_len(got[k], np.size(b2)), b2,
                         0 if exact else max(1e-9, e.rtol * 0.01), 0 if exact else max(1e-10, e.atol * .01), ctx=dict(**cx(), output=k))

    def judge_forms(self, e, rng, base, allkw, opts, cx, nn):
        m = self.m
        names = list(allkw)
        batch = 'array' if 'array' in e.forms else ('series' if 'series' in e.forms else None)
        tidx = pd.date_range('2021-03-01', periods=nn, freq='1h', tz='UTC')

        def mk(vals, idx=None):
            if batch == 'array':
                return {k: v.copy() for k, v in vals.items()}
            L = len(next(iter(vals.values())))
            ix = tidx[:L] if idx is None else idx
            return {k: pd.Series(v.copy(), index=ix) for k, v in vals.items()}

        # series form, arbitrary index
        if 'series' in e.forms:
            idx = _index(rng, nn, e.check_index)
            kw = {k: pd.Series(v.copy(), index=idx, name='x' if rng.random() < .3 else None) for k, v in allkw.items()}
            ok, r = self._call(e, {**kw, **opts}, cx(), 'series')
            if ok:
                self.agree(e, 'series_vs_base', self._flat(e, r), base, None, cx)
                if e.check_index:
                    for o in (r.values() if isinstance(r, dict) else r if isinstance(r, tuple) else [r]):
                        if isinstance(o, (pd.Series, pd.DataFrame)):
                            m.check(f'{e.label}.index', o.index.equals(idx), cx(), 'result index differs from input index')
        # some arguments as Series, the others as arrays
        if e.mixed and 'series' in e.forms and 'array' in e.forms and len(names) > 1:
            ser = [k for k in names if rng.random() < .5] or [names[0]]
            idx = _index(rng, nn, e.check_index)
            kw = {k: pd.Series(v.copy(), index=idx) if k in ser else v.copy() for k, v in allkw.items()}
            cxm = lambda i=None: dict(**cx(i), series_args=ser)  # noqa: E731
            ok, r = self._call(e, {**kw, **opts}, cxm(), 'series_and_arrays')
            if ok:
                m.ev('series and arrays')
                self.agree(e, 'series_and_arrays', self._flat(e, r), base, None, cxm)
        # scalar form
        if 'scalar' in e.forms:
            for i in rng.choice(nn, min(nn, 5), replace=False):
                kw = {k: float(v[i]) for k, v in allkw.items()}
                if rng.random() < 0.3:
                    kw = {k: np.float64(v) for k, v in kw.items()}
                ok, r = self._call(e, {**kw, **opts}, cx(i), 'scalar')
                if ok:
                    got = {k: v.ravel() for k, v in self._flat(e, r).items()}
                    self.agree(e, 'scalar_vs_base', got, base, [i], cx)
        if batch is None or not e.pointwise:
            return
        # permutation / repetition / split / length one
        perm = rng.permutation(nn)
        if rng.random() < .5:
            perm = rng.integers(0, nn, nn)
        kw = mk({k: v[perm] for k, v in allkw.items()})
        if batch == 'array' and rng.random() < .5:      # views into larger arrays are arrays too
            kw = {k: np.repeat(v, 3)[1::3] if i % 2 else v[::-1].copy()[::-1] for i, (k, v) in enumerate(kw.items())}
        ok, r = self._call(e, {**kw, **opts}, cx(), 'permuted')
        if ok:
            self.agree(e, 'permuted', self._flat(e, r), base, perm, cx)
        c = int(rng.integers(1, nn))
        for sl in (slice(0, c), slice(c, nn)):
            ok, r = self._call(e, {**mk({k: v[sl] for k, v in allkw.items()}), **opts}, cx(), 'split')
            if ok:
                self.agree(e, 'split', self._flat(e, r), base, sl, cx)
        i = int(rng.integers(0, nn))
        ok, r = self._call(e, {**mk({k: v[i:i + 1] for k, v in allkw.items()}), **opts}, cx(i), 'len1')
        if ok:
            self.agree(e, 'len1', {k: v.ravel() for k, v in self._flat(e, r).items()}, base, [i], cx)
        # some arguments scalar, others array
        if e.const_ok and len(names) > 1:
            j = int(rng.integers(0, nn))
            fixed = [k for k in names if rng.random() < 0.5] or [names[-1]]
            if len(fixed) == len(names):
                fixed = fixed[1:]
            vals = {k: (np.full(nn, v[j]) if k in fixed else v.copy()) for k, v in allkw.items()}
            ok, rb = self._call(e, {**mk(vals), **opts}, cx(j), 'filled')
            kw = mk(vals)
            for k in fixed:
                kw[k] = float(allkw[k][j])
            ok2, r = self._call(e, {**kw, **opts}, dict(**cx(j), scalar_args=fixed), 'mixed')
            if ok and ok2:
                fb = {k: as_len(v, nn) for k, v in self._flat(e, rb).items()}
                self.agree(e, 'mixed_scalar_array', self._flat(e, r), fb, None, lambda i=None: dict(**cx(j), scalar_args=fixed))
        # NaN locality
        cand = [k for k in names if k not in e.nan_skip]
        if cand and e.nan:
            k0 = cand[int(rng.integers(0, len(cand)))]
            j = int(rng.choice([0, nn - 1])) if rng.random() < .3 else int(rng.integers(0, nn))
            if e.nan_pick is not None:
                el = np.flatnonzero(e.nan_pick(k0, allkw))
                j = int(rng.choice(el)) if len(el) else -1
            vals = {k: v.copy() for k, v in allkw.items()}
            if j >= 0:
                vals[k0][j] = np.nan
            cxn = lambda i=None: dict(**cx(j), nan_arg=k0, nan_at=j)  # noqa: E731
            ok, r = self._call(e, {**mk(vals), **opts}, cxn(), 'nan') if j >= 0 else (False, None)
            if ok:
                got = {k: as_len(v, nn) for k, v in self._flat(e, r).items()}
                oth = np.arange(nn) != j
                for k in base:
                    if k in got and got[k].shape == base[k].shape:
                        m.close(f'{e.label}.nan_locality', got[k][oth], base[k][oth],
                                max(1e-9, e.rtol * .01), max(1e-10, e.atol * .01), ctx=dict(**cxn(), output=k))
                        if e.nan == 'all' and (e.nan_keys is None or k in e.nan_keys):
                            m.check(f'{e.label}.nan_propagates', np.isnan(got[k][j]), dict(**cxn(), output=k, got=float(got[k][j])),
                                    'missing input gave a value')
                    else:
                        m.violate(f'{e.label}.nan_locality', f'output {k!r} missing or reshaped', cxn())
        # integer dtype: whole numbers mean the same as integers and as floats
        if batch in ('array', 'series') and e.int_args != ():
            mk = (lambda v: v) if batch == 'array' else (lambda v: pd.Series(v, index=pd.RangeIndex(nn)))
            names = [k for k in allkw if (e.int_args is None or k in e.int_args) and np.isfinite(allkw[k]).all()
                     and (np.abs(allkw[k]) < 1e9).all() and (np.abs(allkw[k]) >= .5).any()]
            sets = [[k] for k in rng.permutation(names)[:2]] + ([list(allkw)] if e.int_ok else [])
            for ks in sets:
                ft = np.int64 if rng.random() < .7 else np.int32
                fl = {k: mk(np.round(v) if k in ks else v) for k, v in allkw.items()}
                it = {k: mk(np.round(v).astype(ft) if k in ks else v) for k, v in allkw.items()}
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        fa = {k: as_len(v, nn) for k, v in self._flat(e, e.fn(**{**fl, **opts})).items()}
                except Exception:
                    continue    # rounding left the domain
                m.ev('integer dtype')
                ok2, rb = self._call(e, {**it, **opts}, dict(**cx(), integer=ks), 'int')
                if ok2:
                    self.agree(e, 'int_vs_float', self._flat(e, rb), fa, None, lambda i=None: dict(**cx(i), integer=ks))
        if 'scalar' in e.forms and e.int_args != ():
            i = int(rng.integers(0, nn))
            ks = [k for k in allkw if (e.int_args is None or k in e.int_args) and np.isfinite(allkw[k][i]) and .5 <= abs(allkw[k][i]) < 1e9]
            ks = [str(k) for k in rng.permutation(ks)[:2]]
            fl = {k: float(np.round(v[i])) if k in ks else float(v[i]) for k, v in allkw.items()}
            it = {k: int(np.round(v[i])) if k in ks else float(v[i]) for k, v in allkw.items()}
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    fa = self._flat(e, e.fn(**{**fl, **opts}))
            except Exception:
                fa = None
            if ks and fa is not None:
                m.ev('integer scalar')
                ok2, rb = self._call(e, {**it, **opts}, dict(**cx(), integer=ks, values=it), 'int_scalar')
                if ok2:
                    self.agree(e, 'int_scalar_vs_float', self._flat(e, rb), fa, None, lambda i=None: dict(**cx(i), integer=ks, values=it))
        if e.two_d and batch == 'array' and nn % 2 == 0:
            ok, r = self._call(e, {**{k: v.reshape(2, -1) for k, v in allkw.items()}, **opts}, cx(), '2d')
            if ok:
                got = {k: v.ravel() if v.size == nn else as_len(v, nn) for k, v in self._flat(e, r).items()}
                self.agree(e, '2d', got, base, None, cx)


def _index(rng, n, dup=True):
    from mon import gen
    return gen.index_kinds(rng, n)


def catalogue(mon, entries, n=40, quick=4, thorough=None, forms=True, ref=True):
    """Drive every entry `weight * rounds` times."""
    d = Driver(mon)
    for e in entries:
        d.drive(e, n=n, rounds=mon.n(quick, thorough) * e.weight, forms=forms, ref=ref)
    return d
