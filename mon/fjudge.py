"""Compares what a reader returned with the content its file was generated from."""
import numpy as np
import pandas as pd

from mon import formats as F


def same_stamps(got, want):
    g = pd.DatetimeIndex(got)
    if (g.tz is None) != (want.tz is None):
        return False, 'time zone awareness'
    if g.tz is not None:
        if len(g) and len(want) and g[0].utcoffset() != want[0].utcoffset():
            return False, f'offset {g[0].utcoffset()} != {want[0].utcoffset()}'
        g, want = g.tz_convert('UTC'), want.tz_convert('UTC')
    g, want = g.as_unit('ns'), want.as_unit('ns')
    bad = np.flatnonzero(np.asarray(g != want))
    return (not len(bad)), (f'{len(bad)} stamps differ, first at {bad[0]}: {g[bad[0]]} != {want[bad[0]]}' if len(bad) else '')


def judge_meta(m, c, meta, ctx):
    for k, v in c.meta.items():
        try:
            g = F.meta_get(meta, k)
        except (KeyError, TypeError):
            m.check(f'meta.{c.fmt}', False, ctx, f'no metadata {k!r}')
            continue
        m.ev('meta')
        if isinstance(v, pd.Series):
            ok = isinstance(g, pd.Series) and list(g.index) == list(v.index) and list(g) == list(v)
        elif isinstance(v, (list, pd.Timestamp)):
            ok = g == v
        elif isinstance(v, (bool, int, float)):
            ok = not isinstance(g, str) and abs(float(g) - v) <= 1e-9 * max(1, abs(v))
        else:
            ok = str(g) == str(v)
        if not ok:
            m.violate(f'meta.{c.fmt}', f'{k}: got {g!r} want {v!r}', ctx)


def judge(m, c, out, ctx):
    if isinstance(out, tuple):
        data, meta = out
    else:
        data, meta = out, None
    if c.meta is not None:
        judge_meta(m, c, meta, ctx)
    want_idx = c.index
    m.check('record count', len(data) == len(want_idx), dict(ctx, got=len(data), want=len(want_idx)), 'records lost or invented')
    if len(data) != len(want_idx):
        return
    if getattr(c, 'order_free', False):
        data = data.sort_index()
    m.ev('stamp', len(want_idx))
    ok, why = same_stamps(data.index, want_idx)
    if not ok:
        m.violate(f'stamp.{c.fmt}', why, ctx)
    if not c.cols_only:
        extra = set(data.columns) ^ set(c.cols)
        extra -= {'time', 'Year', 'Month', 'Day', 'Hour', 'Minute'}
        m.check('columns', not extra, dict(ctx, columns=list(data.columns)), f'column set differs: {sorted(extra)}')
    for k, v in c.cols.items():
        if not m.check('columns', k in data.columns, dict(ctx, columns=list(data.columns)[:40]), f'{c.fmt}: no column {k!r}'):
            continue
        g = data[k]
        if isinstance(g, pd.DataFrame):
            m.violate(f'columns.{c.fmt}', f'column {k!r} appears {g.shape[1]} times', ctx)
            continue
        m.ev('value', len(v))
        if v.dtype == object:
            bad = [i for i, (a, b) in enumerate(zip(g, v)) if str(a).strip() != b]
            if bad:
                m.violate(f'value.{c.fmt}', f'{k}: {len(bad)} differ, first {g.iloc[bad[0]]!r} != {v[bad[0]]!r}', ctx)
            continue
        try:
            gv = pd.to_numeric(g).to_numpy(dtype=float)
        except (ValueError, TypeError) as e:
            m.violate(f'value.{c.fmt}', f'{k}: not numeric: {e}', ctx)
            continue
        bad = ~((np.abs(gv - v) <= 1e-9 * np.maximum(1, np.abs(v))) | (np.isnan(gv) & np.isnan(v)))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            name = f'value.{c.fmt}'
            if c.fmt == 'solrad' and k == c.last_col:
                # the known finding: exactly the final character of the line is lost
                cut = np.array([float(t[:-1]) if t != '-9999.900' else np.nan for t in c.last_texts])
                if ((gv == cut) | (np.isnan(gv) & np.isnan(cut))).all():
                    name = 'solrad_last_digit'
            m.violate(name, f'{k}: {int(bad.sum())}/{len(bad)} differ, first at {i}: got {gv[i]!r} want {v[i]!r}', ctx)


def tree(m, c, out, ctx):
    """PAN/OND: nested dictionaries with values and their types."""
    def cmp(a, b, path):
        if isinstance(b, dict):
            if not isinstance(a, dict) or set(a) != set(b):
                m.violate('panond.keys', f'{path}: {list(a) if isinstance(a, dict) else a!r} != {list(b)}', ctx)
                return
            for k in b:
                cmp(a[k], b[k], path + '/' + k)
        else:
            m.ev('value')
            ok = type(a) is type(b) and (a == b or (isinstance(b, list) and all(
                type(x) is type(y) and (x == y or abs(x - y) < 1e-9) for x, y in zip(a, b)) and len(a) == len(b)))
            if not ok:
                m.violate('panond.value', f'{path}: {a!r} != {b!r}', ctx)
    cmp(out, c.meta, '')
