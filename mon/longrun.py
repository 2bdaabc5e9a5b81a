"""Long time indexes: a value belongs to its own instant, however many instants are asked for together."""
import numpy as np
import pandas as pd

SIZES = [1025, 2049, 4100, 10007]


def instants(rng, n, step=None, tz='UTC'):
    step = step or str(rng.choice(['1min', '7min', '1h', '37h']))
    t0 = pd.Timestamp('1975-01-01', tz='UTC') + pd.Timedelta(hours=int(rng.integers(0, 350000)))
    return pd.date_range(t0, periods=n, freq=step).tz_convert(tz)


def days(rng, n, tz='UTC'):
    d0 = pd.Timestamp('1975-01-01') + pd.Timedelta(days=int(rng.integers(0, 10000)))
    return pd.date_range(d0, periods=n, freq='1D').tz_localize(tz)


def table(r, t):
    if isinstance(r, pd.Series):
        return r.to_frame('x')
    return r if isinstance(r, pd.DataFrame) else pd.DataFrame(np.asarray(r), index=t)


def judge(m, clause, f, t, rng, ctx, k=40, rtol=1e-9, atol=2e-8, only=None):
    """f(long index) at some instants is f(those instants)"""
    ctx = dict(ctx, length=len(t), first=str(t[0]))
    m.case((clause, 'long', len(t), str(t[0]), str(ctx)[:80]), ctx)
    sel = np.unique(np.concatenate([rng.integers(0, len(t), k), [0, len(t) - 1]]))
    ok, a = m.call(clause, f, t, ctx=ctx)
    ok2, b = m.call(clause, f, t[sel], ctx=ctx)
    if not (ok and ok2):
        return
    a, b = table(a, t), table(b, t[sel])
    m.ev('long batch elements', len(t))
    if not m.check(clause, len(a) == len(t) and list(a.columns) == list(b.columns), ctx, 'shape of the long result'):
        return
    for c in b.columns:
        if only and c not in only:
            continue
        x, y = a[c].iloc[sel], b[c]
        if isinstance(y.dtype, pd.DatetimeTZDtype) or y.dtype.kind == 'M':
            n1, n2 = x.isna().to_numpy(), y.isna().to_numpy()
            d = (x.reset_index(drop=True) - y.reset_index(drop=True)).abs().dt.total_seconds().to_numpy()
            m.check(clause, np.array_equal(n1, n2) and not (d[~n1] > 2e-3).any(), dict(ctx, col=c), 'times differ from those of a short index')
        else:
            m.close(clause, x.to_numpy(float), y.to_numpy(float), rtol, atol, dict(ctx, col=c))
