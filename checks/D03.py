"""D03: faulty responses and damaged files are reported, never returned as data.

Crash points: every generated file is cut at record boundaries, beside them, in
the header and at random bytes; every generated service exchange is repeated with
one fault injected at one of its requests.  The oracle is the intact result.
"""
import builtins
import copy
import gzip
import io
import os
import signal
import tempfile
import warnings

import numpy as np
import pandas as pd
import requests

from mon import formats as F
from mon import services as S
from mon.core import Mon, main
from mon.net import Net, Step, Fault

mon = Mon('D03', 'a file cut at one byte (format x content x cut x source form) or a service exchange with one fault '
          '(function x step x fault)', required=['reported', 'prefix', 'rows compared', 'files closed', 'buffers left open', 'cut',
                                                 'fault status', 'fault refused', 'fault timeout', 'fault empty', 'fault document',
                                                 'fault cut', 'recovered', 'partial', 'documented error', 'ftp fault', 'polling'],
          assumptions=['the record a cut falls in may be read as far as it was there', 'a response whose connection breaks reaches '
                       'the caller as a shorter body, or as an exception of the HTTP library'])

HANG = 25


class Hung(BaseException):
    pass


def _alarm(*a):
    raise Hung()


class Watch:
    """Runs one call: result or exception, warnings, files opened below `root` and left open."""

    def __init__(self, root=None):
        self.root = root

    def __call__(self, fn, *a, **k):
        opened = []
        real = builtins.open
        root = self.root

        def spy(file, *aa, **kk):
            f = real(file, *aa, **kk)
            if root is not None and isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(root):
                opened.append(f)
            return f
        self.exc, self.out, self.hung = None, None, False
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, HANG)
        builtins.open = io.open = spy
        try:
            with warnings.catch_warnings(record=True) as self.warned:
                warnings.simplefilter('always')
                try:
                    self.out = fn(*a, **k)
                except Hung:
                    self.hung = True
                except Exception as e:
                    self.exc = e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            builtins.open = io.open = real
        self.left = [f for f in opened if not f.closed]
        self.opened = len(opened)
        for f in self.left:
            f.close()
        return self

    @property
    def failed(self):
        return self.exc is not None


def table(out):
    return out[0] if isinstance(out, tuple) else out


def cell(a, b):
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, (list, pd.Timestamp, pd.Interval)):
        return str(a).strip() == str(b).strip() or _num(a, b)
    try:
        return (pd.isna(a) and pd.isna(b)) or a == b or abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
    except (TypeError, ValueError):
        return a is b


def as_written(a, b):
    """A missing-value code left as text, where the intact result has a missing value."""
    return isinstance(a, str) and np.isscalar(b) and pd.isna(b) and a.strip().lstrip('-').replace('.', '', 1).strip('9') in ('', '0', '00')


def _num(a, b):
    try:
        return float(a) == float(b)
    except (TypeError, ValueError):
        return False


def same_rows(t, full, n):
    """Problem in the first n rows of t against the first n of full, or None."""
    if len(t) < n or len(full) < n:
        return f'{len(t)} rows'
    ti, fi = t.index[:n], full.index[:n]
    if isinstance(ti, pd.DatetimeIndex) and isinstance(fi, pd.DatetimeIndex) and (ti.tz is None) != (fi.tz is None):
        return 'time zone awareness differs'
    if isinstance(ti, pd.DatetimeIndex) and isinstance(fi, pd.DatetimeIndex) and ti.tz is not None:
        ti, fi = ti.tz_convert('UTC'), fi.tz_convert('UTC')
    if not ti.equals(fi):
        for i, (a, b) in enumerate(zip(ti, fi)):
            if not a == b:
                return f'row {i} is stamped {a}, intact {b}'
    if isinstance(t, pd.Series):
        t, full = t.to_frame('v'), full.to_frame('v')
    extra = [c for c in t.columns if c not in full.columns]
    if extra:
        return f'columns {extra} that the intact result lacks'
    for c in t.columns:
        x, y = t[c].iloc[:n], full[c].iloc[:n]
        if isinstance(x, pd.DataFrame):
            continue
        try:
            g, w = pd.to_numeric(x).to_numpy(dtype=float, na_value=np.nan), pd.to_numeric(y).to_numpy(dtype=float, na_value=np.nan)
            bad = np.flatnonzero(~((np.abs(g - w) <= 1e-9 * np.maximum(1, np.abs(w))) | (np.isnan(g) & np.isnan(w))))
            bad = [i for i in bad if not as_written(x.iloc[i], y.iloc[i])]
        except (TypeError, ValueError):
            # a half-written number leaves the column as text: its cells then hold what the file says
            bad = [i for i in range(n) if not cell(x.iloc[i], y.iloc[i]) and not as_written(x.iloc[i], y.iloc[i])]
        if len(bad):
            i = int(bad[0])
            return f'{c}: row {i} holds {x.iloc[i]!r}, intact {y.iloc[i]!r}'
    return None


def subset_rows(t, full, spare):
    """Every row of t is a record of full (values equal or missing), but for `spare` rows."""
    cols = [c for c in t.columns if c in full.columns]
    extra = [c for c in t.columns if c not in full.columns]
    if extra:
        return f'columns {extra} that the intact result lacks'
    pos = {}
    for i, s in enumerate(full.index):
        pos.setdefault(s, []).append(i)
    rt, rf = t[cols].astype(object).to_numpy(), full[cols].astype(object).to_numpy()
    odd = []
    for i, s in enumerate(t.index):
        why = f'no record at {s}'
        for j in pos.get(s, []):
            bad = [k for k in range(len(cols)) if not ((np.isscalar(rt[i, k]) and pd.isna(rt[i, k])) or cell(rt[i, k], rf[j, k]) or as_written(rt[i, k], rf[j, k]))]
            if not bad:
                break
            why = f'{cols[bad[0]]} at {s}: {rt[i, bad[0]]!r}, intact {rf[j, bad[0]]!r}'
        else:
            odd.append(why)
    if len(odd) > spare:
        return f'{len(odd)} rows are not in the intact data: {odd[0]}'
    return None


def leaves(d, path=()):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from leaves(v, path + (k,))
        if not d:
            yield path, {}
    else:
        yield path, d


# ------------------------------------------------------------------ cut files
def cuts(rng, c, k):
    n = len(c.raw.rstrip())
    out = {0, 1, n - 1, c.header, max(0, c.header - 1), int(rng.integers(0, max(1, c.header)))}
    rs = [int(s) for s in (c.rec_starts if c.rec_starts is not None else [])]
    out |= set(rs[-1:]) | set(rs[1:2])
    for s in (rng.permutation(rs)[:k] if rs else []):
        s = int(s)
        out |= {s, s - 1, s + 1, s + int(rng.integers(0, 40))}
    out |= {int(x) for x in rng.integers(c.header, n, k)} | {int(x) for x in rng.integers(0, n, 2)}
    return sorted(x for x in out if 0 <= x < n)


def judge_cut(m, c, w, intact, cut, ctx, gz=False):
    m.ev('cut')
    name = c.fmt
    if not m.check('returns', not w.hung, ctx, f'{name}: still reading after {HANG} s'):
        return
    if w.failed:
        m.ev('reported')
        return
    if gz:
        m.violate('cut archive', f'{name}: a cut .gz file gave {len(table(w.out))} records instead of an exception', ctx)
        return
    if c.raw[:1] in b'{[' and name.endswith('json'):
        m.violate('cut document', f'{name}: a cut JSON document gave data', ctx)
        return
    if name == 'panond':
        m.ev('prefix')
        full = dict(leaves(intact))
        bad = [(p, v) for p, v in leaves(w.out) if v != {} and not (p in full and type(v) is type(full[p]) and v == full[p])]
        if len(bad) > 1 or any(p not in full and len(p) > 1 and p[:-1] + ('x',) is None for p, _ in bad):
            m.violate('prefix.panond', f'{len(bad)} entries are not in the intact prefix: {bad[:2]}', ctx)
        return
    t, full = table(w.out), table(intact)
    m.ev('prefix')
    if c.rec_starts is not None:
        k = int(np.sum(np.asarray(c.rec_starts) < cut))
    else:
        k = len(full)
    if getattr(c, 'multi', False):
        p = subset_rows(t, full, 1)
        m.ev('rows compared', len(t))
        if p:
            m.violate('prefix.' + name, p, ctx)
        return
    if len(t) > k:
        m.violate('prefix.' + name, f'{len(t)} records from the {k} begun before byte {cut}', ctx)
        return
    if name == 'srml' and len(t) <= 2:
        return                 # two records do not yet show the interval
    n = len(t) - 1
    if n > 0:
        m.ev('rows compared', n)
        p = same_rows(t, full, n)
        if p:
            m.violate('prefix.' + name, p, dict(ctx, records=len(t)))


def cut_file(m, tmp, fmt, rd, k):
    rng = m.sub('cut', fmt, rd)
    kw = {}
    if fmt in ('surfrad', 'crn') and rng.random() < .5:
        kw['n'] = int(rng.integers(2, 12))
    c = F.ALL[fmt](rng, **kw)
    path = os.path.join(tmp, c.name + c.suffix)
    watch = Watch(tmp)

    def put(b, p=path):
        with open(p, 'wb') as f:
            f.write(b)
    ctx0 = dict(fmt=c.fmt, cfg=c.cfg)
    put(c.raw)
    w = watch(c.read, path)
    if w.failed or w.hung:
        m.violate('intact file', f'{c.fmt}: {w.exc!r}', ctx0)
        return
    m.check('files closed', not w.left and w.opened, ctx0, f'{c.fmt}: left open after reading: {[f.name for f in w.left]} ({w.opened} opened)')
    intact = w.out
    for cut in cuts(rng, c, k):
        ctx = dict(ctx0, cut=cut, size=len(c.raw), header=c.header, tail=c.raw[max(0, cut - 60):cut])
        m.case(('cut', c.fmt, rd, cut), ctx)
        body = c.raw[:cut]
        forms = ['path'] + [b for b in c.buffers]
        form = F.pick(rng, forms)
        if c.fmt == 'bsrn' and rng.random() < .3:
            gz = path + '.gz'
            z = gzip.compress(c.raw)
            zc = max(0, min(len(z) - 1, int(len(z) * cut / len(c.raw))))
            put(z[:zc], gz)
            w = watch(c.read, gz)
            judge_cut(m, c, w, intact, cut, dict(ctx, form='gz', cut_gz=zc), gz=zc > 0)
        elif form == 'path':
            put(body)
            w = watch(c.read, path)
            judge_cut(m, c, w, intact, cut, dict(ctx, form=form))
        else:
            buf = io.BytesIO(body) if form != 'text' else io.StringIO(body.decode(c.encoding, errors='ignore'), newline=None)
            w = watch(c.read, buf)
            judge_cut(m, c, w, intact, cut, dict(ctx, form=form))
            m.check('buffers left open', not buf.closed, dict(ctx, form=form, exc=repr(w.exc)), f'{c.fmt}: the caller\'s buffer was closed')
            buf.close()
        m.check('files closed', not w.left, dict(ctx, form=form, exc=repr(w.exc)), f'{c.fmt}: left open: {[f.name for f in w.left]}')
    # the reader still gives the intact result afterwards
    put(c.raw)
    w = watch(c.read, path)
    if fmt == 'panond':
        m.check('recovered', not w.failed and w.out == intact, ctx0, f'{w.exc!r}')
    else:
        a, b = table(w.out) if not w.failed else None, table(intact)
        m.check('recovered', a is not None and a.equals(b), ctx0, f'{c.fmt}: the intact file reads differently afterwards')


def no_file(m, tmp):
    for fmt in F.ALL:
        c = F.ALL[fmt](m.sub('missing', fmt))
        w = Watch(tmp)(c.read, os.path.join(tmp, 'not-there', c.name + c.suffix))
        m.check('missing file', isinstance(w.exc, OSError), dict(fmt=fmt), f'{w.exc!r} for a file that does not exist')


# --------------------------------------------------------------- faulty services
ERROR_PAGES = [(404, 'text/html', b'<!DOCTYPE HTML><html><head><title>404 Not Found</title></head><body><h1>Not Found</h1></body></html>'),
               (403, 'text/html', b'<html><body>Forbidden</body></html>'),
               (500, 'text/html; charset=utf-8', b'<html><body><h1>Internal Server Error</h1>\n<p>1,2,3</p></body></html>'),
               (503, 'text/plain', b'Service Unavailable'), (502, 'text/html', b'')]
PAGES_200 = [(200, 'text/html', b'<!DOCTYPE html>\n<html><head><title>Maintenance</title></head>\n<body>\n<p>The service is down, please\ncome back later</p>\n</body></html>\n'),
             (200, 'application/json', b'{"error": "quota exceeded"}'), (200, 'text/plain', b'ERROR: no data\n')]
# (module prefix of the function name) -> exception documented for a rejected request
DOCUMENTED = {'get_acis': requests.HTTPError, 'get_meteonorm': requests.HTTPError, 'get_nsrdb': requests.HTTPError,
              'get_cams': requests.HTTPError, 'get_pvgis': requests.HTTPError, 'get_solargis': requests.HTTPError,
              'get_nasa': requests.HTTPError}


def kind_of(body):
    b = body.lstrip()[:1]
    return 'json' if b in (b'{', b'[') else 'xml' if b == b'<' else 'zip' if body[:2] == b'PK' else 'text'


def run(job, faults=None, steps=None, **kw):
    w = Watch()
    with Net(steps if steps is not None else job.steps, faults=faults, ftp=job.ftp) as net:
        w(job.call, **kw)
    w.net = net
    return w


def text_of(exc):
    out = [str(exc)] + [str(a) for a in getattr(exc, 'args', ())]
    return ' '.join(out)


def faulty(m, src, rd):
    rng = m.sub('fault', src, rd)
    job = S.ALL[src](rng)
    ctx0 = dict(fn=job.name, cfg=job.cfg)
    w = run(job)
    if w.failed or w.hung:
        m.violate('intact answer', f'{job.name}: {w.exc!r}', ctx0)
        return
    intact = copy.deepcopy(w.out)
    if job.ftp is not None:
        ftp_faults(m, job, intact, rng, ctx0)
        return
    plan = []
    for i, s in enumerate(job.steps):
        docs = list(job.errdoc or [])
        for st, ct, b in docs + [F.pick(rng, ERROR_PAGES), ERROR_PAGES[0]]:
            plan.append((i, Fault('status', st, b, ct)))
        plan.append((i, Fault('refused')))
        plan.append((i, Fault('timeout')))
        plan.append((i, Fault('status', 200, b'', s.ctype)))
        plan.append((i, Fault('status', *(lambda p: (p[0], p[2], p[1]))(F.pick(rng, PAGES_200)))))
        n = len(s.body)
        for cut in sorted({1, n - 1, n // 2} | {int(x) for x in rng.integers(0, max(n, 1), 3)}):
            if 0 < cut < len(s.body.rstrip()):
                plan.append((i, Fault('cut', cut=cut)))
    for i, f in plan:
        s = job.steps[i]
        ctx = dict(ctx0, step=s.label or i, fault=repr(f))
        m.case(('fault', src, rd, i, repr(f)), ctx)
        w = run(job, {i: f})
        if not m.check('returns', not w.hung, ctx, f'{job.name}: no answer after {HANG} s'):
            continue
        what = ('cut' if f.kind == 'cut' else f.kind if f.kind != 'status' else
                'empty' if not f.body and f.status == 200 else 'document' if f.status == 200 else 'status')
        m.ev('fault ' + what)
        if job.multi and what != 'cut':
            multi(m, job, i, what, w, ctx)
            continue
        if what == 'cut':
            cut_answer(m, job, s, f, w, intact, ctx)
            continue
        if not w.failed and src == 'url_file' and what == 'empty' and len(table(w.out)) == 0:
            m.ev('reported')       # a document of no records
            continue
        if not w.failed and str(s.label).startswith('poll'):
            # asking again after a failed poll is no result of the failed request; the outcome has to be right
            job.judge(m, w.out, ctx)
            continue
        if not w.failed:
            m.violate('fault as data.' + src, f'{job.name} returned a result although its request ended in {f!r}', dict(ctx, out=w.out))
            continue
        m.ev('reported')
        if (what == 'status' or (what == 'document' and src == 'acis')) and (f.status, f.ctype, f.body) in (job.errdoc or []):
            for pre, exc in DOCUMENTED.items():
                if job.name.startswith(pre) and not (pre == 'get_solargis' and f.ctype != S.JSON):
                    m.check('documented error', isinstance(w.exc, exc), ctx, f'{job.name}: {w.exc!r} instead of {exc.__name__}')
    # a request that works is not affected by the failed ones
    w = run(job)
    m.ev('recovered')
    if w.failed or w.hung:
        m.violate('recovered', f'{job.name} fails after an earlier failure: {w.exc!r}', ctx0)
    else:
        for p in w.net.problems:
            m.violate('recovered', f'{job.name}: request changed after an earlier failure: {p}', ctx0)
        job.judge(m, w.out, ctx0)


def named(w, name):
    return any(name.split('/')[-1] in str(x.message) for x in w.warned)


def multi(m, job, i, what, w, ctx):
    """One file of several cannot be had."""
    if w.failed:
        m.ev('reported')
        if what == 'status' and len(job.multi) > 1 and '404' in ctx['fault']:
            m.violate('missing file', f'{job.name}: {w.exc!r} for one missing file of {len(job.multi)}, documented a warning', ctx)
        return
    if what in ('empty', 'document'):
        m.violate('fault as data', f'{job.name} returned a result although one file was {what}', dict(ctx, out=w.out))
        return
    m.ev('partial')
    m.check('partial: warning', named(w, job.multi[i]), dict(ctx, warned=[str(x.message) for x in w.warned]), f'no warning names {job.multi[i]}')
    if len(job.multi) == 1:
        m.violate('fault as data', f'{job.name} returned {len(table(w.out))} records although no file was found', ctx)
        return
    job.partial(m, w.out, [i], ctx)


def cut_answer(m, job, s, f, w, intact, ctx):
    k = kind_of(s.body)
    if w.failed:
        m.ev('reported')
        return
    if k != 'text':
        m.violate('cut answer', f'{job.name} returned a result from a cut {k} document', dict(ctx, out=w.out))
        return
    t, full = table(w.out), table(intact)
    m.ev('prefix')
    if len(job.steps) > 1:
        p = subset_rows(t, full, 1) if isinstance(t, pd.DataFrame) else 'no table'
        m.ev('rows compared', len(t))
    else:
        n = len(t) - 1
        if len(t) > s.body[:f.cut].count(b'\n') + 1:
            p = f'{len(t)} records from {f.cut} bytes'
        elif job.name == 'read_srml (url)' and len(t) <= 2:
            p = None
        else:
            m.ev('rows compared', max(n, 0))
            p = same_rows(t, full, n) if n > 0 else None
    if p:
        m.violate('cut answer', f'{job.name}: {p}', ctx)


def ftp_faults(m, job, intact, rng, ctx0):
    files = job.files
    plan = [(p, f) for p in files for f in [('status', '550 Failed to open file.'), ('status', '426 Connection closed; transfer aborted.'),
                                            ('status', '421 Service not available.'),
                                            ('drop', int(rng.integers(0, len(job.ftp.files[p])))),
                                            ('cut', int(rng.integers(0, len(job.ftp.files[p]))), '226 Transfer complete.'),
                                            ('cut', int(rng.integers(0, len(job.ftp.files[p]))), '426 Transfer aborted.')]]
    plan = [plan[int(j)] for j in rng.permutation(len(plan))[:4]]
    for path, f in plan:
        ctx = dict(ctx0, file=path, fault=f)
        m.case(('ftp', str(ctx)), ctx)
        m.ev('ftp fault')
        job.ftp.faults = {path: f if len(f) == 3 or f[0] != 'cut' else f + ('226 ok',)}
        with tempfile.TemporaryDirectory(prefix='d03-') as tmp:
            save = bool(rng.random() < .5)
            watch = Watch(tmp)
            with Net(job.steps, ftp=job.ftp):
                w = watch(job.call, **(dict(save_path=tmp) if save else {}))
            m.check('files closed', not w.left, ctx, f'get_bsrn: left open: {[g.name for g in w.left]}')
        job.ftp.faults = {}
        if not m.check('returns', not w.hung, ctx, 'get_bsrn hangs'):
            continue
        if w.failed:
            m.ev('reported')
            if f == ('status', '550 Failed to open file.'):
                m.violate('missing file', f'get_bsrn: {w.exc!r} for one missing file, documented a warning', ctx)
            continue
        if f[0] != 'status' or not f[1].startswith('5'):
            m.violate('fault as data', f'get_bsrn returned a result although a transfer ended in {f}', dict(ctx, out=w.out))
            continue
        i = files.index(path)
        m.check('partial: warning', named(w, path) or (len(files) == 1 and w.warned), dict(ctx, warned=[str(x.message) for x in w.warned]), f'no warning names {path}')
        m.ev('partial')
        if len(files) == 1:
            m.check('no file at all', len(table(w.out)) == 0 and len(w.warned) > 0, ctx, f'{len(table(w.out))} records')
        else:
            job.partial(m, w.out, [i], ctx)
    keep = job.ftp.files
    job.ftp.files = {'/xyz/readme.txt': b'x'}
    w = run(job)
    job.ftp.files = keep
    m.check('documented error', isinstance(w.exc, KeyError), ctx0, f'get_bsrn: {w.exc!r} for a station that does not exist, documented KeyError')
    keep = job.ftp.password
    job.ftp.password = keep + 'x'
    w = run(job)
    job.ftp.password = keep
    m.check('wrong password', w.failed and not w.hung, ctx0, f'get_bsrn returned data with a wrong password: {w.out!r:.200}')
    w = run(job)
    m.ev('recovered')
    if w.failed or w.hung:
        m.violate('recovered', f'get_bsrn: {w.exc!r}', ctx0)
    else:
        job.judge(m, w.out, ctx0)


def polling(m, src, rd):
    """Jobs that fail, and jobs that never end."""
    import json
    rng = m.sub('poll', src, rd)
    job = S.ALL[src](rng)
    ctx = dict(fn=job.name, cfg=job.cfg)
    m.case(('poll', src, rd), ctx)
    if src == 'era5':
        st = job.steps[1]
        for status in ('failed', 'rejected'):
            s2 = [job.steps[0], Step(st.url, json.dumps(dict(jobID='x', status=status)), headers=st.headers, ctype=S.JSON, repeat=10 ** 9)] + job.steps[-2:]
            w = run(job, steps=s2)
            m.check('polling', not w.hung and w.failed, dict(ctx, status=status), f'get_era5: a job that {status} gave {w.out!r:.200}')
        s2 = [job.steps[0], Step(st.url, json.dumps(dict(jobID='x', status='running')), headers=st.headers, ctype=S.JSON, repeat=10 ** 9)]
        w = run(job, steps=s2)
        to = job.cfg['kw'].get('timeout', 60)
        m.check('polling', not w.hung and w.failed, ctx, f'get_era5: a job that never ends gave {w.out!r:.200}')
        m.check('polling', w.net.slept <= to + 60, dict(ctx, slept=w.net.slept), f'get_era5 waited {w.net.slept} s with a timeout of {to} s')
    else:
        w = run(job, {k: Fault('status', v[0], v[2], v[1]) for k, v in job.failure.items()})
        m.check('polling', isinstance(w.exc, RuntimeError), ctx, f'get_solaranywhere: a failed request gave {w.exc!r} {w.out!r:.200}')
        m.check('polling', 'Invalid site' in text_of(w.exc), ctx, f'the service\'s message is lost: {w.exc!r}')
        st = job.steps[-1]
        s2 = [job.steps[0], Step(st.url, json.dumps(dict(Status='InProgress')), headers=st.headers, ctype=S.JSON, repeat=10 ** 9)]
        w = run(job, steps=s2)
        m.check('polling', isinstance(w.exc, TimeoutError), ctx, f'get_solaranywhere: a request that never ends gave {w.exc!r}')
        m.check('polling', w.net.slept <= 300 + 60, dict(ctx, slept=w.net.slept), f'waited {w.net.slept} s')


def work(m):
    with tempfile.TemporaryDirectory(prefix='d03-') as tmp:
        for fmt in F.ALL:
            for rd in range(m.n(2, 10) if fmt == 'pvgis_tmy' else m.n(8, 75)):
                cut_file(m, tmp, fmt, rd, m.n(4, 8))
        no_file(m, tmp)
    for src in S.ALL:
        n = m.n(4, 40)
        if src in S.HEAVY:
            n = m.n(1, 6)
        elif src in ('psm4', 'meteonorm', 'acis', 'solcast'):
            n *= 3
        for rd in range(n):
            faulty(m, src, rd)
    for src in ('era5', 'solaranywhere'):
        for rd in range(m.n(3, 20)):
            polling(m, src, rd)


main(mon, work)
