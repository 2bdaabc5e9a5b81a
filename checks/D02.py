"""D02: remote data requests ask for, and return, exactly what the caller asked."""
import os
import tempfile

import pandas as pd

from mon import services as S
from mon.core import Mon, main
from mon.net import Net

mon = Mon('D02', 'a call of a remote data source: distinct (function, arguments, response) with a response known exactly',
          required=['requests', 'stamps', 'values', 'metadata', 'value', 'stamp', 'meta'] + ['source ' + k for k in S.ALL],
          assumptions=['responses follow the layout the service documents', 'requests are compared at the transport boundary, '
                       'numbers by value and lists element by element'])


def one(m, src, rd):
    rng = m.sub(src, rd)
    job = S.ALL[src](rng)
    ctx = dict(fn=job.name, cfg=job.cfg)
    m.case((src, rd, str(job.cfg)), ctx)
    m.ev('source ' + src)
    tmp = None
    kw = {}
    if src == 'bsrn' and rng.random() < .5:
        tmp = tempfile.TemporaryDirectory(prefix='d02-')
        kw['save_path'] = tmp.name
    with Net(job.steps, ftp=job.ftp) as net:
        ok, out = m.call(job.name, job.call, ctx=ctx, **kw)
    m.ev('requests', len(net.log) + (len(job.ftp.log) if job.ftp else 0))
    if job.ftp:
        got = [a for c, a in job.ftp.log if c == 'RETR']
        want = [f.split('/')[-1] for f in job.files]
        m.check('one transfer per file', sorted(g.split('/')[-1] for g in got) == sorted(want), dict(ctx, log=job.ftp.log), f'{got} for {want}')
        m.check('files served', sorted(job.ftp.served) == sorted(job.files), dict(ctx, log=job.ftp.log), f'{job.ftp.served}')
    if tmp is not None:
        for f in job.files:
            p = os.path.join(tmp.name, f.split('/')[-1])
            m.check('saved file', os.path.exists(p) and open(p, 'rb').read() == job.ftp.files[f], dict(ctx, path=p), 'not the bytes that were sent')
        tmp.cleanup()
    for p in net.problems:
        m.violate('request.' + job.name, p, ctx)
    if ok:
        m.check('request missing', not net.unserved(), ctx, f'never requested: {net.unserved()}')
        job.judge(m, out, ctx)


def work(m):
    for src in S.ALL:
        n = m.n(40, 480)
        if src in S.HEAVY:
            n = max(6, int(n * S.HEAVY[src]))
        if src in ('psm4', 'acis', 'meteonorm', 'solcast'):
            n = int(n * 1.8)
        for rd in range(n):
            one(m, src, rd)


main(mon, work)
