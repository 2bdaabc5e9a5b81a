"""D01: weather files are read back with their exact values, times and metadata.

Files are generated together with their content (mon/formats.py); the readers'
output is compared with that content, cell by cell, stamp by stamp.
"""
import os
import tempfile
import pathlib

import numpy as np
import pandas as pd

from mon import formats as F
from mon.core import Mon, main
from mon.fjudge import judge, tree

mon = Mon('D01', 'a generated file (format x header x time zone x interval x missing codes x options), read through '
          'a path and through the buffers the reader accepts', required=['value', 'stamp', 'meta', 'record count'],
          assumptions=['files follow the provider\'s layout', 'instants are compared in UTC; naive results (CAMS daily '
                       'and monthly sums) compared naive'])


def one(m, tmp, fmt, rd, **kw):
    rng = m.sub(fmt, rd, *sorted(kw))
    c = F.ALL[fmt](rng, **kw)
    ctx = dict(fmt=c.fmt, cfg=c.cfg)
    m.case((fmt, rd, tuple(sorted(kw)), str(c.cfg)), ctx)
    m.ev('files.' + c.fmt)
    path = os.path.join(tmp, c.name + c.suffix)
    with open(path, 'wb') as f:
        f.write(c.raw)
    forms = [('str', path)]
    if rng.random() < .5 and fmt != 'panond':
        forms.append(('Path', pathlib.Path(path)))
    for b in c.buffers:
        forms.append((b, F.as_buffer(c, b)))
    if c.fmt == 'pvgis_hourly_json' or c.fmt == 'bsrn':
        pass
    if c.fmt == 'bsrn' and rng.random() < .3:
        import gzip
        gz = os.path.splitext(path)[0] + F.pick(rng, ['.dat.gz', '.gz', '.2019.001.gz'])
        with gzip.open(gz, 'wb') as f:
            f.write(c.raw)
        forms.append(('gz', gz))
    for label, src in forms:
        ok, out = m.call(f'read.{c.fmt}', c.read, src, ctx=dict(ctx, form=label))
        if ok:
            (tree if fmt == 'panond' else judge)(m, c, out, dict(ctx, form=label))
        if hasattr(src, 'read'):
            m.check('buffer left open', not src.closed, dict(ctx, form=label))
            src.close()


def work(m):
    with tempfile.TemporaryDirectory(prefix='d01-') as tmp:
        for fmt in F.ALL:
            n = m.n(45, 700)
            if fmt == 'pvgis_tmy':
                n = m.n(5, 40)
            for rd in range(n):
                one(m, tmp, fmt, rd)
        for fmt in ('tmy3', 'tmy2', 'epw'):
            for rd in range(m.n(2, 10)):
                one(m, tmp, fmt, rd, full=True)
        for rd in range(m.n(1, 5)):
            one(m, tmp, 'psm4', rd, full=True)


main(mon, work)
