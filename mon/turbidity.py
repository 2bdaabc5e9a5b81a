"""A stand-in for the turbidity table, which this checkout does not ship.

Opening a file named LinkeTurbidities.h5 opens a generated one instead; all other
files open as usual."""
import contextlib
import os
import shutil
import tempfile

import h5py
import numpy as np


@contextlib.contextmanager
def table(cells, fill=1):
    """cells: {(lat, lon): twelve raw values}; the cell of each site and its neighbours get them."""
    tmp = tempfile.mkdtemp(prefix='turbidity_')
    path = os.path.join(tmp, 'LinkeTurbidities.h5')
    with h5py.File(path, 'w') as f:
        ds = f.create_dataset('LinkeTurbidity', (2160, 4320, 12), dtype='u1', chunks=(1, 1, 12), fillvalue=fill)
        for (lat, lon), v in cells.items():
            i, j = min(int((90 - lat) * 12), 2159), min(int((lon + 180) * 12), 4319)
            ds[i, j] = np.asarray(v)
    real = h5py.File

    def redirected(name, *a, **k):
        if isinstance(name, (str, os.PathLike)) and os.path.basename(os.fspath(name)) == 'LinkeTurbidities.h5':
            name = path
        return real(name, *a, **k)
    h5py.File = redirected
    try:
        yield path
    finally:
        h5py.File = real
        shutil.rmtree(tmp)
