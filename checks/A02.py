import os
import shutil
import tempfile
import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue, flat
from mon import cat_atmosphere as C, gen

mon = Mon('A02', 'distinct drives of the clear-sky models (reference equations, closure, sign, night) and turbidity look-ups '
          'in generated grid files over sites and instants',
          required=['clearsky.ineichen.reference', 'clearsky.simplified_solis.reference', 'clearsky.bird.reference', 'clearsky.haurwitz.reference',
                    'closure', 'lookup', 'lookup_monthly'])
MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def lt_ref(row, t):
    """Independent: month middles, piecewise linear in day of year, December/January wrap."""
    t = t.tz_convert('UTC') if t.tz is not None else t
    leap = t.is_leap_year
    md = list(MD)
    md[1] += leap
    mids, s = [], 0
    for x in md:
        mids.append(s + x / 2)
        s += x
    pts = [(-31 / 2, row[11])] + list(zip(mids, row)) + [(s + 31 / 2, row[0])]
    d = t.dayofyear
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        if x0 <= d <= x1:
            return (y0 + (y1 - y0) * (d - x0) / (x1 - x0)) / 20


def work(m):
    catalogue(m, C.CLEAR, n=50, quick=8, thorough=80)
    cs = pvlib.clearsky
    for rd in range(m.n(60, 600)):
        rng = m.sub('clo', rd)
        n = 60
        a = C.g_ineichen(rng, n)
        pe = bool(rd % 2)
        f = flat(cs.ineichen(**a, perez_enhancement=pe))
        cz = np.maximum(np.cos(np.radians(a['apparent_zenith'])), 0)
        m.case(('closure', rd))
        m.close('closure', f['dhi'] + f['dni'] * cz, f['ghi'], 1e-9, 1e-9, a)
        for k in f:
            m.check('nonneg', np.all(f[k] >= -1e-9), dict(a=a, k=k))
            m.check('night', np.all(f[k][a['apparent_zenith'] > 90] == 0), dict(a=a, k=k))
        b = C.g_bird(rng, n)
        g = flat(cs.bird(**b))
        up = (b['zenith'] <= 90)
        m.close('closure', (g['dhi'] + g['direct_horizontal'])[up], g['ghi'][up], 1e-9, 1e-9, b)
        m.close('closure', (g['dni'] * np.cos(np.radians(b['zenith'])))[b['zenith'] < 89.9], g['direct_horizontal'][b['zenith'] < 89.9], 1e-9, 1e-9, b)
        s = C.g_solis(rng, n)
        h = flat(cs.simplified_solis(**s))
        for k in h:
            m.check('nonneg', np.all(h[k] >= 0), dict(a=s, k=k))
            m.check('night', np.all(h[k][s['apparent_elevation'] < 0] < 1e-6), dict(a=s, k=k, v=h[k][s['apparent_elevation'] < 0]))
        z = pd.Series(gen.zenith(rng, n, 120))
        hw = cs.haurwitz(z)
        m.check('haurwitz_frame', isinstance(hw, pd.DataFrame) and list(hw.columns) == ['ghi'] and hw.index.equals(z.index))
        m.check('night', np.all(hw['ghi'][z >= 90] < 1e-9))
        k = int(rng.integers(0, 3))
        ai = rng.integers(0, 1 + k, 6)
        si = dict(apparent_elevation=rng.uniform(5, 85, 6), precipitable_water=float(rng.uniform(.3, 5)), pressure=float(rng.uniform(7e4, 1.05e5)))
        okf, fi_ = m.call('solis_int', cs.simplified_solis, **si, aod700=ai)
        okg, gi_ = m.call('solis_int', cs.simplified_solis, **si, aod700=ai.astype(float))
        if okf and okg:
            ff, gg = flat(fi_), flat(gi_)
            for q in gg:
                m.close('solis_int', ff[q], gg[q], 1e-9, 1e-9, dict(aod700=ai, **si))
        zi = z.round().astype(int)
        m.close('haurwitz_int', cs.haurwitz(zi)['ghi'], cs.haurwitz(zi.astype(float))['ghi'], 1e-9, 1e-9, dict(z=zi))
    # ---- turbidity look-up in generated files
    import h5py
    tmp = tempfile.mkdtemp(prefix='a02_')
    try:
        for fi in range(m.n(2, 8)):
            rng = m.sub('lt', fi)
            path = os.path.join(tmp, f'lt{fi}.h5')
            cells = {}
            with h5py.File(path, 'w') as f:
                ds = f.create_dataset('LinkeTurbidity', (2160, 4320, 12), dtype='u1', chunks=(1, 1, 12))
                todo = []
                for _ in range(m.n(60, 250)):
                    lat, lon, _ = gen.site(rng)
                    if rng.random() < .2:      # close to a cell edge
                        lat = round(lat * 12) / 12 + float(rng.choice([-1e-6, 1e-6]))
                        lon = round(lon * 12) / 12 + float(rng.choice([-1e-6, 1e-6]))
                    lat, lon = float(np.clip(lat, -90, 90)), float(np.clip(lon, -180, 180))
                    i = min(int(np.floor((90 - lat) * 12)), 2159)
                    j = min(int(np.floor((lon + 180) * 12)), 4319)
                    for di in (-1, 0, 1):
                        for dj in (-1, 0, 1):
                            q = ((i + di), (j + dj))
                            if 0 <= q[0] < 2160 and 0 <= q[1] < 4320 and q not in cells:
                                cells[q] = rng.integers(20, 200, 12)
                                ds[q[0], q[1]] = cells[q]
                    todo.append((lat, lon, (i, j)))
            for lat, lon, q in todo:
                tz = gen.ZONES[int(rng.integers(0, len(gen.ZONES)))]
                t = gen.instants(rng, 30, 1990, 2040)
                t = t.tz_convert(tz) if rng.random() < .7 else t.tz_localize(None)
                ctx = dict(lat=lat, lon=lon, tz=str(t.tz), t=t[:3])
                m.case(('lookup', lat, lon), ctx)
                fx, fy = (90 - lat) * 12, (lon + 180) * 12
                if abs(fx - round(fx)) < 1e-9 and 0 < round(fx) < 2160 or abs(fy - round(fy)) < 1e-9 and 0 < round(fy) < 4320:
                    m.call('lookup', cs.lookup_linke_turbidity, t, lat, lon, filepath=path, ctx=ctx)
                    continue     # exactly on a cell edge: either neighbour is right
                row = cells[q]
                ok, r = m.call('lookup', cs.lookup_linke_turbidity, t, lat, lon, filepath=path, ctx=ctx)
                if ok:
                    m.check('lookup_index', isinstance(r, pd.Series) and r.index.equals(t), ctx)
                    m.close('lookup', r, [lt_ref(row.astype(float), x) for x in t], 1e-9, 1e-9, ctx)
                ok, r = m.call('lookup', cs.lookup_linke_turbidity, t, lat, lon, filepath=path, interp_turbidity=False, ctx=ctx)
                if ok:
                    u = t.tz_convert('UTC') if t.tz is not None else t
                    m.close('lookup_monthly', r, row[u.month - 1] / 20, 1e-12, 0, ctx)
                loc = pvlib.location.Location(lat, lon)
            for bad in ((91., 0.), (-91., 0.), (0., 181.), (0., -181.)):
                m.raises('lookup_range', (ValueError, IndexError), cs.lookup_linke_turbidity, t, *bad, filepath=path)
    finally:
        shutil.rmtree(tmp)


main(mon, work)
