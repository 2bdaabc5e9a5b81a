import numpy as np
import pandas as pd
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue
from mon import cat_irradiance as C, gen

mon = Mon('I06', 'distinct drives of the clear-sky and clearness indices over irradiance (negative, zero, NaN, inf), zenith and limits',
          required=['irradiance.clearsky_index.reference', 'irradiance.clearness_index.reference',
                    'irradiance.clearness_index_zenith_independent.reference', 'bounds', 'roundtrip'])


def work(m):
    catalogue(m, C.INDEX, n=60, quick=15, thorough=150)
    ir = pvlib.irradiance
    for rd in range(m.n(60, 600)):
        rng = m.sub('b', rd)
        n = 60
        g = gen.mix(rng, n, -50, 1500, [0., np.nan, np.inf, -1.])
        c = gen.mix(rng, n, 0, 1200, [0., np.nan, np.inf, 1e-12])
        mx = float(rng.choice([1., 1.2, 2., 3.]))
        idx = gen.index_kinds(rng, n)
        r = ir.clearsky_index(pd.Series(g, idx), pd.Series(c, idx), mx)
        m.case(('csi', rd))
        m.check('csi_series', isinstance(r, pd.Series) and r.index.equals(idx))
        miss = ~np.isfinite(g) | ~np.isfinite(c)
        m.check('csi_missing', np.array_equal(np.isnan(r.to_numpy()), miss), dict(g=g, c=c))
        v = r.to_numpy()[~miss]
        m.check('bounds', np.all((v >= 0) & (v <= mx)), dict(g=g, c=c, mx=mx))
        # reconstruct irradiance from the index where no limit is active
        ok = (~miss) & (c > 1) & (g > 0) & (g < mx * c)
        m.close('roundtrip', r.to_numpy()[ok] * c[ok], g[ok], 1e-10, 1e-9)
        z = gen.zenith(rng, n, 120)
        i0 = rng.uniform(1300, 1420, n)
        mc = float(rng.choice([.065, .01, .2]))
        kt = ir.clearness_index(np.where(np.isfinite(g), g, 1.), z, i0, mc, mx)
        m.check('bounds', np.all((kt >= 0) & (kt <= mx)), dict(z=z))
        am = rng.uniform(1, 30, n)
        kp = ir.clearness_index_zenith_independent(np.minimum(kt, 1), am, mx)
        un = (kp > 0) & (kp < mx)
        m.close('roundtrip', (kp * (1.031 * np.exp(-1.4 / (0.9 + 9.4 / am)) + .1))[un], np.minimum(kt, 1)[un], 1e-9, 1e-10)
        m.close('unit_airmass', ir.clearness_index_zenith_independent(kt, np.full(n, 1.), 9.), kt / C.ktp_factor(1.), 1e-10)


main(mon, work)
