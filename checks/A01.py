import numpy as np
import pvlib
from mon.core import Mon, main
from mon.engine import catalogue
from mon import cat_atmosphere as C, gen

mon = Mon('A01', 'distinct drives of every atmosphere function over input ranges, models and containers; inverse pairs composed',
          required=['atmosphere.get_relative_airmass.reference', 'atmosphere.kasten96_lt.reference', 'inverse', 'airmass_order', 'bad_model'])


def work(m):
    catalogue(m, C.ATM, n=50, quick=8, thorough=80)
    at = pvlib.atmosphere
    for rd in range(m.n(40, 400)):
        rng = m.sub('inv', rd)
        n = 50
        alt = gen.mix(rng, n, -400, 8000, [0.])
        m.case(('inv', rd))
        m.close('inverse', at.pres2alt(at.alt2pres(alt)), alt, 2e-4, .5, dict(alt=alt))
        p = rng.uniform(3.5e4, 1.08e5, n)
        m.close('inverse', at.alt2pres(at.pres2alt(p)), p, 1e-4, 1., dict(p=p))
        ta = rng.uniform(-30, 45, n)
        rh = np.where(rng.random(n) < .2, 10. ** rng.uniform(-2, .5, n), rng.uniform(2, 100, n))
        co = [(6.112, 17.62, 243.12), (6.1094, 17.625, 243.04), (6.11, 21.87, 265.5)][rd % 3]
        td = at.tdew_from_rh(ta, rh, co)
        m.close('inverse', at.rh_from_tdew(ta, td, co), rh, 1e-9, 1e-9, dict(ta=ta, rh=rh))
        m.check('dew_below_air', np.all(td <= ta + 1e-9), dict(ta=ta, rh=rh))
        a0, l0, l1, al = rng.uniform(.01, 2, n), rng.uniform(300, 700, n), rng.uniform(800, 1600, n), rng.uniform(-.5, 2.5, n)
        a1 = at.angstrom_aod_at_lambda(a0, l0, al, l1)
        m.close('inverse', at.angstrom_alpha(a0, l0, a1, l1), al, 1e-9, 1e-9)
        m.close('inverse', at.angstrom_aod_at_lambda(a1, l1, al, l0), a0, 1e-9, 1e-12)
        w = rng.uniform(0, 20, n)
        h1, h2, e = rng.uniform(1, 30), rng.uniform(1, 100), rng.uniform(.02, .6)
        m.close('inverse', at.windspeed_powerlaw(at.windspeed_powerlaw(w, h1, h2, e), h2, h1, e), w, 1e-9, 1e-9)
        m.close('same_height', at.windspeed_powerlaw(w, h1, h1, surface_type=list(C.HELLMANN)[rd % 9]), w, 1e-12)
        z = np.sort(rng.uniform(0, 90, n))
        for mod in C.AMS:
            if mod in ('youngirvine1967',):
                continue
            am = at.get_relative_airmass(z, mod)
            zz = z < 89.9
            up = zz & (z > 1)      # the refraction terms of Gueymard's fits dip by some 1e-5 within half a degree of overhead
            m.check('airmass_order', np.all(np.diff(am[up]) > 0) and np.all(am[zz] > .99), dict(mod=mod, z=z))
            below = at.get_relative_airmass(rng.uniform(90.0001, 180, 5), mod)
            m.check('airmass_below_horizon', np.isnan(below).all(), mod)
    for bad in ('kasten', '', 'simplex', 'youngirvine', 'gueymard'):
        m.raises('bad_model', ValueError, at.get_relative_airmass, 30., bad)
    m.raises('wind_args', ValueError, at.windspeed_powerlaw, 5., 10., 20.)
    m.raises('wind_args', ValueError, at.windspeed_powerlaw, 5., 10., 20., exponent=.1, surface_type='neutral_air_above_flat_open_coast')
    m.raises('wind_surface', KeyError, at.windspeed_powerlaw, 5., 10., 20., surface_type='moon')
    for k, v in C.HELLMANN.items():
        m.close('hellmann', at.HELLMANN_SURFACE_EXPONENTS[k], v)


main(mon, work)
