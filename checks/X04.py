"""X04: deprecated names and arguments: same results, always a warning; current names: never one."""
import inspect
import io
import os
import warnings
from unittest import mock

import numpy as np
import pandas as pd

import pvlib
from pvlib import albedo, bifacial, iam, iotools, irradiance, location, modelchain, pvsystem, tracking
from pvlib._deprecation import pvlibDeprecationWarning

from mon import chain as C
from mon import wide as W
from mon.core import REPO, Mon, main
from mon.deep import deep

mon = Mon('X04', 'distinct (deprecated name, passing style, arguments) and (current name, arguments) calls',
          ['result under the current spelling', 'documented equations for deprecated models without a successor', 'recorded warnings'],
          required=['old_same', 'old_warns', 'both_rejected', 'new_silent', 'old_model', 'wide_silent', 'no_effect'])


def pv(rec):
    return [w for w in rec if issubclass(w.category, pvlibDeprecationWarning)]


def run(f, *a, **k):
    """(raised, result, pvlib deprecation warnings); warnings are judged, so never filtered or deduplicated"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        try:
            return None, f(*a, **k), pv(rec)
        except Exception as e:
            return e, None, pv(rec)


def pair(m, label, old, new, ctx):
    """old and new are thunks: every use of the old name warns, the new one never does, and both agree"""
    m.case((label, str(ctx)), dict(name=label, **ctx))
    e1, r1, w1 = run(new)
    e2, r2, w2 = run(old)
    e3, r3, w3 = run(old)   # warned on every use, not the first one only
    m.check('new_silent', not w1, dict(ctx, name=label, warned=[str(w.message)[:120] for w in w1]), 'the current name gave a deprecation warning')
    m.check('old_warns', bool(w2) and bool(w3), dict(ctx, name=label, first=len(w2), second=len(w3)), 'the old name gave no pvlib deprecation warning')
    if e1 is not None or e2 is not None:
        m.check('old_same', type(e1) is type(e2) and str(e1) == str(e2), dict(ctx, name=label, new=repr(e1), old=repr(e2)), 'one spelling raised, or they raised differently')
        return
    m.check('old_same', deep(r1) == deep(r2) == deep(r3), dict(ctx, name=label), 'old and new spelling give different results')


def both(m, label, f, ctx, *a, **k):
    for _ in range(2):
        e, r, w = run(f, *a, **k)
        m.check('both_rejected', isinstance(e, (TypeError, ValueError)), dict(ctx, name=label, got=repr(e)), 'old and new spelling together were accepted')


def fresh(args):
    return {k: (v.copy() if isinstance(v, (np.ndarray, pd.Series)) else v) for k, v in args.items()}


def styles(rng, f, args, renamed, old):
    """Call styles for the function: a random number of leading positional arguments before the renamed one."""
    names = [p for p in inspect.signature(f).parameters]
    k = names.index(renamed)
    npos = int(rng.integers(0, k + 1))
    pos = [args[n] for n in names[:npos]]
    rest = {n: v for n, v in args.items() if n not in names[:npos] and n != renamed}
    items = list(rest.items()) + [(old, args[renamed])]
    order = rng.permutation(len(items))
    return pos, dict(items[i] for i in order)


def kwargs_renamed(m):
    for rd in range(m.n(25, 400)):
        rng = m.sub('kw', rd)
        z, a = W.sun(rng)
        form = ['series', 'array', 'scalar'][rd % 3]
        conv = {'series': lambda s: s, 'array': lambda s: s.to_numpy(), 'scalar': lambda s: float(s.iloc[8])}[form]
        # singleaxis
        args = dict(apparent_zenith=conv(z), solar_azimuth=conv(a))
        if rng.random() < .7:
            args.update(axis_slope=0) if False else None
        for k, v in dict(axis_azimuth=float(rng.uniform(90, 270)), max_angle=60., backtrack=bool(rng.random() < .5), gcr=.35, cross_axis_tilt=1.).items():
            if rng.random() < .5:
                args[k] = v
        pos, kw = styles(rng, tracking.singleaxis, args, 'solar_azimuth', 'apparent_azimuth')
        pair(m, 'tracking.singleaxis(apparent_azimuth)', lambda: tracking.singleaxis(*pos, **fresh(kw)), lambda: tracking.singleaxis(**fresh(args)), dict(form=form, npos=len(pos), keys=sorted(args)))
        both(m, 'tracking.singleaxis', tracking.singleaxis, dict(form=form), *pos, **kw, solar_azimuth=args['solar_azimuth'])
        for v in (0, 0., False, None, ''):     # whatever the value under the new name is
            both(m, 'tracking.singleaxis', tracking.singleaxis, dict(form=form, new=v), *pos, **kw, solar_azimuth=v)
        if len(pos) == 1:
            both(m, 'tracking.singleaxis', tracking.singleaxis, dict(form=form, positional=True), args['apparent_zenith'], args['solar_azimuth'], apparent_azimuth=args['solar_azimuth'])
        # vf_ground_sky_2d_integ
        rot = rng.uniform(-60, 60, 4)
        args = dict(tracker_rotation=float(rot[0]) if form == 'scalar' else rot, gcr=float(rng.uniform(.2, .6)), height=2., pitch=5.)
        if rng.random() < .5:
            args.update(max_rows=int(rng.integers(2, 12)))
        if rng.random() < .5:
            args.update(g0=.1, g1=.6)
        f = bifacial.utils.vf_ground_sky_2d_integ
        pos, kw = styles(rng, f, args, 'tracker_rotation', 'surface_tilt')
        pair(m, 'bifacial.utils.vf_ground_sky_2d_integ(surface_tilt)', lambda: f(*pos, **fresh(kw)), lambda: f(**fresh(args)), dict(form=form, keys=sorted(args)))
        both(m, 'bifacial.utils.vf_ground_sky_2d_integ', f, dict(form=form), *pos, **kw, tracker_rotation=rot)
        for v in (0, None):
            both(m, 'bifacial.utils.vf_ground_sky_2d_integ', f, dict(form=form, new=v), *pos, **kw, tracker_rotation=v)
        # arguments without effect
        for dep in (dict(npoints=int(rng.integers(1, 200))), dict(vectorize=bool(rng.random() < .5)), dict(npoints=0), dict(npoints=10, vectorize=False)):
            pair(m, 'bifacial.utils.vf_ground_sky_2d_integ(npoints, vectorize)', lambda: f(**fresh(args), **dep), lambda: f(**fresh(args)), dict(form=form, dep=dep))
            m.ev('no_effect')


def infinite_sheds(m):
    for rd in range(m.n(5, 60)):
        rng = m.sub('sheds', rd)
        for lab in ('bifacial.infinite_sheds.get_irradiance', 'bifacial.infinite_sheds.get_irradiance_poa'):
            f, a, k = W.TABLE[lab](rng)
            k.pop('npoints', None), k.pop('vectorize', None)
            for dep in (dict(npoints=int(rng.integers(1, 200))), dict(vectorize=bool(rd % 2)), dict(npoints=5, vectorize=True)):
                pair(m, lab + '(npoints, vectorize)', lambda: f(*a, **fresh(k), **dep), lambda: f(*a, **fresh(k)), dict(dep=dep, gcr=k['gcr']))
                m.ev('no_effect')


def functions(m):
    for rd in range(m.n(15, 200)):
        rng = m.sub('fn', rd)
        f, a, k = W.TABLE['irradiance.ghi_from_poa_driesse_2024'](rng)
        if rd % 2:
            k = {n: (v.to_numpy() if isinstance(v, pd.Series) else v) for n, v in k.items()}
        names = list(inspect.signature(f).parameters)
        npos = int(rng.integers(0, 6))
        pos = [k[n] for n in names[:npos]]
        kw = {n: v for n, v in k.items() if n not in names[:npos]}
        pair(m, 'irradiance.ghi_from_poa_driesse_2023', lambda: irradiance.ghi_from_poa_driesse_2023(*pos, **fresh(kw)), lambda: irradiance.ghi_from_poa_driesse_2024(**fresh(k)), dict(npos=npos, out=k.get('full_output')))
        # SURFACE_ALBEDOS
        pair(m, 'irradiance.SURFACE_ALBEDOS', lambda: dict(irradiance.SURFACE_ALBEDOS), lambda: dict(albedo.SURFACE_ALBEDOS), dict(rd=rd))
        e, r, w = run(getattr, irradiance, f'NO_SUCH_{rd}')
        m.check('old_same', isinstance(e, AttributeError), dict(got=repr(e)), 'unknown module attribute')
        # Location.pytz
        tz = ['UTC', 'US/Arizona', 'Asia/Kolkata', 'Europe/Berlin', 'Etc/GMT+5', 'Australia/Adelaide', -7, 0, 5][rd % 9]
        loc = location.Location(32, -110, tz)
        if rd % 2:
            tz = 'America/New_York'
            loc.tz = tz
        e, r, w = run(lambda: loc.pytz)
        m.check('old_warns', bool(w), dict(name='Location.pytz'), 'no deprecation warning')
        e2, r2, w2 = run(lambda: loc.tz)
        m.check('new_silent', not w2, dict(name='Location.tz'), 'deprecation warning')
        if m.check('old_model', e is None and str(r) == loc.tz, dict(name='Location.pytz', tz=tz, got=str(r)), 'time zone'):
            for s in ('2021-01-15 12:00', '2021-07-15 12:00', '1999-03-28 00:30'):
                t = pd.Timestamp(s, tz='UTC')
                m.check('old_model', t.tz_convert(r).isoformat() == t.tz_convert(loc.tz).isoformat(), dict(name='Location.pytz', tz=str(tz), t=s), 'offset')
        # get_orientation
        lat = float(rng.uniform(-60, 60))
        for style, kw, want in (('south_at_latitude_tilt', dict(latitude=lat), (lat, 180)), ('flat', {}, (0, 180)), ('flat', dict(latitude=lat), (0, 180))):
            e, r, w = run(modelchain.get_orientation, style, **kw)
            m.check('old_warns', bool(w), dict(name='get_orientation'), 'no deprecation warning')
            m.check('old_model', e is None and tuple(r) == want, dict(name='get_orientation', strategy=style, got=repr(r)), 'orientation')
        e, r, w = run(modelchain.get_orientation, 'no such')
        m.check('old_model', isinstance(e, ValueError), dict(name='get_orientation'), 'unknown strategy accepted')
        # king, directly and as a named model
        z, az = W.sun(rng)
        tilt, ghi, dhi, dni = float(rng.uniform(0, 90)), W.day(rng), W.day(rng, hi=200), W.day(rng, hi=800)
        want = dhi * (1 + np.cos(np.radians(tilt))) / 2 + ghi * (0.012 * z - 0.04) * (1 - np.cos(np.radians(tilt))) / 2
        want = want.clip(lower=0)
        e, r, w = run(irradiance.king, tilt, dhi, ghi, z)
        m.check('old_warns', bool(w), dict(name='king'), 'no deprecation warning')
        if m.check('old_model', e is None, dict(name='king', error=repr(e)), 'raised'):
            m.close('old_model', r.to_numpy(), want.to_numpy(), 1e-9, 1e-9, dict(name='king', tilt=tilt))
        e, r, w = run(irradiance.get_total_irradiance, tilt, 180., z, az, dni, ghi, dhi, model='king')
        m.check('old_warns', bool(w), dict(name='get_total_irradiance king'), 'no deprecation warning')
        if m.check('old_model', e is None, dict(name='king', error=repr(e)), 'raised'):
            m.close('old_model', r['poa_sky_diffuse'].to_numpy(), want.to_numpy(), 1e-9, 1e-9, dict(name='king model', tilt=tilt))


def step(x, xr, yr, method):
    if method == 'slinear':
        if x > xr[-1]:
            i = len(xr) - 2
        else:
            i = max(int(np.searchsorted(xr, x, side='right')) - 1, 0)
            i = min(i, len(xr) - 2)
        return yr[i] + (yr[i + 1] - yr[i]) * (x - xr[i]) / (xr[i + 1] - xr[i])
    if method in ('previous', 'zero'):
        return yr[max(int(np.searchsorted(xr, x, side='right')) - 1, 0)]
    if method == 'next':
        i = int(np.searchsorted(xr, x, side='left'))
        return yr[i] if i < len(xr) else None
    d = [abs(x - v) for v in xr]
    if sorted(d)[1] - min(d) < 1e-9:
        return None
    return yr[int(np.argmin(d))]


def interp(m):
    for rd in range(m.n(20, 300)):
        rng = m.sub('interp', rd)
        k = int(rng.integers(3, 8))
        xr = np.concatenate([[0], np.sort(rng.choice(np.arange(5, 90), k - 1, replace=False)), ]).astype(float)
        yr = np.round(np.sort(rng.uniform(0, 1, k))[::-1], 4)
        x = rng.uniform(-xr[-1], xr[-1], 12)
        norm = bool(rng.random() < .5)
        for method in ('nearest', 'nearest-up', 'zero', 'slinear', 'previous', 'next'):
            form = [lambda v: v, lambda v: pd.Series(v), float][int(rng.integers(0, 2))]
            e, r, w = run(iam.interp, form(x.copy()), list(xr), list(yr), method=method, normalize=norm)
            cx = dict(method=method, xr=list(xr), yr=list(yr), normalize=norm)
            m.case(('interp', method, rd), cx)
            m.check('old_warns', bool(w), dict(name=f'iam.interp {method}'), 'no deprecation warning')
            if m.check('old_model', e is None, dict(cx, error=repr(e)), 'raised'):
                w_ = [step(abs(v), xr, yr, method) for v in x]
                for v, g, want in zip(x, np.asarray(r, float), w_):
                    if want is not None:
                        m.close('old_model', g, want / (yr[0] if norm else 1), 1e-9, 1e-10, dict(cx, x=v))
        for method in ('linear', 'quadratic', 'cubic'):
            if k > 3:
                e, r, w = run(iam.interp, x, list(xr), list(yr), method=method)
                m.check('new_silent', not w and e is None, dict(name=f'iam.interp {method}'), 'deprecation warning or error')


CAMS = """# Title: CAMS McClear v3.1 model of clear-sky irradiation.
# Latitude (positive North, ISO 19115): {lat}
# Longitude (positive East, ISO 19115): {lon}
# Altitude (m): 0.00
# Time reference: Universal time (UT)
# Summarization (integration) period: 0 year 0 month 0 day 1 h 0 min 0 s
# noValue: nan
# Observation period;TOA;Clear sky GHI;Clear sky BHI;Clear sky DHI;Clear sky BNI
{rows}"""


def cams_text(rng):
    t = pd.date_range('2020-06-01', periods=6, freq='1h')
    rows = '\n'.join(f'{a.isoformat()}.0/{b.isoformat()}.0;' + ';'.join(f'{v:.4f}' for v in rng.uniform(0, 900, 5)) for a, b in zip(t, t + pd.Timedelta('1h')))
    return CAMS.format(lat=f'{rng.uniform(-60, 60):.4f}', lon=f'{rng.uniform(-179, 179):.4f}', rows=rows) + '\n'


class Reply:
    """stand-in for requests: records what was asked, answers with canned text"""
    ok, status_code, reason = True, 200, 'OK'

    def __init__(self, text):
        self.text, self.content = text, text.encode()


def readers(m):
    d = os.path.join(REPO, 'tests', 'data')
    epw = os.path.join(d, 'NLD_Amsterdam062400_IWEC.epw')
    for rd in range(m.n(4, 40)):
        rng = m.sub('readers', rd)
        text = cams_text(rng)
        k = dict(integrated=bool(rng.random() < .5), label=[None, 'left', 'right'][rd % 3], map_variables=bool(rng.random() < .5))
        pair(m, 'iotools.sodapro.parse_cams', lambda: iotools.sodapro.parse_cams(io.StringIO(text), **k), lambda: iotools.sodapro.read_cams(io.StringIO(text), **k), dict(k))
        y = [None, 1987, 2021][rd % 3]
        if os.path.exists(epw) and rd < 6:
            txt = open(epw).read()
            txt = '\n'.join(txt.split('\n')[:8 + 48]) + '\n'
            pair(m, 'iotools.epw.parse_epw', lambda: iotools.epw.parse_epw(io.StringIO(txt), coerce_year=y), lambda: iotools.read_epw(io.StringIO(txt), coerce_year=y), dict(year=y))
        bad = 'not a bsrn file\n'
        e1, r1, w1 = run(iotools.bsrn.parse_bsrn, io.StringIO(bad))
        m.check('old_warns', bool(w1), dict(name='parse_bsrn'), 'no deprecation warning')
        # get_cams(server=)
        asked = []

        def get(url, params=None, **kw):
            asked.append((url, sorted((params or {}).items()), kw.get('timeout')))
            return Reply(text)
        args = dict(latitude=float(rng.uniform(-60, 60)), longitude=10., start='2020-06-01', end='2020-06-02', email='a@b.c', identifier='mcclear')
        host = f'www{rd}.example.org'
        with mock.patch('pvlib.iotools.sodapro.requests.get', get):
            pair(m, 'iotools.get_cams(server)', lambda: iotools.get_cams(**args, server=host), lambda: iotools.get_cams(**args, url=host), dict(host=host))
            m.check('old_same', len(asked) == 3 and asked[0] == asked[1] == asked[2] and host in asked[0][0], dict(name='get_cams(server)', asked=asked), 'different requests')
            both(m, 'iotools.get_cams', iotools.get_cams, {}, **args, server=host, url=host)
            m.check('both_rejected', len(asked) == 3, dict(name='get_cams'), 'a request was sent although both spellings were given')
    # get_meteonorm_tmy(data_version=) has no effect but the warning
    if 'data_version' in inspect.signature(iotools.get_meteonorm_tmy).parameters:
        asked = []

        class J(Reply):
            def json(self):
                return {'meta': {'latitude': 1., 'longitude': 2., 'altitude': 3.}, 'values': {'global_horizontal_irradiance': {'unit': {'name': 'W'}, 'values': [1., 2.]}},
                        'start_times': ['2005-01-01T00:00Z', '2005-01-01T01:00Z'], 'end_times': ['2005-01-01T01:00Z', '2005-01-01T02:00Z']}

        def get(url, headers=None, params=None, **kw):
            asked.append((url, sorted(map(str, (params or {}).items()))))
            return J('{}')
        with mock.patch('pvlib.iotools.meteonorm.requests.get', get):
            new = lambda: iotools.get_meteonorm_tmy(1., 2., 'key', parameters=['global_horizontal_irradiance'])  # noqa: E731
            old = lambda: iotools.get_meteonorm_tmy(1., 2., 'key', parameters=['global_horizontal_irradiance'], data_version='latest')  # noqa: E731
            e1, r1, w1 = run(new)
            e2, r2, w2 = run(old)
            m.check('old_warns', bool(w2), dict(name='get_meteonorm_tmy(data_version)'), 'no deprecation warning')
            m.check('new_silent', not w1, dict(name='get_meteonorm_tmy'), 'deprecation warning')
            if m.check('no_effect', len(asked) == 2 and asked[0] == asked[1], dict(asked=asked), 'data_version changed the request'):
                m.check('no_effect', type(e1) is type(e2), dict(e1=repr(e1), e2=repr(e2)), 'data_version changed the outcome')
    # bifacial.pvfactors_timeseries
    try:
        import pvfactors  # noqa: F401
    except ImportError:
        return
    for rd in range(m.n(1, 4)):
        rng = m.sub('pvf', rd)
        t = pd.date_range('2017-08-31 11:00', periods=2, freq='1h')
        a = dict(solar_azimuth=[110., 140.], solar_zenith=[20., 25.], surface_azimuth=90., surface_tilt=float(rng.uniform(5, 40)), axis_azimuth=0., timestamps=t, dni=[1000., 900.], dhi=[50., 60.], gcr=.4, pvrow_height=1.75, pvrow_width=2.44, albedo=.2, n_pvrows=3, index_observed_pvrow=1)
        pair(m, 'bifacial.pvfactors_timeseries', lambda: bifacial.pvfactors_timeseries(**a), lambda: bifacial.pvfactors.pvfactors_timeseries(**a), dict(tilt=a['surface_tilt']))


OLD_LABELS = ('irradiance.ghi_from_poa_driesse_2023',)


def uses_king(o, seen=None):
    seen = seen if seen is not None else set()
    if isinstance(o, str):
        return o == 'king'
    if id(o) in seen:
        return False
    seen.add(id(o))
    if isinstance(o, dict):
        return any(uses_king(v, seen) for v in o.values())
    if isinstance(o, (list, tuple)):
        return any(uses_king(v, seen) for v in o)
    if type(o).__module__.startswith('pvlib') and hasattr(o, '__dict__'):
        return uses_king(vars(o), seen)
    return False


def silent(m):
    """the whole public calculation API under its current names"""
    seen = set()
    for rd in range(m.n(2, 30)):
        rng = m.sub('wide', rd)
        for lab, f, a, k in W.wide(rng):
            if any(x in lab for x in OLD_LABELS) or lab.endswith('irradiance.king') or uses_king((a, k)):
                continue
            blob = f'{lab} {k}'
            if 'iam.interp' in lab and any(x in blob for x in ('nearest', 'zero', 'slinear', 'previous', "'next'")):
                continue
            e, r, w = run(f, *a, **k)
            seen.add(lab)
            m.case(('wide', lab, rd), dict(fn=lab))
            m.check('wide_silent', not w, dict(fn=lab, kw=sorted(k), warned=[str(x.message)[:160] for x in w]), 'current names gave a pvlib deprecation warning')
    m.extra['labels'] = len(seen)
    e, r, w = run(lambda: [(n, getattr(mod, n)) for mod in (irradiance, tracking, bifacial, iam, albedo, modelchain, pvsystem, location, pvlib.iotools, pvlib.spectrum, pvlib.solarposition) for n in dir(mod)])
    m.check('wide_silent', not w, dict(fn='dir'), 'listing the modules gave a deprecation warning')


def chains(m):
    for rd in range(m.n(12, 150)):
        rng = m.sub('chain', rd)
        s, p = C.spec(rng), C.site(rng)
        w = C.weather(rng, p, 6)
        king = s['chain'].get('transposition_model') == 'king'

        def go():
            mc = C.build_chain(s, p)
            mc.run_model(w if s['n'] == 1 else [w] * s['n'])
            repr(mc), str(mc.system), str(mc.location)
        e, r, ws = run(go)
        cx = dict(dc=s['dc'], ac=s['ac'], chain=str(s['chain'])[:200], warned=[str(x.message)[:160] for x in ws])
        m.case(('chain', rd), cx)
        if king:
            m.check('old_warns', bool(ws) or e is not None, cx, 'transposition model king gave no deprecation warning')
        else:
            m.check('wide_silent', not ws, cx, 'a model chain gave a pvlib deprecation warning')


def full(m):
    kwargs_renamed(m)
    infinite_sheds(m)
    functions(m)
    interp(m)
    readers(m)
    silent(m)
    chains(m)


if __name__ == '__main__':
    main(mon, full)
