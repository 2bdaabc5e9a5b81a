"""B01: view factors of rows, sky and ground match ray casting and sum to one."""
import numpy as np

from pvlib.bifacial import utils

from mon.core import Mon, main
from mon.rows2d import Rows

mon = Mon('B01', 'distinct (rotation, coverage, height, segment) geometries',
          ['angles subtended by the rows, the ground strips and the sky (mon/rows2d.py)'],
          required=['row_sky', 'row_ground', 'row_sky_integ', 'row_ground_integ', 'ground_sky', 'ground_sky_integ', 'hemisphere', 'unit interval', 'average', 'partition', 'vector', 'reciprocity'])
TILTS = [0., 1e-3, 5., 20., 45., 60., 89., 90., 91., 120., 150., 179., 180.]


def geometry(rng, negative=True):
    k = rng.random()
    th = float(rng.choice(TILTS)) if k < .6 else float(rng.uniform(0, 180))
    if negative and rng.random() < .4:
        th = -th
    gcr = float(rng.choice([.01, .1, .3, .5, .9])) if rng.random() < .3 else float(rng.uniform(.05, .97))
    pitch = float(rng.uniform(1.5, 12))
    clear = 0.1 if rng.random() < .2 else float(rng.uniform(.1, 3))
    # the code tells directions apart down to 1e-8 rad: keep a row 100 pitches away wider than that
    clear = max(clear, 2e-3 * pitch / gcr)
    h = .5 * gcr * pitch * abs(np.sin(np.radians(th))) + clear
    return th, gcr, pitch, h


def pair(rng):
    k = rng.random()
    if k < .2:
        return 0., 1.
    if k < .35:
        a = float(rng.choice([0, .25, .5, .75]))
        return a, a + .25
    a, b = sorted(float(x) for x in rng.uniform(0, 1, 2))
    return a, max(b, a + 1e-3)


def within(m, clause, v, lo, hi, tol, ctx):
    v = np.asarray(v, float)
    m.check(clause, v.shape == () and lo - tol <= v <= hi + tol, dict(ctx, got=v, lo=lo, hi=hi), 'view factor differs from the ray-cast one')
    m.check('unit interval', bool(np.all((v >= -1e-9) & (v <= 1 + 1e-9))), dict(ctx, got=v, clause=clause), 'view factor outside [0, 1]')


def work(m):
    for rd in range(m.n(260, 4000)):
        rng = m.sub('geometry', rd)
        th, gcr, pitch, h = geometry(rng)
        r = Rows(th, gcr, pitch, h)
        x = float(rng.choice([0., 1.])) if rng.random() < .2 else float(rng.uniform(0, 1))
        x0, x1 = pair(rng)
        g0, g1 = pair(rng)
        mr = int(rng.choice([2, 5, 10, 20, 60]))
        ctx = dict(theta=th, gcr=gcr, pitch=pitch, height=h, x=x, x0=x0, x1=x1, g0=g0, g1=g1, max_rows=mr)
        m.case(tuple(ctx.values()), ctx)
        if th >= 0:
            sky, gnd, rows = r.split(x)
            ok1, a = m.call('row_sky', utils.vf_row_sky_2d, th, gcr, x, ctx=ctx)
            ok2, b = m.call('row_ground', utils.vf_row_ground_2d, th, gcr, x, ctx=ctx)
            if ok1:
                within(m, 'row_sky', a, sky, sky, 1e-9, ctx)
            if ok2:
                within(m, 'row_ground', b, gnd, gnd, 1e-9, ctx)
            if ok1 and ok2:
                m.close('hemisphere', a + b + rows, 1., 0, 1e-9, ctx)
            # a vector of points and of tilts
            xs = rng.uniform(0, 1, 5)
            ths = rng.uniform(0, 180, 5)
            for f in (utils.vf_row_sky_2d, utils.vf_row_ground_2d):
                m.close('vector', f(th, gcr, xs), [f(th, gcr, float(q)) for q in xs], 1e-12, 1e-12, ctx)
                m.close('vector', f(ths, gcr, x), [f(float(q), gcr, x) for q in ths], 1e-12, 1e-12, ctx)
        # averages over a part of the row
        sky, gnd, rows = r.row_average(x0, x1, 120)
        ok, v = m.call('row_sky_integ', utils.vf_row_sky_2d_integ, th, gcr, x0, x1, ctx=ctx)
        if ok:
            within(m, 'row_sky_integ', v, sky, sky, 2e-4, ctx)
            if th >= 0:
                q = (np.arange(400) + .5) / 400 * (x1 - x0) + x0
                m.close('average', v, np.mean(utils.vf_row_sky_2d(th, gcr, q)), 0, 1e-5, ctx)
        # ground strips (both ways of numbering the strips agree up to the truncation)
        lo, hi = r.row_ground(x0, x1, g0, g1, mr, 60, 400)
        if (x0, x1, g0, g1) == (0, 1, 0, 1):     # height and pitch are documented not to matter here; the near rows' share depends on them
            lo = min(lo, Rows(th, gcr, 1 / gcr, 1).row_ground(0, 1, 0, 1, mr, 60, 400)[0])
        ok, v = m.call('row_ground_integ', utils.vf_row_ground_2d_integ, th, gcr, h, pitch, x0, x1, mr, g0, g1, ctx=ctx)
        if ok:
            within(m, 'row_ground_integ', v, lo, hi, 1.5e-3, ctx)
        ok, w = m.call('row_ground_integ', utils.vf_row_ground_2d_integ, th, gcr, h, pitch, x0, x1, 400, 0, 1, ctx=ctx)
        if ok:
            within(m, 'row_ground_integ', w, gnd, gnd, 1.5e-3, dict(ctx, all_ground=True))
            if th >= 0:
                q = (np.arange(400) + .5) / 400 * (x1 - x0) + x0
                m.close('average', w, np.mean(utils.vf_row_ground_2d(th, gcr, q)), 0, 1e-3, ctx)
            cut = np.array([0., .2, .55, .7, 1.])
            ok, parts = m.call('partition', utils.vf_row_ground_2d_integ, th, gcr, h, pitch, x0, x1, 400, cut[:-1], cut[1:], ctx=ctx)
            if ok:
                m.close('partition', np.sum(parts, axis=0).ravel(), w, 0, 2e-4, ctx)
                one = [float(np.ravel(utils.vf_row_ground_2d_integ(th, gcr, h, pitch, x0, x1, 400, float(a), float(b)))[0]) for a, b in zip(cut[:-1], cut[1:])]
                m.close('vector', np.ravel(parts), one, 1e-9, 1e-9, ctx)
        if rd % 2 == 0:
            # the whole row: height and pitch do not matter
            ok, v = m.call('row_ground_integ', utils.vf_row_ground_2d_integ, th, gcr, max_rows=400, ctx=ctx)
            _, gall, _ = r.row_average(0, 1, 120)
            if ok:
                within(m, 'row_ground_integ', v, gall, gall, 1.5e-3, dict(ctx, whole=True))
            cut = np.array([0., .1, .5, 1.])
            ok, s = m.call('partition', utils.vf_row_sky_2d_integ, th, gcr, cut[:-1], cut[1:], ctx=ctx)
            if ok:
                m.close('partition', np.sum(np.ravel(s) * np.diff(cut)), utils.vf_row_sky_2d_integ(th, gcr), 1e-9, 1e-9, ctx)
                m.close('vector', np.ravel(s), [utils.vf_row_sky_2d_integ(th, gcr, float(a), float(b)) for a, b in zip(cut[:-1], cut[1:])], 1e-12, 1e-12, ctx)
            ths = rng.uniform(-180, 180, 4)
            a = utils.vf_row_sky_2d_integ(ths, gcr, cut[:-1], cut[1:])
            m.check('vector', np.shape(a) == (3, 4), dict(ctx, shape=np.shape(a)), 'shape: parts by rotations')
            m.close('vector', a, [[utils.vf_row_sky_2d_integ(float(t), gcr, float(p), float(q)) for t in ths] for p, q in zip(cut[:-1], cut[1:])], 1e-12, 1e-12, ctx)
        # sky seen from the ground
        g = float(rng.uniform(0, 1))
        lo, hi = r.ground_sky(g, mr)
        ok, v = m.call('ground_sky', utils.vf_ground_sky_2d, th, gcr, g, pitch, h, mr, ctx=dict(ctx, g=g))
        if ok:
            m.check('vector', np.shape(v) == (1, 1), dict(ctx, shape=np.shape(v)), 'shape: points by rotations')
            within(m, 'ground_sky', np.ravel(v)[0], lo, hi, 1e-4, dict(ctx, g=g))
        N = 250
        q = np.array([r.ground_sky(g0 + (i + .5) / N * (g1 - g0), mr, 60 + mr) for i in range(N)]).mean(axis=0)
        ok, v = m.call('ground_sky_integ', utils.vf_ground_sky_2d_integ, th, gcr, h, pitch, mr, g0=g0, g1=g1, ctx=ctx)
        if ok:
            within(m, 'ground_sky_integ', v, q[0], q[1], 2e-3, ctx)
        if rd % 2:
            gs = np.array([.1, .4, .9])
            ths = np.array([th, -th, 30.])
            if h > .5 * gcr * pitch:
                a = utils.vf_ground_sky_2d(ths, gcr, gs, pitch, h, mr)
                m.check('vector', np.shape(a) == (3, 3), dict(ctx, shape=np.shape(a)), 'shape: points by rotations')
                m.close('vector', a, [[np.ravel(utils.vf_ground_sky_2d(float(t), gcr, float(p), pitch, h, mr))[0] for t in ths] for p in gs], 1e-12, 1e-12, ctx)
                cut = np.array([0., .3, .5, 1.])
                a = utils.vf_ground_sky_2d_integ(ths, gcr, h, pitch, mr, g0=cut[:-1], g1=cut[1:])
                m.check('vector', np.shape(a) == (3, 3), dict(ctx, shape=np.shape(a)), 'shape: strips by rotations')
                m.close('vector', a, [[utils.vf_ground_sky_2d_integ(float(t), gcr, h, pitch, mr, g0=float(p), g1=float(q)) for t in ths] for p, q in zip(cut[:-1], cut[1:])], 1e-12, 1e-12, ctx)
                big = 80
                tot = utils.vf_ground_sky_2d_integ(ths, gcr, h, pitch, big)
                m.close('partition', (utils.vf_ground_sky_2d_integ(ths, gcr, h, pitch, big, g0=cut[:-1], g1=cut[1:]) * np.diff(cut)[:, None]).sum(axis=0), tot, 0, 1e-3, ctx)
        # light leaving the ground for the rows is the light the rows' two sides see from the ground
        if rd % 4 == 0:
            big = 100
            up = utils.vf_ground_sky_2d_integ(th, gcr, h, pitch, big)
            back = th - 180 if th > 0 else th + 180
            both = utils.vf_row_ground_2d_integ(th, gcr, max_rows=big) + utils.vf_row_ground_2d_integ(back, gcr, max_rows=big)
            m.close('reciprocity', 1 - up, gcr * both, 0, 4e-3, ctx)


if __name__ == '__main__':
    main(mon, work)
