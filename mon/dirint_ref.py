"""Plain-Python DISC/DIRINT/GTI-DIRINT oracle over lists (one element at a time)."""
import math

from mon.cat_irradiance import DIRINT, disc_kn, kasten1966, ktp_factor, r_disc, r_kt, r_total, spencer
from mon.refs import NAN, clip, cosd, isn, nmax


def _bin(x, edges, last_incl=True):
    """1-based bin of x in [e0,e1), ..., the last closed when last_incl; 0 if none."""
    if isn(x):
        return 0
    for i in range(len(edges) - 1):
        if edges[i] <= x < edges[i + 1]:
            return i + 1
    if last_incl and x == edges[-1]:
        return len(edges) - 1
    return 0


def coeff(ktp, zen, w, dk):
    """w=None: no dew point; dk=None: stability not used."""
    kb = _bin(ktp, [0, .24, .4, .56, .7, .8, 1])
    zb = _bin(zen, [0, 25, 40, 55, 70, 80, math.inf])
    wb = 5 if w is None else _bin(w, [0, 1, 2, 3, math.inf])
    db = 7 if dk is None else _bin(dk, [0, .015, .035, .07, .15, .3, 1])
    if 0 in (kb, zb, wb, db):
        return NAN
    return float(DIRINT[kb - 1, zb - 1, db - 1, wb - 1])


def deltas(ktp, use):
    n = len(ktp)
    if not use:
        return [None] * n
    out = []
    for i in range(n):
        d = []
        for j in (i - 1, i + 1):
            if 0 <= j < n:
                x = abs(ktp[i] - ktp[j])
                if not isn(x):
                    d.append(x)
        out.append(sum(d) / len(d) if d else NAN)
    return out


def water(td, n):
    if td is None:
        return [None] * n
    return [NAN if isn(t) else math.exp(0.07 * t - 0.075) for t in td]


def dirint(ghi, zen, doy, pressure=101325., use=True, td=None, min_cos=0.065, max_zenith=87):
    n = len(ghi)
    d = [r_disc(ghi[i], zen[i], doy[i], pressure if pressure is None else pressure, min_cos, max_zenith) for i in range(n)]
    ktp = [NAN if isn(x['kt'], x['airmass']) else clip(x['kt'] / ktp_factor(x['airmass']), 0, 1) for x in d]
    dk = deltas(ktp, use)
    w = water(td, n)
    out = [d[i]['dni'] * coeff(ktp[i], zen[i], w[i], dk[i]) for i in range(n)]
    return out, ktp, dk, w


def near_edge(ktp, zen, dk, w, tol=1e-9):
    """Computed values too close to a bin edge to be judged."""
    def nr(x, es):
        return x is not None and not isn(x) and any(abs(x - e) < tol for e in es)
    return (nr(ktp, (.24, .4, .56, .7, .8)) or nr(dk, (.015, .035, .07, .15, .3)) or nr(w, (1, 2, 3)))


def gti(poa, aoi, zen, saz, doy, dates, tilt, az, pressure=101325., use=True, td=None, albedo=.25,
        model='perez', model_perez='allsitescomposite1990', gt90=True, max_iterations=30):
    """Returns (list of (ghi, dni, dhi), converged flags, edge flag)."""
    n = len(poa)
    i0 = [spencer(d, 1370) for d in doy]
    cz = [cosd(z) for z in zen]
    am = [kasten1966(z) * pressure / 101325. for z in zen]
    w = water(td, n)
    cs = ([1] * 3 + [.5] * 7 + [.25] * 10 + [.125] * max(10, max_iterations - 20))[:max_iterations]
    best = [9999.0] * n
    bg, bd, bh, bk = [None] * n, [None] * n, [None] * n, [None] * n
    cur = list(poa)
    edge = False
    for it, c in enumerate(cs):
        if all(best[i] <= 1 for i in range(n) if aoi[i] < 90):
            break
        kt = [r_kt(cur[i], aoi[i], i0[i]) for i in range(n)]
        dd = [nmax(disc_kn(kt[i], am[i])[0] * i0[i], 0) for i in range(n)]
        ktp = [NAN if isn(kt[i], am[i]) else clip(kt[i] / ktp_factor(am[i]), 0, 2.0) for i in range(n)]
        dk = deltas(ktp, use)
        for i in range(n):
            edge = edge or near_edge(ktp[i], zen[i], dk[i], w[i])
        dni0 = [dd[i] * coeff(ktp[i], zen[i], w[i], dk[i]) for i in range(n)]
        ghi0 = [kt[i] * i0[i] * max(.065, cz[i]) for i in range(n)]
        dhi = [nmax(ghi0[i] - dni0[i] * cz[i], 0) for i in range(n)]
        dni = [nmax(x, 0) for x in dni0]
        ghi = [nmax(x, 0) for x in ghi0]
        nxt = list(cur)
        for i in range(n):
            g = NAN
            if not isn(dni[i], ghi[i], dhi[i], poa[i]):
                t = r_total(tilt, az, zen[i], saz[i], dni[i], ghi[i], dhi[i], i0[i], am[i], albedo, None, model, model_perez)
                if t is None:
                    edge = True
                    g = NAN
                else:
                    g = t['poa_global']
            diff = g - poa[i]
            if not isn(diff) and abs(abs(diff) - best[i]) < 1e-9:
                edge = True
            if not isn(diff) and abs(abs(diff) - 1) < 1e-7:
                edge = True
            if abs(diff) < best[i]:
                best[i] = abs(diff)
                bg[i], bd[i], bh[i], bk[i] = ghi[i], dni[i], dhi[i], ktp[i]
            elif it == 0:
                bg[i], bd[i], bh[i], bk[i] = ghi[i], dni[i], dhi[i], ktp[i]
            nxt[i] = nmax(1.0, cur[i] - c * diff)
        cur = nxt
    out = []
    for i in range(n):
        if aoi[i] < 90:
            out.append((bg[i], bd[i], bh[i]))
            continue
        if not gt90:
            out.append((NAN, NAN, NAN))
            continue
        kp = NAN
        if zen[i] < 90 and saz[i] != 180:
            side = (lambda a: a < 180) if saz[i] < 180 else (lambda a: a > 180)
            v = [bk[j] for j in range(n) if dates[j] == dates[i] and 65 < aoi[j] < 80 and side(saz[j]) and not isn(bk[j])]
            kp = sum(v) / len(v) if v else NAN
        if isn(kp, am[i]):
            dni = NAN
        else:
            kt = kp * ktp_factor(am[i])
            dni = max(disc_kn(kt, am[i])[0] * i0[i], 0) * coeff(bk[i], zen[i], w[i], None)
            edge = edge or near_edge(bk[i], zen[i], None, w[i])
        proj = dni * cz[i]
        ct = cosd(tilt)
        dhi = (2 * poa[i] - proj * albedo * (1 - ct)) / (1 + ct + albedo * (1 - ct))
        out.append((proj + dhi, dni, dhi))
    return out, [b <= 1 for b in best], edge
