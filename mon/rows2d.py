"""Two-dimensional geometry of infinitely long rows, by angles subtended.

Row k is a segment centred at (k * pitch, height), of length gcr * pitch, turned by
theta: its left end points along -(cos theta, sin theta), and its front side faces
(-sin theta, cos theta), so theta = 0 faces up and theta = 90 faces -x. The view
factor from a point to a set of directions is half the measure of the set in the sine
of the angle from the normal."""
import numpy as np


def rad(x):
    return np.radians(x)


class Rows:
    def __init__(self, theta, gcr, pitch=1., height=1.):
        self.theta, self.gcr, self.pitch, self.height = theta, gcr, pitch, height
        self.L = gcr * pitch
        self.t = np.array([np.cos(rad(theta)), np.sin(rad(theta))])
        self.n = np.array([-np.sin(rad(theta)), np.cos(rad(theta))])

    def ends(self, k):
        c = np.array([k * self.pitch, np.full_like(np.asarray(k, float), self.height)])
        d = .5 * self.L * self.t.reshape(2, *[1] * np.ndim(k))
        return c - d, c + d

    def point(self, x):
        return np.array([0., self.height]) + (x - .5) * self.L * self.t

    # --- from a point of row 0, x from its left end -------------------------
    def _s(self, p, q):
        """sine of the angle from the row's normal, for targets q (2, ...); below the plane: where it meets the ground"""
        r = q - p.reshape(2, *[1] * (np.ndim(q) - 1))
        a = np.tensordot(self.n, r, 1)
        b = np.tensordot(self.t, r, 1)
        d = np.hypot(a, b)
        return np.where(a > 0, b / np.where(d == 0, 1, d), -1. if self.t[1] > 0 else 1.)

    def split(self, x):
        """(sky, ground, rows) view factors of a point, over the front hemisphere"""
        p = self.point(x)
        lo, hi = self._free(p)
        th = (self.theta + 180) % 360 - 180
        # directions above the horizon: angle from the normal within 90 of theta
        if th >= 0:
            h = -np.cos(rad(th))
            up, down = (h, 1.), (-1., h)
        else:
            h = np.cos(rad(th))
            up, down = (-1., h), (h, 1.)
        parts = []
        for a, b in (up, down):
            tot = 0.
            for c, d in self._gaps(lo, hi):
                tot += max(0., min(b, d) - max(a, c))
            parts.append(tot / 2)
        return parts[0], parts[1], 1 - sum(parts)

    def _free(self, p, K=4):
        k = np.array([q for q in range(-K, K + 1) if q])
        A, B = self.ends(k)
        infront = (-np.sin(rad(self.theta)) * k) > 1e-12
        if not infront.any():
            return np.array([]), np.array([])
        s1, s2 = self._s(p, A[:, infront]), self._s(p, B[:, infront])
        return np.minimum(s1, s2), np.maximum(s1, s2)

    @staticmethod
    def _gaps(lo, hi, a=-1., b=1.):
        """complement of the union of the intervals in [a, b]"""
        out, at = [], a
        for c, d in sorted(zip(lo, hi)):
            if c > at:
                out.append((at, min(c, b)))
            at = max(at, d)
        if at < b:
            out.append((at, b))
        return out

    def row_average(self, x0, x1, n=200):
        xs = x0 + (np.arange(n) + .5) / n * (x1 - x0)
        return np.mean([self.split(x) for x in xs], axis=0)

    def row_ground(self, x0, x1, g0, g1, max_rows, n=80, M=1500):
        """mean view factor of the part [x0, x1] to the ground strips [k+g0, k+g1]: (within max_rows - 1, all)"""
        k = np.arange(-M, M + 1)
        near = (k >= -max_rows + 1) & (k < max_rows - 1)
        zero = np.zeros(len(k))
        A, B = np.array([(k + g0) * self.pitch, zero]), np.array([(k + g1) * self.pitch, zero])
        tot = np.zeros(2)
        th = (self.theta + 180) % 360 - 180
        for x in x0 + (np.arange(n) + .5) / n * (x1 - x0):
            p = self.point(x)
            lo, hi = self._free(p, 2)
            a, b = self._s(p, A), self._s(p, B)
            c, d = np.minimum(a, b), np.maximum(a, b)
            v = np.zeros(len(k))
            for e, f in self._gaps(lo, hi):
                v += np.clip(np.minimum(d, f) - np.maximum(c, e), 0, None)
            tot += v[near].sum() / 2, v.sum() / 2
        return tot / n

    # --- from the ground ----------------------------------------------------
    def ground_sky(self, g, max_rows, K=800):
        """(lowest, highest) view factor to the sky from a ground point at g pitches, given rows out to about max_rows"""
        k = np.arange(-K, K + 1)
        A, B = self.ends(k)
        p = g * self.pitch
        s1, s2 = (A[0] - p) / np.hypot(A[0] - p, A[1]), (B[0] - p) / np.hypot(B[0] - p, B[1])
        lo, hi = np.minimum(s1, s2), np.maximum(s1, s2)
        allv = sum(d - c for c, d in self._gaps(lo, hi, lo.min(), hi.max())) / 2
        q = max(int(max_rows) - 2, 1)
        w = np.abs(k) <= q
        rest = ((1 - hi[w].max()) + (1 + lo[w].min())) / 2
        return allv - rest, allv

    def shadow_free(self, phi, g0, g1):
        """unshaded fraction of the ground from g0 to g1 (pitches), sun at projected zenith phi (positive: towards -x)"""
        A, B = self.ends(0)
        a, b = A[0] + A[1] * np.tan(rad(phi)), B[0] + B[1] * np.tan(rad(phi))
        a, b = min(a, b) / self.pitch, max(a, b) / self.pitch
        if b - a >= 1:
            return 0.
        base = np.floor(a)
        tot = 0.
        for k in range(-3, 4):
            tot += max(0., min(g1, b - base + k) - max(g0, a - base + k))
        return 1 - tot / (g1 - g0)

    def beam_shade(self, phi, x0=0., x1=1., K=60):
        """shaded fraction of row 0 between x0 and x1 (from the left end) by the other rows; sun anywhere above the horizon"""
        sun = np.array([-np.sin(rad(phi)), np.cos(rad(phi))])
        k = np.array([q for q in range(-K, K + 1) if q])
        A, B = self.ends(k)
        # move every end along -sun until it meets the line of row 0
        den = np.dot(sun, self.n)
        out = []
        if abs(den) < 1e-12:
            return np.nan
        for i in range(len(k)):
            pos = []
            for q in (A[:, i], B[:, i]):
                r = q - np.array([0., self.height])
                lam = np.dot(r, self.n) / den
                w = r - lam * sun
                pos.append((np.dot(w, self.t) / self.L + .5, lam))
            if pos[0][1] > 0:     # towards the sun
                out.append((min(pos[0][0], pos[1][0]), max(pos[0][0], pos[1][0])))
        free = sum(max(0., min(d, x1) - max(c, x0)) for c, d in self._gaps([o[0] for o in out], [o[1] for o in out], -1e9, 1e9))
        return 1 - free / (x1 - x0)
