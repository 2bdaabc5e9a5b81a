"""Shared scalar helpers for reference equations (plain math, no pvlib)."""
import math

NAN = float('nan')
INF = float('inf')


def isn(*a):
    return any(x is None or math.isnan(x) for x in a)


def cosd(x):
    return math.cos(math.radians(x))


def sind(x):
    return math.sin(math.radians(x))


def tand(x):
    return math.tan(math.radians(x))


def acosd(x):
    return math.degrees(math.acos(max(-1.0, min(1.0, x))))


def nmax(a, b):
    """numpy.maximum semantics: NaN wins."""
    return NAN if isn(a, b) else max(a, b)


def nmin(a, b):
    return NAN if isn(a, b) else min(a, b)


def clip(x, lo, hi):
    return NAN if isn(x) else min(max(x, lo), hi)


def div(a, b):
    if isn(a, b):
        return NAN
    if b == 0:
        if a == 0:
            return NAN
        return INF if (a > 0) == (math.copysign(1, b) > 0) else -INF
    return a / b


def unit(tilt, az):
    """Unit vector (east, north, up) of a direction by zenith/tilt and azimuth."""
    return (sind(tilt) * sind(az), sind(tilt) * cosd(az), cosd(tilt))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def exp(x):
    if isn(x):
        return NAN
    try:
        return math.exp(x)
    except OverflowError:
        return INF
