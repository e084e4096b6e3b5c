"""GPS and UTC time."""
import math
from bisect import bisect_right
from datetime import datetime, timedelta, timezone
from resippy.utils import time_utils as tu
from specs.decl import ANY

# (year, month, TAI - UTC in seconds from the first of that month), IERS bulletin C
TABLE = ((1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22), (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28),
         (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37))


def offset(t):
    starts = [datetime(y, m, 1, tzinfo=timezone.utc).timestamp() for y, m, n in TABLE]
    leaps = [n - 19 for y, m, n in TABLE]
    return leaps[bisect_right(starts, t) - 1]


def to_gps__code(t: Scalar):
    return tu.utc_timestamp_to_gps_timestamp(t)


def to_gps__spec(t):
    """seconds since 6 January 1980 plus the leap seconds inserted since then"""
    if t < 315532800:
        return ANY          # before the table (and before GPS time) starts
    return t - 315964800 + offset(t)


def to_utc__code(g: Scalar):
    return tu.gps_timestamp_to_utc_timestamp(g)


def to_utc__spec(g):
    """the leap seconds in force at the UTC instant are taken off again"""
    if g < 0:
        return ANY
    u = g + 315964800
    return u - offset(u - offset(u))


def week__code(t: Scalar):
    return tu.utc_timestamp_to_gps_week_and_seconds(t)


def week__spec(t):
    """whole weeks of GPS time and the seconds into the week"""
    g = tu.utc_timestamp_to_gps_timestamp(t)
    return math.floor(g / 604800), ((g / 604800) % 1) * 604800
