"""Reference calendar arithmetic, written independently of the library (integer formulas only).

Civil reckoning: Julian before 1582-10-05, Gregorian from 1582-10-15; the ten days between do not exist.
"""

CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def is_leap(y):
    """leap year of the reckoning in force (1582 itself is not a leap year in either)"""
    return (y % 4 == 0 and y % 100 != 0) or (y % 400 == 0) or (y <= 1582 and y % 4 == 0)


def leap01(y):
    if is_leap(y):
        r = 1
    else:
        r = 0
    return r


def month_len(y, m):
    """greatest day number of the month (31 for October 1582 too)"""
    r = MDAYS[m - 1]
    if m == 2:
        r = r + leap01(y)
    return r


def jdn_greg(y, m, d):
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045


def jdn_jul(y, m, d):
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083


def after_cut(y, m, d):
    return y > 1582 or (y == 1582 and (m > 10 or (m == 10 and d >= 15)))


def jdn(y, m, d):
    """Julian day number of the civil date (noon)"""
    g = jdn_greg(y, m, d)
    j = jdn_jul(y, m, d)
    if after_cut(y, m, d):
        r = g
    else:
        r = j
    return r


def in_gap(y, m, d):
    return y == 1582 and m == 10 and d >= 5 and d <= 14


def valid(y, m, d):
    """the civil date exists (m may be symbolic)"""
    return m >= 1 and m <= 12 and d >= 1 and d <= month_len(y, m) and not in_gap(y, m, d)


def year(ctx, p="", lo=1, hi=9999):
    """an arbitrary year, written 400w + 100x + 4v + r so that divisions by 4, 100 and 400 stay linear"""
    w = ctx.int(p + "w", lo // 400, hi // 400)
    x = ctx.int(p + "x", 0, 3)
    v = ctx.int(p + "v", 0, 24)
    r = ctx.int(p + "r", 0, 3)
    y = w * 400 + x * 100 + v * 4 + r
    ctx.assume(ctx.And(y >= lo, y <= hi))
    return y


ERAS = ("jul", "cut", "greg")


def year7(ctx, era, p=""):
    """an arbitrary year of an era (1..1581, 1582, 1583..9999), written 400w + 100x + 4v + r with
    v = 7a + 3u - (a multiple of x and w), so that u alone decides the weekday: 1461 * 3 = 1 (mod 7)"""
    if era == "cut":
        return 1582
    g = era == "greg"
    w = ctx.int(p + "w", 0, 24 if g else 3)
    x = ctx.int(p + "x", 0, 3)
    u = ctx.int(p + "u", 0, 6)
    a = ctx.int(p + "a", -3, 15)
    r = ctx.int(p + "r", 0, 3, True)
    if g:
        v = ctx.bounded(7 * a + 3 * u - x, 0, 24)
    else:
        v = ctx.bounded(7 * a + 3 * u - 4 * x - 2 * w, 0, 24)
    if r == 0 and v == 0:
        x = ctx.split(x)
    y = w * 400 + x * 100 + v * 4 + r
    return ctx.bounded(y, 1583, 9999) if g else ctx.bounded(y, 1, 1581)


def date(ctx, p="", ylo=1, yhi=9999, month=None, y=None):
    """an arbitrary existing civil date with a concrete month (forks over months unless given)"""
    if y is None:
        if yhi - ylo > 100:
            y = year(ctx, p, ylo, yhi)
        else:
            y = ctx.int(p + "y", ylo, yhi)
    if month is None:
        m = ctx.int(p + "m", 1, 12, True)
    else:
        m = month
    d = ctx.int(p + "d", 1, 31)
    ctx.assume(d <= month_len(y, m))
    if m == 10:
        ctx.assume(ctx.Not(in_gap(y, m, d)))
    return y, m, d


def ymd(s):
    return (s.getYear(), s.getMonth(), s.getDay())


def hms(s):
    return (s.getHour(), s.getMinute(), s.getSecond())
