"""Lunar years: months tile the day line, agree between neighbouring years, and carry the traditional labels."""
from lunar_python import Solar, LunarYear
from lunar_python.util import ShouXingUtil
import cal
import lun

OUTSIDE = "the values of the astronomical series themselves; month labels of the years 8, 9, 23, 24, 236..240 (calendar reforms)"
ASSUMPTIONS = ["term instants and new moon days come from the library's own series (native evaluation per concrete year)"]
REFORM = (8, 9, 23, 24, 236, 237, 238, 239, 240)


def bounds(tier):
    return "every day of every lunar year 1..9998"


def tasks(tier, info):
    ys = range(1, 9999)
    return [dict(name="years %d.." % c[0], fn="h_years", params=dict(years=c)) for c in lun.chunks(ys, 60)]


def lab(x):
    return (x.getYear(), x.getMonth(), x.getDayCount(), x.getFirstJulianDay())


def h_years(ctx, years):
    year = ctx.pick("year", years)
    a = LunarYear.fromYear(year)
    b = LunarYear.fromYear(year + 1)
    ms = a.getMonths()
    nx = b.getMonths()
    lo = int(ms[0].getFirstJulianDay())
    hi = int(ms[14].getFirstJulianDay()) + ms[14].getDayCount() - 1
    n = ctx.int("n", lo, hi)
    # which month of the list: forked, so that the rest is about a symbolic day of a known month
    hits = 0
    for x in ms:
        f = int(x.getFirstJulianDay())
        hits = hits + ctx.ite(ctx.And(n >= f, n < f + x.getDayCount()), 1, 0)
    ctx.check(hits == 1, "every civil day lies in exactly one lunar month")
    i = 0
    while i < 14 and not n < int(ms[i + 1].getFirstJulianDay()):
        i = i + 1
    x = ms[i]
    dd = n - int(x.getFirstJulianDay()) + 1
    ctx.check(ctx.And(dd >= 1, dd <= 30), "days of a month are numbered 1..30")
    if year not in (236, 237):
        ctx.check(x.getDayCount() == 29 or x.getDayCount() == 30, "a lunar month has 29 or 30 days")
    if int(nx[0].getFirstJulianDay()) <= int(x.getFirstJulianDay()):
        same = [z for z in nx if z.getFirstJulianDay() == x.getFirstJulianDay()]
        ctx.check(len(same) == 1 and lab(same[0]) == lab(x), "neighbouring lunar years agree on the month of a day")
    own = [z for z in ms if z.getYear() == year]
    if x.getYear() == year:
        z = a.getMonth(x.getMonth())
        ctx.check(z is not None and lab(z) == lab(x), "a month of the year is found by its number")
        ctx.check(x.getIndex() == own.index(x) + 1, "months are indexed by their place in the year")
        ctx.check(x.isLeap() == (x.getMonth() < 0), "a leap month has a negative number")
    if i < 14 and year not in REFORM and year + 1 not in REFORM and year - 1 not in REFORM:
        z = ms[i + 1]
        if z.getMonth() < 0:
            ctx.check_eq((z.getYear(), z.getMonth()), (x.getYear(), -x.getMonth()), "a leap month follows the month whose number it repeats")
        else:
            m = abs(x.getMonth()) % 12 + 1
            ctx.check_eq((z.getYear(), z.getMonth()), (x.getYear() + (1 if m == 1 else 0), m), "months are numbered 1..12 and the year starts with month 1")
    leaps = [z.getMonth() for z in own if z.getMonth() < 0]
    if year not in REFORM:
        ctx.check(len(own) == 12 + len(leaps) and len(leaps) <= 1, "a year has twelve months and at most one leap month")
    ctx.check(a.getLeapMonth() == (-leaps[0] if len(leaps) > 0 else 0), "the leap month of the year")
    total = 0
    for z in own:
        total = total + z.getDayCount()
    ctx.check(a.getDayCount() == total, "the length of a year is the sum of its months")
    ctx.check_eq([lab(z) for z in a.getMonthsInYear()], [lab(z) for z in own], "the months in the year")
    if year >= 1645:
        qs = [t[1] for t in lun.terms(year)[1::2]]
        if x.getMonth() == -abs(x.getMonth()) and (year, x.getMonth()) not in ((1645, -6), (1651, -2), (1661, -7), (1727, -3)):
            for q in qs:
                ctx.check(ctx.Not(n == q), "no 中气 falls in a leap month (since 1645)")
        for k in (0, 12):
            ctx.check(ctx.implies(n == qs[k], x.getMonth() == 11), "the winter solstice falls in the eleventh month (since 1645)")
