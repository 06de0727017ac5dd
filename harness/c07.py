"""Lengths of years and months, day of the year."""
from lunar_python import Solar, SolarMonth, SolarYear
from lunar_python.util import SolarUtil
import cal

OUTSIDE = "years outside 1..9999"


def bounds(tier):
    return "every year 1..9999 (symbolic), every month, every day"


def tasks(tier, info):
    out = [dict(name="year", fn="h_year"), dict(name="sum", fn="h_sum")]
    for m in range(1, 13):
        out.append(dict(name="month m=%d" % m, fn="h_month", params=dict(month=m)))
        out.append(dict(name="dayofyear m=%d" % m, fn="h_day", params=dict(month=m)))
    return out


def h_year(ctx):
    y = cal.year(ctx)
    ctx.check(SolarUtil.isLeapYear(y) == cal.is_leap(y), "leap years: Julian rule to 1582, Gregorian after")
    ctx.check(SolarUtil.getDaysOfYear(y) == cal.jdn(y, 12, 31) - cal.jdn(y, 1, 1) + 1, "days of a year = distance of its ends on the day line")


def h_sum(ctx):
    y = cal.year(ctx)
    n = 0
    for m in range(1, 13):
        n = n + SolarUtil.getDaysOfMonth(y, m)
    ctx.check(n == SolarUtil.getDaysOfYear(y), "the months add up to the year")


def h_month(ctx, month):
    y = cal.year(ctx)
    n = SolarUtil.getDaysOfMonth(y, month)
    y2 = y
    m2 = month + 1
    if m2 > 12:
        y2 = y + 1
        m2 = 1
    ctx.check(n == cal.jdn(y2, m2, 1) - cal.jdn(y, month, 1), "days of a month = distance to the first of the next month")
    ctx.obs("n", n)


def h_day(ctx, month):
    y, m, d = cal.date(ctx, "", 1, 9999, month)
    ctx.check(SolarUtil.getDaysInYear(y, m, d) == cal.jdn(y, m, d) - cal.jdn(y, 1, 1) + 1, "day of the year counts existing days")
