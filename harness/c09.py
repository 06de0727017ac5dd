"""Months, quarters, half-years and years partition the calendar; stepping is plain arithmetic."""
from lunar_python import Solar, SolarMonth, SolarSeason, SolarHalfYear, SolarYear
import cal

OUTSIDE = "years outside 1..9999 for start or result"


def bounds(tier):
    return "every year 1..9999 and month; every step that stays inside (|months| <= 119987)"


def tasks(tier, info):
    out = [dict(name="year", fn="h_year")]
    for m in range(1, 13):
        out.append(dict(name="step m=%d" % m, fn="h_step", params=dict(month=m)))
        out.append(dict(name="parts m=%d" % m, fn="h_parts", params=dict(month=m)))
        out.append(dict(name="days m=%d" % m, fn="h_days", params=dict(month=m)))
    return out


def ym(x):
    return (x.getYear(), x.getMonth())


def h_step(ctx, month):
    y = cal.year(ctx)
    for cls, size, nm in ((SolarMonth, 1, "month"), (SolarSeason, 3, "quarter"), (SolarHalfYear, 6, "half-year")):
        k = ctx.int("k" + str(size), -119990 // size, 119990 // size)
        t = y * 12 + month - 1 + k * size
        if t >= 12 and t <= 9999 * 12 + 11:
            x = cls.fromYm(y, month).next(k)
            ctx.check(x.getYear() * 12 + x.getMonth() - 1 == t, nm + ": stepping k units moves exactly k units")
            ctx.check(ctx.And(x.getMonth() >= 1, x.getMonth() <= 12), nm + ": the month stays within 1..12")


def h_parts(ctx, month):
    y = cal.year(ctx)
    q = SolarSeason.fromYm(y, month)
    h = SolarHalfYear.fromYm(y, month)
    ctx.check_eq([ym(x) for x in q.getMonths()], [(y, (month - 1) // 3 * 3 + i + 1) for i in range(3)], "a quarter is the three months around its month")
    ctx.check_eq([ym(x) for x in h.getMonths()], [(y, (month - 1) // 6 * 6 + i + 1) for i in range(6)], "a half-year is the six months around its month")
    ctx.check(q.getIndex() == (month + 2) // 3, "quarter index")
    ctx.check(h.getIndex() == (month + 5) // 6, "half-year index")
    ctx.check(SolarMonth.fromYm(y, month).toString() == str(y) + "-" + str(month), "month text")
    ctx.check(q.toString() == str(y) + "." + str((month + 2) // 3), "quarter text")
    ctx.check(h.toString() == str(y) + "." + str((month + 5) // 6), "half-year text")


def h_year(ctx):
    y = cal.year(ctx)
    a = SolarYear.fromYear(y)
    ctx.check_eq([ym(x) for x in a.getMonths()], [(y, i + 1) for i in range(12)], "a year is its twelve months")
    k = ctx.int("k", -9998, 9998)
    if y + k >= 1 and y + k <= 9999:
        ctx.check(a.next(k).getYear() == y + k, "year stepping")
    ctx.check(a.toString() == str(y), "year text")


def h_days(ctx, month):
    y = cal.year(ctx)
    days = SolarMonth.fromYm(y, month).getDays()
    n = cal.jdn(y, month, cal.month_len(y, month)) - cal.jdn(y, month, 1) + 1
    ctx.check(len(days) == n, "a month lists each existing day once")
    i = ctx.int("i", 0, 30, True)
    if i < len(days):
        g = days[i]
        ctx.check(cal.jdn(g.getYear(), g.getMonth(), g.getDay()) == cal.jdn(y, month, 1) + i, "the days are in order without gaps")
        ctx.check_eq(ym(g), (y, month), "the days belong to the month")
