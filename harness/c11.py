"""Successive civil days carry successive lunar dates; stepping a lunar date by n days moves n civil days."""
from lunar_python import Solar, Lunar, LunarYear
import cal
import lun

OUTSIDE = "years not listed; steps not listed"
ASSUMPTIONS = ["new moon days come from the library's own series (native evaluation per concrete year)"]

SPAN = {"quick": 31, "thorough": 400}
# years with leap months of 29 and 30 days, with the short October, and at the ends of the tables
YEARS = (1582, 2033)
STEPS = (-384, -30, 0, 29)


def ylist(tier, info):
    ys = lun.years(tier, info, lo=3)
    return ys[::2] if tier == "quick" else ys


def bounds(tier):
    return "every day of the chosen concrete years (month forked, day symbolic), steps of %s days; every step of up to %d days and every clock time for a few of those years" % (STEPS, SPAN[tier])


def tasks(tier, info):
    out = [dict(name="years %d.." % c[0], fn="h_next", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 4)]
    for y in lun.few(tier, info, YEARS, 1, 5) if tier == "quick" else lun.years(tier, info, 0, 60, lo=3):
        for m in range(1, 13):
            out.append(dict(name="any step %d-%d" % (y, m), fn="h_any", params=dict(year=y, month=m, n=SPAN[tier])))
    return out


def h_next(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    if ctx.int("part", 0, 1, True) == 0:
        succ(ctx, year, y, m, d)
    else:
        step(ctx, y, m, d)


def succ(ctx, year, y, m, d):
    h = ctx.pick("h", (0, 23))
    l = Solar.fromYmdHms(y, m, d, h, 59, 58).getLunar()
    e = l.next(1)
    if l.getDay() < LunarYear.fromYear(l.getYear()).getMonth(l.getMonth()).getDayCount():
        ctx.check_eq((e.getYear(), e.getMonth(), e.getDay()), (l.getYear(), l.getMonth(), l.getDay() + 1), "the next day is the next lunar day of the month")
    else:
        ly = LunarYear.fromYear(year)
        k = 0
        found = -1
        for x in ly.getMonths():
            if x.getYear() == l.getYear() and x.getMonth() == l.getMonth():
                found = k
            k = k + 1
        x = ly.getMonths()[found + 1]
        ctx.check_eq((e.getYear(), e.getMonth(), e.getDay()), (x.getYear(), x.getMonth(), 1), "after the last day of a lunar month comes the first of the following month")
    ctx.check_eq(cal.hms(e), (h, 59, 58), "the time of day is kept")


def step(ctx, y, m, d):
    k = ctx.pick("k", STEPS)
    l = Solar.fromYmdHms(y, m, d, 12, 0, 0).getLunar()
    t = l.next(k)
    a = t.getSolar()
    ctx.check(cal.jdn(a.getYear(), a.getMonth(), a.getDay()) == cal.jdn(y, m, d) + k, "stepping moves exactly k civil days")
    ctx.check_eq(cal.hms(a), (12, 0, 0), "stepping keeps the time of day")
    b = t.next(-k)
    ctx.check_eq((b.getYear(), b.getMonth(), b.getDay()), (l.getYear(), l.getMonth(), l.getDay()), "a step and the opposite step cancel")


def h_any(ctx, year, month, n):
    """every small step from every moment"""
    y, m, d = lun.day(ctx, year, month)
    k = ctx.int("k", -n, n)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    t = l.next(k)
    a = t.getSolar()
    ctx.check(cal.jdn(a.getYear(), a.getMonth(), a.getDay()) == cal.jdn(y, m, d) + k, "stepping moves exactly k civil days")
    ctx.check_eq(cal.hms(a), (h, mi, s), "stepping keeps the time of day")
    ctx.check_eq(cal.hms(t), (h, mi, s), "stepping keeps the time of day of the lunar moment")
    b = a.getLunar()
    ctx.check_eq((t.getYear(), t.getMonth(), t.getDay()), (b.getYear(), b.getMonth(), b.getDay()), "the lunar date is that of the civil day")
