"""Lunar and solar dates are in one-to-one correspondence."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["new moon days come from the library's own series (native evaluation per concrete year)"]


def ylist(tier, info):
    return lun.years(tier, info)


def bounds(tier):
    return "every day and second of the chosen concrete years (month forked, day and time symbolic), and every lunar (month, day, time) label of them"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_all", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 4)] + [dict(name="bad %d.." % c[0], fn="h_bad", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 40)]


def h_all(ctx, years):
    y = ctx.pick("year", years)
    if ctx.int("dir", 0, 1, True) == 0:
        there(ctx, y)
    else:
        back(ctx, y)


def there(ctx, year):
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    l = a.getLunar()
    ctx.check_eq(cal.ymd(l.getSolar()) + cal.hms(l.getSolar()), (y, m, d, h, mi, s), "the lunar date denotes the solar moment it came from")
    ctx.check_eq(cal.hms(l), (h, mi, s), "time of day is kept")
    lm = LunarYear.fromYear(l.getYear()).getMonth(l.getMonth())
    ctx.check(lm is not None, "the lunar month exists")
    ctx.check(ctx.And(l.getDay() >= 1, l.getDay() <= lm.getDayCount()), "the lunar day exists in its month")
    b = Lunar.fromYmdHms(l.getYear(), l.getMonth(), l.getDay(), h, mi, s)
    ctx.check_eq(cal.ymd(b.getSolar()) + cal.hms(b.getSolar()), (y, m, d, h, mi, s), "the lunar label denotes the same solar moment")
    ctx.obs("l", (l.getYear(), l.getMonth(), l.getDay()))


def back(ctx, year):
    ms = LunarYear.fromYear(year).getMonthsInYear()
    i = ctx.int("i", 0, len(ms) - 1, True)
    n = ms[i].getMonth()
    d = ctx.int("ld", 1, ms[i].getDayCount())
    h, mi, s = lun.clock(ctx)
    l = Lunar.fromYmdHms(year, n, d, h, mi, s)
    ctx.check_eq((l.getYear(), l.getMonth(), l.getDay(), l.getHour(), l.getMinute(), l.getSecond()), (year, n, d, h, mi, s), "getters return the label given")
    a = l.getSolar()
    ctx.check(cal.valid(a.getYear(), a.getMonth(), a.getDay()), "the solar date exists")
    ctx.check_eq(cal.hms(a), (h, mi, s), "time of day is kept")
    b = a.getLunar()
    ctx.check_eq((b.getYear(), b.getMonth(), b.getDay()), (year, n, d), "solar date of a lunar label converts back to the label")


def h_bad(ctx, years):
    y = ctx.pick("year", years)
    ms = LunarYear.fromYear(y).getMonthsInYear()
    i = ctx.int("i", 0, len(ms) - 1, True)
    d = ctx.int("ld", -40, 70)
    n = ms[i].getDayCount()
    ctx.assume(ctx.Or(d < 1, d > n))
    try:
        Lunar.fromYmd(y, ms[i].getMonth(), d)
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "a day outside the month is refused")
    k = ctx.int("m", -14, 14)
    for x in ms:
        ctx.assume(k != x.getMonth())
    try:
        Lunar.fromYmd(y, k, 1)
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, "a month outside the year is refused")
