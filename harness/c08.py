"""Weeks: every week is the seven consecutive days around its date; indexes count weeks; stepping moves whole weeks."""
from lunar_python import Solar, SolarWeek, SolarMonth
from lunar_python.util import SolarUtil
import cal

OUTSIDE = "weeks reaching outside years 1..9999; larger steps"


def N(tier):
    return (12, 3) if tier == "quick" else (150, 12)


def bounds(tier):
    return "every date of years 1..9999, every week start 0..6; whole-week steps |n| <= %d; steps by month segments |n| <= %d" % N(tier)


def tasks(tier, info):
    n, k = N(tier)
    out = []
    for era in cal.ERAS:
        for m in range(1, 13):
            e = " m=%d %s" % (m, era)
            out.append(dict(name="days" + e, fn="h_days", params=dict(month=m, era=era)))
            out.append(dict(name="part" + e, fn="h_part", params=dict(month=m, era=era)))
            out.append(dict(name="index" + e, fn="h_index", params=dict(month=m, era=era)))
            out.append(dict(name="month" + e, fn="h_month", params=dict(month=m, era=era)))
            out.append(dict(name="next" + e, fn="h_next", params=dict(month=m, n=n, era=era)))
            for i in range(1, k + 1):
                out.append(dict(name="segment n=%d" % i + e, fn="h_seg", params=dict(month=m, n=i, era=era)))
                out.append(dict(name="segment n=%d" % -i + e, fn="h_seg", params=dict(month=m, n=-i, era=era)))
    return out


def begin(ctx, month, era):
    y = cal.year7(ctx, era)
    y, m, d = cal.date(ctx, "", month=month, y=y)
    st = ctx.int("start", 0, 6)
    j = cal.jdn(y, m, d)
    # keep one month of slack at both ends of the supported range
    ctx.assume(ctx.And(j > cal.jdn(1, 1, 31), j < cal.jdn(9999, 12, 1)))
    return y, m, d, st, j


def h_days(ctx, month, era):
    y, m, d, st, j = begin(ctx, month, era)
    w = SolarWeek.fromYmd(y, m, d, st)
    back = ((j + 1) % 7 - st) % 7
    f = w.getFirstDay()
    ctx.check(cal.jdn(f.getYear(), f.getMonth(), f.getDay()) == j - back, "the first day is the latest day not after the date that falls on the week start")
    days = w.getDays()
    ctx.check(len(days) == 7, "a week has seven days")
    for i in range(7):
        g = days[i]
        ctx.check(cal.jdn(g.getYear(), g.getMonth(), g.getDay()) == j - back + i, "the days of a week are consecutive from its first day")
    ctx.check_eq((w.getYear(), w.getMonth(), w.getDay(), w.getStart()), (y, m, d, st), "getters return what was given")


def h_part(ctx, month, era):
    """the days of a week that belong to the month"""
    y, m, d, st, j = begin(ctx, month, era)
    w = SolarWeek.fromYmd(y, m, d, st)
    back = ctx.split(((j + 1) % 7 - st) % 7)
    j1 = cal.jdn(y, m, 1)
    j2 = cal.jdn(y, m, cal.month_len(y, m))
    lo = ctx.ite(j - back < j1, j1, j - back)
    hi = ctx.ite(j - back + 6 > j2, j2, j - back + 6)
    own = w.getDaysInMonth()
    ctx.check(len(own) == hi - lo + 1, "the days of the week inside the month")
    for i in range(len(own)):
        g = own[i]
        ctx.check(cal.jdn(g.getYear(), g.getMonth(), g.getDay()) == lo + i, "the days of the week inside the month are consecutive from its first one")
    f = w.getFirstDayInMonth()
    ctx.check(cal.jdn(f.getYear(), f.getMonth(), f.getDay()) == lo, "the first day of the week inside the month")


def ref_index(j, j1, st):
    """1 + number of week starts in (j1, j]"""
    off = ((j1 + 1) % 7 - st) % 7
    return (j - j1 + off) // 7 + 1


def h_index(ctx, month, era):
    y, m, d, st, j = begin(ctx, month, era)
    w = SolarWeek.fromYmd(y, m, d, st)
    ctx.check(w.getIndex() == ref_index(j, cal.jdn(y, m, 1), st), "week index in the month counts the week starts since the first")
    ctx.check(w.getIndexInYear() == ref_index(j, cal.jdn(y, 1, 1), st), "week index in the year counts the week starts since January 1st")
    ctx.check(w.toString() == str(y) + "." + str(m) + "." + str(w.getIndex()), "text carries year, month and index")


def h_month(ctx, month, era):
    y = cal.year7(ctx, era)
    st = ctx.int("start", 0, 6)
    ctx.assume(cal.jdn(y, month, 1) > cal.jdn(1, 1, 31))
    j1 = cal.jdn(y, month, 1)
    j2 = cal.jdn(y, month, cal.month_len(y, month))
    n = ref_index(j2, j1, st)
    ctx.check(SolarUtil.getWeeksOfMonth(y, month, st) == n, "weeks of a month = index of its last day's week")
    ws = SolarMonth.fromYm(y, month).getWeeks(st)
    ctx.check(len(ws) == n, "getWeeks lists every week of the month once")
    for i in range(len(ws)):
        f = ws[i].getFirstDay()
        off = ((j1 + 1) % 7 - st) % 7
        ctx.check(cal.jdn(f.getYear(), f.getMonth(), f.getDay()) == j1 - off + 7 * i, "getWeeks is in order without gaps")


def h_next(ctx, month, n, era):
    y, m, d, st, j = begin(ctx, month, era)
    k = ctx.int("k", -n, n)
    ctx.assume(ctx.And(j + 7 * k > cal.jdn(1, 1, 8), j + 7 * k < cal.jdn(9999, 12, 20)))
    w = SolarWeek.fromYmd(y, m, d, st).next(k, False)
    ctx.check(cal.jdn(w.getYear(), w.getMonth(), w.getDay()) == j + 7 * k, "stepping by whole weeks moves 7 days per week")
    ctx.check(w.getStart() == st, "the week start is kept")


def weeks_of(y, m, st):
    return ref_index(cal.jdn(y, m, cal.month_len(y, m)), cal.jdn(y, m, 1), st)


def h_seg(ctx, month, n, era):
    """weeks cut at month boundaries, numbered (year, month, index): step n segments"""
    y, m, d, st, j = begin(ctx, month, era)
    w = SolarWeek.fromYmd(y, m, d, st).next(n, True)
    i = ref_index(j, cal.jdn(y, m, 1), st) + n
    if n > 0:
        c = weeks_of(y, m, st)
        while i > c:
            i = i - c
            m = m + 1
            if m > 12:
                m = 1
                y = y + 1
            c = weeks_of(y, m, st)
    else:
        while i < 1:
            m = m - 1
            if m < 1:
                m = 12
                y = y - 1
            i = i + weeks_of(y, m, st)
    y2, m2, d2 = w.getYear(), w.getMonth(), w.getDay()
    m2 = ctx.split(m2)
    ctx.check(ctx.And(y2 == y, m2 == m), "stepping month by month lands in the month of the n-th segment")
    ctx.check(ref_index(cal.jdn(y2, m2, d2), cal.jdn(y2, m2, 1), st) == i, "stepping month by month lands in the n-th segment")
