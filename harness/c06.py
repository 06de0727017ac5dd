"""Stepping by months, years and hours."""
from lunar_python import Solar
import cal

OUTSIDE = "results outside years 1..9999; larger steps"


def bounds(tier):
    return "every start moment of years 1..9999; |years| <= 9998, |months| <= %d, |hours| <= %d" % (N(tier))


def N(tier):
    return (400, 200) if tier == "quick" else (3000, 2000)


def tasks(tier, info):
    nm, nh = N(tier)
    out = []
    for m in range(1, 13):
        out.append(dict(name="year m=%d" % m, fn="h_year", params=dict(month=m)))
        out.append(dict(name="month m=%d" % m, fn="h_month", params=dict(month=m, n=nm, ylo=1, yhi=9999)))
        out.append(dict(name="hour m=%d" % m, fn="h_hour", params=dict(month=m, n=nh)))
    return out


def start(ctx, month, ylo=1, yhi=9999):
    y, m, d = cal.date(ctx, "", ylo, yhi, month)
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    return y, m, d, h, mi, s, Solar.fromYmdHms(y, m, d, h, mi, s)


def expect(ctx, y, m, d):
    """same day number in the target month, clamped to its end; dropped days move to ten days later"""
    last = cal.month_len(y, m)
    if d > last:
        d = last
    if cal.in_gap(y, m, d):
        d = d + 10
    return (y, m, d)


def h_year(ctx, month):
    y, m, d, h, mi, s, a = start(ctx, month)
    k = ctx.int("k", -9998, 9998)
    ctx.assume(ctx.And(y + k >= 1, y + k <= 9999))
    b = a.nextYear(k)
    ctx.check_eq(cal.ymd(b), expect(ctx, y + k, m, d), "same month and day in the target year, clamped to the month's end")
    ctx.check_eq(cal.hms(b), (h, mi, s), "time of day is kept")


def h_month(ctx, month, n, ylo, yhi):
    y, m, d, h, mi, s, a = start(ctx, month, ylo, yhi)
    k = ctx.int("k", -n, n)
    t = m - 1 + k
    y2 = y + t // 12
    m2 = ctx.split(t % 12) + 1
    ctx.assume(ctx.And(y2 >= 1, y2 <= 9999))
    b = a.nextMonth(k)
    ctx.check_eq(cal.ymd(b), expect(ctx, y2, m2, d), "same day in the month k months away, clamped to its end")
    ctx.check_eq(cal.hms(b), (h, mi, s), "time of day is kept")


def h_hour(ctx, month, n):
    y, m, d, h, mi, s, a = start(ctx, month)
    k = ctx.int("k", -n, n)
    j = cal.jdn(y, m, d) + (h + k) // 24
    ctx.assume(ctx.And(j >= cal.jdn(1, 1, 1), j <= cal.jdn(9999, 12, 31)))
    b = a.nextHour(k)
    y2, m2, d2 = cal.ymd(b)
    ctx.check(cal.valid(y2, m2, d2), "the result is an existing date")
    ctx.check(cal.jdn(y2, m2, d2) * 24 + b.getHour() == cal.jdn(y, m, d) * 24 + h + k, "exactly k hours away")
    ctx.check_eq((b.getMinute(), b.getSecond()), (mi, s), "minute and second are kept")
