"""Weekdays run through the civil day line without a break, also across the 1582 change of reckoning."""
from lunar_python import Solar
from lunar_python.util import SolarUtil
import cal

OUTSIDE = "years outside 1..9999"
NAMES = "日一二三四五六"


def bounds(tier):
    return "every civil date and second of years 1..9999 (year, day, time symbolic; months split)"


def tasks(tier, info):
    return [dict(name="week m=%d" % m, fn="h_week", params=dict(month=m)) for m in range(1, 13)]


def h_week(ctx, month):
    y, m, d = cal.date(ctx, "", month=month, y=cal.year(ctx))
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    w = a.getWeek()
    ctx.check(w == (cal.jdn(y, m, d) + 1) % 7, "weekday is the day number modulo 7 (2000-01-01 is a Saturday)")
    ctx.check(a.getWeekInChinese() == NAMES[w], "Chinese weekday name matches the weekday index")
    ctx.obs("w", w)
