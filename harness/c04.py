"""Solar: accepts every existing moment, rejects out-of-range fields and the ten dropped days; getters and text agree."""
from lunar_python import Solar
import cal

OUTSIDE = "years outside 1..9999; day numbers between the month's length and 31 (Feb 30, Apr 31 ...: not decided by this property)"


def bounds(tier):
    return "year 1..9999, month -30..50, day -50..100, hour -50..100, minute/second -100..200, all symbolic (months split)"


def tasks(tier, info):
    out = [dict(name="reject", fn="h_reject")]
    for m in range(1, 13):
        out.append(dict(name="accept m=%d" % m, fn="h_accept", params=dict(month=m)))
        out.append(dict(name="text m=%d" % m, fn="h_text", params=dict(month=m)))
    return out


def make(y, m, d, h, mi, s):
    try:
        return Solar.fromYmdHms(y, m, d, h, mi, s)
    except Exception:
        return None


def h_reject(ctx):
    y = ctx.int("y", 1, 9999)
    m = ctx.int("m", -30, 50)
    d = ctx.int("d", -50, 100)
    h = ctx.int("h", -50, 100)
    mi = ctx.int("mi", -100, 200)
    s = ctx.int("s", -100, 200)
    inside = m >= 1 and m <= 12 and d >= 1 and d <= 31 and h >= 0 and h <= 23 and mi >= 0 and mi <= 59 and s >= 0 and s <= 59
    gap = cal.in_gap(y, m, d)
    ctx.assume(ctx.Or(ctx.Not(inside), gap))
    a = make(y, m, d, h, mi, s)
    ctx.check(a is None, "a moment with a field out of range or on a dropped day is rejected")


def h_accept(ctx, month):
    y, m, d = cal.date(ctx, "", 1, 9999, month)
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    a = make(y, m, d, h, mi, s)
    ctx.check(a is not None, "every existing moment is accepted")
    if a is not None:
        ctx.check_eq(cal.ymd(a) + cal.hms(a), (y, m, d, h, mi, s), "getters return the fields given")
        b = Solar.fromYmd(y, m, d)
        ctx.check_eq(cal.ymd(b) + cal.hms(b), (y, m, d, 0, 0, 0), "a date alone means midnight")
        ctx.check(a.isLeapYear() == cal.is_leap(y), "isLeapYear follows the reckoning in force")


def h_text(ctx, month):
    y, m, d = cal.date(ctx, "", 1, 9999, month)
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    t = a.toYmdHms()
    ctx.check(len(t) == 19, "yyyy-mm-dd hh:mm:ss is 19 characters wide")
    ctx.check(t[:10] == a.toYmd(), "date text is a prefix of the full text")
    ctx.check(a.toString() == a.toYmd(), "toString is the date text")
    ctx.check_eq((t[4], t[7], t[10], t[13], t[16]), ("-", "-", " ", ":", ":"), "separators are in place")
    ctx.check_eq((int(t[0:4]), int(t[5:7]), int(t[8:10]), int(t[11:13]), int(t[14:16]), int(t[17:19])), (y, m, d, h, mi, s), "the text reads back as the same moment")
    ctx.obs("t", t)
