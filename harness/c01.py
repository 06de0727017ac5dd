"""Solar.next(days): stepping by n days moves exactly n places along the civil day line."""
from lunar_python import Solar
import cal

ASSUMPTIONS = ["civil day line = Julian reckoning up to 1582-10-04, Gregorian from 1582-10-15 (reference arithmetic in harness/cal.py)"]
OUTSIDE = "years outside 1..9999 for start or result; larger steps"


def bounds(tier):
    n = 70 if tier == "quick" else 1500
    return "every start date of years 1..9999 (year, day and time symbolic, month split), every step |n| <= %d; |n| <= 800 around 1582" % n


def tasks(tier, info):
    out = []
    n = 70 if tier == "quick" else 1500
    for m in range(1, 13):
        out.append(dict(name="next m=%d" % m, fn="h_next", params=dict(month=m, n=n, ylo=1, yhi=9999)))
    for m in (1, 4, 7, 10) if tier == "quick" else range(1, 13):
        out.append(dict(name="next far m=%d" % m, fn="h_next", params=dict(month=m, n=800 if tier == "quick" else 4000, ylo=1579, yhi=1585)))
    return out


def h_next(ctx, month, n, ylo, yhi):
    y, m, d = cal.date(ctx, "", ylo, yhi, month)
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    k = ctx.int("n", -n, n)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    j = cal.jdn(y, m, d) + k
    ctx.assume(ctx.And(j >= cal.jdn(1, 1, 1), j <= cal.jdn(9999, 12, 31)))
    b = a.next(k)
    y2, m2, d2 = cal.ymd(b)
    ctx.check(cal.valid(y2, m2, d2), "the result is an existing civil date")
    ctx.check(cal.jdn(y2, m2, d2) == j, "the result lies exactly n days away")
    ctx.check_eq(cal.hms(b), (h, mi, s), "time of day is kept")
    ctx.check_eq(cal.ymd(a), (y, m, d), "the start date is not changed")
    ctx.obs("b", (y2, m2, d2))
