"""Julian days: Solar -> JD -> Solar is the identity; every JD denotes the existing second it lies in (to half a second)."""
from lunar_python import Solar
import cal

ASSUMPTIONS = []
OUTSIDE = "Julian days outside years 1..9999"
SOLVER_TIMEOUT_MS = 60000


def tasks(tier, info):
    out = []
    for m in range(1, 13):
        out.append(dict(name="roundtrip m=%d" % m, fn="h_round", params=dict(month=m)))
    for i, (lo, hi, k) in enumerate(GRID):
        out.append(dict(name="jd grid %d" % i, fn="h_jd", params=dict(lo=lo, hi=hi, k=k)))
    for i, lo in enumerate(range(1721424, 5373485, 365207)):
        out.append(dict(name="midnight %d" % i, fn="h_day", params=dict(lo=lo, hi=min(lo + 365206, 5373484))))
    return out


# binades of the double format covering years 1..9999: every double in [lo, hi) is N / 2^k
GRID = ((1721423.5, 2097152, 32), (2097152, 4194304, 31), (4194304, 5373484.5, 30))


def h_day(ctx, lo, hi):
    dd = ctx.int("D", lo, hi)
    b = Solar.fromJulianDay(dd - 0.5)
    y, m, d = cal.ymd(b)
    m = ctx.split(m)
    ctx.check(cal.valid(y, m, d), "midnight: existing civil date")
    ctx.check(cal.jdn(y, m, d) == dd, "midnight: the date has that day number")
    ctx.check_eq(cal.hms(b), (0, 0, 0), "midnight: time is 00:00:00")


def h_jd(ctx, lo, hi, k):
    n = ctx.int("n", int(lo * 2 ** k), int(hi * 2 ** k) - 1)
    b = Solar.fromJulianDay(n / float(2 ** k))
    h, mi, s = cal.hms(b)
    ctx.check(ctx.And(h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59), "existing time of day")
    day = (n + 2 ** (k - 1)) // 2 ** k
    frac = n + 2 ** (k - 1) - day * 2 ** k
    base = Solar.fromJulianDay(day - 0.5)
    # the instant lies frac / 2^k days after midnight of `base`
    sec = h * 3600 + mi * 60 + s
    tol = 2 ** (k - 1) + 2 ** (k - 14)
    if frac * 86400 >= (86400 * 2 ** k - 2 ** (k - 1) + tol):
        ctx.check_eq(cal.ymd(b), cal.ymd(base.next(1)), "the last half second belongs to the next day")
        ctx.check(sec == 0, "the last half second is rendered as midnight")
    elif frac * 86400 <= (86400 * 2 ** k - 2 ** (k - 1) - tol):
        ctx.check_eq(cal.ymd(b), cal.ymd(base), "same day as the midnight before")
        ctx.check(ctx.And(sec * 2 ** k - frac * 86400 <= tol, frac * 86400 - sec * 2 ** k <= tol), "within half a second of the instant")
    ctx.obs("b", cal.ymd(b) + (h, mi, s))


def h_round(ctx, month):
    y, m, d = cal.date(ctx, "", 1, 9999, month)
    h = ctx.int("h", 0, 23)
    mi = ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    jd = a.getJulianDay()
    b = Solar.fromJulianDay(jd)
    ctx.check_eq(cal.ymd(b), (y, m, d), "date survives the round trip")
    ctx.check_eq(cal.hms(b), (h, mi, s), "time survives the round trip")
