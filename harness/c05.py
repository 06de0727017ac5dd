"""Differences and order of moments agree with each other and with the day line."""
from lunar_python import Solar
import cal

OUTSIDE = "day differences between years further apart than the bound, except the listed pairs of years"


def span(tier):
    return 3 if tier == "quick" else 24


FAR = ((1, 9999), (1500, 1700), (1, 1583), (1581, 1999), (400, 2000), (1582, 9999), (1899, 2101))


def bounds(tier):
    return "order: every two moments of years 1..9999; differences: every two moments at most %d calendar years apart, plus all moments of the year pairs %s" % (span(tier), FAR)


def tasks(tier, info):
    out = []
    for m in range(1, 13):
        out.append(dict(name="diff m=%d" % m, fn="h_diff", params=dict(month=m, ylo=1, yhi=9999, span=span(tier))))
        out.append(dict(name="order m=%d" % m, fn="h_order", params=dict(month=m)))
    for a, b in FAR:
        out.append(dict(name="far %d-%d" % (a, b), fn="h_far", params=dict(ya=a, yb=b)))
    return out


def moment(ctx, p, y, m, d):
    h = ctx.int(p + "h", 0, 23)
    mi = ctx.int(p + "mi", 0, 59)
    s = ctx.int(p + "s", 0, 59)
    return Solar.fromYmdHms(y, m, d, h, mi, s), h, mi, s


def agree(ctx, a, b, ja, jb, ma, mb):
    ctx.check(a.subtract(b) == ja - jb, "subtract is the difference of the day numbers")
    ctx.check(b.subtract(a) == jb - ja, "subtract is antisymmetric")
    ctx.check(a.subtractMinute(b) == (ja - jb) * 1440 + ma - mb, "subtractMinute is the difference in whole clock minutes")


def h_diff(ctx, month, ylo, yhi, span):
    ya = cal.year(ctx, "a_", ylo, yhi)
    ya, m, da = cal.date(ctx, "a_", month=month, y=ya)
    k = ctx.int("k", -span, span, True)
    yb = ya + k
    ctx.assume(ctx.And(yb >= 1, yb <= 9999))
    yb, mb, db = cal.date(ctx, "b_", y=yb)
    a, h1, m1, s1 = moment(ctx, "a_", ya, m, da)
    b, h2, m2, s2 = moment(ctx, "b_", yb, mb, db)
    agree(ctx, a, b, cal.jdn(ya, m, da), cal.jdn(yb, mb, db), h1 * 60 + m1, h2 * 60 + m2)


def h_far(ctx, ya, yb):
    ya, m, da = cal.date(ctx, "a_", y=ya)
    yb, mb, db = cal.date(ctx, "b_", y=yb)
    a, h1, m1, s1 = moment(ctx, "a_", ya, m, da)
    b, h2, m2, s2 = moment(ctx, "b_", yb, mb, db)
    agree(ctx, a, b, cal.jdn(ya, m, da), cal.jdn(yb, mb, db), h1 * 60 + m1, h2 * 60 + m2)


def h_order(ctx, month):
    ya, m, da = cal.date(ctx, "a_", 1, 9999, month)
    yb, mb, db = cal.date(ctx, "b_", 1, 9999)
    a, h1, m1, s1 = moment(ctx, "a_", ya, m, da)
    b, h2, m2, s2 = moment(ctx, "b_", yb, mb, db)
    ra = (ya * 372 + m * 31 + da) * 86400 + h1 * 3600 + m1 * 60 + s1
    rb = (yb * 372 + mb * 31 + db) * 86400 + h2 * 3600 + m2 * 60 + s2
    af, be = a.isAfter(b), a.isBefore(b)
    ctx.check(af == (ra > rb), "isAfter is strict lexicographic order of the fields")
    ctx.check(be == (ra < rb), "isBefore is strict lexicographic order of the fields")
