"""Month numbers follow the rule of the month without a 中气, for every pattern of new moons."""
from lunar_python import LunarYear
from lunar_python.util import ShouXingUtil
import cal

MEMO_YEARS = False
OUTSIDE = "terms further than a day from their mean place, years with a hard-wired leap month (checked on the library's own data by C12)"
ASSUMPTIONS = ["contract for the astronomical series: successive new moons are 29 or 30 days apart, successive 中气 30 or 31 days; every such pattern is explored"]
YEARS = (501, 1234, 2023, 8001)
S2001 = 355


def bounds(tier):
    return "lunar years %s; every placing of the first new moon (30 values), every pattern of 29/30-day months, every pattern of 30/31-day gaps between 中气 within a day of the mean" % (YEARS if tier != "quick" else YEARS[1:3],)


def tasks(tier, info):
    ys = YEARS[1:3] if tier == "quick" else YEARS
    return [dict(name="year %d age %d" % (y, a), fn="h_rule", params=dict(year=y, age=a)) for y in ys for a in range(0, 30)]


def h_rule(ctx, year, age):
    mean = (year - 2001) * 365.2422 + S2001
    q = []
    for i in range(26):
        e = 0
        if i % 2 == 0 and i > 0:
            e = ctx.int("e%d" % i, -1, 1)
        q.append(int(mean + 15.2184 * i) + e)
    for i in range(0, 24, 2):
        g = q[i + 2] - q[i]
        ctx.assume(ctx.And(g >= 30, g <= 31))
    h = [q[0] - age]
    for i in range(16):
        h.append(h[i] + 29 + ctx.int("b%d" % i, 0, 1, i == 0))
    ctx.assume(h[1] > q[0])

    def qi(x):
        i = int((x - mean) / 15.2184 + 0.5)
        if i < 0 or i > 25:
            return int(mean + 15.2184 * i)
        return q[i]

    def shuo(x):
        if x == q[0]:
            return h[1] if age > 14 else h[0]
        return h[int((x - h[0] + 8) / 29.5306)]

    old = (ShouXingUtil.calcQi, ShouXingUtil.calcShuo, ShouXingUtil.qiAccurate2)
    ShouXingUtil.calcQi = qi
    ShouXingUtil.calcShuo = shuo
    ShouXingUtil.qiAccurate2 = same
    try:
        ms = LunarYear(year).getMonths()
    finally:
        ShouXingUtil.calcQi = old[0]
        ShouXingUtil.calcShuo = old[1]
        ShouXingUtil.qiAccurate2 = old[2]
    z = [q[2 * k] for k in range(13)]
    # month i holds a 中气; the first month after the solstice month that holds none, when thirteen months lie between the solstices
    leap = 99
    if h[13] <= z[12]:
        i = 12
        while i >= 1:
            has = False
            for x in z:
                has = ctx.Or(has, ctx.And(h[i] <= x, x < h[i + 1]))
            leap = ctx.ite(has, leap, i)
            i = i - 1
    ctx.check(len(ms) == 15, "fifteen months")
    for i in range(15):
        k = i - ctx.ite(i >= leap, 1, 0)
        num = (k + 10) % 12 + 1
        num = ctx.ite(i == leap, -num, num)
        y = year - 1 + (k + 10) // 12
        ctx.check_eq((ms[i].getYear(), ms[i].getMonth()), (y, num), "the month number")
        ctx.check_eq((ms[i].getFirstJulianDay(), ms[i].getDayCount()), (h[i] + 2451545, h[i + 1] - h[i]), "the month runs from new moon to new moon")


def same(x):
    return x
