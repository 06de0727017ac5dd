"""Luck periods: direction, start age, decades, years and months."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]


def ylist(tier, info):
    if tier == "quick":
        return lun.few(tier, info, YEARS, 2, 14)
    return lun.years(tier, info, 8, 100, 3, 9900)


YEARS = (15, 1582, 1899, 1984, 1988, 2000, 2024, 9000)
PAIRS = ((0, 0), (0, 4), (1, 0), (1, 9), (2, 3), (5, 6), (9, 9))


def bounds(tier):
    return "births at every minute of the chosen concrete years (month forked, day and time symbolic), both genders, both schools; decades, years and months at the places %s" % (PAIRS,)


def tasks(tier, info):
    out = []
    for y in ylist(tier, info):
        out.append(dict(name="start %d" % y, fn="h_start", params=dict(year=y)))
        out.append(dict(name="decades %d" % y, fn="h_decades", params=dict(year=y)))
    return out


def birth(ctx, year, h, mi, s):
    y, m, d = lun.day(ctx, year)
    return y, m, d, Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()


def key(s):
    return cal.jdn(s.getYear(), s.getMonth(), s.getDay()) * 1440 + s.getHour() * 60 + s.getMinute()


def slot(s):
    """double hour of a clock, the late zi hour counted to the last one of its day"""
    return ctx_min((s.getHour() + 1) // 2, 11)


def ctx_min(a, b):
    if a < b:
        r = a
    else:
        r = b
    return r


def h_start(ctx, year):
    h, mi, s = ctx.int("h", 0, 23), ctx.int("mi", 0, 59), 0
    y, m, d, l = birth(ctx, year, h, mi, s)
    male = ctx.int("male", 0, 1, True)
    sect = ctx.int("sect", 1, 2, True)
    yun = l.getEightChar().getYun(male, sect)
    g = l.getYearGanIndexExact() % 2
    ctx.check(yun.isForward() == ((g == 0) == (male == 1)), "forward for men of 阳 years and women of 阴 years")
    ctx.check(yun.getGender() == male, "gender")
    now = l.getSolar()
    if yun.isForward():
        a, b = now, l.getNextJie().getSolar()
    else:
        a, b = l.getPrevJie().getSolar(), now
    if sect == 2:
        t = key(b) - key(a)
        want = (t // 4320, t % 4320 // 360, t % 360 // 12, t % 12 * 2)
    else:
        t = (cal.jdn(b.getYear(), b.getMonth(), b.getDay()) - cal.jdn(a.getYear(), a.getMonth(), a.getDay())) * 12 + slot(b) - slot(a)
        want = (t // 36, t % 36 // 3, t % 3 * 10, 0)
    ctx.check_eq((yun.getStartYear(), yun.getStartMonth(), yun.getStartDay(), yun.getStartHour()), want, "three days of distance to the 节 make one year of age")


def h_decades(ctx, year):
    h = ctx.pick("h", (11, 23))
    y, m, d, l = birth(ctx, year, h, 30, 0)
    male = ctx.int("male", 0, 1, True)
    yun = l.getEightChar().getYun(male, 1)
    e = yun.getStartSolar()
    i, j = ctx.pick("ij", PAIRS)
    ds = yun.getDaYun()
    ctx.check(len(ds) == 10, "ten decades by default")
    a = ds[i]
    sg = 1 if yun.isForward() else -1
    ctx.check_eq((ds[0].getStartYear(), ds[0].getStartAge(), ds[0].getEndYear()), (year, 1, e.getYear() - 1), "the time before the first decade runs from birth to the start")
    ctx.check_eq((a.getEndYear() - a.getStartYear()), a.getEndAge() - a.getStartAge(), "years and ages run in step")
    ctx.check(a.getStartAge() == a.getStartYear() - year + 1, "age counts the birth year as one")
    if i > 0:
        ctx.check_eq((a.getStartYear(), a.getEndYear()), (e.getYear() + 10 * i - 10, e.getYear() + 10 * i - 1), "decades of ten years follow each other")
        k = month_index(l) + sg * i
        ctx.check(a.getGanZhi() == lun.GZ[k % 60], "the decade pillar moves from the month pillar in the direction of the luck")
    else:
        ctx.check(a.getGanZhi() == "", "no pillar before the first decade")
    n = 10
    if i == 0:
        n = e.getYear() - year
    ys = a.getLiuNian()
    xs = a.getXiaoYun()
    ctx.check(len(ys) == n and len(xs) == n, "one entry per year of the decade")
    if len(ys) == 0:
        return
    if j < len(ys):
        ctx.check_eq((ys[j].getYear(), ys[j].getAge()), (a.getStartYear() + j, a.getStartAge() + j), "years of a decade follow each other")
        ctx.check_eq((xs[j].getYear(), xs[j].getAge()), (a.getStartYear() + j, a.getStartAge() + j), "minor periods follow the years")
        ctx.check(ys[j].getGanZhi() == lun.GZ[(a.getStartYear() + j - 4) % 60], "the pillar of a year is that year's pillar")
        t = hour_index(l) + sg * (a.getStartAge() + j)
        ctx.check(xs[j].getGanZhi() == lun.GZ[t % 60], "the minor period moves from the hour pillar, one step per year of age")
        c = j
        ms = ys[j].getLiuYue()
        g = (a.getStartYear() + j - 4) % 10
        ctx.check(len(ms) == 12, "twelve months in a year")
        ctx.check(ms[c % 12].getGanZhi() == lun.GAN[(g % 5 * 2 + 2 + c % 12) % 10] + lun.ZHI[(c % 12 + 2) % 12], "month pillars from the year stem")


def sixty(g, z):
    return (6 * g - 5 * z) % 60


def month_index(l):
    return sixty(l.getMonthGanIndexExact(), l.getMonthZhiIndexExact())


def hour_index(l):
    return sixty(l.getTimeGanIndex(), l.getTimeZhiIndex())
