"""The month pillars change on the day, and at the moment, of each 节, in an unbroken sixty-month cycle."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]


def ylist(tier, info):
    return lun.years(tier, info, 72)


def bounds(tier):
    return "every second of the chosen concrete years (month forked, day and time symbolic)"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_month", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 4)]


def h_month(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    n = cal.jdn(y, m, d)
    t = lun.moment(n, h * 3600 + mi * 60 + s)
    jie = lun.terms(year)[::2]
    a = 0
    b = 0
    for x in jie:
        a = a + ctx.ite(n >= x[1], 1, 0)
        b = b + ctx.ite(t >= lun.moment(x[1], x[2]), 1, 0)
    # the third 节 of the list is 立春, where the month 丙寅 of a 甲 year begins
    p = (12 * (year - 1984) + a - 3 + 2) % 60
    q = (12 * (year - 1984) + b - 3 + 2) % 60
    ctx.check(ctx.And(l.getMonthGanIndex() == p % 10, l.getMonthZhiIndex() == p % 12), "month pillar changing on the day of the 节")
    ctx.check(ctx.And(l.getMonthGanIndexExact() == q % 10, l.getMonthZhiIndexExact() == q % 12), "month pillar changing at the moment of the 节")
    ctx.check_eq((l.getMonthGan(), l.getMonthZhi()), (lun.GAN[p % 10], lun.ZHI[p % 12]), "stem and branch")
    ctx.check_eq((l.getMonthGanExact(), l.getMonthZhiExact()), (lun.GAN[q % 10], lun.ZHI[q % 12]), "exact stem and branch")
    ctx.check(l.getMonthInGanZhi() == lun.GZ[p], "text of the month pillar")
    ctx.check(l.getMonthInGanZhiExact() == lun.GZ[q], "text of the exact month pillar")
