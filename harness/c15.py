"""The three year pillars change at the lunar new year, on the day of 立春, and at the moment of 立春."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants and new moon days come from the library's own series (native evaluation per concrete year)"]


def ylist(tier, info):
    return lun.years(tier, info, 72)


def bounds(tier):
    return "every second of the chosen concrete years (month forked, day and time symbolic)"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_year", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 4)]


def h_year(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    name, tn, ts = lun.terms(year)[4]
    n = cal.jdn(y, m, d)
    k = l.getYear() - 4
    ctx.check(ctx.And(l.getYearGanIndex() == k % 10, l.getYearZhiIndex() == k % 12), "year pillar of the lunar year")
    k = ctx.ite(n >= tn, year - 4, year - 5)
    ctx.check(ctx.And(l.getYearGanIndexByLiChun() == k % 10, l.getYearZhiIndexByLiChun() == k % 12), "year pillar changing on the day of 立春")
    ctx.check(l.getYearInGanZhiByLiChun() == lun.GZ[k % 60], "text of the year pillar by 立春")
    ctx.check_eq((l.getYearGanByLiChun(), l.getYearZhiByLiChun()), (lun.GAN[k % 10], lun.ZHI[k % 12]), "stem and branch by 立春")
    k = ctx.ite(lun.moment(n, h * 3600 + mi * 60 + s) >= lun.moment(tn, ts), year - 4, year - 5)
    ctx.check(ctx.And(l.getYearGanIndexExact() == k % 10, l.getYearZhiIndexExact() == k % 12), "year pillar changing at the moment of 立春")
    ctx.check_eq((l.getYearGanExact(), l.getYearZhiExact()), (lun.GAN[k % 10], lun.ZHI[k % 12]), "exact stem and branch")
    c = l.getYear() - 4
    ctx.check_eq((l.getYearGan(), l.getYearZhi()), (lun.GAN[c % 10], lun.ZHI[c % 12]), "stem and branch of the lunar year")
    ctx.check(l.getYearInGanZhi() == lun.GZ[(l.getYear() - 4) % 60], "text of the lunar year pillar")
    ctx.check(l.getYearInGanZhiExact() == lun.GZ[k % 60], "text of the exact year pillar")
