"""The day pillar is an unbroken sixty-day cycle; the hour pillar follows from day and clock."""
from lunar_python import Solar, Lunar
from lunar_python.util import LunarUtil
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["reference: 2000-01-07 is a jia-zi day (Julian day number 2451551)"]
GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"


def ylist(tier, info):
    return lun.years(tier, info, 72)


def bounds(tier):
    return "every second of the chosen concrete years (month forked, day and time symbolic)"


def tasks(tier, info):
    return [dict(name="years %d.." % c[0], fn="h_day", params=dict(years=c)) for c in lun.chunks(ylist(tier, info), 4)]


def h_day(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    n = cal.jdn(y, m, d) - 11
    late = ctx.ite(h >= 23, 1, 0)
    g, z = l.getDayGanIndex(), l.getDayZhiIndex()
    ctx.check(ctx.And(g == n % 10, z == n % 12), "day pillar = place in the unbroken sixty-day cycle")
    ctx.check(ctx.And(l.getDayGanIndexExact2() == n % 10, l.getDayZhiIndexExact2() == n % 12), "late zi hour counted to the same day")
    ctx.check(ctx.And(l.getDayGanIndexExact() == (n + late) % 10, l.getDayZhiIndexExact() == (n + late) % 12), "late zi hour counted to the next day")
    tz = (h + 1) // 2 % 12
    ctx.check(l.getTimeZhiIndex() == tz, "double hour of the clock")
    ctx.check(l.getTimeGanIndex() == ((n + late) % 5 * 2 + tz) % 10, "hour stem from the day stem")
    ctx.check(l.getWeek() == Solar.fromYmd(y, m, d).getWeek(), "weekday of the lunar date is that of the civil day")
