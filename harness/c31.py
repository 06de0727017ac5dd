"""Lunar festivals: fixed to lunar days, to the end of the year, and to terms and pillars; first days of the year by pillar."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
import cal
import lun
import tables

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants and month tables come from the library's own series (native evaluation per concrete year)"]
YEARS = (16, 19, 37, 239, 240, 619, 690, 700, 762, 1421, 1574, 1582, 1642, 1900, 1906, 1959, 1977, 1984, 1995, 2000, 2006, 2009, 2017, 2022, 2023, 2024, 2033, 3358, 9998)
DIGITS = "一 二 三 四 五 六 七 八 九 十 十一 十二".split()


def bounds(tier):
    return "every day of the chosen concrete lunar and civil years (month forked, day symbolic)"


def tasks(tier, info):
    ys = lun.few(tier, info, YEARS, 40, 110) if tier == "quick" else lun.years(tier, info, 0, 400)
    out = []
    for c in lun.chunks(ys, 3):
        out.append(dict(name="lunar days %d.." % c[0], fn="h_fixed", params=dict(years=c)))
        out.append(dict(name="movable %d.." % c[0], fn="h_movable", params=dict(years=c)))
    for c in lun.chunks(lun.years(tier, info, 96, 1200), 10):
        out.append(dict(name="first days %d.." % c[0], fn="h_first", params=dict(years=c)))
    return out


def h_fixed(ctx, years):
    y = ctx.pick("year", years)
    ms = LunarYear.fromYear(y).getMonthsInYear()
    i = ctx.int("month", 0, len(ms) - 1, True)
    m, n = ms[i].getMonth(), ms[i].getDayCount()
    d = ctx.int("day", 1, n)
    l = Lunar.fromYmdHms(y, m, d, ctx.pick("h", (0, 13)), 0, 0)
    key = "%d-%d" % (m, d)
    want = ()
    if key in tables.LUNAR:
        want = (tables.LUNAR[key],)
    if i == len(ms) - 1 and abs(m) == 12 and d == n:
        want = want + ("除夕",)
    ctx.check_eq(tuple(l.getFestivals()), want, "festivals on their lunar days, New Year's Eve on the last day of the year")
    ctx.check_eq(tuple(l.getFestivals()), want, "asking again gives the same festivals")
    other = ()
    if key in tables.LUNAR_OTHER:
        other = tables.LUNAR_OTHER[key]
    got = l.getOtherFestivals()
    ctx.check_eq(tuple([x for x in got if x not in ("寒食节", "春社", "秋社")]), other, "minor festivals on their lunar days")
    ctx.check_eq(len(l.getOtherFestivals()), len(got), "asking again gives the same festivals")


def fifth(n):
    """the fifth 戊 day from a day on"""
    return n + (4 - (n + 9)) % 10 + 40


def h_movable(ctx, years):
    y = ctx.pick("year", years)
    yy, m, d = lun.day(ctx, y)
    l = Solar.fromYmdHms(yy, m, d, ctx.pick("h", (0, 23)), 59, 59).getLunar()
    n = cal.jdn(yy, m, d)
    ts = lun.terms(y)
    got = l.getOtherFestivals()
    ctx.check(("寒食节" in got) == (n == ts[8][1] - 1), "寒食 is the day before 清明")
    ctx.check(("春社" in got) == (n == fifth(ts[4][1])), "春社 is the fifth 戊 day from 立春 on")
    ctx.check(("秋社" in got) == (n == fifth(ts[16][1])), "秋社 is the fifth 戊 day from 立秋 on")


def h_first(ctx, years):
    """which day of the first month is the first one with a given stem or branch"""
    y = ctx.pick("year", years)
    o = LunarYear.fromYear(y)
    n = int(o.getMonth(1).getFirstJulianDay() + 0.5)
    g = lambda k: DIGITS[(k - n - 9) % 10]
    z = lambda k: DIGITS[(k - n - 1) % 12]
    ctx.check_eq((o.getTouLiang(), o.getCaoZi(), o.getGengTian(), o.getHuaShou(), o.getZhiShui(), o.getTuoGu(), o.getQiangMi(), o.getKanCan(), o.getGongZhu()),
                 (z(0) + "鼠偷粮", "草子" + z(0) + "分", z(1) + "牛耕田", "花收" + z(3) + "分", z(4) + "龙治水", z(6) + "马驮谷", z(9) + "鸡抢米", z(9) + "姑看蚕", z(11) + "屠共猪"), "first day with a branch")
    ctx.check_eq((o.getJiaTian(), o.getFenBing(), o.getDeJin()), ("甲田" + g(0) + "分", g(2) + "人分饼", g(7) + "日得金"), "first day with a stem")
    ctx.check_eq((o.getRenBing(), o.getRenChu()), (z(2) + "人" + g(2) + "丙", z(2) + "人" + g(3) + "锄"), "first days with a branch and a stem")
