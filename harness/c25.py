"""Nine stars of years, months, days and hours."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth, NineStar
import cal
import lun
import alm

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants and new moons come from the library's own series (native evaluation per concrete year)"]

NAMES = ("一白水", "二黑土", "三碧木", "四绿木", "五黄土", "六白金", "七赤金", "八白土", "九紫火")
TRIGRAMS = "坎坤震巽中乾兑艮离"
DIPPER = ("天枢", "天璇", "天玑", "天权", "玉衡", "开阳", "摇光", "洞明", "隐元")

HOURS = (1, 19, 239, 762, 1582, 1645, 1900, 1906, 1959, 1984, 2000, 2009, 2022, 2024, 2033, 5000, 9998)


def ylist(tier, info):
    return lun.years(tier, info)


XUAN_KONG = ("贪狼", "巨门", "禄存", "文曲", "廉贞", "武曲", "破军", "左辅", "右弼")
GATES = ("休", "死", "伤", "杜", "", "开", "惊", "生", "景")
QI_MEN = ("大凶", "大凶", "小吉", "大吉", "大吉", "大吉", "小凶", "小吉", "小凶")
TAI_YI = ("太乙", "摄提", "轩辕", "招摇", "天符", "青龙", "咸池", "太阴", "天乙")
TAI_YI_KIND = ("吉神", "凶神", "安神", "安神", "凶神", "吉神", "凶神", "吉神", "吉神")
SONG = ("门中太乙明", "门前见摄提", "出入会轩辕", "招摇号木星", "五鬼为天符", "神光跃青龙", "吾将为咸池", "坐临太阴星", "迎来天乙星")


def bounds(tier):
    return "every second of the chosen concrete years (month forked, day and time symbolic); lunar years and months of those years"


def tasks(tier, info):
    out = []
    for c in lun.chunks(ylist(tier, info), 6):
        out.append(dict(name="days %d.." % c[0], fn="h_day", params=dict(years=c)))
        out.append(dict(name="years %d.." % c[0], fn="h_year", params=dict(years=c)))
    for c in lun.chunks(ylist(tier, info) if tier == "thorough" else lun.few(tier, info, HOURS, 3, 22), 3):
        out.append(dict(name="hours %d.." % c[0], fn="h_hour", params=dict(years=c)))
    for c in lun.chunks(ylist(tier, info), 3):
        out.append(dict(name="months %d.." % c[0], fn="h_month", params=dict(years=c)))
    out.append(dict(name="attributes", fn="h_star", params=dict()))
    return out


def h_star(ctx):
    i = ctx.int("i", 0, 8)
    s = NineStar.fromIndex(i)
    ctx.check_eq((s.getIndex(), s.getNumber() + s.getColor() + s.getWuXing(), s.getPosition(), s.getNameInBeiDou(), s.toString()), (i, NAMES[i], TRIGRAMS[i], DIPPER[i], ctx_cat(i)), "attributes of a star")
    p = s.getPosition()
    ctx.check(s.getPositionDesc() == alm.DESC[p], "direction of the star's palace")
    ctx.check_eq((s.getNameInXuanKong(), s.getLuckInXuanKong()), (XUAN_KONG[i], "吉凶凶吉凶吉凶吉吉"[i]), "玄空 name and luck")
    ctx.check_eq((s.getNameInQiMen(), s.getBaMenInQiMen(), s.getLuckInQiMen(), s.getYinYangInQiMen()), ("天" + "蓬芮冲辅禽心柱任英"[i], GATES[i], QI_MEN[i], "阳阴阳阳阳阴阴阳阴"[i]), "奇门 name, gate, luck and kind")
    ctx.check_eq((s.getNameInTaiYi(), s.getTypeInTaiYi()), (TAI_YI[i], TAI_YI_KIND[i]), "太乙 name and kind")
    ctx.check(s.getSongInTaiYi()[0:5] == SONG[i], "太乙 song")


def ctx_cat(i):
    return tuple(NAMES[k] + DIPPER[k] for k in range(9))[i]


def h_year(ctx, years):
    """the star falls by one each year, 七赤 in 1984; sixty-year eras and twenty-year periods"""
    y = ctx.pick("year", years)
    l = LunarYear.fromYear(y)
    ctx.check(l.getNineStar().getIndex() == (1990 - y) % 9, "the year star falls by one each year")
    ctx.check(l.getYuan() == ("下元", "上元", "中元")[(y - 1984) // 60 % 3], "sixty-year eras")
    ctx.check(l.getYun() == ("七运", "八运", "九运", "一运", "二运", "三运", "四运", "五运", "六运")[(y - 1984) // 20 % 9], "twenty-year periods")
    k = ctx.int("month", 1, 12, True)
    m = LunarMonth.fromYm(y, k)
    if m is None:
        return
    ctx.check(m.getNineStar().getIndex() == (7 - (12 * (y - 1984) + k - 1)) % 9, "the month star falls by one each month")


def h_month(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    n = cal.jdn(y, m, d)
    t = lun.moment(n, h * 3600 + mi * 60 + s)
    a = -3
    b = -3
    for x in lun.terms(year)[::2]:
        a = a + ctx.ite(n >= x[1], 1, 0)
        b = b + ctx.ite(t >= lun.moment(x[1], x[2]), 1, 0)
    # a, b: months since 立春 of the civil year (by day, by second)
    sect = ctx.int("sect", 1, 3, True)
    if sect == 1:
        yy = l.getYear()
        # the star of the month branch within the lunar year
        mm = 12 * (l.getYear() - 1984) + a % 12
    elif sect == 2:
        yy = year + a // 12
        mm = 12 * (year - 1984) + a
    else:
        yy = year + b // 12
        mm = 12 * (year - 1984) + b
    ctx.check(l.getYearNineStar(sect).getIndex() == (1990 - yy) % 9, "star of the year in force")
    ctx.check(l.getMonthNineStar(sect).getIndex() == (7 - mm) % 9, "star of the month in force")


def solstices(year):
    t = lun.terms(year)
    return t[1][1], t[13][1], t[25][1]


def nearest(n):
    """the day beginning a sixty-day cycle nearest to a day"""
    i = (n + 49) % 60
    return n - i + (60 if i > 29 else 0)


def h_day(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    n = cal.jdn(y, m, d)
    a, b, c = [nearest(x) for x in solstices(year)]
    p = nearest(lun.terms(year - 1)[13][1])
    if n >= c:
        want = (n - c) % 9
    elif n >= b:
        want = 8 - (n - b) % 9
    elif n >= a:
        want = (n - a) % 9
    else:
        want = 8 - (n - p) % 9
    h = ctx.pick("h", (0, 12, 23))
    s = Solar.fromYmdHms(y, m, d, h, 30, 0).getLunar().getDayNineStar()
    ctx.check(s.getIndex() == want, "the day star rises from the 甲子 day nearest the winter solstice and falls from the one nearest the summer solstice")


def h_hour(ctx, years):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    z = ctx.int("slot", 0, 12, True)
    h = 23 if z == 12 else 2 * z
    mi = ctx.int("mi", 0, 59)
    l = Solar.fromYmdHms(y, m, d, h, mi, 0).getLunar()
    n = cal.jdn(y, m, d)
    a, b, c = solstices(year)
    g = (n + 1) % 3  # 0: 子午卯酉, 1: 丑辰未戌, 2: 寅巳申亥
    up = ctx.Or(n >= c, ctx.And(n >= a, n < b))
    if up:
        want = ((0, 3, 6)[g] + z % 12) % 9
    else:
        want = ((8, 5, 2)[g] - z % 12) % 9
    ctx.check(l.getTimeNineStar().getIndex() == want, "the hour star runs with the half year and the day branch")
    ctx.check(l.getTime().getNineStar().getIndex() == want, "the double hour has the same star")
