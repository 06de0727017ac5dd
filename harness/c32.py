"""The almanac of a day: mansions, officers, gods, positions, clashes, sounds, names."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
import cal
import lun
import alm

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants and month tables come from the library's own series (native evaluation per concrete year)"]
YEARS = (16, 240, 762, 1582, 1900, 1984, 2023, 2033)


def bounds(tier):
    return "every day of the chosen concrete years (month forked, day symbolic), at noon and in the late 子 hour; every second of the 立春 and 节 days for the year and month positions"


def tasks(tier, info):
    ys = lun.few(tier, info, YEARS, 16, 26) if tier == "quick" else lun.years(tier, info, 0, 300)
    out = []
    for y in ys:
        out.append(dict(name="by pillar %d" % y, fn="h_pillar", params=dict(year=y)))
        out.append(dict(name="by cycle %d" % y, fn="h_cycle", params=dict(year=y)))
        out.append(dict(name="names %d" % y, fn="h_names", params=dict(year=y)))
        out.append(dict(name="year and month %d" % y, fn="h_positions", params=dict(year=y)))
    for c in lun.chunks(lun.years(tier, info, 72, 1200), 8):
        out.append(dict(name="lunar months %d.." % c[0], fn="h_months", params=dict(years=c)))
    return out


def start(ctx, year):
    y, m, d = lun.day(ctx, year)
    h = ctx.pick("h", (12, 23))
    l = Solar.fromYmdHms(y, m, d, h, 30, 0).getLunar()
    return h, cal.jdn(y, m, d), l


def h_pillar(ctx, year):
    """everything that follows from the day pillar alone"""
    h, n, l = start(ctx, year)
    k = (n + 49) % 60
    g = k % 10
    z = k % 12
    ctx.check_eq((l.getDayGan(), l.getDayZhi(), l.getDayInGanZhi(), l.getDayShengXiao(), l.getDayNaYin()), (alm.GAN[g], alm.ZHI[z], alm.GZ[k], alm.ANIMALS[z], alm.NAYIN[k // 2]), "day pillar, animal and sound")
    ctx.check_eq((l.getDayXun(), l.getDayXunKong()), (alm.XUN[k // 10], alm.KONG[k // 10]), "decade and void branches")
    e = (k + 1) % 60 if h == 23 else k
    ctx.check_eq((l.getDayGanExact() + l.getDayZhiExact(), l.getDayInGanZhiExact(), l.getDayXunExact(), l.getDayXunKongExact()), (alm.GZ[e], alm.GZ[e], alm.XUN[e // 10], alm.KONG[e // 10]), "the late 子 hour belongs to the next day")
    ctx.check_eq((l.getDayGanExact2() + l.getDayZhiExact2(), l.getDayInGanZhiExact2(), l.getDayXunExact2(), l.getDayXunKongExact2()), (alm.GZ[k], alm.GZ[k], alm.XUN[k // 10], alm.KONG[k // 10]), "the late 子 hour belongs to its own day")
    if h == 12:
        ctx.check_eq((l.getPengZuGan(), l.getPengZuZhi()), (alm.PENG_G[g], alm.PENG_Z[z]), "taboos of stem and branch")
        w = tuple([x[g] for x in (alm.XI, alm.YANG, alm.YIN, alm.FU[2], alm.FU[1], alm.FU[2], alm.CAI)])
        ctx.check_eq((l.getDayPositionXi(), l.getDayPositionYangGui(), l.getDayPositionYinGui(), l.getDayPositionFu(), l.getDayPositionFu(1), l.getDayPositionFu(2), l.getDayPositionCai()), w, "positions follow the day stem")
        ctx.check_eq((l.getPositionXi(), l.getPositionYangGui(), l.getPositionYinGui(), l.getPositionFu(), l.getPositionCai()), (w[0], w[1], w[2], w[3], w[6]), "short names of the positions")
        b = (l.getDayPositionXiDesc(), l.getDayPositionYangGuiDesc(), l.getDayPositionYinGuiDesc(), l.getDayPositionFuDesc(), l.getDayPositionFuDesc(1), l.getDayPositionFuDesc(2), l.getDayPositionCaiDesc())
        for i in range(7):
            ctx.check(b[i] == alm.DESC[w[i]], "position names")
        ctx.check_eq((l.getPositionXiDesc(), l.getPositionYangGuiDesc(), l.getPositionYinGuiDesc(), l.getPositionFuDesc(), l.getPositionCaiDesc()), (b[0], b[1], b[2], b[3], b[6]), "short names of the positions")
        c = (z + 6) % 12
        w = (alm.ZHI[c], alm.GAN[(g + 4) % 10], "己戊辛庚癸壬乙甲丁丙"[g], alm.ANIMALS[c], "(" + alm.GAN[(g + 4) % 10] + alm.ZHI[c] + ")" + alm.ANIMALS[c], alm.SHA[z])
        ctx.check_eq((l.getDayChong(), l.getDayChongGan(), l.getDayChongGanTie(), l.getDayChongShengXiao(), l.getDayChongDesc(), l.getDaySha()), w, "clashes of the day")
        ctx.check_eq((l.getChong(), l.getChongGan(), l.getChongGanTie(), l.getChongShengXiao(), l.getChongDesc(), l.getSha()), w, "clashes of the day")
        ctx.check(l.getDayPositionTai() == alm.TAI[k], "the unborn child's spirit")
        q = alm.LU_Z[z]
        ctx.check(l.getDayLu() == alm.LU[g] + "命互禄" + (" " + q + "命进禄" if q != "" else ""), "fortune of the day")


def h_cycle(ctx, year):
    """mansions run unbroken through twenty-eight days; officers and gods follow the month branch"""
    h, n, l = start(ctx, year)
    k = (n + 49) % 60
    x = (n + 11) % 28
    ctx.check(l.getXiu() == alm.XIU[x], "mansions run unbroken through twenty-eight days")
    ctx.check_eq((l.getZheng(), l.getAnimal(), l.getGong(), l.getShou()), (alm.ZHENG[x % 7], alm.BEAST[x], alm.GONG[x // 7], alm.GUARD[x // 7]), "luminary, beast and palace of the mansion")
    ctx.check(l.getXiuLuck() == ("吉" if alm.XIU[x] in alm.XIU_GOOD else "凶"), "luck of the mansion")
    ctx.check(l.getXiuSong()[0:1] == alm.XIU[x], "song of the mansion")
    b = -1
    for t in lun.terms(year)[::2]:
        b = b + ctx.ite(n >= t[1], 1, 0)
    mz = ctx.split(b % 12)
    i = (k - mz) % 12
    ctx.check(l.getZhiXing() == alm.JIAN[i], "the twelve officers repeat a day at each 节")
    i = (k - alm.DRAGON[mz]) % 12
    ctx.check_eq((l.getDayTianShen(), l.getDayTianShenType(), l.getDayTianShenLuck()), (alm.GODS[i], "黄道" if i in alm.YELLOW else "黑道", "吉" if i in alm.YELLOW else "凶"), "the twelve gods")


def h_names(ctx, year):
    """names of the lunar day"""
    h, n, l = start(ctx, year)
    m, d = l.getMonth(), l.getDay()
    m = ctx.split(m)
    ctx.check_eq((l.getMonthInChinese(), l.getDayInChinese()), (("闰" if m < 0 else "") + alm.MONTH[abs(m) - 1], alm.DAYS[d - 1]), "names of month and day")
    y = ctx.split(l.getYear())
    ctx.check(l.getYearInChinese() == "".join(["〇一二三四五六七八九"[int(c)] for c in str(y)]), "digits of the year")
    ctx.check(l.toString() == l.getYearInChinese() + "年" + l.getMonthInChinese() + "月" + alm.DAYS[d - 1], "text form")
    ctx.check_eq((l.getYueXiang(), l.getLiuYao()), (alm.MOON[d - 1], alm.LIU_YAO[(abs(m) + d - 2) % 6]), "moon phase and 六曜 of the lunar day")
    ctx.check(l.getSeason() == alm.SEASON[abs(m) - 1], "season of the lunar month")
    ctx.check(l.getMonthPositionTai() == ("" if m < 0 else alm.TAI_M[m - 1]), "the unborn child's spirit by month")
    ctx.check_eq((l.getWeek(), l.getWeekInChinese()), ((n + 1) % 7, alm.WEEK[(n + 1) % 7]), "weekday")


def h_positions(ctx, year):
    """太岁 of year, month and day, and the pillars they go by"""
    y, m, d = lun.day(ctx, year)
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    n = cal.jdn(y, m, d)
    t = lun.moment(n, h * 3600 + mi * 60 + s)
    a = -3
    b = -3
    for x in lun.terms(year)[::2]:
        a = a + ctx.ite(n >= x[1], 1, 0)
        b = b + ctx.ite(t >= lun.moment(x[1], x[2]), 1, 0)
    # months since the first month of the civil year
    a = ctx.split(a)
    b = ctx.split(b)
    ya, yb = year + a // 12, year + b // 12
    yl = ctx.split(l.getYear())
    for sect, yy in ((1, yl), (2, ya), (3, yb)):
        p = alm.TAI_SUI[(yy - 4) % 12]
        ctx.check_eq((l.getYearPositionTaiSui(sect), l.getYearPositionTaiSuiDesc(sect)), (p, alm.DESC[p]), "太岁 of the year in force")
        if h < 23 or sect != 2:
            k = (n + 49) % 60
            w = ctx.ite(k % 12 < 6, "震离中兑坎"[k // 12], p)
            ctx.check(l.getDayPositionTaiSui(sect) == w, "太岁 of the day: six days in twelve with a place of their own")
            v = ctx.ite(k % 12 < 6, ("正东", "正南", "中宫", "正西", "正北")[k // 12], alm.DESC[p])
            ctx.check(l.getDayPositionTaiSuiDesc(sect) == v, "太岁 of the day by direction")
    ctx.check_eq((l.getYearPositionTaiSui(), l.getYearShengXiao(), l.getYearShengXiaoByLiChun(), l.getYearShengXiaoExact()), (alm.TAI_SUI[(ya - 4) % 12],) + tuple([alm.ANIMALS[(v - 4) % 12] for v in (yl, ya, yb)]), "animals of the year")
    ctx.check_eq((l.getYearNaYin(), l.getYearXun(), l.getYearXunByLiChun(), l.getYearXunExact(), l.getYearXunKong(), l.getYearXunKongByLiChun(), l.getYearXunKongExact()),
                 (alm.NAYIN[(yl - 4) % 60 // 2],) + tuple([alm.XUN[(v - 4) % 60 // 10] for v in (yl, ya, yb)]) + tuple([alm.KONG[(v - 4) % 60 // 10] for v in (yl, ya, yb)]), "sound, decade and void branches of the year")
    for sect, c in ((2, a), (3, b)):
        g = (12 * (year - 4) + c + 2) % 60
        p = ("艮", alm.TAI_SUI_GAN[g % 10], "坤", "巽")[c % 4]
        ctx.check_eq((l.getMonthPositionTaiSui(sect), l.getMonthPositionTaiSuiDesc(sect)), (p, alm.DESC[p]), "太岁 of the month in force")
        if sect == 2:
            ctx.check_eq((l.getMonthShengXiao(), l.getMonthNaYin(), l.getMonthXun(), l.getMonthXunKong()), (alm.ANIMALS[g % 12], alm.NAYIN[g // 2], alm.XUN[g // 10], alm.KONG[g // 10]), "animal, sound, decade of the month")
        else:
            ctx.check_eq((l.getMonthShengXiaoExact(), l.getMonthXunExact(), l.getMonthXunKongExact()), (alm.ANIMALS[g % 12], alm.XUN[g // 10], alm.KONG[g // 10]), "animal and decade of the month")


def h_months(ctx, years):
    """positions and names of lunar years and months"""
    y = ctx.pick("year", years)
    o = LunarYear.fromYear(y)
    g, z = (y - 4) % 10, (y - 4) % 12
    ctx.check_eq((o.getGan(), o.getZhi(), o.getGanZhi(), o.getGanIndex(), o.getZhiIndex(), o.toString(), o.toFullString()), (alm.GAN[g], alm.ZHI[z], alm.GZ[(y - 4) % 60], g, z, str(y), str(y) + "年"), "pillar and text of the year")
    check_places(ctx, o, g)
    ctx.check_eq((o.getPositionTaiSui(), o.getPositionTaiSuiDesc()), (alm.TAI_SUI[z], alm.DESC[alm.TAI_SUI[z]]), "太岁 of the year")
    ms = o.getMonthsInYear()
    ctx.check_eq(o.getDayCount(), sum([m.getDayCount() for m in ms]), "days of the year")
    lead = [m.getMonth() for m in ms if m.isLeap()]
    ctx.check_eq(o.getLeapMonth(), abs(lead[0]) if len(lead) > 0 else 0, "leap month of the year")
    for m in ms:
        ctx.check_eq((m.getGan(), m.getZhi(), m.getGanZhi()), (alm.GAN[m.getGanIndex()], alm.ZHI[m.getZhiIndex()], alm.GAN[m.getGanIndex()] + alm.ZHI[m.getZhiIndex()]), "pillar of the month")
        ctx.check((m.getGanIndex() - m.getZhiIndex()) % 2 == 0, "stem and branch of a month agree in parity")
        check_places(ctx, m, m.getGanIndex())
        ctx.check_eq(m.toString(), "%d年%s%s月(%d天)" % (m.getYear(), "闰" if m.getMonth() < 0 else "", alm.MONTH[abs(m.getMonth()) - 1], m.getDayCount()), "text of the month")
        ctx.check_eq(m.getPositionTaiSuiDesc(), alm.DESC[m.getPositionTaiSui()], "太岁 of the month")
        if abs(m.getMonth()) % 4 != 2:
            ctx.check_eq(m.getPositionTaiSui(), ("巽", "艮", "", "坤")[abs(m.getMonth()) % 4], "太岁 of the month")
        else:
            g = Solar.fromJulianDay(m.getFirstJulianDay()).getLunar().getMonthGanIndex()
            ctx.check_eq(m.getPositionTaiSui(), alm.TAI_SUI_GAN[g], "太岁 of the month by the stem in force on its first day")


def check_places(ctx, o, g):
    w = tuple([x[g] for x in (alm.XI, alm.YANG, alm.YIN, alm.FU[1], alm.FU[2], alm.FU[2], alm.CAI)])
    ctx.check_eq((o.getPositionXi(), o.getPositionYangGui(), o.getPositionYinGui(), o.getPositionFu(1), o.getPositionFu(2), o.getPositionFu(), o.getPositionCai()), w, "positions follow the stem")
    ctx.check_eq((o.getPositionXiDesc(), o.getPositionYangGuiDesc(), o.getPositionYinGuiDesc(), o.getPositionFuDesc(1), o.getPositionFuDesc(2), o.getPositionFuDesc(), o.getPositionCaiDesc()), tuple([alm.DESC[x] for x in w]), "position names")
