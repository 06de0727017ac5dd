"""The eight characters: pillars and everything derived from them."""
from lunar_python import Solar, Lunar
import cal
import lun

OUTSIDE = "years not listed"
ASSUMPTIONS = ["term instants come from the library's own series (native evaluation per concrete year)"]
YEARS = (15, 1582, 1984, 1985, 1986, 1987, 1988, 2024, 9000)

WUXING = "木木火火土土金金水水"
WUXING_ZHI = "水土木木土火火土金金土水"
NAYIN = ("海中金", "炉中火", "大林木", "路旁土", "剑锋金", "山头火", "涧下水", "城头土", "白蜡金", "杨柳木", "泉中水", "屋上土", "霹雳火", "松柏木", "长流水",
         "沙中金", "山下火", "平地木", "壁上土", "金箔金", "覆灯火", "天河水", "大驿土", "钗钏金", "桑柘木", "大溪水", "沙中土", "天上火", "石榴木", "大海水")
HIDE = ("癸", "己癸辛", "甲丙戊", "乙", "戊乙癸", "丙庚戊", "丁己", "己丁乙", "庚壬戊", "辛", "戊辛丁", "壬甲")
# relation of another stem to the day stem, by distance of the elements and by polarity
SHEN = ("比肩", "劫财", "食神", "伤官", "偏财", "正财", "七杀", "正官", "偏印", "正印")
STAGE = ("长生", "沐浴", "冠带", "临官", "帝旺", "衰", "病", "死", "墓", "绝", "胎", "养")
BIRTH = (11, 6, 2, 9, 2, 9, 5, 0, 8, 3)
XUN = ("甲子", "甲戌", "甲申", "甲午", "甲辰", "甲寅")
KONG = ("戌亥", "申酉", "午未", "辰巳", "寅卯", "子丑")


def shen(me, other):
    return SHEN[(other // 2 - me // 2) % 5 * 2 + (me + other) % 2]


def table(f, n):
    return tuple(f(i) for i in range(n))


SHEN_TAB = table(lambda i: shen(i // 10, i % 10), 100)
SHEN_ZHI = table(lambda i: " ".join(shen(i // 12, lun.GAN.index(c)) for c in HIDE[i % 12]), 120)
STAGE_TAB = table(lambda i: STAGE[((i % 12 - BIRTH[i // 12]) if i // 12 % 2 == 0 else (BIRTH[i // 12] - i % 12)) % 12], 120)
WX = table(lambda i: WUXING[i % 10] + WUXING_ZHI[i % 12], 60)


def ylist(tier, info):
    if tier == "quick":
        return lun.few(tier, info, YEARS, 2)
    return lun.years(tier, info, 4, 100)


def bounds(tier):
    return "the pillars: every second of the chosen concrete years (month and double hour forked, day and time symbolic), both schools for the late zi hour; what is derived from them: every day and double hour of those years"


def tasks(tier, info):
    out = []
    for c in lun.chunks(ylist(tier, info), 1):
        out.append(dict(name="pillars %d.." % c[0], fn="h_pillars", params=dict(years=c)))
        out.append(dict(name="derived %d.." % c[0], fn="h_derived", params=dict(years=c)))
        if tier != "quick" or c[0] in (1984, 2024):
            out.append(dict(name="hidden %d.." % c[0], fn="h_hidden", params=dict(years=c)))
    return out


def sixty(g, z):
    return (6 * g - 5 * z) % 60


def start(ctx, years, full):
    year = ctx.pick("year", years)
    y, m, d = lun.day(ctx, year)
    slot = ctx.int("slot", 0, 12, True)
    mi, s = 30, 0
    if slot == 12:
        h = 23
    else:
        h = 2 * slot
    if full:
        if slot > 0 and slot < 12:
            h = h - ctx.int("half", 0, 1)
        mi, s = ctx.int("mi", 0, 59), ctx.int("s", 0, 59)
    l = Solar.fromYmdHms(y, m, d, h, mi, s).getLunar()
    e = l.getEightChar()
    sect = ctx.int("sect", 1, 2, True)
    if sect == 1:
        e.setSect(1)
    yy = sixty(l.getYearGanIndexExact(), l.getYearZhiIndexExact())
    mm = sixty(l.getMonthGanIndexExact(), l.getMonthZhiIndexExact())
    day = cal.jdn(y, m, d) + 49
    if slot == 12:
        late = 1
    else:
        late = 0
    if sect == 2:
        dd = day % 60
    else:
        dd = (day + late) % 60
    z = slot % 12
    # the hour stem goes with the day the zi hour belongs to, in both schools
    tt = sixty(((day + late) % 10 % 5 * 2 + z) % 10, z)
    return l, e, yy, mm, dd, tt


def h_pillars(ctx, years):
    l, e, yy, mm, dd, tt = start(ctx, years, True)
    ctx.check_eq((e.getYear(), e.getMonth(), e.getDay(), e.getTime()), (lun.GZ[yy], lun.GZ[mm], lun.GZ[dd], lun.GZ[tt]), "four pillars")


def h_derived(ctx, years):
    l, e, yy, mm, dd, tt = start(ctx, years, False)
    me = dd % 10
    ctx.check_eq((e.getYearGan(), e.getMonthGan(), e.getDayGan(), e.getTimeGan()), (lun.GAN[yy % 10], lun.GAN[mm % 10], lun.GAN[dd % 10], lun.GAN[tt % 10]), "four stems")
    ctx.check_eq((e.getYearZhi(), e.getMonthZhi(), e.getDayZhi(), e.getTimeZhi()), (lun.ZHI[yy % 12], lun.ZHI[mm % 12], lun.ZHI[dd % 12], lun.ZHI[tt % 12]), "four branches")
    ctx.check_eq((e.getDayGanIndex(), e.getDayZhiIndex()), (dd % 10, dd % 12), "indices of the day pillar")
    ctx.check_eq((e.getYearWuXing(), e.getMonthWuXing(), e.getDayWuXing(), e.getTimeWuXing()), (WX[yy], WX[mm], WX[dd], WX[tt]), "elements")
    ctx.check_eq((e.getYearNaYin(), e.getMonthNaYin(), e.getDayNaYin(), e.getTimeNaYin()), (NAYIN[yy // 2], NAYIN[mm // 2], NAYIN[dd // 2], NAYIN[tt // 2]), "纳音")
    ctx.check_eq((e.getYearXun(), e.getMonthXun(), e.getDayXun(), e.getTimeXun()), (XUN[yy // 10], XUN[mm // 10], XUN[dd // 10], XUN[tt // 10]), "旬")
    ctx.check_eq((e.getYearXunKong(), e.getMonthXunKong(), e.getDayXunKong(), e.getTimeXunKong()), (KONG[yy // 10], KONG[mm // 10], KONG[dd // 10], KONG[tt // 10]), "旬空")
    ctx.check_eq((e.getYearShiShenGan(), e.getMonthShiShenGan(), e.getDayShiShenGan(), e.getTimeShiShenGan()), (SHEN_TAB[me * 10 + yy % 10], SHEN_TAB[me * 10 + mm % 10], "日主", SHEN_TAB[me * 10 + tt % 10]), "ten gods of the stems")
    ctx.check_eq((e.getYearDiShi(), e.getMonthDiShi(), e.getDayDiShi(), e.getTimeDiShi()), (STAGE_TAB[me * 12 + yy % 12], STAGE_TAB[me * 12 + mm % 12], STAGE_TAB[me * 12 + dd % 12], STAGE_TAB[me * 12 + tt % 12]), "stage of life of the day stem")
    k = sixty((mm + 1) % 10, (mm + 3) % 12)
    ctx.check_eq((e.getTaiYuan(), e.getTaiYuanNaYin()), (lun.GZ[k], NAYIN[k // 2]), "胎元: next stem, third branch")
    k = sixty((me + 5) % 10, (13 - dd) % 12)
    ctx.check_eq((e.getTaiXi(), e.getTaiXiNaYin()), (lun.GZ[k], NAYIN[k // 2]), "胎息: the partners of the day pillar")
    # the months count from 寅; the stems follow from the year stem
    a = (mm - 2) % 12 + 1
    b = (tt - 2) % 12 + 1
    o = (13 - a - b) % 12
    k = sixty((yy % 5 * 2 + 2 + o) % 10, (o + 2) % 12)
    ctx.check_eq((e.getMingGong(), e.getMingGongNaYin()), (lun.GZ[k], NAYIN[k // 2]), "命宫")
    o = (a + tt % 12) % 12
    if o == 11:
        g = yy % 5 * 2 + 1  # 丑 of the body palace counts before 寅
    else:
        g = yy % 5 * 2 + 2 + o
    k = sixty(g % 10, (o + 2) % 12)
    ctx.check_eq((e.getShenGong(), e.getShenGongNaYin()), (lun.GZ[k], NAYIN[k // 2]), "身宫")


def h_hidden(ctx, years):
    l, e, yy, mm, dd, tt = start(ctx, years, False)
    me = dd % 10
    w = ctx.int("which", 0, 3, True)
    if w == 0:
        p, a, b = yy, e.getYearHideGan(), e.getYearShiShenZhi()
    elif w == 1:
        p, a, b = mm, e.getMonthHideGan(), e.getMonthShiShenZhi()
    elif w == 2:
        p, a, b = dd, e.getDayHideGan(), e.getDayShiShenZhi()
    else:
        p, a, b = tt, e.getTimeHideGan(), e.getTimeShiShenZhi()
    ctx.check_eq("".join(a), HIDE[p % 12], "hidden stems of the branch")
    ctx.check_eq(" ".join(b), SHEN_ZHI[me * 12 + p % 12], "ten gods of the hidden stems")
