"""Buddhist and Taoist calendars."""
from lunar_python import Foto, Tao, Lunar, LunarYear, LunarMonth, Solar
import cal
import lun
import tables

OUTSIDE = "years not listed"
ASSUMPTIONS = ["month tables come from the library's own series (native evaluation per concrete year)"]
YEARS = (1, 16, 19, 239, 619, 700, 762, 1582, 1642, 1900, 1995, 2017, 2023, 2033)
SIX = (8, 14, 15, 23, 29, 30)
TEN = (1, 8, 14, 15, 18, 23, 24, 28, 29, 30)
GUAN_YIN = "1-8 2-7 2-9 2-19 3-3 3-6 3-13 4-22 5-3 5-17 6-16 6-18 6-19 6-23 7-13 8-16 9-19 9-23 10-2 11-19 11-24 12-25".split()
XIU = "角亢氐房心尾箕斗女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸"
# the mansion of the first day of each month
FIRST = "室奎胃毕参鬼张角氐心斗虚"
SAN_HUI = ("1-7", "7-7", "10-15")
SAN_YUAN = ("1-15", "7-15", "10-15")
WU_LA = ("1-1", "5-5", "7-7", "10-1", "12-8")
BA_HUI = {"丙午": "天会", "壬午": "地会", "壬子": "人会", "庚午": "日会", "庚申": "月会", "辛酉": "星辰会", "甲辰": "五行会", "甲戌": "四时会"}
BA_JIE = {"立春": "东北方度仙上圣天尊同梵炁始青天君下降", "春分": "东方玉宝星上天尊同青帝九炁天君下降", "立夏": "东南方好生度命天尊同梵炁始丹天君下降", "夏至": "南方玄真万福天尊同赤帝三炁天君下降",
          "立秋": "西南方太灵虚皇天尊同梵炁始素天君下降", "秋分": "西方太妙至极天尊同白帝七炁天君下降", "立冬": "西北方无量太华天尊同梵炁始玄天君下降", "冬至": "北方玄上玉宸天尊同黑帝五炁天君下降"}
# hidden 戊 days: 正羊二犬三在辰，四月期间不犯寅，五午六子七鸡位，八月周流又到申，九蛇十猪十一兔，十二牛头
AN_WU = "未戌辰寅午子酉申巳亥卯丑"
DIGITS = "〇一二三四五六七八九"


def ylist(tier, info):
    return lun.few(tier, info, YEARS, 2, 18) if tier == "quick" else lun.years(tier, info, 0, 300)


def bounds(tier):
    return "every lunar day of the chosen concrete lunar years (month forked, day symbolic), the double hour forked where it matters"


def tasks(tier, info):
    out = []
    for c in lun.chunks(ylist(tier, info), 2):
        out.append(dict(name="labels %d.." % c[0], fn="h_label", params=dict(years=c)))
        out.append(dict(name="buddhist %d.." % c[0], fn="h_foto", params=dict(years=c)))
        out.append(dict(name="taoist %d.." % c[0], fn="h_tao", params=dict(years=c)))
    return out


def lunar_day(ctx, years, h=12):
    """an arbitrary day of a lunar year"""
    y = ctx.pick("year", years)
    m = ctx.pick("month", tuple((x.getMonth(), x.getDayCount()) for x in LunarYear.fromYear(y).getMonthsInYear()))
    d = ctx.int("day", 1, m[1])
    return y, m[0], d, m[1], Lunar.fromYmdHms(y, m[0], d, h, 5, 6)


def chinese(n):
    s = ""
    for c in str(n):
        s = s + DIGITS[int(c)]
    return s


def h_label(ctx, years):
    y, m, d, n, l = lunar_day(ctx, years)
    f, t = l.getFoto(), l.getTao()
    for x, z in ((f, y + 544), (t, y + 2697)):
        ctx.check_eq((x.getYear(), x.getMonth(), x.getDay()), (z, m, d), "the year counts from the epoch, month and day are the lunar ones")
        ctx.check(x.getYearInChinese() == chinese(z), "digits of the year")
        ctx.check(x.toString() == chinese(z) + "年" + l.getMonthInChinese() + "月" + l.getDayInChinese(), "text form")
        ctx.check_eq(cal.ymd(x.getLunar().getSolar()), cal.ymd(l.getSolar()), "the lunar day is kept")
    for b in (Foto.fromYmdHms(y + 544, m, d, 1, 2, 3), Tao.fromYmdHms(y + 2697, m, d, 1, 2, 3)):
        k = b.getLunar()
        ctx.check_eq((k.getYear(), k.getMonth(), k.getDay(), k.getHour(), k.getMinute(), k.getSecond()), (y, m, d, 1, 2, 3), "built from its own label")
    ctx.check_eq((Foto.fromYmd(y + 544, m, d).getLunar().getDay(), Tao.fromYmd(y + 2697, m, d).getLunar().getDay()), (d, d), "built from its own date")


def h_foto(ctx, years):
    y, m, d, n, l = lunar_day(ctx, years)
    f = l.getFoto()
    part = ctx.int("part", 0, 2, True)
    if part == 0:
        key = "%d-%d" % (abs(m), d)
        want = ()
        if key in tables.FOTO:
            want = tables.FOTO[key]
        for i in range(2):
            got = tuple([(x.getName(), x.getResult(), x.isEveryMonth(), x.getRemark()) for x in f.getFestivals()])
            ctx.check_eq(got, want, "the festivals of a month day are those of the published list")
        ctx.check(f.isDayYangGong() == ctx.Or(False, *[x[0] == "杨公忌" for x in want]), "杨公忌 days")
        ctx.check(f.toFullString() == f.toString() + "".join([" (" + x.toString() + ")" for x in f.getFestivals()]), "full text")
    elif part == 1:
        key = "%d-%d" % (m, d)
        want = ()
        if key in tables.FOTO_DAYS:
            want = tables.FOTO_DAYS[key]
        ctx.check_eq(tuple(f.getOtherFestivals()), want, "the memorial days are those of the published list")
        ctx.check(f.isDayZhaiGuanYin() == ctx.Or(False, *[key == k for k in GUAN_YIN]), "观音斋")
    else:
        ctx.check(f.isMonthZhai() == (m in (1, 5, 9)), "斋月")
        ctx.check(f.isDayZhaiShuoWang() == ctx.Or(d == 1, d == 15), "朔望斋")
        ctx.check(f.isDayZhaiSix() == ctx.Or(False, *([d == k for k in SIX] + ([d == 28] if n == 29 else []))), "六斋: the last two days of a short month")
        ctx.check(f.isDayZhaiTen() == ctx.Or(False, *[d == k for k in TEN]), "十斋")
        ctx.check(f.getXiu() == XIU[(XIU.index(FIRST[abs(m) - 1]) + d - 1) % 27], "the twenty-seven mansions run through the month")


def h_tao(ctx, years):
    y, m, d, n, l = lunar_day(ctx, years)
    t = l.getTao()
    j = cal.jdn(*cal.ymd(l.getSolar()))
    gz = lun.GZ[(j + 49) % 60]
    part = ctx.int("part", 0, 1, True)
    key = "%d-%d" % (m, d)
    jq = l.getJieQi()
    if part == 0:
        want = ()
        if key in tables.TAO:
            want = tables.TAO[key]
        if jq == "冬至":
            want = want + (("元始天尊圣诞", ""),)
        elif jq == "夏至":
            want = want + (("灵宝天尊圣诞", ""),)
        for i in range(2):
            got = tuple([(x.getName(), x.getRemark()) for x in t.getFestivals()])
            w = want
            if jq in BA_JIE:
                w = w + ((BA_JIE[jq], ""),)
            if gz in BA_HUI:
                w = w + ((BA_HUI[gz], ""),)
            ctx.check_eq(got, w, "the festivals of a day are those of the published list, of its term and of its pillar")
    else:
        ctx.check_eq((t.isDaySanHui(), t.isDaySanYuan(), t.isDayWuLa()), tuple([ctx.Or(False, *[key == k for k in ks]) for ks in (SAN_HUI, SAN_YUAN, WU_LA)]), "三会, 三元, 五腊")
        ctx.check(t.isDayBaJie() == (jq in BA_JIE), "八节: the four beginnings, solstices and equinoxes")
        ctx.check(t.isDayBaHui() == ctx.Or(False, *[gz == k for k in BA_HUI]), "八会")
        ming = (j + 9) % 10 == 4
        an = (j + 1) % 12 == lun.ZHI.index(AN_WU[abs(m) - 1])
        ctx.check_eq((t.isDayMingWu(), t.isDayAnWu(), t.isDayWu()), (ming, an, ctx.Or(ming, an)), "戊 days, open and hidden")
        z = l.getMonthZhi()
        ctx.check(t.isDayTianShe() == ctx.Or(ctx.And(gz == "戊寅", ctx.Or(z == "寅", z == "卯", z == "辰")), ctx.And(gz == "甲午", ctx.Or(z == "巳", z == "午", z == "未")),
                                             ctx.And(gz == "戊申", ctx.Or(z == "申", z == "酉", z == "戌")), ctx.And(gz == "甲子", ctx.Or(z == "亥", z == "子", z == "丑"))), "天赦: one pillar per season")
