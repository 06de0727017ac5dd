"""Texts are put together from what the accessors answer; value objects keep what they are given."""
from lunar_python import Solar, Lunar, LunarTime, SolarWeek, SolarMonth, SolarSeason, SolarHalfYear, SolarYear, NineStar, JieQi, ShuJiu, Fu, Holiday, FotoFestival, TaoFestival, EightChar, Foto, Tao
import cal
import lun
import alm

OUTSIDE = "years not listed, for the texts of lunar dates"
ASSUMPTIONS = ["term instants and month tables come from the library's own series (native evaluation per concrete year)"]
YEARS = (1582, 2023, 2033)


def bounds(tier):
    return "civil texts and constructors: every second of years 1..9999; lunar texts: every day and double hour of the chosen concrete years; all nine stars, all terms, symbolic numbers in value objects"


def tasks(tier, info):
    out = [dict(name=n, fn="h_" + n, params=dict()) for n in ("star", "counts", "term", "holiday", "feasts")]
    for m in range(1, 13):
        out.append(dict(name="from date m=%d" % m, fn="h_from", params=dict(month=m)))
        for era in cal.ERAS:
            out.append(dict(name="civil m=%d %s" % (m, era), fn="h_civil", params=dict(month=m, era=era)))
    for y in lun.few(tier, info, YEARS, 1, 6) if tier == "quick" else lun.years(tier, info, 0, 60):
        for m in range(1, 13):
            out.append(dict(name="lunar %d-%d" % (y, m), fn="h_lunar", params=dict(year=y, month=m)))
    return out


def paren(xs):
    return "".join([" (" + x + ")" for x in xs])


def h_civil(ctx, month, era):
    y = cal.year7(ctx, era)
    y, m, d = cal.date(ctx, "", month=month, y=y)
    h, mi, s = lun.clock(ctx)
    a = Solar.fromYmdHms(y, m, d, h, mi, s)
    t = a.toFullString()
    leap = " 闰年" if a.isLeapYear() else ""
    ctx.check(t == a.toYmdHms() + leap + " 星期" + a.getWeekInChinese() + paren(a.getFestivals()) + paren(a.getOtherFestivals()) + " " + a.getXingZuo() + "座", "the full text of a civil moment")


class Stamp:
    """anything with the fields of a datetime"""

    def __init__(self, y, m, d, h, mi, s):
        self.year = y
        self.month = m
        self.day = d
        self.hour = h
        self.minute = mi
        self.second = s


def h_from(ctx, month):
    y, m, d = cal.date(ctx, "", month=month, y=cal.year(ctx))
    h, mi, s = lun.clock(ctx)
    t = Stamp(y, m, d, h, mi, s)
    a = Solar.fromDate(t)
    ctx.check_eq(cal.ymd(a) + cal.hms(a), (y, m, d, h, mi, s), "a civil moment made from a datetime has its fields")
    st = ctx.int("start", 0, 6)
    w = SolarWeek.fromDate(t, st)
    ctx.check_eq((w.getYear(), w.getMonth(), w.getDay(), w.getStart()), (y, m, d, st), "a week made from a datetime has its fields")
    for c in (SolarMonth, SolarSeason, SolarHalfYear):
        w = c.fromDate(t)
        ctx.check_eq((w.getYear(), w.getMonth()), (y, m), "a part of the year made from a datetime has its fields")
    ctx.check_eq(SolarYear.fromDate(t).getYear(), y, "a year made from a datetime")
    ctx.check_eq((SolarMonth.fromYm(y, m).toFullString(), SolarYear.fromYear(y).toFullString()), (str(y) + "年" + str(m) + "月", str(y) + "年"), "full texts of month and year")
    ctx.check_eq((SolarSeason.fromYm(y, m).toFullString(), SolarHalfYear.fromYm(y, m).toFullString()), (str(y) + "年" + str((month + 2) // 3) + "季度", str(y) + "年" + ("上" if month < 7 else "下") + "半年"), "full texts of quarter and half-year")


def h_lunar(ctx, year, month):
    y, m, d = lun.day(ctx, year, month)
    h = ctx.pick("h", (0, 9, 23))
    z = Stamp(y, m, d, h, 30, 15)
    l = Lunar.fromDate(z)
    a = l.getSolar()
    ctx.check_eq(cal.ymd(a) + cal.hms(a), (y, m, d, h, 30, 15), "a lunar date made from a datetime is that moment's")
    k = Lunar.fromSolar(a)
    ctx.check_eq(cal.ymd(k) + cal.hms(k), cal.ymd(l) + (h, 30, 15), "a lunar date made from a civil moment is that moment's")
    t = l.toFullString()
    j = l.getJieQi()
    w = l.toString() + " " + l.getYearInGanZhi() + "(" + l.getYearShengXiao() + ")年 " + l.getMonthInGanZhi() + "(" + l.getMonthShengXiao() + ")月 " + l.getDayInGanZhi() + "(" + l.getDayShengXiao() + ")日 "
    w = w + l.getTimeZhi() + "(" + l.getTimeShengXiao() + ")时 纳音[" + l.getYearNaYin() + " " + l.getMonthNaYin() + " " + l.getDayNaYin() + " " + l.getTimeNaYin() + "] 星期" + l.getWeekInChinese()
    w = w + paren(l.getFestivals()) + paren(l.getOtherFestivals())
    if j != "":
        w = w + " [" + j + "]"
    w = w + " " + l.getGong() + "方" + l.getShou() + " 星宿[" + l.getXiu() + l.getZheng() + l.getAnimal() + "](" + l.getXiuLuck() + ") 彭祖百忌[" + l.getPengZuGan() + " " + l.getPengZuZhi() + "]"
    for n, p, q in (("喜神", l.getDayPositionXi(), l.getDayPositionXiDesc()), ("阳贵神", l.getDayPositionYangGui(), l.getDayPositionYangGuiDesc()), ("阴贵神", l.getDayPositionYinGui(), l.getDayPositionYinGuiDesc()),
                    ("福神", l.getDayPositionFu(), l.getDayPositionFuDesc()), ("财神", l.getDayPositionCai(), l.getDayPositionCaiDesc())):
        w = w + " " + n + "方位[" + p + "](" + q + ")"
    ctx.check(t == w + " 冲[" + l.getDayChongDesc() + "] 煞[" + l.getDaySha() + "]", "the full text of a lunar date")
    e = l.getEightChar()
    ctx.check(e.toString() == e.getYear() + " " + e.getMonth() + " " + e.getDay() + " " + e.getTime(), "the text of the eight characters")
    g = EightChar.fromLunar(l)
    ctx.check_eq((g.toString(), g.getSect(), e.getSect()), (e.toString(), 2, 2), "eight characters made from the lunar date")
    g.setSect(1)
    ctx.check_eq((g.getSect(), g.toString()), (1, g.getYear() + " " + g.getMonth() + " " + g.getDay() + " " + g.getTime()), "the text follows the school")
    f = Foto.fromLunar(l)
    ctx.check_eq((f.toString(), f.toFullString()), (f.getYearInChinese() + "年" + f.getMonthInChinese() + "月" + f.getDayInChinese(), f.toString() + "".join([" (" + x.toString() + ")" for x in f.getFestivals()])), "texts of the Buddhist date")
    o = Tao.fromLunar(l)
    ctx.check(o.toFullString() == "道歷" + o.getYearInChinese() + "年，天运" + l.getYearInGanZhi() + "年，" + l.getMonthInGanZhi() + "月，" + l.getDayInGanZhi() + "日。" + o.getMonthInChinese() + "月" + o.getDayInChinese() + "日，" + l.getTimeZhi() + "時。", "full text of the Taoist date")
    c = l.getTime()
    ctx.check(c.toString() == l.getTimeInGanZhi(), "text of the double hour")


def h_star(ctx):
    i = ctx.int("i", 0, 8, True)
    s = NineStar.fromIndex(i)
    g = s.getBaMenInQiMen()
    ctx.check(s.toString() == s.getNumber() + s.getColor() + s.getWuXing() + s.getNameInBeiDou(), "text of a star")
    w = s.getNumber() + s.getColor() + s.getWuXing() + " " + s.getPosition() + "(" + s.getPositionDesc() + ") " + s.getNameInBeiDou() + " 玄空[" + s.getNameInXuanKong() + " " + s.getLuckInXuanKong() + "] 奇门[" + s.getNameInQiMen() + " " + s.getLuckInQiMen()
    ctx.check(s.toFullString() == w + (" " + g + "门" if g != "" else "") + " " + s.getYinYangInQiMen() + "] 太乙[" + s.getNameInTaiYi() + " " + s.getTypeInTaiYi() + "]", "full text of a star")


def h_counts(ctx):
    n = ctx.int("n", 1, 40)
    k = ctx.int("k", 1, 40)
    for c in (ShuJiu, Fu):
        x = c("甲", n)
        ctx.check_eq((x.getName(), x.getIndex(), x.toString(), x.toFullString()), ("甲", n, "甲", "甲第" + str(n) + "天"), "a count keeps its name and number")
        x.setIndex(k)
        ctx.check_eq((x.getName(), x.getIndex(), x.toFullString()), ("甲", k, "甲第" + str(k) + "天"), "a new number replaces the old one only")
        x.setName("乙")
        ctx.check_eq((x.getName(), x.getIndex(), x.toFullString()), ("乙", k, "乙第" + str(k) + "天"), "a new name replaces the old one only")


def h_term(ctx):
    i = ctx.int("i", 0, 23)
    k = ctx.int("k", 0, 23)
    s = Solar.fromYmd(2020, 1, 1)
    t = JieQi(lun.TERMS[i], s)
    ctx.check_eq((t.getName(), t.toString()), (lun.TERMS[i], lun.TERMS[i]), "a term keeps its name")
    ctx.check(t.getSolar() is s, "a term keeps its moment")
    ctx.check(ctx.And(t.isQi() == (i % 2 == 0), t.isJie() == (i % 2 == 1)), "a term is a 节 or a 气 by its name")
    t.setName(lun.TERMS[k])
    ctx.check(t.getName() == lun.TERMS[k], "a term takes its new name")
    ctx.check(ctx.And(t.isQi() == (k % 2 == 0), t.isJie() == (k % 2 == 1)), "a renamed term is a 节 or a 气 by its new name")
    p = Solar.fromYmd(2021, 1, 1)
    t.setSolar(p)
    ctx.check(t.getSolar() is p, "a term takes its new moment")


def h_holiday(ctx):
    y, m, d = ctx.int("y", 1000, 9999), ctx.int("m", 1, 12), ctx.int("d", 1, 31)
    z = ctx.int("z", 1000, 9999)
    w = ctx.int("w", 0, 1, True) == 1
    a = str(y) + "-" + "%02d" % m + "-" + "%02d" % d
    c = str(y) + "%02d" % m + "%02d" % d
    b = str(z) + "-" + "%02d" % m + "-" + "%02d" % d
    for x in (Holiday(a, "节", w, b), Holiday(c, "节", w, str(z) + "%02d" % m + "%02d" % d)):
        ctx.check_eq((x.getDay(), x.getName(), x.isWork(), x.getTarget()), (a, "节", w, b), "a holiday keeps its fields, in either date form")
        ctx.check(x.toString() == a + " 节" + ("调休" if w else "") + " " + b, "text of a holiday")
        x.setDay(b)
        ctx.check_eq((x.getDay(), x.getName(), x.isWork(), x.getTarget()), (b, "节", w, b), "a new day replaces the old one only")
        x.setTarget(c)
        ctx.check_eq((x.getDay(), x.getName(), x.isWork(), x.getTarget()), (b, "节", w, a), "a new target replaces the old one only")
        x.setWork(not w)
        x.setName("日")
        ctx.check_eq((x.getDay(), x.getName(), x.isWork(), x.getTarget()), (b, "日", not w, a), "a new name and kind replace the old ones only")


def h_feasts(ctx):
    r = ctx.pick("r", (None, "", "果"))
    k = ctx.pick("k", (None, "", "注"))
    e = ctx.int("e", 0, 1, True) == 1
    f = FotoFestival("名", r, e, k)
    ctx.check_eq((f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark(), f.toString()), ("名", r or "", e, k or "", "名"), "a Buddhist feast keeps its fields")
    ctx.check(f.toFullString() == "名" + (" " + r if r else "") + (" " + k if k else ""), "full text of a Buddhist feast")
    t = TaoFestival("名", k)
    ctx.check_eq((t.getName(), t.getRemark(), t.toString(), t.toFullString()), ("名", k or "", "名", "名" + ("[" + k + "]" if k else "")), "texts of a Taoist feast")
