"""Queries leave no traces: asking other things, or changing a list handed out, does not change later answers."""
from lunar_python import EightChar, Solar, Lunar, LunarYear
import cal
import lun

OUTSIDE = "days outside the chosen months; lists documented as the object's own tables (terms, months, hidden stems)"
ASSUMPTIONS = ["term instants and month tables come from the library's own series (native evaluation per concrete year)"]
MONTHS = ((2023, 2), (2033, 12), (1582, 10), (2020, 5))

SOLAR = "getFestivals getOtherFestivals getXingZuo getWeek getWeekInChinese isLeapYear toYmdHms toFullString".split()
DAY = """getFestivals getOtherFestivals getDayYi getDayJi getDayJiShen getDayXiongSha getJieQi getJie getQi getZhiXing getDayTianShen getXiu getDayPositionTaiSui
getYueXiang getLiuYao getWuHou getHou getDayLu getDayPositionTai getDayChongDesc toString""".split()
PILLARS = "getBaZi getBaZiWuXing getBaZiNaYin getBaZiShiShenGan getBaZiShiShenZhi getBaZiShiShenYearZhi getBaZiShiShenMonthZhi getBaZiShiShenDayZhi getBaZiShiShenTimeZhi".split()
HOUR = "getTimeYi getTimeJi getTimeInGanZhi getTimeTianShen getYearInGanZhi getMonthInGanZhi getDayInGanZhi getYearInGanZhiExact getMonthInGanZhiExact getDayInGanZhiExact getDayInGanZhiExact2".split()
OTHER = "getFestivals getYear toString".split()


def bounds(tier):
    return "every day of the months %s (day symbolic, hour one of three), every listed accessor asked before and after all the others" % (MONTHS,)


def tasks(tier, info):
    ms = MONTHS if tier == "quick" else MONTHS + tuple((y, m) for y in (1900, 2024) for m in range(1, 13))
    return [dict(name="%d-%d %s" % (y, m, g), fn="h_again", params=dict(year=y, month=m, group=g)) for y, m in ms for g in ("solar", "day", "pillars", "hour", "foto", "tao", "year", "school")]


def freeze(v):
    if isinstance(v, (list, tuple)):
        return tuple([freeze(x) for x in v])
    if v is None or isinstance(v, (int, str, float)):
        return v
    return v.toString()


def again(ctx, o, names):
    first = []
    for n in names:
        v = getattr(o, n)()
        first.append(freeze(v))
        if isinstance(v, list):
            v.append("?")
            if len(v) > 1:
                v[0] = "!"
    for i in range(len(names) - 1, -1, -1):
        ctx.check_eq(freeze(getattr(o, names[i])()), first[i], "asking again gives the same answer")
    return first


def h_again(ctx, year, month, group):
    y, m, d = lun.day(ctx, year, month)
    h = ctx.pick("h", (0, 13, 23))
    s = Solar.fromYmdHms(y, m, d, h, 30, 15)
    l = s.getLunar()
    if group == "solar":
        again(ctx, s, SOLAR)
    elif group == "day":
        again(ctx, l, DAY)
    elif group == "pillars":
        again(ctx, l, PILLARS)
    elif group == "hour":
        again(ctx, l, HOUR)
    elif group == "foto":
        again(ctx, l.getFoto(), OTHER + ["getOtherFestivals", "isDayZhaiSix", "getXiu"])
    elif group == "tao":
        again(ctx, l.getTao(), OTHER + ["isDayWu", "isDayTianShe"])
    elif group == "year":
        # dates far away in time do not disturb a date already made, nor the other way round
        a = freeze(l.getJieQiList()), l.getPrevJieQi().getName(), l.getYearInGanZhi(), l.getMonth(), l.getDay()
        for z in (1, 1900, year + 1, 9990):
            Solar.fromYmd(z, 2, 3).getLunar().getFestivals()
        b = freeze(l.getJieQiList()), l.getPrevJieQi().getName(), l.getYearInGanZhi(), l.getMonth(), l.getDay()
        ctx.check_eq(a, b, "dates asked for in between do not disturb a date")
        k = Solar.fromYmdHms(y, m, d, h, 30, 15).getLunar()
        ctx.check_eq((k.getYear(), k.getMonth(), k.getDay(), k.getPrevJieQi().getName()), (l.getYear(), l.getMonth(), l.getDay(), a[1]), "the same date made again is the same")
    else:
        # the school of the late 子 hour belongs to one chart object
        e = l.getEightChar()
        two = e.getDay()
        e.setSect(1)
        one = e.getDay()
        f = Solar.fromYmdHms(y, m, d, h, 30, 15).getLunar().getEightChar()
        ctx.check(f.getDay() == two, "choosing a school for one chart does not change another")
        g = EightChar.fromLunar(l)
        ctx.check(g.getDay() == two and g.getSect() == 2, "a new chart of the same moment starts with the usual school")
        e.setSect(2)
        ctx.check(e.getDay() == two, "choosing a school can be undone")
        g.setSect(1)
        ctx.check(g.getDay() == one and e.getDay() == two and EightChar.fromLunar(l).getDay() == two, "choosing a school for one chart does not change another of the same moment")
        ctx.check((one == two) == (h != 23), "the schools differ in the late 子 hour only")
    ctx.check_eq((s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()), (y, m, d, h, 30, 15), "the date itself is unchanged")
    ctx.check_eq((l.getHour(), l.getMinute(), l.getSecond()), (h, 30, 15), "the time itself is unchanged")
