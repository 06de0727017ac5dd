"""Advice of days and hours: the entry of exactly the month, day and hour asked for."""
from lunar_python import Solar, Lunar
from lunar_python.util import LunarUtil
import cal
import lun
import alm
import almdata

OUTSIDE = "texts that are no pillars"
ASSUMPTIONS = ["the advice itself is tradition: the expected entries are a transcription of the published almanac records"]
YEARS = (1582, 2023, 2033)


def bounds(tier):
    return "every pair of month pillar (sixty) and day pillar (sixty), every double hour of every day pillar, every lunar month (leap or not) with every day pillar; and every day of the years %s with the exact and the plain month pillar" % (YEARS,)


def tasks(tier, info):
    out = []
    for m in range(12):
        out.append(dict(name="day %d" % m, fn="h_day", params=dict(m=m)))
        out.append(dict(name="hour %d" % m, fn="h_hour", params=dict(z=m)))
        out.append(dict(name="spirits %d" % m, fn="h_spirit", params=dict(m=m)))
    ys = YEARS if tier == "quick" else lun.years(tier, info, 0, 20)
    for y in ys:
        for m in (1, 5, 9):
            out.append(dict(name="calendar %d-%d" % (y, m), fn="h_lunar", params=dict(year=y, month=m)))
    out.append(dict(name="pillars", fn="h_pillar", params=dict()))
    return out


def pillar(ctx, name):
    k = ctx.int(name, 0, 59)
    return k, alm.GZ[k]


def h_pillar(ctx):
    """index, decade and void branches of a pillar"""
    k, t = pillar(ctx, "k")
    ctx.check(LunarUtil.getJiaZiIndex(t) == k, "index of a pillar")
    ctx.check_eq((LunarUtil.getXunIndex(t), LunarUtil.getXun(t), LunarUtil.getXunKong(t), LunarUtil.NAYIN[t]), (k // 10, alm.XUN[k // 10], alm.KONG[k // 10], alm.NAYIN[k // 2]), "decade, void branches and sound of a pillar")


def h_day(ctx, m):
    k, t = pillar(ctx, "day")
    s = ctx.int("stems", 0, 4, True)
    month = alm.GZ[(m + 12 * s) % 60]
    yi, ji = LunarUtil.getDayYi(month, t), LunarUtil.getDayJi(month, t)
    k = ctx.split(k)
    w = almdata.DAY[k][m]
    ctx.check_eq(tuple(yi), w[0], "recommended on the day")
    ctx.check_eq(tuple(ji), w[1], "to be avoided on the day")
    ctx.check(len([x for x in yi if x in ji and x != "无"]) == 0, "nothing is both recommended and to be avoided")


def h_hour(ctx, z):
    k, t = pillar(ctx, "day")
    k = ctx.split(k)
    g = (k % 5 * 2 + z) % 10
    time = alm.GAN[g] + alm.ZHI[z]
    yi, ji = LunarUtil.getTimeYi(t, time), LunarUtil.getTimeJi(t, time)
    w = almdata.HOUR[k][z]
    ctx.check_eq((tuple(yi), tuple(ji)), w, "advice of the double hour")
    ctx.check(len([x for x in yi if x in ji and x != "无"]) == 0, "nothing is both recommended and to be avoided")


def h_spirit(ctx, m):
    k, t = pillar(ctx, "day")
    month = ctx.pick("leap", (1, -1)) * (m + 1)
    a, b = LunarUtil.getDayJiShen(month, t), LunarUtil.getDayXiongSha(month, t)
    k = ctx.split(k)
    ctx.check_eq((tuple(a), tuple(b)), almdata.SPIRIT[k][m], "spirits of the day")


def h_lunar(ctx, year, month):
    """the calendar asks for the pillars in force"""
    dm = ctx.int("dm", 0, 3, True)
    y, m, d = lun.day(ctx, year, month + dm)
    h = ctx.pick("h", (5, 14, 23))
    l = Solar.fromYmdHms(y, m, d, h, 30, 0).getLunar()
    n = cal.jdn(y, m, d)
    t = lun.moment(n, h * 3600 + 1800)
    a = -3
    b = -3
    for x in lun.terms(year)[::2]:
        a = a + ctx.ite(n >= x[1], 1, 0)
        b = b + ctx.ite(t >= lun.moment(x[1], x[2]), 1, 0)
    part = ctx.int("part", 0, 2, True)
    k = ctx.split((n + 49) % 60)
    if part == 0:
        a = ctx.split((a + 2) % 12)
        b = ctx.split((b + 2) % 12)
        ctx.check_eq((tuple(l.getDayYi()), tuple(l.getDayJi())), almdata.DAY[k][a], "advice by the month pillar of the day")
        ctx.check_eq((tuple(l.getDayYi(1)), tuple(l.getDayJi(1))), almdata.DAY[k][a], "advice by the month pillar of the day")
        ctx.check_eq((tuple(l.getDayYi(2)), tuple(l.getDayJi(2))), almdata.DAY[k][b], "advice by the exact month pillar")
    elif part == 1:
        e = (k + 1) % 60 if h == 23 else k
        ctx.check_eq((tuple(l.getTimeYi()), tuple(l.getTimeJi())), almdata.HOUR[e][(h + 1) // 2 % 12], "advice of the double hour, the late 子 hour belonging to the next day")
    else:
        lm = ctx.split(l.getMonth())
        ctx.check_eq((tuple(l.getDayJiShen()), tuple(l.getDayXiongSha())), almdata.SPIRIT[k][abs(lm) - 1], "spirits by the lunar month")
