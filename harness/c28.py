"""Double hours: the same pillar and attributes from the moment, from its double hour and from the list of a day."""
from lunar_python import Solar, Lunar, LunarTime
from lunar_python.util import LunarUtil
import cal
import lun
import alm

OUTSIDE = "years not listed"
ASSUMPTIONS = ["month tables come from the library's own series (native evaluation per concrete year)"]
YEARS = (19, 1582, 1642, 1900, 1984, 2000, 2023, 2033)


def bounds(tier):
    return "every clock time (minute precision and second) for the text lookup; every double hour of every day of the chosen concrete years (double hour and month forked, day symbolic)"


def tasks(tier, info):
    out = [dict(name="clock", fn="h_clock", params=dict()), dict(name="texts", fn="h_text", params=dict())]
    ys = lun.few(tier, info, YEARS, 2, 10) if tier == "quick" else lun.years(tier, info, 0, 60)
    for y in ys:
        out.append(dict(name="day list %d" % y, fn="h_list", params=dict(year=y)))
        for q in (0, 1, 2, 3) if tier != "quick" or y not in (1642, 1900, 1984, 2000, 2033) else ():
            out.append(dict(name="attributes %d %d" % (y, q), fn="h_same", params=dict(year=y, part=q)))
    return out


def slot(h):
    return (h + 1) // 2 % 12


def h_clock(ctx):
    """the double hour of a moment, its bounds, and its place, for every second of a day"""
    h, mi, s = lun.clock(ctx)
    l = Solar.fromYmdHms(2023, 6, 15, h, mi, s).getLunar()
    t = l.getTime()
    ctx.check_eq((l.getTimeZhiIndex(), t.getZhiIndex(), t.getGanIndex()), (slot(h), slot(h), l.getTimeGanIndex()), "the branch follows the clock in double hours beginning at 23:00")
    a, b = t.getMinHm(), t.getMaxHm()
    lo, hi = int(a[0:2]) * 60 + int(a[3:5]), int(b[0:2]) * 60 + int(b[3:5])
    now = h * 60 + mi
    ctx.check(ctx.And(lo <= now, now <= hi), "the moment lies within the bounds of its double hour")
    ctx.check_eq((lo, hi), (ctx.ite(h == 0, 0, ctx.ite(h == 23, 1380, ((h + 1) // 2 * 2 - 1) * 60)), ctx.ite(h == 0, 59, ctx.ite(h == 23, 1439, (h + 1) // 2 * 120 + 59))), "a double hour has a hundred and twenty minutes, cut at midnight")


def h_text(ctx):
    """clock texts"""
    h, mi = ctx.int("h", 0, 23), ctx.int("mi", 0, 59)
    s = ctx.int("s", 0, 59)
    ctx.check(LunarUtil.getTimeZhiIndex("%02d:%02d" % (h, mi)) == slot(h), "branch of a text HH:MM")
    ctx.check(LunarUtil.getTimeZhiIndex("%02d:%02d:%02d" % (h, mi, s)) == slot(h), "branch of a text HH:MM:SS")
    ctx.check(LunarUtil.convertTime("%02d:%02d" % (h, mi)) == alm.ZHI[slot(h)], "branch name of a text HH:MM")


def h_list(ctx, year):
    """the double hours of a day: thirteen, in order, the last one being the late 子 with the stem of the next day"""
    y, m, d = lun.day(ctx, year)
    h = ctx.pick("h", (0, 9, 23))
    l = Solar.fromYmdHms(y, m, d, h, 30, 0).getLunar()
    n = cal.jdn(y, m, d)
    ts = l.getTimes()
    ctx.check_eq(len(ts), 13, "thirteen double hours")
    g = (n + 9) % 10
    for i in range(13):
        ctx.check_eq((ts[i].getZhiIndex(), ts[i].getGanIndex()), (i % 12, (g % 5 * 2 + i) % 10), "double hours of a day in order")
        ctx.check_eq(ts[i].getMinHm(), "00:00" if i == 0 else "%02d:00" % (2 * i - 1), "they follow each other without gaps")
        ctx.check_eq(ts[i].getMaxHm(), "23:59" if i == 12 else "%02d:59" % (2 * i), "they follow each other without gaps")


def h_same(ctx, year, part):
    y, m, d = lun.day(ctx, year)
    k = ctx.int("slot", 0, 12, True)
    h = 23 if k == 12 else (2 * k - ctx.int("half", 0, 1) if k > 0 else 0)
    l = Solar.fromYmdHms(y, m, d, h, 7, 0).getLunar()
    t = l.getTime()
    n = cal.jdn(y, m, d)
    z = k % 12
    # pillar of the day in force for the hour
    p = (n + 49 + (1 if k == 12 else 0)) % 60
    g = (p % 5 * 2 + z) % 10
    gz = alm.GAN[g] + alm.ZHI[z]
    if part == 0:
        ctx.check_eq((t.getGan(), t.getZhi(), t.getGanZhi(), t.toString()), (alm.GAN[g], alm.ZHI[z], gz, gz), "pillar of the double hour")
        ctx.check_eq((l.getTimeGan(), l.getTimeZhi(), l.getTimeInGanZhi()), (alm.GAN[g], alm.ZHI[z], gz), "pillar of the moment")
        ctx.check_eq((t.getShengXiao(), l.getTimeShengXiao()), (alm.ANIMALS[z], alm.ANIMALS[z]), "animal")
        q = (6 * g - 5 * z) % 60
        ctx.check_eq((t.getNaYin(), l.getTimeNaYin()), (alm.NAYIN[q // 2], alm.NAYIN[q // 2]), "sound")
        ctx.check_eq((t.getXun(), l.getTimeXun(), t.getXunKong(), l.getTimeXunKong()), (alm.XUN[q // 10], alm.XUN[q // 10], alm.KONG[q // 10], alm.KONG[q // 10]), "decade and void branches")
    elif part == 1:
        for o in (1, 2):
            if o == 1:
                a = (t.getPositionXi(), t.getPositionYangGui(), t.getPositionYinGui(), t.getPositionFu(1), t.getPositionFu(2), t.getPositionFu(), t.getPositionCai())
                b = (t.getPositionXiDesc(), t.getPositionYangGuiDesc(), t.getPositionYinGuiDesc(), t.getPositionFuDesc(1), t.getPositionFuDesc(2), t.getPositionFuDesc(), t.getPositionCaiDesc())
            else:
                a = (l.getTimePositionXi(), l.getTimePositionYangGui(), l.getTimePositionYinGui(), l.getTimePositionFu(1), l.getTimePositionFu(2), l.getTimePositionFu(), l.getTimePositionCai())
                b = (l.getTimePositionXiDesc(), l.getTimePositionYangGuiDesc(), l.getTimePositionYinGuiDesc(), l.getTimePositionFuDesc(1), l.getTimePositionFuDesc(2), l.getTimePositionFuDesc(), l.getTimePositionCaiDesc())
            w = tuple([x[g] for x in (alm.XI, alm.YANG, alm.YIN, alm.FU[1], alm.FU[2], alm.FU[2], alm.CAI)])
            ctx.check_eq(a, w, "positions follow the stem of the double hour")
            for i in range(7):
                ctx.check(b[i] == alm.DESC[w[i]], "position names")
    elif part == 2:
        c = (z + 6) % 12
        for x in ((t.getChong(), t.getChongGan(), t.getChongGanTie(), t.getChongShengXiao(), t.getChongDesc(), t.getSha()),
                  (l.getTimeChong(), l.getTimeChongGan(), l.getTimeChongGanTie(), l.getTimeChongShengXiao(), l.getTimeChongDesc(), l.getTimeSha())):
            ctx.check_eq(x, (alm.ZHI[c], alm.GAN[(g + 4) % 10], "己戊辛庚癸壬乙甲丁丙"[g], alm.ANIMALS[c], "(" + alm.GAN[(g + 4) % 10] + alm.ZHI[c] + ")" + alm.ANIMALS[c], alm.SHA[z]), "clashes of the double hour")
    else:
        i = (z - alm.DRAGON[p % 12]) % 12
        for x in ((t.getTianShen(), t.getTianShenType(), t.getTianShenLuck()), (l.getTimeTianShen(), l.getTimeTianShenType(), l.getTimeTianShenLuck())):
            ctx.check_eq(x, (alm.GODS[i], "黄道" if i in alm.YELLOW else "黑道", "吉" if i in alm.YELLOW else "凶"), "god of the double hour")
        if k in (0, 5, 12):
            ctx.check_eq((tuple(t.getYi()), tuple(t.getJi())), (tuple(l.getTimeYi()), tuple(l.getTimeJi())), "the same advice from the moment and from its double hour")
