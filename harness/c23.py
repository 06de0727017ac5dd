"""Zodiac signs and festivals of the civil calendar."""
from lunar_python import Solar
from lunar_python.util import SolarUtil
import cal

OUTSIDE = "which day a memorial day is listed under (the table of unofficial festivals is data); only that each is reported on its day"
ASSUMPTIONS = []

SIGNS = (("白羊", 321), ("金牛", 420), ("双子", 521), ("巨蟹", 622), ("狮子", 723), ("处女", 823), ("天秤", 923), ("天蝎", 1024), ("射手", 1123), ("摩羯", 1222), ("水瓶", 120), ("双鱼", 219))
FIXED = {(1, 1): "元旦节", (2, 14): "情人节", (3, 8): "妇女节", (3, 12): "植树节", (3, 15): "消费者权益日", (4, 1): "愚人节", (5, 1): "劳动节", (5, 4): "青年节", (6, 1): "儿童节",
         (7, 1): "建党节", (8, 1): "建军节", (9, 10): "教师节", (10, 1): "国庆节", (10, 31): "万圣节前夜", (11, 1): "万圣节", (12, 24): "平安夜", (12, 25): "圣诞节"}
# (month, which, weekday): the which-th of its weekday in the month, 0 the last one
FLOAT = {(3, 0, 1): "全国中小学生安全教育日", (5, 2, 0): "母亲节", (5, 3, 0): "全国助残日", (6, 3, 0): "父亲节", (9, 3, 6): "全民国防教育日", (10, 1, 1): "世界住房日", (11, 4, 4): "感恩节"}


def bounds(tier):
    return "every civil date of years 1..9999 (year and day symbolic, months split)"


def tasks(tier, info):
    out = []
    for m in range(1, 13):
        out.append(dict(name="sign m=%d" % m, fn="h_sign", params=dict(month=m)))
        out.append(dict(name="other m=%d" % m, fn="h_other", params=dict(month=m)))
        for era in cal.ERAS:
            out.append(dict(name="festivals m=%d %s" % (m, era), fn="h_festivals", params=dict(month=m, era=era)))
    return out


def h_sign(ctx, month):
    y, m, d = cal.date(ctx, "", month=month, y=cal.year(ctx))
    s = Solar.fromYmd(y, m, d)
    k = 9
    for i in range(12):
        lo = SIGNS[i][1]
        if month == lo // 100 and d >= lo % 100:
            k = i
        if month == lo // 100 % 12 + 1 and d < SIGNS[(i + 1) % 12][1] % 100:
            k = i
    ctx.check(s.getXingZuo() == SIGNS[k][0], "the sign that began last")


def h_festivals(ctx, month, era):
    y = cal.year7(ctx, era)
    y, m, d = cal.date(ctx, "", month=month, y=y)
    got = Solar.fromYmd(y, m, d).getFestivals()
    w = (cal.jdn(y, m, d) + 1) % 7
    want = []
    for k in sorted(FIXED):
        if k[0] == month and d == k[1]:
            want.append(FIXED[k])
    for k in sorted(FLOAT):
        if k[0] == month and w == k[2]:
            # counted over the days that exist
            if k[1] > 0 and d > 7 * (k[1] - 1) and d <= 7 * k[1]:
                want.append(FLOAT[k])
            if k[1] == 0 and d + 7 > cal.month_len(y, m):
                want.append(FLOAT[k])
    ctx.check_eq(sorted(got), sorted(want), "the festivals of the day")


def h_other(ctx, month):
    y, m, d = cal.date(ctx, "", month=month, y=cal.year(ctx))
    got = Solar.fromYmd(y, m, d).getOtherFestivals()
    want = []
    for k in SolarUtil.OTHER_FESTIVAL:
        a = k.split("-")
        if int(a[0]) == month and d == int(a[1]):
            want = SolarUtil.OTHER_FESTIVAL[k]
    ctx.check_eq(list(got), list(want), "the memorial days listed for the day")
