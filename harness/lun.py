"""Helpers for the lunar part: which years are looked at, and moments inside a concrete year."""
import cal

# years where the lunar calendar, the civil calendar or the library's tables change their rule
SPECIAL = (1, 2, 3, 4, 8, 9, 10, 13, 14, 15, 16, 18, 19, 20, 21, 22, 23, 24, 25, 37, 75, 236, 237, 238, 239, 240, 265, 618, 619, 620, 664, 665, 689, 700, 761, 762,
           1279, 1280, 1281, 1581, 1582, 1583, 1599, 1600, 1601, 1642, 1644, 1645, 1646, 1699, 1700, 1750, 1899, 1900, 1901,
           1928, 1929, 1959, 1960, 1977, 1984, 1988, 1990, 2000, 2006, 2009, 2012, 2017, 2019, 2020, 2021, 2022, 2023, 2024, 2025, 2026, 2033, 2034, 2100, 2128, 2262, 2263,
           3358, 4000, 5000, 6000, 7013, 8000, 8888, 9000, 9996, 9997, 9998)

# years which, with the special ones, show every constellation of terms, months and pillars listed in tools/cover.py
COVER = (2075, 1992, 1767, 2243, 1735, 1447, 8208, 9804, 2078, 1294, 6031, 7487, 2085, 1249, 667, 6339, 9573, 9846, 2031, 2152, 1606, 5471, 6857, 9650,
         2007, 2010, 1976, 1965, 1863, 2151, 1507, 1153, 4253, 7354, 9482, 1955, 2045, 1953, 2060, 2066, 1932, 2076, 1894, 1887, 2148, 2219, 1660, 1531)


# integers the library's source is known to contain; a literal outside this list is a boundary worth looking at
LITERALS = (13, 14, 15, 16, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 34, 40, 48, 53, 57, 59, 60, 62, 81, 100, 119, 160,
            179, 180, 183, 218, 293, 321, 355, 360, 365, 366, 372, 400, 419, 420, 520, 521, 543, 621, 622, 722, 723, 822, 823, 834,
            914, 922, 923, 994, 1023, 1024, 1122, 1123, 1200, 1221, 1222, 1440, 1524, 1582, 1600, 1800, 1820, 1900, 2000, 2061, 2696,
            2697, 3489, 4320, 4715, 4716)


def years(tier, info, quick=24, thorough=2400, lo=1, hi=9998):
    """concrete years to decide completely: rule changes, new literals of the source, rare constellations and an even spread"""
    ys = set(SPECIAL)
    if quick >= 24:
        ys.update(COVER)
    for y in info.source_years:
        if y <= hi and y not in LITERALS:
            ys.update((y - 1, y, y + 1))
    n = quick if tier == "quick" else thorough
    for i in range(n):
        ys.add(1 + (i * 9973 + 1987) % 9997)
    return sorted(y for y in ys if lo <= y <= hi)


def few(tier, info, fixed, n, most=16):
    """a short list of concrete years: the given ones, n others, and those near new literals of the source"""
    ys = list(fixed)
    for y in years("quick", info, n):
        if y not in SPECIAL and y not in ys and len(ys) < most:
            ys.append(y)
    return sorted(ys)


def chunks(xs, n):
    xs = list(xs)
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def describe(ys):
    return "%d concrete years of %d..%d (%s ...)" % (len(ys), ys[0], ys[-1], ", ".join(str(y) for y in ys[:12]))


def day(ctx, year, month=None):
    """an arbitrary existing civil day of a concrete year; the month is forked over"""
    return cal.date(ctx, "", month=month, y=year)


def clock(ctx, p=""):
    return ctx.int(p + "h", 0, 23), ctx.int(p + "mi", 0, 59), ctx.int(p + "s", 0, 59)


def floor_sec(jd):
    """the second (rounded) of a Julian day number: (civil day number, second of the day)"""
    t = jd + 0.5
    n = int(t // 1)
    s = int(round((t - n) * 86400))
    if s >= 86400:
        n = n + 1
        s = s - 86400
    return n, s


TERMS = ("冬至", "小寒", "大寒", "立春", "雨水", "惊蛰", "春分", "清明", "谷雨", "立夏", "小满", "芒种", "夏至", "小暑", "大暑", "立秋", "处暑", "白露", "秋分", "寒露", "霜降", "立冬", "小雪", "大雪")
GAN = "甲乙丙丁戊己庚辛壬癸"
ZHI = "子丑寅卯辰巳午未申酉戌亥"
GZ = tuple(GAN[i % 10] + ZHI[i % 12] for i in range(60))


def terms(year):
    """the 31 solar terms the library computes for a concrete civil year, from 大雪 of the year before to 惊蛰 of
    the year after: (name, civil day number, second of the day)"""
    from lunar_python import LunarYear, Solar
    out = []
    i = 0
    for jd in LunarYear.fromYear(year).getJieQiJulianDays():
        t = Solar.fromJulianDay(jd)
        n = cal.jdn(t.getYear(), t.getMonth(), t.getDay())
        out.append((TERMS[(i - 1) % 24], n, t.getHour() * 3600 + t.getMinute() * 60 + t.getSecond()))
        i = i + 1
    return out


def moment(n, sec):
    return n * 86400 + sec
