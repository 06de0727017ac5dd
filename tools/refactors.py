"""Rewrites of the library that keep its behaviour, to see that the checks stay quiet (not part of any check).

python3 tools/refactors.py DIR      writes DIR/<group>/ (a copy of /repo with the group's functions rewritten) and runs the stable tests on it
python3 tools/refactors.py DIR run  runs every check on every group and prints those that are not quiet
"""
import ast
import json
import os
import shutil
import subprocess
import sys
import textwrap

G = {}


def ref(group, file, cls, code, imports=""):
    G.setdefault(group, []).append((file, cls, textwrap.dedent(code).strip("\n"), imports))


# --- civil dates
ref("solar", "Solar.py", "Solar", '''
    def getWeek(self):
        n = int(floor(self.getJulianDay() + 0.5))
        return (n + 1) % 7

    def toYmd(self):
        return f"{self.__year:04d}-{self.__month:02d}-{self.__day:02d}"

    def toYmdHms(self):
        return "{} {:02d}:{:02d}:{:02d}".format(self.toYmd(), self.__hour, self.__minute, self.__second)

    def __key(self):
        return self.__year, self.__month, self.__day, self.__hour, self.__minute, self.__second

    def isAfter(self, solar):
        return self.__key() > (solar.getYear(), solar.getMonth(), solar.getDay(), solar.getHour(), solar.getMinute(), solar.getSecond())

    def isBefore(self, solar):
        mine = self.__key()
        other = solar.__key()
        for a, b in zip(mine, other):
            if a != b:
                return a < b
        return False

    def subtractMinute(self, solar):
        return self.subtract(solar) * 1440 + (self.__hour - solar.getHour()) * 60 + self.__minute - solar.getMinute()

    def nextHour(self, hours):
        days, hour = divmod(self.__hour + hours, 24)
        solar = self.next(days)
        return Solar.fromYmdHms(solar.getYear(), solar.getMonth(), solar.getDay(), hour, solar.getMinute(), solar.getSecond())

    def getFestivals(self):
        week = self.getWeek()
        nth = (self.__day + 6) // 7
        keys = ["%d-%d-%d" % (self.__month, nth, week)]
        if self.__day > SolarUtil.getDaysOfMonth(self.__year, self.__month) - 7:
            keys.append("%d-0-%d" % (self.__month, week))
        fixed = SolarUtil.FESTIVAL.get("%d-%d" % (self.__month, self.__day))
        found = [SolarUtil.WEEK_FESTIVAL.get(k) for k in keys]
        return [f for f in [fixed] + found if f is not None]

    def getOtherFestivals(self):
        return list(SolarUtil.OTHER_FESTIVAL.get(str(self.__month) + "-" + str(self.__day), ()))

    def getXingZuo(self):
        md = self.__month * 100 + self.__day
        starts = ((1222, 9), (1123, 8), (1024, 7), (923, 6), (823, 5), (723, 4), (622, 3), (521, 2), (420, 1), (321, 0), (219, 11), (120, 10))
        return SolarUtil.XING_ZUO[next((index for start, index in starts if md >= start), 9)]

    def nextDay(self, days):
        y, m, d = self.__year, self.__month, Solar.__ordinal(self.__year, self.__month, self.__day) + days
        while d < 1:
            y, m = (y - 1, 12) if m == 1 else (y, m - 1)
            d += SolarUtil.getDaysOfMonth(y, m)
        while d > SolarUtil.getDaysOfMonth(y, m):
            d -= SolarUtil.getDaysOfMonth(y, m)
            y, m = (y + 1, 1) if m == 12 else (y, m + 1)
        if (y, m) == (1582, 10) and d > 4:
            d += 10
        return Solar.fromYmdHms(y, m, d, self.__hour, self.__minute, self.__second)

    @staticmethod
    def __ordinal(y, m, d):
        return d - 10 if y == 1582 and m == 10 and d > 4 else d

    def next(self, days, only_work_day=False):
        if not only_work_day:
            return self.nextDay(days)
        solar = self.nextDay(0)
        step = 1 if days > 0 else -1
        for _ in range(abs(days)):
            solar = solar.next(step)
            while not Solar.__isWork(solar):
                solar = solar.next(step)
        return solar

    @staticmethod
    def __isWork(solar):
        holiday = HolidayUtil.getHoliday(solar.getYear(), solar.getMonth(), solar.getDay())
        return solar.getWeek() not in (0, 6) if holiday is None else holiday.isWork()

    def nextYear(self, years):
        y, m, d = self.__year + years, self.__month, self.__day
        if m == 2 and d == 29 and not SolarUtil.isLeapYear(y):
            d -= 1
        if (y, m) == (1582, 10) and d in range(5, 15):
            d += 10
        return Solar.fromYmdHms(y, m, d, self.__hour, self.__minute, self.__second)

    def nextMonth(self, months):
        total = self.__year * 12 + self.__month - 1 + months
        y, m = total // 12, total % 12 + 1
        d = self.__day
        if 1582 == y and 10 == m:
            if 5 <= d <= 14:
                d += 10
        else:
            d = min(d, SolarUtil.getDaysOfMonth(y, m))
        return Solar.fromYmdHms(y, m, d, self.__hour, self.__minute, self.__second)
''', "from math import floor")
ref("solar", "util/SolarUtil.py", "SolarUtil", '''
    @staticmethod
    def isLeapYear(year):
        if year % 4:
            return False
        return year < 1600 or year % 100 != 0 or year % 400 == 0

    @staticmethod
    def getDaysOfYear(year):
        return 355 if year == 1582 else 366 if SolarUtil.isLeapYear(year) else 365

    @staticmethod
    def getDaysOfMonth(year, month):
        if (year, month) == (1582, 10):
            return 21
        return SolarUtil.DAYS_OF_MONTH[month - 1] + (1 if month == 2 and SolarUtil.isLeapYear(year) else 0)

    @staticmethod
    def getDaysInYear(year, month, day):
        if 1582 == year and 10 == month and 4 < day:
            if day < 15:
                raise Exception("wrong solar year %d  month %d day %d" % (year, month, day))
            day -= 10
        return day + sum(SolarUtil.getDaysOfMonth(year, i) for i in range(1, month))

    @staticmethod
    def getWeeksOfMonth(year, month, start):
        from .. import Solar
        offset = (Solar.fromYmd(year, month, 1).getWeek() - start) % 7
        return -(-(SolarUtil.getDaysOfMonth(year, month) + offset) // 7)

    @staticmethod
    def getDaysBetween(ay, am, ad, by, bm, bd):
        if ay > by:
            return -SolarUtil.getDaysBetween(by, bm, bd, ay, am, ad)
        n = SolarUtil.getDaysInYear(by, bm, bd) - SolarUtil.getDaysInYear(ay, am, ad)
        y = ay
        while y < by:
            n += SolarUtil.getDaysOfYear(y)
            y += 1
        return n
''')
ref("solar", "SolarWeek.py", "SolarWeek", '''
    def __offset(self, month):
        return (Solar.fromYmd(self.__year, month, 1).getWeek() - self.__start) % 7

    def getIndex(self):
        n = SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) - SolarUtil.getDaysInYear(self.__year, self.__month, 1)
        return (n + self.__offset(self.__month)) // 7 + 1

    def getIndexInYear(self):
        return (SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) - 1 + self.__offset(1)) // 7 + 1

    def getFirstDay(self):
        solar = Solar.fromYmd(self.__year, self.__month, self.__day)
        return solar.next(-((solar.getWeek() - self.__start) % 7))

    def getDays(self):
        first = self.getFirstDay()
        return [first.next(i) for i in range(7)]

    def getDaysInMonth(self):
        return [d for d in self.getDays() if d.getMonth() == self.__month]

    def getFirstDayInMonth(self):
        return next(iter(self.getDaysInMonth()), None)
''')
ref("holiday", "util/HolidayUtil.py", "HolidayUtil", '''
    @staticmethod
    def __records():
        data = HolidayUtil.__DATA_IN_USE
        return [data[i:i + HolidayUtil.__SIZE] for i in range(0, len(data), HolidayUtil.__SIZE)]

    @staticmethod
    def __findHolidaysForward(key):
        return [HolidayUtil.__buildHolidayForward(s) for s in HolidayUtil.__records() if s.startswith(key)]

    @staticmethod
    def __findHolidaysBackward(key):
        return [HolidayUtil.__buildHolidayForward(s) for s in HolidayUtil.__records() if s.endswith(key)]
''')
# --- the lunar date
ref("lunar", "Lunar.py", "Lunar", '''
    def __computeYear(self):
        offset = self.__year - 4
        self.__yearGanIndex = offset % 10
        self.__yearZhiIndex = offset % 12
        year = self.__solar.getYear()
        start = self.__jieQi["立春"]
        if start.getYear() != year:
            start = self.__jieQi["LI_CHUN"]
        by_day = Lunar.__shift(self.__year, year, self.__solar.toYmd() >= start.toYmd())
        exact = Lunar.__shift(self.__year, year, not self.__solar.isBefore(start))
        self.__yearGanIndexByLiChun = (offset + by_day) % 10
        self.__yearZhiIndexByLiChun = (offset + by_day) % 12
        self.__yearGanIndexExact = (offset + exact) % 10
        self.__yearZhiIndexExact = (offset + exact) % 12

    @staticmethod
    def __shift(lunar_year, solar_year, reached):
        if lunar_year == solar_year:
            return 0 if reached else -1
        if lunar_year < solar_year:
            return 1 if reached else 0
        return -1

    def __monthIndex(self, f):
        now = f(self.__solar)
        passed = [k for k in Lunar.JIE_QI_IN_USE[::2] if f(self.__jieQi[k]) <= now]
        return len(passed) - 3

    def __computeMonth(self):
        index = self.__monthIndex(lambda s: s.toYmd())
        g_offset = (((self.__yearGanIndexByLiChun + (1 if index < 0 else 0)) % 5 + 1) * 2) % 10
        self.__monthGanIndex = (index + g_offset) % 10
        self.__monthZhiIndex = (index + LunarUtil.BASE_MONTH_ZHI_INDEX) % 12
        index = self.__monthIndex(lambda s: s.toYmdHms())
        g_offset = (((self.__yearGanIndexExact + (1 if index < 0 else 0)) % 5 + 1) * 2) % 10
        self.__monthGanIndexExact = (index + g_offset) % 10
        self.__monthZhiIndexExact = (index + LunarUtil.BASE_MONTH_ZHI_INDEX) % 12

    def __computeDay(self):
        noon = Solar.fromYmdHms(self.__solar.getYear(), self.__solar.getMonth(), self.__solar.getDay(), 12, 0, 0)
        offset = int(noon.getJulianDay()) - 11
        late = 1 if self.__hour == 23 else 0
        self.__dayGanIndex = self.__dayGanIndexExact2 = offset % 10
        self.__dayZhiIndex = self.__dayZhiIndexExact2 = offset % 12
        self.__dayGanIndexExact, self.__dayZhiIndexExact = (offset + late) % 10, (offset + late) % 12

    def __computeTime(self):
        self.__timeZhiIndex = (self.__hour + 1) // 2 % 12
        self.__timeGanIndex = (self.__dayGanIndexExact % 5 * 2 + self.__timeZhiIndex) % 10

    @staticmethod
    def fromSolar(solar):
        from . import LunarYear
        for m in LunarYear.fromYear(solar.getYear()).getMonths():
            days = solar.subtract(Solar.fromJulianDay(m.getFirstJulianDay()))
            if days < m.getDayCount():
                return Lunar(m.getYear(), m.getMonth(), days + 1, solar.getHour(), solar.getMinute(), solar.getSecond())
        return Lunar(0, 0, 0, solar.getHour(), solar.getMinute(), solar.getSecond())

    def __near(self, forward, names, whole_day):
        text = (lambda s: s.toYmd()) if whole_day else (lambda s: s.toYmdHms())
        today = text(self.__solar)
        best = None
        for key in Lunar.JIE_QI_IN_USE:
            name = self.__convertJieQi(key)
            at = text(self.__jieQi[key])
            if (names and name not in names) or (at > today) != forward:
                continue
            if best is None or (at < best[0] if forward else at > best[0]):
                best = (at, name, self.__jieQi[key])
        return None if best is None else JieQi(best[1], best[2])

    def __getNearJieQi(self, forward, conditions, whole_day):
        return self.__near(forward, set(conditions or ()), whole_day)

    def getNextJie(self, whole_day=False):
        return self.__near(True, Lunar.JIE_QI_IN_USE[::2][:15], whole_day) if False else self.__getNearJieQi(True, list(Lunar.JIE_QI_IN_USE[0:30:2]), whole_day)

    def __isToday(self, d):
        return d.toYmd() == self.__solar.toYmd()

    def getJieQi(self):
        return next((self.__convertJieQi(k) for k, d in self.__jieQi.items() if self.__isToday(d)), "")

    def getCurrentJie(self):
        for key in Lunar.JIE_QI_IN_USE[::2]:
            if self.__isToday(self.__jieQi[key]):
                return JieQi(self.__convertJieQi(key), self.__jieQi[key])
        return None

    def getFestivals(self):
        fs = []
        name = LunarUtil.FESTIVAL.get(str(self.__month) + "-" + str(self.__day))
        if name is not None:
            fs.append(name)
        if abs(self.__month) == 12 and self.__day > 28:
            tomorrow = self.next(1)
            if tomorrow.getYear() != self.__year:
                fs.append("除夕")
        return fs

    def getOtherFestivals(self):
        arr = list(LunarUtil.OTHER_FESTIVAL.get("{}-{}".format(self.__month, self.__day), []))
        today = self.__solar.toYmd()
        if today == self.__jieQi["清明"].next(-1).toYmd():
            arr.append("寒食节")
        for term, name in (("立春", "春社"), ("立秋", "秋社")):
            jq = self.__jieQi[term]
            offset = (4 - jq.getLunar().getDayGanIndex()) % 10
            if jq.next(offset + 40).toYmd() == today:
                arr.append(name)
        return arr

    def __day0(self, s):
        return Solar.fromYmd(s.getYear(), s.getMonth(), s.getDay())

    def getShuJiu(self):
        current = self.__day0(self.__solar)
        for key in ("DONG_ZHI", "冬至"):
            days = current.subtract(self.__day0(self.__jieQi[key]))
            if 0 <= days < 81:
                nine, rest = divmod(days, 9)
                return ShuJiu(LunarUtil.NUMBER[nine + 1] + "九", rest + 1)
        return None

    def getFu(self):
        xia_zhi = self.__jieQi["夏至"]
        first = self.__day0(xia_zhi).next((6 - xia_zhi.getLunar().getDayGanIndex()) % 10 + 20)
        autumn = self.__day0(self.__jieQi["立秋"])
        days = self.__day0(self.__solar).subtract(first)
        if days < 0:
            return None
        long = autumn.isAfter(first.next(20))
        if days < 10:
            return Fu("初伏", days + 1)
        middle = 20 if long else 10
        if days < 10 + middle:
            return Fu("中伏", days - 9)
        if days < 20 + middle:
            return Fu("末伏", days - 9 - middle)
        return None

    def getWuHou(self):
        jie_qi = self.getPrevJieQi(True)
        offset = Lunar.JIE_QI.index(jie_qi.getName())
        index = min(self.__solar.subtract(jie_qi.getSolar()) // 5, 2)
        return LunarUtil.WU_HOU[(offset * 3 + index) % len(LunarUtil.WU_HOU)]

    @staticmethod
    def __aligned(solar):
        index = LunarUtil.getJiaZiIndex(solar.getLunar().getDayInGanZhi())
        return solar.next(60 - index if index > 29 else -index)

    def getDayNineStar(self):
        today = self.__solar.toYmd()
        a = Lunar.__aligned(self.__jieQi["冬至"])
        b = Lunar.__aligned(self.__jieQi["夏至"])
        c = Lunar.__aligned(self.__jieQi["DONG_ZHI"])
        if today >= c.toYmd():
            offset = self.__solar.subtract(c) % 9
        elif today >= b.toYmd():
            offset = 8 - self.__solar.subtract(b) % 9
        elif today >= a.toYmd():
            offset = self.__solar.subtract(a) % 9
        else:
            from . import LunarYear
            days = LunarYear.fromYear(self.__solar.getYear() - 1).getJieQiJulianDays()
            b = Lunar.__aligned(Solar.fromJulianDay(days[Lunar.JIE_QI_IN_USE.index("夏至")]))
            offset = 8 - self.__solar.subtract(b) % 9
        return NineStar.fromIndex(offset)

    def getTimes(self):
        hours = [0] + list(range(1, 24, 2))
        return [LunarTime.fromYmdHms(self.__year, self.__month, self.__day, h, 0, 0) for h in hours]

    def getYearInChinese(self):
        return "".join(LunarUtil.NUMBER[int(c)] for c in str(self.__year))

    def getDayChongShengXiao(self):
        chong = self.getDayChong()
        return next((LunarUtil.SHENGXIAO[i] for i, z in enumerate(LunarUtil.ZHI) if z == chong), "")

    def toString(self):
        return f"{self.getYearInChinese()}年{self.getMonthInChinese()}月{self.getDayInChinese()}"
''')
# --- tables
ref("tables", "util/LunarUtil.py", "LunarUtil", '''
    @staticmethod
    def getTimeZhiIndex(hm):
        if hm is None:
            return 0
        hm = hm[:5]
        for i in range(11):
            if "%02d:00" % (2 * i + 1) <= hm <= "%02d:59" % (2 * i + 2):
                return i + 1
        return 0

    @staticmethod
    def __hex(n):
        return "%02X" % n

    @staticmethod
    def getJiaZiIndex(gan_zhi):
        try:
            return LunarUtil.JIA_ZI.index(gan_zhi)
        except ValueError:
            return -1

    @staticmethod
    def find(name, names, offset):
        for i, v in enumerate(names):
            if v == name:
                return i + offset
        return -1

    @staticmethod
    def getXunIndex(gan_zhi):
        gan = LunarUtil.GAN.index(gan_zhi[0]) if gan_zhi[:1] in LunarUtil.GAN and gan_zhi else 0
        zhi = LunarUtil.ZHI.index(gan_zhi[1:]) if gan_zhi[1:] in LunarUtil.ZHI else 0
        return (gan - zhi) % 12 // 2

    @staticmethod
    def __codes(s, names):
        return [names[int(s[i:i + 2], 16)] for i in range(0, len(s), 2)] or ["无"]

    @staticmethod
    def __dayYiJi(month_gan_zhi, day_gan_zhi):
        day = LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi))
        month = LunarUtil.__hex(LunarUtil.getJiaZiIndex(month_gan_zhi))
        right = LunarUtil.__DAY_YI_JI
        index = right.find(day + "=")
        while index >= 0:
            right = right[index + 3:]
            end = right.find("=")
            left = right if end < 0 else right[:end - 2]
            months, _, rest = left.partition(":")
            if month in [months[i:i + 2] for i in range(0, len(months), 2)]:
                return rest.split(",")
            index = right.find(day + "=")
        return "", ""

    @staticmethod
    def getDayYi(month_gan_zhi, day_gan_zhi):
        return LunarUtil.__codes(LunarUtil.__dayYiJi(month_gan_zhi, day_gan_zhi)[0], LunarUtil.__YI_JI)

    @staticmethod
    def getDayJi(month_gan_zhi, day_gan_zhi):
        return LunarUtil.__codes(LunarUtil.__dayYiJi(month_gan_zhi, day_gan_zhi)[1], LunarUtil.__YI_JI)

    @staticmethod
    def __shenSha(lunar_month, day_gan_zhi):
        data = LunarUtil.__DAY_SHEN_SHA
        key = "%X" % abs(lunar_month) + LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi)) + "="
        index = data.find(key)
        if index < 0:
            return "", ""
        left = data[index + 4:]
        if "=" in left:
            left = left[:left.index("=") - 3]
        return left.split(",")

    @staticmethod
    def getDayJiShen(lunar_month, day_gan_zhi):
        return LunarUtil.__codes(LunarUtil.__shenSha(lunar_month, day_gan_zhi)[0], LunarUtil.__SHEN_SHA)

    @staticmethod
    def getDayXiongSha(lunar_month, day_gan_zhi):
        return LunarUtil.__codes(LunarUtil.__shenSha(lunar_month, day_gan_zhi)[1], LunarUtil.__SHEN_SHA)
''')
ref("tables", "LunarYear.py", "LunarYear", '''
    def getDayCount(self):
        return sum(m.getDayCount() for m in self.getMonthsInYear())

    def getMonthsInYear(self):
        return [m for m in self.__months if m.getYear() == self.__year]

    def getLeapMonth(self):
        return next((-m.getMonth() for m in self.getMonthsInYear() if m.isLeap()), 0)

    def getMonth(self, lunar_month):
        found = [m for m in self.getMonthsInYear() if m.getMonth() == lunar_month]
        return found[0] if found else None

    def __getZaoByGan(self, index, name):
        first = Solar.fromJulianDay(self.getMonth(1).getFirstJulianDay()).getLunar()
        return name.replace("几", LunarUtil.NUMBER[(index - first.getDayGanIndex()) % 10 + 1], 1)

    def getNineStar(self):
        index = LunarUtil.getJiaZiIndex(self.getGanZhi()) + 1
        yuan = (self.__year + 2696) // 60 % 3
        return NineStar.fromIndex((61 + yuan * 3 - index) % 9)
''')
ref("tables", "LunarMonth.py", "LunarMonth", '''
    def __place(self, months, first):
        for i, m in enumerate(months):
            if m.getFirstJulianDay() == first:
                return i
        return 0

    def next(self, n):
        year, first, rest = self.__year, self.__firstJulianDay, n
        months = LunarYear.fromYear(year).getMonths()
        index = self.__place(months, first)
        while n != 0:
            if n > 0 and rest >= len(months) - index - 1:
                rest -= len(months) - index - 1
                first = months[-1].getFirstJulianDay()
                year += 1
            elif n < 0 and -rest > index:
                rest += index
                first = months[0].getFirstJulianDay()
                year -= 1
            else:
                break
            months = LunarYear.fromYear(year).getMonths()
            index = self.__place(months, first)
        if n == 0:
            return LunarMonth.fromYm(self.__year, self.__month)
        m = months[index + rest]
        return LunarMonth.fromYm(m.getYear(), m.getMonth())

    def getNineStar(self):
        index = LunarYear.fromYear(self.__year).getZhiIndex() % 3
        z = (1 + abs(self.__month)) % 12
        return NineStar.fromIndex((27 - index * 3 - (3 if z < 2 else 0) - z) % 9)
''')
ref("charts", "eightchar/Yun.py", "Yun", '''
    @staticmethod
    def __branch(solar):
        h = solar.getHour()
        return 11 if h == 23 else (h + 1) // 2

    def __compute_start(self, sect):
        current = self.__lunar.getSolar()
        if self.__forward:
            start, end = current, self.__lunar.getNextJie().getSolar()
        else:
            start, end = self.__lunar.getPrevJie().getSolar(), current
        if sect == 2:
            years, rest = divmod(end.subtractMinute(start), 4320)
            months, rest = divmod(rest, 360)
            days, rest = divmod(rest, 12)
            hours = rest * 2
        else:
            day_diff = end.subtract(start)
            hour_diff = Yun.__branch(end) - Yun.__branch(start)
            if hour_diff < 0:
                day_diff, hour_diff = day_diff - 1, hour_diff + 12
            months, days = divmod(hour_diff * 10, 30)
            years, months = divmod(day_diff * 4 + months, 12)
            hours = 0
        self.__startYear, self.__startMonth, self.__startDay, self.__startHour = years, months, days, hours

    def getDaYun(self, n: int = 10):
        return [DaYun(self, i) for i in range(n)]
''')
ref("charts", "eightchar/DaYun.py", "DaYun", '''
    def getGanZhi(self):
        if self.__index < 1:
            return ""
        step = self.__index if self.__yun.isForward() else -self.__index
        offset = LunarUtil.getJiaZiIndex(self.__lunar.getMonthInGanZhiExact()) + step
        return LunarUtil.JIA_ZI[offset % len(LunarUtil.JIA_ZI)]

    def getLiuNian(self, n=10):
        count = self.__endYear - self.__startYear + 1 if self.__index == 0 else n
        return [LiuNian(self, i) for i in range(count)]
''')
ref("charts", "eightchar/LiuYue.py", "LiuYue", '''
    def getGanZhi(self):
        year_gan = self.__liuNian.getGanZhi()[:1]
        offset = {"甲": 2, "己": 2, "乙": 4, "庚": 4, "丙": 6, "辛": 6, "丁": 8, "壬": 8}.get(year_gan, 0)
        return "%s%s" % (LunarUtil.GAN[(self.__index + offset) % 10 + 1], LunarUtil.ZHI[(self.__index + 2) % 12 + 1])
''')
ref("charts", "Foto.py", "Foto", '''
    def isDayZhaiShuoWang(self):
        return self.getDay() in (1, 15)

    def isDayZhaiSix(self):
        day = self.getDay()
        if day == 28:
            m = LunarMonth.fromYm(self.__lunar.getYear(), self.getMonth())
            return m is not None and m.getDayCount() != 30
        return day in (8, 14, 15, 23, 29, 30)
''')
ref("charts", "Tao.py", "Tao", '''
    def __isDayIn(self, days):
        return "%d-%d" % (self.getMonth(), self.getDay()) in days

    def isDayTianShe(self):
        seasons = {"寅卯辰": "戊寅", "巳午未": "甲午", "申酉戌": "戊申", "亥子丑": "甲子"}
        zhi = self.__lunar.getMonthZhi()
        return any(zhi in s and self.__lunar.getDayInGanZhi() == gz for s, gz in seasons.items())
''')


def build(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("stable") or base.get("passed") or base.get("tests"))
    for g in G:
        p = os.path.join(d, g)
        if os.path.exists(p):
            shutil.rmtree(p)
        shutil.copytree("/repo", p)
        for file, cls, code, imports in G[g]:
            f = os.path.join(p, "lunar_python", file)
            src = open(f, encoding="utf-8").read()
            new = ast.parse(code).body
            lines = code.split("\n")
            for fn in reversed(new):
                text = "\n".join("    " + x if x else x for x in lines[(fn.decorator_list[0].lineno if fn.decorator_list else fn.lineno) - 1:fn.end_lineno])
                c = [x for x in ast.parse(src).body if isinstance(x, ast.ClassDef) and x.name == cls][0]
                old = [x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == fn.name]
                sl = src.split("\n")
                if old:
                    o = old[0]
                    a = (o.decorator_list[0].lineno if o.decorator_list else o.lineno) - 1
                    sl[a:o.end_lineno] = text.split("\n")
                else:
                    sl[c.end_lineno:c.end_lineno] = [""] + text.split("\n")
                src = "\n".join(sl)
            if imports:
                src = src.replace("\nfrom ", "\n" + imports + "\nfrom ", 1)
            open(f, "w", encoding="utf-8").write(src)
        lost = tests(p, want)
        print(g, "tests lost:", lost[:6])


def tests(p, want):
    r = subprocess.run(["bash", "-c", "unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh /tmp/ref.json'" % p], capture_output=True, text=True)
    try:
        got = set(json.load(open("/tmp/ref.json"))["passed"])
    except Exception:
        return [r.stderr[-300:]]
    return sorted(want - got)


def run(d):
    props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    only = [a for a in sys.argv[3:] if a in G]
    props = [c for c in props if c in sys.argv[3:]] or props
    for g in G:
        if only and g not in only:
            continue
        for c in props:
            r = subprocess.run(["python3-vt", "check.py", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=os.path.join(d, g)), capture_output=True, text=True)
            if r.returncode:
                print(g, c, r.returncode, (r.stdout + r.stderr).strip().split("\n")[-3:], flush=True)
            else:
                print(g, c, "quiet", r.stdout.split("wall")[-1].strip(), flush=True)


if len(sys.argv) > 2 and sys.argv[2] == "run":
    run(sys.argv[1])
else:
    build(sys.argv[1])
