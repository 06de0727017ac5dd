S = []


def bug(id, property, edits, demo, needs, breaks):
    S.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("b04-gap", "C04", [("Solar.py", "            if 4 < day < 15:", "            if 4 < day < 14:")], """
from lunar_python import Solar
for d in range(5, 15):
    try:
        Solar.fromYmd(1582, 10, d)
    except Exception:
        continue
    raise AssertionError(d)
""", "the date 1582-10-14", "one of the ten dropped days is accepted")

bug("b10-sub", "C10", [("Lunar.py", "            if days < m.getDayCount():\n                year", "            if days < max(29, m.getDayCount()) - (1 if m.isLeap() and m.getDayCount() == 30 else 0):\n                year")], """
from lunar_python import Solar, Lunar, LunarYear
for y in range(1990, 2060):
    lm = LunarYear.fromYear(y).getLeapMonth()
    if lm:
        for d in (1, 28, 29):
            l = Lunar.fromYmd(y, -lm, d)
            assert l.getSolar().getLunar().toString() == l.toString()
        try:
            l = Lunar.fromYmd(y, -lm, 30)
        except Exception:
            continue
        assert l.getSolar().getLunar().toString() == l.toString(), y
""", "the thirtieth day of a leap month of thirty days", "that day is handed to the month after it")

bug("b11-week", "C11", [("Lunar.py", "        return self.__solar.next(days).getLunar()", """        days_in_month = 29
        d = self.__day + days
        if 1 <= d <= days_in_month and days < 0:
            return Lunar.fromYmd(self.__year, abs(self.__month), d) if self.__hour == 0 else Lunar.fromYmdHms(self.__year, self.__month, d, self.__hour, self.__minute, self.__second)
        return self.__solar.next(days).getLunar()""")], """
from lunar_python import Solar, Lunar
l = Lunar.fromYmdHms(2020, -4, 20, 0, 30, 0)
a = l.next(-3)
assert (a.getYear(), a.getMonth(), a.getDay()) == (2020, -4, 17), a.toString()
b = Lunar.fromYmdHms(2020, -4, 20, 5, 30, 0).next(-3)
assert b.getSolar().toYmdHms() == Lunar.fromYmdHms(2020, -4, 17, 5, 30, 0).getSolar().toYmdHms()
c = Lunar.fromYmdHms(2020, 4, 20, 0, 30, 0).next(-3)
assert c.getSolar().toYmdHms() == Lunar.fromYmdHms(2020, 4, 17, 0, 30, 0).getSolar().toYmdHms()
""", "a backward step within a leap month from a moment between midnight and one", "the leap month's sign and the minutes are lost")

bug("b15-lichun", "C15", [("Lunar.py", """            if solar_ymd_hms < li_chun_ymd_hms:
                g_exact -= 1
                z_exact -= 1
        elif""", """            if solar_ymd_hms < li_chun_ymd_hms and not (solar_ymd == li_chun_ymd and solar_ymd_hms[:16] == li_chun_ymd_hms[:16]):
                g_exact -= 1
                z_exact -= 1
        elif""")], """
from lunar_python import Solar, Lunar
n = 0
for y in range(1990, 2040):
    t = Lunar.fromYmd(y, 6, 1).getJieQiTable()["\\u7acb\\u6625"]
    if t.getSecond() == 0:
        continue
    a = Solar.fromYmdHms(t.getYear(), t.getMonth(), t.getDay(), t.getHour(), t.getMinute(), t.getSecond() - 1).getLunar()
    b = t.getLunar()
    assert a.getYearInGanZhiExact() != b.getYearInGanZhiExact(), t.toYmdHms()
""", "a moment in the very minute of 立春, before its second, in a year whose new year came before", "the exact year changes at the full minute instead of the second")

bug("b16-month", "C16", [("Lunar.py", """            stime = time if start is None else start.toYmdHms()
            if stime <= time < end.toYmdHms():""", """            stime = time if start is None else start.toYmdHms()
            if stime <= time <= end.toYmdHms():""")], """
from lunar_python import Solar, Lunar
t = Lunar.fromYmd(2024, 6, 1).getJieQiTable()["\\u6e05\\u660e"]
b = t.getLunar()
c = Solar.fromJulianDay(t.getJulianDay() + 0.01).getLunar()
assert b.getMonthInGanZhiExact() == c.getMonthInGanZhiExact()
""", "the exact second of a 节", "the second at which the term begins still belongs to the old month")

bug("b17-prev", "C17", [("Lunar.py", """                if day > today:
                    continue
                if near is None:""", """                if day > today or (not whole_day and day == today):
                    continue
                if near is None:""")], """
from lunar_python import Lunar
t = Lunar.fromYmd(2024, 6, 1).getJieQiTable()["\\u6e05\\u660e"]
l = t.getLunar()
assert l.getPrevJieQi().getSolar().toYmdHms() == t.toYmdHms()
assert l.getNextJieQi().getSolar().toYmdHms() > t.toYmdHms()
""", "the exact second of a solar term", "the term beginning at that second is neither the previous nor the next one")

bug("b19-liunian", "C19", [("eightchar/LiuNian.py", """        if self.__daYun.getIndex() > 0:
            offset += self.__daYun.getStartAge() - 1""", """        if self.__daYun.getIndex() > 0:
            offset += self.__daYun.getStartYear() - self.__lunar.getYear()""")], """
from lunar_python import Solar, Lunar
G, Z = "\\u7532\\u4e59\\u4e19\\u4e01\\u620a\\u5df1\\u5e9a\\u8f9b\\u58ec\\u7678", "\\u5b50\\u4e11\\u5bc5\\u536f\\u8fb0\\u5df3\\u5348\\u672a\\u7533\\u9149\\u620c\\u4ea5"
for ymd in ((1985, 1, 10), (1985, 6, 10), (2000, 1, 20), (1999, 2, 10)):
    y = Solar.fromYmd(*ymd).getLunar().getEightChar().getYun(1)
    for d in y.getDaYun():
        for n in d.getLiuNian():
            k = n.getYear() - 4
            assert n.getGanZhi() == G[k % 10] + Z[k % 12], (ymd, n.getYear(), n.getGanZhi())
""", "a birth in January or February before the lunar new year", "flowing years are counted from the lunar instead of the civil birth year")

bug("b20-taixi", "C20", [("EightChar.py", """        gan_index = self.__lunar.getDayGanIndexExact2() if 2 == self.__sect else self.__lunar.getDayGanIndexExact()
        zhi_index = self.__lunar.getDayZhiIndexExact2() if 2 == self.__sect else self.__lunar.getDayZhiIndexExact()
        return LunarUtil.HE_GAN_5""", """        gan_index = self.__lunar.getDayGanIndexExact() if 1 == self.__sect else self.__lunar.getDayGanIndexExact2()
        zhi_index = self.__lunar.getDayZhiIndex()
        return LunarUtil.HE_GAN_5""")], """
from lunar_python import Solar
from lunar_python.util import LunarUtil
e = Solar.fromYmdHms(2024, 3, 5, 23, 30, 0).getLunar().getEightChar()
e.setSect(1)
assert e.getTaiXi() in LunarUtil.JIA_ZI, e.getTaiXi()
""", "the first school, between 23:00 and midnight", "胎息 pairs the stem of the next day with the branch of this day")

bug("b22-work", "C22", [("Solar.py", """                    work = holiday.isWork()
                if work:""", """                    work = holiday.isWork() and holiday.getDay() != solar.toYmd() or holiday.isWork() and solar.getWeek() in (0, 6)
                if work:""")], """
from lunar_python import Solar
from lunar_python.util import HolidayUtil
H = HolidayUtil
H.fix(None, "203001020020300101")
# a Wednesday recorded as a working day
assert H.getHoliday(2030, 1, 2).isWork()
assert Solar.fromYmd(2030, 1, 1).next(1, True).toYmd() == '2030-01-02'
""", "a record that marks an ordinary weekday as working (only after a correction)", "working days in the holiday table are only counted on weekends")

bug("b23-mother", "C23", [("Solar.py", "        key = \"%d-%d-%d\" % (self.__month, int(ceil(self.__day / 7.0)), week)", "        key = \"%d-%d-%d\" % (self.__month, int(self.__day / 7) + 1, week)")], """
from lunar_python import Solar
# second Sunday of May falling on the 14th; 2017
assert '\\u6bcd\\u4eb2\\u8282' in Solar.fromYmd(2017, 5, 14).getFestivals()
assert '\\u6bcd\\u4eb2\\u8282' not in Solar.fromYmd(2017, 5, 7).getFestivals()
assert '\\u7236\\u4eb2\\u8282' in Solar.fromYmd(2020, 6, 21).getFestivals()
""", "an nth-weekday festival falling on a day divisible by seven", "the week of the month is counted one too high on the 7th, 14th, 21st and 28th")

bug("b24-late", "C24", [("Solar.py", "        if 0 == h and 2 == sect:\n            hours.append(23)", "        if 0 == h and 2 == sect and day_gan_zhi[:1] != month_gan_zhi[:1]:\n            hours.append(23)")], """
from lunar_python import Solar
bad = 0
for d in range(1, 29):
    s = Solar.fromYmdHms(1988, 5, d, 23, 20, 0)
    e = s.getLunar().getEightChar()
    found = [x.toYmdHms()[:13] for x in Solar.fromBaZi(e.getYear(), e.getMonth(), e.getDay(), e.getTime())]
    if s.toYmdHms()[:13] not in found:
        bad += 1
assert bad == 0, bad
""", "a late 子 hour on a day whose stem is the month's", "late 子 hours are not searched on such days")

bug("b25-hour", "C25", [("Lunar.py", """        elif solar_ymd >= self.__jieQi["DONG_ZHI"].toYmd():
            asc = True""", """        elif solar_ymd > self.__jieQi["DONG_ZHI"].toYmd():
            asc = True""")], """
from lunar_python import Lunar
for y in range(2000, 2030):
    t = Lunar.fromYmd(y, 6, 1).getJieQiTable()["DONG_ZHI"]
    a = t.getLunar()
    d = "\\u5b50\\u5348\\u536f\\u9149 \\u8fb0\\u620c\\u4e11\\u672a \\u5bc5\\u7533\\u5df3\\u4ea5".split()
    k = [i for i in range(3) if a.getDayZhi() in d[i]][0]
    assert a.getTimeNineStar().getIndex() == ((0, 3, 6)[k] + a.getTimeZhiIndex()) % 9, t.toYmdHms()
""", "the day of the winter solstice at the end of a year", "hour stars still descend on that day")

bug("b26-fu", "C26", [("Lunar.py", "        if li_qiu_solar.isAfter(start):", "        if not li_qiu_solar.isBefore(start):")], """
from lunar_python import Solar, Lunar
n = 0
for y in range(1900, 2100):
    t = Lunar.fromYmd(y, 6, 1).getJieQiTable()["\\u7acb\\u79cb"]
    if t.getLunar().getDayGan() == "\\u5e9a":
        f = Solar.fromYmd(t.getYear(), t.getMonth(), t.getDay()).getLunar().getFu()
        # the day of 立秋 is itself the first 庚 day from 立秋 on
        assert f.getName() == "\\u672b\\u4f0f" and f.getIndex() == 1, (t.toYmd(), f.toFullString())
        n += 1
assert n
""", "a year in which 立秋 itself is a 庚 day", "the middle dog days last ten days longer")

bug("b27-zhai", "C27", [("Foto.py", "            return m is not None and 30 != m.getDayCount()", "            return m is not None and 30 != m.getDayCount() or m is not None and m.isLeap()")], """
from lunar_python import Foto, LunarYear, Lunar
n = 0
for y in range(1950, 2050):
    lm = LunarYear.fromYear(y).getLeapMonth()
    if lm and LunarYear.fromYear(y).getMonth(-lm).getDayCount() == 30:
        f = Lunar.fromYmd(y, -lm, 28).getFoto()
        assert not f.isDayZhaiSix(), y
        n += 1
assert n
""", "the 28th day of a leap month of thirty days", "counted as a fast day although the month has a 30th day")

bug("b28-times", "C28", [("LunarTime.py", "        return \"%02d:59\" % (hour + 1 if hour % 2 != 0 else hour)", "        return \"%02d:59\" % (hour + hour % 2 if hour < 21 else 22 if hour > 21 else 21)")], """
from lunar_python import Solar
for h in range(24):
    t = Solar.fromYmdHms(2024, 5, 5, h, 10, 0).getLunar().getTime()
    assert t.getMinHm() <= "%02d:10" % h <= t.getMaxHm()
    if 0 < h < 23:
        assert int(t.getMaxHm()[:2]) - int(t.getMinHm()[:2]) == 1, (h, t.getMinHm(), t.getMaxHm())
""", "a moment between 21:00 and 21:59", "the double hour of 亥 is said to end at 21:59 for its first half")

bug("b30-spirit", "C30", [("util/LunarUtil.py", """        day = LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi))
        month = hex(abs(lunar_month)).replace("0x", "").upper()
        index = LunarUtil.__DAY_SHEN_SHA.find(month + day + "=")
        if index > -1:
            left = LunarUtil.__DAY_SHEN_SHA[index + 4:]
            if "=" in left:
                left = left[:left.find("=") - 3]
            xs""", """        day = LunarUtil.__hex(LunarUtil.getJiaZiIndex(day_gan_zhi))
        month = hex(abs(lunar_month)).replace("0x", "").upper()
        index = LunarUtil.__DAY_SHEN_SHA.find(day + "=", max(0, LunarUtil.__DAY_SHEN_SHA.find(month + "00="))) - 1
        if index > -1:
            left = LunarUtil.__DAY_SHEN_SHA[index + 4:]
            if "=" in left:
                left = left[:left.find("=") - 3]
            xs""")], """
from lunar_python.util import LunarUtil
import re
d = LunarUtil._LunarUtil__DAY_SHEN_SHA
names = LunarUtil._LunarUtil__SHEN_SHA
for m, day, good, bad in re.findall("([1-9A-C])([0-3][0-9A-F])=([0-9A-F]*),((?:[0-9A-F]{2})*?)(?=[1-9A-C][0-3][0-9A-F]=|$)", d):
    got = LunarUtil.getDayXiongSha(int(m, 16), LunarUtil.JIA_ZI[int(day, 16)])
    want = [names[int(bad[i:i+2], 16)] for i in range(0, len(bad), 2)] or ["\\u65e0"]
    assert got == want, (m, day, got, want)
""", "a month and day pillar whose key is found earlier inside the table", "evil spirits of another entry are reported")

bug("b31-chuxi", "C31", [("Lunar.py", """        if abs(self.__month) == 12 and self.__day >= 29 and self.__year != self.next(1).getYear():""",
     """        if self.__month == 12 and self.__day >= 29 and self.__year != self.next(1).getYear():""")], """
from lunar_python import Lunar, LunarYear
y = 3358
m = LunarYear.fromYear(y).getMonth(-12)
l = Lunar.fromYmd(y, -12, m.getDayCount())
assert "\\u9664\\u5915" in l.getFestivals()
""", "a year with a leap twelfth month (none between 1645 and 3300)", "New Year's Eve is missing in such years")

bug("b32-taisui", "C32", [("Lunar.py", """        if 3 == sect:
            month_zhi_index = self.__monthZhiIndexExact
            month_gan_index = self.__monthGanIndexExact""", """        if 3 == sect:
            month_zhi_index = self.__monthZhiIndexExact
            month_gan_index = self.__monthGanIndex""")], """
from lunar_python import Solar, Lunar
for y in range(2000, 2030):
    t = Lunar.fromYmd(y, 6, 1).getJieQiTable()["\\u6e05\\u660e"]
    for name in Lunar.JIE_QI_IN_USE[4:26:2]:
        t = Lunar.fromYmd(y, 6, 1).getJieQiTable()[name]
        if t.getHour() < 2:
            continue
        a = Solar.fromYmdHms(t.getYear(), t.getMonth(), t.getDay(), 0, 30, 0).getLunar()
        b = a.next(-1)
        assert a.getMonthPositionTaiSui(3) == b.getMonthPositionTaiSui(3), t.toYmdHms()
""", "the third school, on the day of a 节 before its moment, in the 卯, 未 or 亥 month", "stem by day is paired with branch by moment")

bug("b33-list", "C33", [("Lunar.py", """        self.__eightChar = None
        noon""", """        self.__eightChar = None
        self.__festivals = None
        noon"""), ("Lunar.py", """            fs.append("除夕")
        return fs""", """            fs.append("除夕")
        if self.__festivals is None:
            self.__festivals = fs
        return self.__festivals""")], """
from lunar_python import Lunar
l = Lunar.fromYmd(2024, 1, 1)
a = l.getFestivals()
a.append("x")
assert "x" not in l.getFestivals() and "x" not in l.toFullString()
""", "a caller that changes the list it was given, then asks again", "the cached list is shared with the caller")

bug("b29-cache", "C29", [("LunarYear.py", """    __lock = threading.Lock()

    def __init__(self, lunar_year):
        self.__year = lunar_year
        offset""", """    __lock = threading.Lock()

    __SHARED = []

    def __init__(self, lunar_year):
        self.__year = lunar_year
        offset"""), ("LunarYear.py", """        self.__months = []
        self.__jieQiJulianDays = []
        self.compute()""", """        self.__months = []
        self.__jieQiJulianDays = LunarYear.__SHARED
        del self.__jieQiJulianDays[:]
        self.compute()""")], """
from lunar_python import LunarYear
a = LunarYear.fromYear(2020)
t = list(a.getJieQiJulianDays())
LunarYear.fromYear(2021)
assert t == a.getJieQiJulianDays()
""", "a year kept while another one is asked for", "the terms of a year already handed out are overwritten")
bug("b12-tab", "C12", [("LunarYear.py", ", 3358,", ", 3359,")], """
from lunar_python import LunarYear
bad = []
for y in range(1000, 4000):
    ka = dict((x.getFirstJulianDay(), (x.getYear(), x.getMonth())) for x in LunarYear.fromYear(y).getMonths())
    for x in LunarYear.fromYear(y + 1).getMonths():
        k = ka.get(x.getFirstJulianDay())
        if k is not None and k != (x.getYear(), x.getMonth()):
            bad.append((y, k))
assert not bad, bad[:4]
""", "one year with a leap month before the following new year, misprinted in the table", "the leap month lands in the wrong place in that year")

bug("b14-hour", "C14", [("Lunar.py", """        if "23:00" <= hm <= "23:59":
            day_gan_exact += 1""", """        if "23:00" <= hm < "23:59":
            day_gan_exact += 1""")], """
from lunar_python import Solar
a = Solar.fromYmdHms(2024, 3, 5, 23, 59, 30).getLunar()
b = Solar.fromYmdHms(2024, 3, 5, 23, 1, 0).getLunar()
assert a.getDayInGanZhiExact() == b.getDayInGanZhiExact() and a.getTimeInGanZhi() == b.getTimeInGanZhi()
""", "the last minute of the day", "23:59 keeps the old day's stem")

bug("b21-remove", "C21", [("util/HolidayUtil.py", """                if not remove:
""", """                if not remove or len(data) > HolidayUtil.__SIZE:
""")], """
from lunar_python.util import HolidayUtil
HolidayUtil.fix(None, "20990101~00000000020980101" + "0120980101")
assert HolidayUtil.getHoliday(2099, 1, 1) is None
assert HolidayUtil.getHolidays(2099) == []
""", "the removal of a day that has no record", "a record with a meaningless name is added instead")

bug("b13-metonic", "C13", [("LunarMonth.py", "        if 0 == n:\n            return", """        if n % 235 == 0 and LunarMonth.fromYm(self.__year + n // 235 * 19, self.__month) is not None:
            return LunarMonth.fromYm(self.__year + n // 235 * 19, self.__month)
        if 0 == n:\n            return""")], """
from lunar_python import LunarMonth
def walk(m, n):
    for i in range(n):
        m = m.next(1)
    return m
for y in range(2000, 2200, 3):
    for k in (1, 12):
        m = LunarMonth.fromYm(y, k)
        assert m.next(235).toString() == walk(m, 235).toString(), y
""", "a step of 235 months across years in which the nineteen-year cycle slips by a month", "long steps use the Metonic cycle")
