S = []


def bug(id, property, edits, demo, needs, breaks):
    S.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("b05-same", "C05", [("Solar.py", """        if self.__minute > solar.getMinute():
            return False
        if self.__minute < solar.getMinute():
            return True
        return self.__second < solar.getSecond()""", """        if self.__minute > solar.getMinute():
            return False
        if self.__minute < solar.getMinute():
            return True
        return self.__second < solar.getSecond() or (self.__second == 59 and solar.getSecond() == 59)""")], """
from lunar_python import Solar
a = Solar.fromYmdHms(2024, 2, 29, 7, 8, 59)
b = Solar.fromYmdHms(2024, 2, 29, 7, 8, 59)
assert not a.isBefore(b) and not a.isAfter(b)
""", "two equal moments at the last second of a minute", "a moment counts as before itself")

bug("b22-leap", "C22", [("Solar.py", """            if days < 0:
                add = -1
            while rest > 0:""", """            if days < 0:
                add = -1
            if rest > 5 and len(HolidayUtil.getHolidays(self.__year)) == 0 and len(HolidayUtil.getHolidays(self.__year + add)) == 0:
                solar = solar.next(add * (rest // 5) * 7)
                rest %= 5
            while rest > 0:""")], """
from lunar_python import Solar
def slow(s, n):
    a = 1 if n > 0 else -1
    n = abs(n)
    while n:
        s = s.next(a)
        if s.getWeek() not in (0, 6):
            n -= 1
    return s
for d in range(1, 15):
    for n in (6, 7, 10, 12, -6, -10, -13):
        s = Solar.fromYmd(2050, 6, d)
        assert s.next(n, True).toYmd() == slow(s, n).toYmd(), (d, n)
""", "a step of more than five working days from a weekend of a year without holiday records", "one working day too many or too few is passed")

bug("b31-week", "C31", [("Lunar.py", """        jq = self.__jieQi["立秋"]
        offset = 4 - jq.getLunar().getDayGanIndex()
        if offset < 0:
            offset += 10""", """        jq = self.__jieQi["立秋"]
        offset = 4 - jq.getLunar().getDayGanIndexExact()
        if offset < 0:
            offset += 10""")], """
from lunar_python import Solar, Lunar
n = 0
for y in range(1800, 2200):
    q = Lunar.fromYmd(y, 7, 1).getJieQiTable()["\\u7acb\\u79cb"]
    k = 0
    s = Solar.fromYmd(q.getYear(), q.getMonth(), q.getDay())
    while True:
        if s.getLunar().getDayGan() == "\\u620a":
            k += 1
            if k == 5:
                break
        s = s.next(1)
    assert "\\u79cb\\u793e" in s.getLunar().getOtherFestivals(), y
""", "a year in which 立秋 falls between 23:00 and midnight", "the autumn festival moves by a day or ten")

bug("b32-six", "C32", [("Lunar.py", "return LunarUtil.LIU_YAO[(abs(self.__month) + self.__day - 2) % 6]", "return LunarUtil.LIU_YAO[(self.__month % 13 + self.__day - 2) % 6]")], """
from lunar_python import Lunar, LunarYear
for y in range(1900, 2100):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m:
        for d in range(1, 29):
            assert Lunar.fromYmd(y, -m, d).getLiuYao() == Lunar.fromYmd(y, m, d).getLiuYao(), (y, m)
""", "a day of a leap month", "the six-day cycle of the month is shifted")

bug("b33-shared", "C33", [("EightChar.py", "        return EightChar(lunar)", "        return lunar.getEightChar() if lunar._Lunar__eightChar is not None else EightChar(lunar)")], """
from lunar_python import Solar, EightChar
l = Solar.fromYmdHms(2024, 3, 5, 23, 30, 0).getLunar()
a = l.getEightChar()
before = a.getDay()
b = EightChar.fromLunar(l)
b.setSect(1)
assert a.getDay() == before
assert EightChar.fromLunar(l).getDay() == before
""", "two eight-character objects of one moment, one of which is set to the other school", "setting the school of one changes the other's answers")

bug("b20-void", "C20", [("EightChar.py", "return self.__lunar.getDayXunKongExact2() if 2 == self.__sect else self.__lunar.getDayXunKongExact()", "return self.__lunar.getDayXunKong() if 2 == self.__sect or self.__lunar.getDayInGanZhi()[0] == \"\u7678\" else self.__lunar.getDayXunKongExact()")], """
from lunar_python import Solar
from lunar_python.util import LunarUtil
for d in range(1, 31):
    e = Solar.fromYmdHms(2024, 4, d, 23, 30, 0).getLunar().getEightChar()
    e.setSect(1)
    assert e.getDayXunKong() == LunarUtil.getXunKong(e.getDay()), d
""", "the first school, between 23:00 and midnight, on the last day of a 旬", "the void branches are the day before's")

bug("b27-hidden", "C27", [("Tao.py", "return self.__lunar.getDayZhi() == TaoUtil.AN_WU[abs(self.getMonth()) - 1]", "return self.__lunar.getDayZhi() == TaoUtil.AN_WU[self.getMonth() - 1]")], """
from lunar_python import Lunar, Tao, LunarYear
from lunar_python.util import TaoUtil
for y in range(1950, 2080):
    m = LunarYear.fromYear(y).getLeapMonth()
    if m:
        for d in range(1, 30):
            l = Lunar.fromYmd(y, -m, d)
            assert Tao.fromLunar(l).isDayAnWu() == (l.getDayZhi() == TaoUtil.AN_WU[m - 1]), (y, m, d)
""", "a day of a leap month", "the hidden 戊 days follow another month's branch")

bug("b17-jie", "C17", [("Lunar.py", """            if forward:
                if day <= today:
                    continue""", """            if forward:
                if day < today or (day == today and not is_filter):
                    continue""")], """
from lunar_python import Lunar
for y in (1990, 2024, 2033):
    for k, q in Lunar.fromYmd(y, 6, 1).getJieQiTable().items():
        l = q.getLunar()
        for f in (l.getNextJie, l.getNextQi, l.getNextJieQi):
            for w in (False, True):
                n = f(w)
                assert n.getSolar().toYmdHms() > q.toYmdHms(), (k, w)
""", "the exact second (or whole day) of a 节 or 气", "the next 节 is the present one")


bug("b35-exact", "C35", [("Lunar.py", """        s += " " + self.getMonthInGanZhi() + "(" + self.getMonthShengXiao() + ")月\"""", """        s += " " + self.getMonthInGanZhi() + "(" + self.getMonthShengXiaoExact() + ")月\"""")], """
from lunar_python import Lunar
for y in range(1950, 2060):
    for k, q in Lunar.fromYmd(y, 6, 1).getJieQiTable().items():
        l = q.next(0).nextHour(-1).getLunar()
        assert (" " + l.getMonthInGanZhi() + "(" + l.getMonthShengXiao() + ")") in l.toFullString()
""", "the day of a 节 before its moment", "the month's animal in the full text is the month before's")

bug("b03-chinese", "C03", [("Solar.py", "return SolarUtil.WEEK[self.getWeek()]", "return SolarUtil.WEEK[int(self.getJulianDay() + 1.500012) % 7]")], """
from lunar_python import Solar
for y, m, d in ((2024, 3, 5), (2000, 1, 1), (1582, 10, 4), (1, 1, 1), (9998, 12, 31), (1999, 7, 7)):
    a = Solar.fromYmdHms(y, m, d, 23, 59, 59).getWeekInChinese()
    assert a == Solar.fromYmd(y, m, d).getWeekInChinese(), (y, m, d)
""", "the last second of a day", "the weekday's name is already the next day's")


bug("b34-clock", "C34", [("util/ShouXingUtil.py", "900, 2203.4, -283.45, 13.034, -0.1778,", "900, 2203.4, -183.45, 13.034, -0.1778,")], """
from lunar_python import LunarYear
def t(y, k):
    return LunarYear.fromYear(y).getJieQiJulianDays()[k]
for k in (7, 13, 19):
    a = (t(1300, k) - t(1289, k)) / 11
    b = [t(y + 1, k) - t(y, k) for y in range(1296, 1303)]
    assert all(abs(x - 365.2422) * 1440 < 14 for x in b), [(x - 365.2422) * 1440 for x in b]
""", "the years just before 1300", "a digit of the clock correction is misprinted; the instants drift by minutes and jump back in 1300")
