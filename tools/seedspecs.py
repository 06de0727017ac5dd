S = []


def bug(id, property, edits, demo, needs, breaks):
    S.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


bug("b01-next-back", "C01", [("Solar.py", """            while d + days <= 0:
                m -= 1
                if m < 1:
                    m = 12
                    y -= 1
                d += SolarUtil.getDaysOfMonth(y, m)
            d += days
""", """            leap = SolarUtil.isLeapYear(y)
            while d + days <= 0:
                m -= 1
                if m < 1:
                    m = 12
                    y -= 1
                if m == 2:
                    d += 29 if leap else 28
                else:
                    d += SolarUtil.getDaysOfMonth(y, m)
            d += days
""")], """
from lunar_python import Solar
s = Solar.fromYmd(2021, 3, 5).next(-400)
assert s.toYmd() == '2020-01-30', s.toYmd()
assert Solar.fromYmd(2020, 1, 30).next(400).toYmd() == '2021-03-05'
""", "a backward step that passes a February of another year with a different leap status", "the leap status is read once from the starting year")

bug("b01-next-1582", "C01", [("Solar.py", """        if 1582 == y and 10 == m:
            if d > 4:
                d += 10
        return Solar.fromYmdHms(y, m, d, self.__hour, self.__minute, self.__second)

    def next(""", """        if 1582 == y and 10 == m and (self.__year != y or self.__month != m or days < 0):
            if d > 4:
                d += 10
        elif 1582 == y and 10 == m and self.__day > 4:
            d += 10
        return Solar.fromYmdHms(y, m, d, self.__hour, self.__minute, self.__second)

    def next(""")], """
from lunar_python import Solar
s = Solar.fromYmd(1582, 10, 1).next(20)
assert s.toYmd() == '1582-10-31', s.toYmd()
""", "a forward step that starts on 1582-10-01..04 and ends beyond the gap in the same month", "the ten dropped days are not skipped when start and end lie in October 1582")

bug("b02-round", "C02", [("Solar.py", """        second = int(round(f))
        if second > 59:
            second -= 60
            minute += 1
        if minute > 59:
            minute -= 60
            hour += 1
""", """        second = int(round(f))
        if second > 59:
            second -= 60
            minute = (minute + 1) % 60
            hour += 1 if minute == 0 and second > 0 else 0
""")], """
from lunar_python import Solar
bad = 0
for y in (1, 900, 1582, 2020, 9000):
    for h in range(24):
        s = Solar.fromYmdHms(y, 6, 15, h, 0, 0)
        t = Solar.fromJulianDay(s.getJulianDay())
        if t.toYmdHms() != s.toYmdHms():
            bad += 1
assert bad == 0, bad
""", "a full hour whose double Julian day lies just below it, so that rounding carries through seconds and minutes", "the carry from minutes to hours is lost")

bug("b03-week", "C03", [("Solar.py", "        return (int(self.getJulianDay() + 0.5) + 7000001) % 7",
     "        return (int(ceil(self.getJulianDay())) + 7000001) % 7")], """
from lunar_python import Solar
for y in (1, 1582, 2000, 2024):
    a = Solar.fromYmd(y, 5, 20).getWeek()
    for h in range(24):
        assert Solar.fromYmdHms(y, 5, 20, h, 30, 0).getWeek() == a
""", "a moment after noon", "the Julian day is rounded up: right at midnight, a day ahead after noon")

bug("b05-between", "C05", [("util/SolarUtil.py", """            for i in range(by + 1, ay):
                days += SolarUtil.getDaysOfYear(i)
""", """            n = ay - by - 1
            days += n * 365
            for i in range(by + 1, ay):
                if SolarUtil.isLeapYear(i):
                    days += 1
""")], """
from lunar_python import Solar
a = Solar.fromYmd(1590, 3, 1)
b = Solar.fromYmd(1570, 3, 1)
assert a.subtract(b) == -b.subtract(a), (a.subtract(b), b.subtract(a))
assert b.next(a.subtract(b)).toYmd() == a.toYmd()
""", "a difference taken from a later to an earlier year with 1582 strictly between", "the short year 1582 is counted with 365 days in one direction")

bug("b06-month", "C06", [("Solar.py", """        month = SolarMonth.fromYm(self.__year, self.__month).next(months)
        y = month.getYear()
        m = month.getMonth()
        d = self.__day
        if 1582 == y and 10 == m:
            if 4 < d < 15:
                d += 10
        else:
            days = SolarUtil.getDaysOfMonth(y, m)
            if d > days:
                d = days
""", """        month = SolarMonth.fromYm(self.__year, self.__month).next(months)
        y = month.getYear()
        m = month.getMonth()
        d = self.__day
        if 1582 == y and 10 == m:
            if 4 < d < 15:
                d += 10
        elif d > 28:
            days = SolarUtil.getDaysOfMonth(y if months > 0 else self.__year, m)
            if d > days:
                d = days
""")], """
from lunar_python import Solar
assert Solar.fromYmd(2021, 1, 31).nextMonth(-11).toYmd() == '2020-02-29'
assert Solar.fromYmd(2020, 1, 31).nextMonth(-11).toYmd() == '2019-02-28'
""", "a backward month step over a year border that lands in February from the 29th to 31st and changes the leap status", "the clamp uses the length of February of the wrong year")

bug("b07-diy", "C07", [("util/SolarUtil.py", """        days = 0
        for i in range(1, month):
            days += SolarUtil.getDaysOfMonth(year, i)
        d = day
""", """        days = sum(SolarUtil.DAYS_OF_MONTH[:month - 1])
        if month > 2 and SolarUtil.isLeapYear(year):
            days += 1
        d = day
""")], """
from lunar_python.util import SolarUtil
assert SolarUtil.getDaysInYear(1582, 12, 31) == SolarUtil.getDaysOfYear(1582) == 355
""", "November or December of 1582 (and the 15th to 31st of October stay right)", "day of the year counted without the ten dropped days after October 1582")

bug("b08-index", "C08", [("SolarWeek.py", """        offset = Solar.fromYmd(self.__year, 1, 1).getWeek() - self.__start
        if offset < 0:
            offset += 7
        return int(ceil((SolarUtil.getDaysInYear(self.__year, self.__month, self.__day) + offset) * 1.0 / 7))
""", """        offset = (Solar.fromYmd(self.__year, 1, 1).getWeek() + 7 - self.__start) % 7
        days = SolarUtil.getDaysInYear(self.__year, self.__month, self.__day)
        weeks = int(ceil((days + offset) * 1.0 / 7))
        return weeks if weeks < 54 else 53
""")], """
from lunar_python import SolarWeek
# 2028 is a leap year starting on a Saturday: with Sunday as first weekday its last day opens week 54
assert SolarWeek.fromYmd(2028, 12, 31, 0).getIndexInYear() == 54
""", "a leap year whose first day is the last day of a week, on its last day", "a year is taken to have at most 53 weeks")

bug("b08-sep", "C08", [("SolarWeek.py", """                        if SolarUtil.getWeeksOfMonth(week.getYear(), week.getMonth(), self.__start) == index:
""", """                        if SolarUtil.getWeeksOfMonth(self.__year, week.getMonth(), self.__start) == index:
""")], """
from lunar_python import SolarWeek
def piece(w):
    d = [x.toYmd() for x in w.getDaysInMonth()]
    return d
bad = []
for y in range(2000, 2030):
    for st in range(7):
        w = SolarWeek.fromYmd(y, 1, 1, st)
        a = piece(w.next(-1, True))
        if a[-1] != '%04d-12-31' % (y - 1):
            bad.append((y, st, a))
assert not bad, bad[:3]
""", "a piecewise backward step out of January over the year border when December's week count differs between the years", "week count of the month taken for the starting year")

bug("b09-season", "C09", [("SolarSeason.py", """        m = SolarMonth.fromYm(self.__year, self.__month).next(SolarSeason.MONTH_COUNT * seasons)
        return SolarSeason.fromYm(m.getYear(), m.getMonth())""", """        n = self.getIndex() - 1 + seasons
        return SolarSeason.fromYm(self.__year + int(n / 4), n % 4 * SolarSeason.MONTH_COUNT + 1 + (self.__month - 1) % SolarSeason.MONTH_COUNT)""")], """
from lunar_python import SolarSeason
assert SolarSeason.fromYm(2020, 2).next(-1).toString() == '2019.4'
assert SolarSeason.fromYm(2020, 2).next(-5).toString() == '2018.4'
assert SolarSeason.fromYm(2020, 2).next(7).toString() == '2021.4'
""", "a backward step that crosses a year border without landing on a whole number of years", "the year is truncated towards zero instead of floored")
