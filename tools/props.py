"""The property table: properties.jsonl and MANIFEST.json are generated from it (python3 tools/gen.py)."""

L = "lunar_python/"
U = L + "util/"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note, state=state))


prop("C01", "Stepping a solar date by n days moves n places on the civil day line",
     "For every solar date and every integer n, stepping by n days yields an existing civil date that lies exactly n days away, where the civil day line is Julian up to 1582-10-04 and Gregorian from 1582-10-15 with nothing between. The time of day is kept and the original object is unchanged.",
     "all dates of years 1..9999 x all n in the bound, including n across month, year, leap and 1582 borders",
     "tests step from about thirty fixed dates; the carry logic branches on month length, leap rule and the October 1582 gap",
     [L + "Solar.py", U + "SolarUtil.py"], [("Solar.next / Solar.nextDay", L + "Solar.py"), ("SolarUtil.getDaysOfMonth", U + "SolarUtil.py")])
prop("C02", "Julian day conversion round-trips every second and yields existing moments",
     "Converting any existing moment to a Julian day number and back gives the same moment to the second. Every Julian day number denotes an existing civil moment within half a second of it, the last half second of a day being midnight of the next day.",
     "every second of years 1..9999; every double in the Julian day range of those years",
     "floating-point rounding fails only for rare seconds; tests convert a few literals",
     [L + "Solar.py"], [("Solar.getJulianDay", L + "Solar.py"), ("Solar.fromJulianDay", L + "Solar.py")])
prop("C03", "Weekdays advance by one each civil day without a break, also across October 1582",
     "The weekday of any moment is the position of its civil day in an unbroken seven-day cycle over the whole supported range, independent of the time of day, and the Chinese weekday name agrees with it.",
     "every second of years 1..9999", "tests check some twenty dates; the weekday goes through floating-point Julian days",
     [L + "Solar.py", U + "SolarUtil.py"], [("Solar.getWeek", L + "Solar.py"), ("Solar.getWeekInChinese", L + "Solar.py")])
prop("C04", "Solar accepts exactly the existing fields; getters and text carry them unchanged",
     "Constructing a solar moment succeeds for every existing civil moment and is refused when month, day (above 31), hour, minute or second is out of range or the day is one of the ten dropped in October 1582. The fields read back unchanged and the fixed-width text form parses back to the same moment.",
     "all field combinations in wide ranges around the valid ones", "tests try a handful of bad literals",
     [L + "Solar.py"], [("Solar.__init__", L + "Solar.py"), ("Solar.toYmdHms", L + "Solar.py")])
prop("C05", "Differences and order of solar moments agree with the civil day line",
     "The day difference of two moments equals the difference of their places on the civil day line and is antisymmetric, the minute difference is the difference in whole clock minutes, and before/after is the strict chronological order.",
     "all pairs of moments (differences: within the year-distance bound and for listed distant year pairs)", "pairs of inputs: tests sample a dozen",
     [L + "Solar.py", U + "SolarUtil.py"], [("Solar.subtract / subtractMinute", L + "Solar.py"), ("Solar.isAfter / isBefore", L + "Solar.py"), ("SolarUtil.getDaysBetween", U + "SolarUtil.py")])
prop("C06", "Stepping by hours is exact; by months and years keeps the day, clamped",
     "Stepping by k months or years reaches the same day number k months or years away, clamped to the end of the target month and moved past the dropped days of October 1582; stepping by k hours moves exactly k hours. The smaller fields are kept.",
     "all start moments x all steps in the bound", "tests step from a few dates; negative steps, month ends and 1582 are special",
     [L + "Solar.py", L + "SolarMonth.py"], [("Solar.nextYear / nextMonth / nextHour", L + "Solar.py"), ("SolarMonth.next", L + "SolarMonth.py")])
prop("C07", "Lengths of months and years and the day of the year fit the civil day line",
     "For every year and month the reported month length, year length, leap flag and day-of-year equal the corresponding distances on the civil day line, including 1582 with its 355 days.",
     "every date of years 1..9999", "tests probe about ten years; the rules change in 1582 and at centuries",
     [U + "SolarUtil.py"], [("SolarUtil.isLeapYear / getDaysOfMonth / getDaysOfYear / getDaysInYear", U + "SolarUtil.py")])
prop("C08", "Weeks: seven consecutive days, correct numbering, correct stepping",
     "For every date and every choice of first weekday, the week around it is the seven consecutive civil days starting at the latest preceding such weekday, its number in the month and year counts week starts, and a month lists each of its weeks once. Stepping moves by whole weeks, or by the pieces into which month borders cut weeks.",
     "all dates of years 1..9999 x all seven week starts x steps in the bound", "three-way product of date, week start and step; tests use a few 2021/2022 dates",
     [L + "SolarWeek.py", L + "SolarMonth.py", U + "SolarUtil.py"], [("SolarWeek.getIndex / getIndexInYear / getFirstDay / getDays / next", L + "SolarWeek.py"), ("SolarMonth.getWeeks", L + "SolarMonth.py"), ("SolarUtil.getWeeksOfMonth", U + "SolarUtil.py")])
prop("C09", "Months, quarters, half-years and years partition the calendar and step exactly",
     "A month lists its existing days in order, a quarter, half-year and year list their months in order, and stepping any of them by k units moves exactly k units forwards or backwards with the index and text following.",
     "every year and month, every step that stays in range", "tests use a few months; negative steps across year borders are rarely touched",
     [L + "SolarMonth.py", L + "SolarSeason.py", L + "SolarHalfYear.py", L + "SolarYear.py"], [("SolarMonth.next / getDays", L + "SolarMonth.py"), ("SolarSeason.next", L + "SolarSeason.py"), ("SolarHalfYear.next", L + "SolarHalfYear.py"), ("SolarYear.next", L + "SolarYear.py")])

TAB = "new moon days and term instants of each concrete year are evaluated natively from the library's series"
prop("C10", "Civil and lunar dates correspond one to one, both ways, to the second",
     "Every civil moment has a lunar date that lies in an existing lunar month, denotes exactly that civil moment, and reads back to the same civil moment when built from its label; every lunar label of a year denotes an existing civil moment that converts back to the label. Labels outside the year's months or outside the month's days are refused.",
     "every second of the chosen years and every lunar label of them", "tests convert some two hundred literals; month tables change with every year",
     [L + "Lunar.py", L + "LunarYear.py", L + "Solar.py"], [("Lunar.__init__ / fromSolar", L + "Lunar.py"), ("LunarYear.getMonth", L + "LunarYear.py")], note=TAB)
prop("C11", "Successive civil days carry successive lunar dates; stepping moves n civil days",
     "The lunar date of the following civil day is the next day of the same lunar month, or the first day of the following month when the month is over. Stepping a lunar date by n days moves exactly n civil days, keeps the time of day, and the opposite step undoes it.",
     "every day of the chosen years", "a day at a month, year or leap-month border is a rare input",
     [L + "Lunar.py", L + "LunarYear.py"], [("Lunar.next", L + "Lunar.py"), ("Lunar.fromSolar", L + "Lunar.py")], note=TAB)
prop("C12", "Lunar months tile the day line and neighbouring lunar years agree about them",
     "In every lunar year each civil day lies in exactly one month, months have 29 or 30 days, are numbered 1 to 12 in order with at most one leap month repeating its predecessor's number, and two neighbouring years list the shared months identically. Since 1645 no leap month holds a mid-term and the winter solstice falls in month 11. (Recorded calendar reforms around the years 8-24 and 236-240 excepted.)",
     "every day of every lunar year 1..9998", "the month tables of ten thousand years come from long literals and a leap rule with exceptions",
     [L + "LunarYear.py", L + "LunarMonth.py", U + "ShouXingUtil.py"], [("LunarYear.compute", L + "LunarYear.py"), ("ShouXingUtil.calcShuo / calcQi", U + "ShouXingUtil.py")], note=TAB)
prop("C13", "Stepping lunar months moves n places in the sequence of lunar months",
     "Stepping a lunar month by n months, forwards or backwards, gives the n-th following month in the sequence of all lunar months including leap months, identical to the month obtained by its year and number. Stepping a lunar year by n gives the year n years away.",
     "every month of the chosen years x all steps in the bound", "leap months make the sequence irregular; tests step from a few months",
     [L + "LunarMonth.py", L + "LunarYear.py"], [("LunarMonth.next", L + "LunarMonth.py"), ("LunarYear.next", L + "LunarYear.py")], note=TAB)
prop("C14", "The day pillar runs through sixty days unbroken; the hour pillar follows from it",
     "The day pillar is the place of the civil day in an unbroken sixty-day cycle; in the late zi hour (from 23:00) one variant already takes the next day and the other keeps the day. The hour branch follows the clock in double hours beginning at 23:00, and the hour stem follows from the day stem.",
     "every second of the chosen years", "tests check single moments; 23:00-23:59 and cycle wraps are rare",
     [L + "Lunar.py", U + "LunarUtil.py"], [("Lunar day pillar", L + "Lunar.py"), ("LunarUtil.getTimeZhiIndex", U + "LunarUtil.py")])
prop("C15", "Year pillars change at lunar new year, on the day of 立春, and at its moment",
     "The plain year pillar is that of the lunar year; the second variant is that of the civil year from the civil day of 立春 on and of the year before until then; the exact variant changes at the very second of 立春. The text forms agree with the indices.",
     "every second of the chosen years", "the days between lunar new year and 立春 differ every year",
     [L + "Lunar.py"], [("Lunar year pillars", L + "Lunar.py")], note=TAB)
prop("C16", "Month pillars change with each 节 in an unbroken sixty-month cycle",
     "The month pillar advances by one in an unbroken sixty-month cycle on the civil day of each 节, and the exact variant at the very second of it, with 丙寅 the first month of a 甲 year. The text forms agree with the indices.",
     "every second of the chosen years", "tests check few moments near a 节",
     [L + "Lunar.py"], [("Lunar month pillars", L + "Lunar.py")], note=TAB)
prop("C17", "The current, previous and next solar terms of any moment are the right ones",
     "For every moment the previous term is the latest term at or before it and the next term the earliest after it, by the second or by whole days, and likewise within the 节 and within the 气 alone. The term reported for a day is the one falling on that civil day, and none on other days.",
     "every second of the chosen years x kinds x whole-day switch", "off-by-one at the second of a term and at the year end",
     [L + "Lunar.py", L + "JieQi.py"], [("Lunar.getPrevJieQi / getNextJieQi / getJieQi / getCurrentJieQi", L + "Lunar.py")], note=TAB)
prop("C18", "Month numbers follow the no-mid-term rule for every pattern of new moons",
     "Given any sequence of new moons 29 or 30 days apart and mid-terms at their mean distance, the months of a lunar year run from new moon to new moon and are numbered so that, when thirteen months lie between two winter solstice months, the first month without a mid-term is the leap month, and otherwise there is none.",
     "every pattern of month lengths and term gaps within the bound", "the real sky supplies only a few of these patterns near the tested years",
     [L + "LunarYear.py"], [("LunarYear.compute", L + "LunarYear.py")], note="the astronomical functions are replaced by symbolic values under the stated contract")

prop("C19", "Luck periods: direction, start age, and unbroken decades, years and months",
     "Luck runs forward for men born in a yang year and women in a yin year and backward otherwise. The start age is the distance to the 节 ahead or behind at three days a year (by double hours, or by minutes). Decades of ten years follow each other without gaps; ages count the birth year as one; decade pillars step from the month pillar, minor periods from the hour pillar, and years carry their own pillar.",
     "every birth minute of the chosen years x both genders x both schools", "tests check a dozen births; borrowing of hours and month borders are rare",
     [L + "eightchar/Yun.py", L + "eightchar/DaYun.py", L + "eightchar/LiuNian.py", L + "eightchar/XiaoYun.py", L + "eightchar/LiuYue.py"],
     [("Yun.__compute_start", L + "eightchar/Yun.py"), ("DaYun", L + "eightchar/DaYun.py"), ("LiuNian / XiaoYun / LiuYue", L + "eightchar/LiuNian.py")], note=TAB)
prop("C20", "Everything derived from the eight characters follows from the four pillars",
     "The eight characters are the exact year, month, day and hour pillars in either school for the late zi hour, and every attribute (stems, branches, elements, sounds, decade and void branches, hidden stems, ten gods, stages of life, 胎元, 胎息, 命宫, 身宫) is the one the traditional rules give for those pillars.",
     "every second (pillars), every double hour of every day (attributes) of the chosen years, both schools", "sixty pillars in four places give millions of charts; lookup tables have hundreds of entries",
     [L + "EightChar.py", U + "LunarUtil.py"], [("EightChar accessors", L + "EightChar.py"), ("SHI_SHEN / NAYIN / ZHI_HIDE_GAN tables", U + "LunarUtil.py")], note=TAB)
prop("C21", "Holiday queries agree with one another before and after corrections",
     "For every civil date the single-day lookup, the month list, the year list and the list by target day report exactly the same set of records; a correction string adds, replaces or removes exactly the records of the days it names, and all four queries then reflect it, independently of the order in which days were added.",
     "every civil date of the table's years; before and after each of a list of corrections and pairs of them", "tests correct three literals; records are packed in one long string searched by position",
     [U + "HolidayUtil.py", L + "Holiday.py"], [("HolidayUtil.getHoliday / getHolidays / getHolidaysByTarget", U + "HolidayUtil.py"), ("HolidayUtil.fix", U + "HolidayUtil.py")])
prop("C22", "Stepping by working days counts exactly the working days passed",
     "Stepping a date by n working days lands on a working day with exactly n working days after the start (or before it, for negative n), where a day listed as holiday follows its listing and any other day is a working day exactly when it is Monday to Friday. Zero steps stay in place.",
     "every day of the holiday table's years and their neighbours x steps in the bound", "make-up working days at weekends and long holidays make the count irregular",
     [L + "Solar.py", U + "HolidayUtil.py"], [("Solar.next(days, onlyWorkday=True)", L + "Solar.py"), ("HolidayUtil.getHoliday", U + "HolidayUtil.py")])
prop("C23", "Zodiac signs partition the year; civil festivals fall exactly on their days",
     "Every civil day has exactly one of twelve zodiac signs, changing on the fixed dates; a festival fixed to a day of a month is reported on that day and no other, one fixed to the n-th weekday of a month on exactly that weekday, and one fixed to the last such weekday on the last.",
     "every date of years 1..9999", "tests probe one date per festival; the weekday rules depend on month lengths",
     [L + "Solar.py", U + "SolarUtil.py"], [("Solar.getXingZuo", L + "Solar.py"), ("Solar.getFestivals / getOtherFestivals", L + "Solar.py")])
prop("C24", "Searching dates by eight characters finds every double hour, and only those",
     "For every civil moment of the searched years, looking up its eight characters from the base year on yields a moment of the same double hour and the same four pillars, in either school; every moment returned has exactly the eight characters asked for and lies in or after the base year, with one moment per sixty years.",
     "every double hour of the chosen years, both schools", "the search visits only candidate years and days; a term inside a double hour or month end is rare",
     [L + "Solar.py", L + "EightChar.py"], [("Solar.fromBaZi", L + "Solar.py")], note=TAB)
prop("C25", "Nine stars of years, months, days and hours run in their unbroken cycles",
     "The year and month stars fall by one with each year and month in force, in each of the three schools of year change; the day star rises from the 甲子 day nearest the winter solstice and falls from the one nearest the summer solstice; the hour star rises or falls with the half year from the start its day branch gives. Sixty-year eras and twenty-year periods follow the year.",
     "every second (year, month), every day and every double hour of the chosen years", "turning days fall up to a month from the solstices, on both sides of the year end",
     [L + "Lunar.py", L + "LunarTime.py", L + "LunarYear.py", L + "LunarMonth.py", L + "NineStar.py"], [("Lunar.getYearNineStar / getMonthNineStar / getDayNineStar / getTimeNineStar", L + "Lunar.py"), ("LunarTime.getNineStar", L + "LunarTime.py"), ("LunarYear.getNineStar / getYun / getYuan", L + "LunarYear.py")], note=TAB)
prop("C26", "Nine nines, dog days and pentads are counted from their terms and pillar days",
     "Exactly the eighty-one days from the winter solstice on are counted in nines; the dog days run from the third 庚 day from the summer solstice on until ten days after the first 庚 day from 立秋 on, in periods of ten, ten or twenty, and ten days; every day belongs to one of the three pentads of its current term, the last one taking the days left over.",
     "every second of the chosen years", "the middle dog days last ten or twenty days; the counts cross the year end",
     [L + "Lunar.py", L + "ShuJiu.py", L + "Fu.py"], [("Lunar.getShuJiu", L + "Lunar.py"), ("Lunar.getFu", L + "Lunar.py"), ("Lunar.getWuHou / getHou", L + "Lunar.py")], note=TAB)
prop("C27", "Buddhist and Taoist dates: lunar date, own year count, feasts on their days",
     "The Buddhist year is the lunar year plus 544 and the Taoist year the lunar year plus 2697, month and day being the lunar ones, and a date built from such a label is the lunar day meant. Fast days, mansions, 戊 days, 天赦 days and feasts fall exactly on the days their rules and the published lists name, whether given by lunar day, by solar term or by day pillar.",
     "every lunar day of the chosen years", "feasts combine three calendars; leap and short months are special",
     [L + "Foto.py", L + "Tao.py", U + "FotoUtil.py", U + "TaoUtil.py"], [("Foto", L + "Foto.py"), ("Tao", L + "Tao.py"), ("FotoUtil tables", U + "FotoUtil.py"), ("TaoUtil tables", U + "TaoUtil.py")], note=TAB)
prop("C28", "Double hours: bounds, order and attributes agree from every way of asking",
     "The double hour of a moment contains it; the thirteen double hours of a day follow each other without gaps from 00:00 to 23:59. The pillar of a double hour follows from the day in force (the next day from 23:00), and animal, sound, decade, positions, clashes, gods and advice are those of that pillar, whether asked from the moment or from its double hour.",
     "every second of the clock; every double hour of every day of the chosen years", "the same facts are computed in two classes; 23:00-00:59 is split over two days",
     [L + "LunarTime.py", L + "Lunar.py", U + "LunarUtil.py"], [("LunarTime", L + "LunarTime.py"), ("Lunar.getTime / getTimes", L + "Lunar.py"), ("LunarUtil.getTimeZhiIndex / convertTime", U + "LunarUtil.py")], note=TAB)
prop("C29", "The shared lunar year cache never hands out a year other than the one asked for",
     "Whatever years were asked for before, whether or not one of those requests failed, and whatever another thread asks at the same time, asking for a lunar year returns that year; no request leaves the shared lock taken, and a year once handed out does not change.",
     "all years; histories of up to five requests; every line of the first request at which a second thread may run", "needs a failing request before, or a second thread at one particular line",
     [L + "LunarYear.py"], [("LunarYear.fromYear", L + "LunarYear.py")], over=("inputs", "histories", "schedules"))
prop("C30", "Advice lookups return the entry of exactly the month, day and hour asked for",
     "For every month and day pillar the recommended and avoided activities, for every double hour of every day pillar its advice, and for every lunar month and day pillar the good and evil spirits are the words of that very almanac record; nothing is both recommended and to be avoided. A date's advice is looked up with its own pillars, by day or by exact month as asked.",
     "all 3600 pillar pairs, 720 double hours, 1440 month-day pairs; every day of the chosen years", "thousands of records packed in three long strings searched by position",
     [U + "LunarUtil.py", L + "Lunar.py"], [("LunarUtil.getDayYi / getDayJi / getTimeYi / getTimeJi / getDayJiShen / getDayXiongSha", U + "LunarUtil.py"), ("Lunar.getDayYi ...", L + "Lunar.py")], note=TAB)
prop("C31", "Lunar festivals fall on their lunar days, New Year's Eve or their term days",
     "A festival fixed to a lunar day is reported on that day of the regular month and on no other; New Year's Eve is the last day of the twelfth month ending the year, be it the 29th or the 30th, regular or leap; 寒食 is the eve of 清明 and the two 社 days are the fifth 戊 days from 立春 and 立秋 on. The yearly sayings count the first month's days up to a stem or branch.",
     "every lunar and civil day of the chosen years", "leap twelfth months and short months are rare",
     [L + "Lunar.py", L + "LunarYear.py", U + "LunarUtil.py"], [("Lunar.getFestivals / getOtherFestivals", L + "Lunar.py"), ("LunarYear.getTouLiang ...", L + "LunarYear.py")], note=TAB)
prop("C32", "The daily almanac follows from the day, month and year pillars in force",
     "For every day the animal, sound, decade, void branches, taboos, positions, clashes and unborn-child spirit follow from the day pillar; the mansions run through twenty-eight days unbroken; officers and gods follow from day and month branch; 太岁 positions follow from the pillars of the chosen year or month change; moon phase, 六曜, season and names follow from the lunar day. Lunar years and months report the same facts for their own pillars.",
     "every day (and second, for year and month changes) of the chosen years", "tables of hundreds of entries behind thirty accessors; tests touch a few days",
     [L + "Lunar.py", L + "LunarYear.py", L + "LunarMonth.py", U + "LunarUtil.py"], [("Lunar almanac accessors", L + "Lunar.py"), ("LunarUtil tables", U + "LunarUtil.py"), ("LunarYear / LunarMonth positions", L + "LunarMonth.py")], note=TAB)
prop("C33", "Queries leave no traces: earlier questions never change later answers",
     "Asking any accessor of a date, in any order and repeatedly, asking about other dates in between, or changing a list that was handed out for a query, does not change what the date, its double hour, its charts or a newly made equal date answer later. Choosing a school for one chart affects only that chart.",
     "every day of the chosen months; every listed accessor before and after all the others", "needs a particular sequence of calls on one object",
     [L + "Lunar.py", L + "Solar.py", L + "EightChar.py", L + "Foto.py", L + "Tao.py"], [("list-valued accessors", L + "Lunar.py"), ("Lunar.getEightChar", L + "Lunar.py")], over=("inputs", "histories"), note=TAB)

prop("C34", "Solar terms fall where the sun is; lunar months begin with the new moon",
     "At the moment given for a solar term of any year the apparent sun has that term's longitude (a multiple of fifteen degrees), and every lunar month begins on the civil day in Beijing of an astronomical new moon, within the stated accuracy; the term tables and months of neighbouring years leave no gap. From 1645 on the first month listed holds the winter solstice.",
     "every term and every month of every lunar year 1..9998", "a wrong coefficient or correction shifts moments of some centuries only; tests pin a few recent years",
     [L + "LunarYear.py", U + "ShouXingUtil.py"], [("ShouXingUtil.calcQi / calcShuo / qiAccurate2 / saLonT / msaLonT", U + "ShouXingUtil.py"), ("LunarYear.__compute", L + "LunarYear.py")],
     note="The trigonometric series have no encoding within reach: for each concrete year the library's moments are computed natively and become constants; the oracle is an independent textbook series; the solver decides the tolerance over the symbolic term or month number. ")

prop("C35", "Texts consist of accessor answers; value objects keep what they are given",
     "The full text of a civil or lunar date, Buddhist or Taoist date, chart, star, feast or count is made of exactly what its accessors answer, in the documented order. Objects made from a datetime or from other objects have its fields; setting one field of a holiday, term or count changes that field and what follows from it, and nothing else.",
     "every civil moment, all field values of value objects; every day of the chosen years for lunar texts", "tests compare a dozen literal texts; festivals, leap years and terms appear in few of them",
     [L + "Lunar.py", L + "Solar.py", L + "NineStar.py", L + "JieQi.py", L + "Holiday.py", L + "ShuJiu.py", L + "Fu.py", L + "FotoFestival.py", L + "TaoFestival.py"], [("Lunar.toFullString", L + "Lunar.py"), ("Solar.toFullString / fromDate", L + "Solar.py"), ("NineStar.toFullString", L + "NineStar.py"), ("JieQi.setName / setSolar", L + "JieQi.py"), ("Holiday setters", L + "Holiday.py")], note=TAB)

NOT_APPLICABLE = [
]
